// Compares what the analyser makes of cases.ts with what node does.
import fs from 'fs'
import path from 'path'
import { execFileSync } from 'child_process'
import { fileURLToPath } from 'url'
import { Prog, World, Obj, Fn, Thrown } from '../../ts/frame.mjs'
const here = path.dirname(fileURLToPath(import.meta.url))
execFileSync('/opt/veriftools/node/node_modules/.bin/esbuild', [path.join(here, 'cases.ts'), '--format=esm', '--outfile=/tmp/tslang-cases.mjs', '--log-level=error'])
const real = (await import('/tmp/tslang-cases.mjs')).t
fs.unlinkSync('/tmp/tslang-cases.mjs')
const canon = (v) => {
  if (v === undefined) return 'undefined'
  if (typeof v === 'number' && !Number.isFinite(v)) return String(v)
  if (typeof v === 'number' && Object.is(v, -0)) return '0'
  if (typeof v === 'function') return 'function'
  if (typeof v === 'bigint') return v + 'n'
  if (Array.isArray(v)) return '[' + Array.from(v, canon).join(',') + ']'
  if (v && typeof v === 'object') return '{' + Object.entries(v).map(([k, x]) => k + ':' + canon(x)).join(',') + '}'
  return JSON.stringify(v)
}
const conv = (w, v) => {
  if (v instanceof Fn) return () => 0
  if (v instanceof Obj) {
    if (w.isArr?.(v) || v.cls === 'Array') return w.list(v).map((x) => conv(w, x))
    const o = {}
    for (const [k, p] of v.props) if (typeof k === 'string' && p.enumerable !== false && !p.hidden) o[k] = conv(w, w.get(v, k))
    return o
  }
  return v
}
let bad = 0
for (const k of Object.keys(real)) {
  const want = canon(await real[k]())
  let got
  try {
    const prog = new Prog(here)
    const w = new World(prog, [])
    w.setup()
    const t = w.exported('cases.ts', 't')
    const r = w.fnCall(w.get(t, k))
    const p = w.watch(w.promiseResolve(r))
    w.drain()
    for (let i = 0; i < 50 && p.st === 'pending'; i++) {
      const l = w.liveTimers()[0]
      if (!l) break
      w.fire(l)
      w.drain()
    }
    got = p.st === 'fulfilled' ? canon(conv(w, p.v)) : p.st + ' ' + canon(conv(w, p.v)) + ' ' + (p.v?.props?.get('message')?.v ?? '')
  } catch (e) {
    got = (e instanceof Thrown ? 'thrown ' + (e.v?.props?.get('message')?.v ?? e.v) : e.message)
  }
  if (got !== want) {
    bad++
    console.log('DIFF ' + k + '\n  node ' + want + '\n  here ' + got)
  } else console.log('ok ' + k)
}
process.exit(bad ? 1 : 0)
