// The frame of the rules on the TypeScript sources: the program, the
// exploration of abstract paths, obligations, violations and evidence.
import fs from 'fs'
import path from 'path'
import { fileURLToPath } from 'url'
import { World, parseFile, parseText, ts, K } from './interp.mjs'
import { Thrown, Unsupported, Infeasible, Sym, Str, Lin, lin, isNum, Obj, Fn, show, seqLen, seqEq, linEq } from './values.mjs'

const here = path.dirname(fileURLToPath(import.meta.url))
const lib = path.join(here, 'lib')
const packages = {
  'it-pushable': 'it-pushable.js',
  'it-pipe': 'it-pipe.js',
  'it-first': 'it-first.js',
  'event-iterator': 'event-iterator.js',
  uint8arraylist: 'uint8arraylist.js',
  '@aptre/protobuf-es-lite': 'protobuf-es-lite.js',
}

export class Prog {
  constructor(root) {
    this.root = root
    this.fns = new Set()
  }
  file(rel) {
    return path.join(this.root, rel)
  }
  // with is the program with files which are not in the tree
  with(files) {
    const p = new Prog(this.root)
    p.fns = this.fns
    p.virtual = new Map(Object.entries(files).map(([k, v]) => [this.file(k), v]))
    return p
  }
  text(abs) {
    return this.virtual?.get(abs) ?? fs.readFileSync(abs, 'utf8')
  }
  resolve(spec, dir) {
    if (spec.startsWith('.')) {
      const p = path.join(dir, spec)
      if (fs.existsSync(p) && p.startsWith(lib)) return p
      if (this.virtual?.has(p.replace(/\.js$/, '.ts'))) return p.replace(/\.js$/, '.ts')
      for (const c of [p.replace(/\.js$/, '.ts'), p + '.ts', path.join(p, 'index.ts')]) if (fs.existsSync(c)) return c
      throw new Unsupported('the module ' + spec + ' is not found', dir)
    }
    if (spec === 'starpc') return this.file('index.ts')
    return path.join(lib, packages[spec] ?? 'opaque.js')
  }
  isLib(node) {
    return node.getSourceFile().fileName.startsWith(lib)
  }
  noteFn(f) {
    if (f.noted) return
    f.noted = true
    const n = f.ctor && f.isClass ? f.ctor : f.node
    if (this.isLib(n)) return
    this.fns.add(path.relative(this.root, n.getSourceFile().fileName) + ' ' + (f.isClass ? f.fname + '.constructor' : f.qname ?? f.fname))
  }
}

// what the rules use of a World
Object.assign(World.prototype, {
  setup() {
    const w = this
    w.env = {}
    const g = (n, v) => w.genv.vars.set(n, { v })
    g(
      '__ev',
      w.native('__ev', (t, a) => void w.ev(a[0], { obj: a[1], val: a[2], ended: a[3] })),
    )
    g('__Uint8ArrayList', w.Uint8ArrayList)
    g(
      '__createMessageType',
      w.native('createMessageType', (t, a) => w.messageType(a[0])),
    )
    g(
      '__localName',
      w.native('localName', (t, a) => (w.env.localName ? w.env.localName(a[0]) : w.get(a[0], 'localName'))),
    )
    g(
      '__env',
      w.native('__env', (t, a) => {
        const name = a[0]
        const f = w.native(name, (t, b) => (w.env[name] ? w.env[name](...b) : w.unsupported('the package function ' + name)))
        f.onMissing = (k) => w.env[name + '.' + String(k)]
        return f
      }),
    )
  },
  messageType(def) {
    const w = this
    const t = new Obj(w.protos.Object, 'MessageType')
    const name = w.get(def, 'typeName')
    t.mtype = name
    t.mdef = def
    w.def(t, 'typeName', name)
    w.def(t, 'fields', w.get(def, 'fields'))
    const m = (n, f) => w.def(t, n, w.native(n, f))
    m('toBinary', (_, a) => {
      w.ev('toBinary', { type: t, msg: a[0] })
      if (a[0]?.badEnc) throw new Thrown(a[0].badEnc)
      const b = a[0]?.emptyEnc ? w.bytesOf([]) : w.someBytes('enc(' + name + ',' + (a[0] instanceof Obj ? (a[0].label ?? '#' + a[0].id) : show(a[0])) + ')')
      b.encodes = { type: t, msg: a[0] }
      return b
    })
    m('fromBinary', (_, a) => {
      w.ev('fromBinary', { type: t, bytes: a[0] })
      if (a[0]?.badDec) throw new Thrown(a[0].badDec)
      if (a[0]?.encodes && a[0].encodes.type === t) return a[0].encodes.msg
      if (a[0]?.decoded) return a[0].decoded
      const o = w.object({}, name)
      o.label = 'dec(' + name + ',' + show(a[0]) + ')'
      o.decodedFrom = { type: t, bytes: a[0] }
      return o
    })
    m('create', (_, a) => {
      w.ev('create', { type: t, msg: a[0] })
      if (a[0]?.badEnc) throw new Thrown(a[0].badEnc)
      const o = w.object({}, name)
      if (a[0] instanceof Obj) w.copyProps(o, a[0])
      o.label = 'create(' + show(a[0]) + ')'
      o.createdFrom = a[0]
      return o
    })
    m('clone', (_, a) => a[0])
    return t
  },
  attempt(f) {
    try {
      return { v: f() }
    } catch (e) {
      if (e instanceof Thrown) return { e: e.v, threw: true }
      throw e
    }
  },
  make(file, name, ...args) {
    return this.construct(this.exported(file, name), args)
  },
  do(o, method, ...args) {
    return this.call(this.get(o, method), o, args)
  },
  fnCall(f, ...args) {
    return this.call(f, undefined, args)
  },
  watch(p) {
    const r = { st: 'pending', v: undefined }
    if (!(p instanceof Obj && p.pstate)) {
      r.st = 'fulfilled'
      r.v = p
      r.plain = true
      return r
    }
    this.thenP(
      p,
      (v) => ((r.st = 'fulfilled'), (r.v = v)),
      (v) => ((r.st = 'rejected'), (r.v = v)),
    )
    return r
  },
  error(name) {
    const e = new Obj(this.protos.Error, 'Error')
    this.def(e, 'message', this.str(name))
    e.label = 'error ' + name
    return e
  },
  deferred() {
    const p = this.newPromise()
    return { p, resolve: (v) => this.resolveP(p, v), reject: (e) => this.settle(p, 'rejected', e) }
  },
  opaque(label, props) {
    const o = this.object(props ?? {})
    o.label = label
    return o
  },
  // source is an async iterable of the environment.
  source(label) {
    const w = this
    const s = { items: [], wait: null, pulled: 0, returned: false, fin: null }
    const o = w.opaque(label)
    s.obj = o
    const flush = () => {
      if (!s.wait) return
      if (s.items.length) {
        const p = s.wait
        s.wait = null
        w.resolveP(p, w.iterResult(s.items.shift(), false))
      } else if (s.fin) {
        const p = s.wait
        s.wait = null
        if (s.fin.err !== undefined) {
          const e = s.fin.err
          s.fin = {}
          w.settle(p, 'rejected', e)
        } else w.resolveP(p, w.iterResult(undefined, true))
      }
    }
    w.def(
      o,
      'next',
      w.native('next', () => {
        s.pulled++
        if (s.wait) w.unsupported('two reads at once')
        s.wait = w.newPromise()
        const p = s.wait
        flush()
        return p
      }),
    )
    w.def(
      o,
      'return',
      w.native('return', (t, a) => {
        s.returned = true
        s.fin = {}
        flush()
        return w.promiseResolve(w.iterResult(a[0], true))
      }),
    )
    w.def(
      o,
      'throw',
      w.native('throw', (t, a) => {
        s.returned = true
        const p = w.newPromise()
        w.settle(p, 'rejected', a[0])
        return p
      }),
    )
    w.def(
      o,
      Symbol.asyncIterator,
      w.native('asyncIterator', (t) => t),
    )
    s.feed = (v) => {
      s.items.push(v)
      flush()
      w.drain()
    }
    s.end = () => {
      s.fin = {}
      flush()
      w.drain()
    }
    s.fail = (e) => {
      s.fin = { err: e }
      flush()
      w.drain()
    }
    return s
  },
  // pump reads an iterable as fast as it delivers.
  pump(it) {
    const w = this
    const r = { items: [], st: 'open', err: undefined, stop: false }
    const f = w.get(it, Symbol.asyncIterator)
    const s = f instanceof Fn ? { it: w.call(f, it, []) } : w.getIter(it)
    const step = () => {
      if (r.stop) return
      const p = w.call(w.get(s.it, 'next'), s.it, [])
      w.thenP(
        w.promiseResolve(p),
        (x) => {
          if (w.truthy(w.get(x, 'done'))) {
            r.st = 'done'
            return
          }
          r.items.push(w.get(x, 'value'))
          step()
        },
        (e) => {
          r.st = 'failed'
          r.err = e
        },
      )
    }
    r.return = () => w.watch(w.call(w.get(s.it, 'return'), s.it, []))
    r.start = step
    step()
    return r
  },
  // fireTimer lets the earliest live timer elapse
  fire(tm) {
    if (!tm.live) return
    if (!tm.repeat) tm.live = false
    this.ev('fired', { tm })
    this.call(tm.fn, undefined, tm.args)
    this.drain()
  },
  // a clock of the environment
  clock() {
    this.now = this.num('start')
  },
  pass(d) {
    this.now = lin(this.now).add(lin(d)).norm()
  },
  // elapse lets the timer which is due first fire, in time or late; early: or
  // when the clock, which may have been set back, shows less than that
  elapse(name, early) {
    let tm = null
    for (const t of this.liveTimers()) if (!tm || !this.ge0(lin(t.at).add(lin(tm.at), -1))) tm = t
    if (!tm) return null
    // it may be later than that already
    if (early && !this.ge0(lin(this.now).add(lin(tm.at), -1)) && this.choose(2, name + ' early')) {
      const d = this.num(name + ' early', 1)
      this.lins.push(lin(tm.at).add(lin(d), -1).add(lin(this.now), -1))
      this.now = lin(tm.at).add(lin(d), -1).norm()
      if (tm.repeat) tm.at = lin(this.now).add(lin(tm.delay)).norm()
      this.fire(tm)
      return tm
    }
    if (!this.ge0(lin(this.now).add(lin(tm.at), -1))) this.now = tm.at
    this.pass(this.choose(2, name + ' late') ? this.num(name + ' late', 1) : 0)
    if (tm.repeat) tm.at = lin(this.now).add(lin(tm.delay)).norm()
    this.fire(tm)
    return tm
  },
  liveTimers() {
    return this.timers.filter((t) => t.live)
  },
  msg(e) {
    return e instanceof Obj ? this.get(e, 'message') : undefined
  },
  isErr(e) {
    return e instanceof Obj && e.cls === 'Error'
  },
})

export class Checker {
  constructor(id, root) {
    this.id = id
    this.Thrown = Thrown
    this.prog = new Prog(root)
    this.rules = new Map()
    this.obl = new Map()
    this.viol = []
    this.seen = new Set()
    this.npath = 0
    this.nev = 0
  }
  rule(name, text) {
    this.rules.set(name, text)
  }
  ob(rule, construct) {
    const k = rule + '\0' + construct
    let o = this.obl.get(k)
    if (!o) this.obl.set(k, (o = { rule, construct, instances: 0, failed: 0 }))
    return o
  }
  // check is one instance of an obligation.
  check(rule, construct, ok, msg, w, where) {
    if (!this.rules.has(rule)) throw new Error('rule ' + rule + ' is not declared')
    const o = this.ob(rule, construct)
    o.instances++
    if (ok) return true
    o.failed++
    this.fail(rule, construct, msg, w, where)
    return false
  }
  fail(rule, construct, msg, w, where) {
    const k = rule + '\0' + construct
    if (this.seen.has(k)) return
    this.seen.add(k)
    const last = w?.events.filter((e) => e.where && !e.where.startsWith('..')).pop()
    this.viol.push({
      rule,
      construct,
      where: where ?? last?.where ?? this.anchor ?? '',
      msg: typeof msg === 'function' ? msg() : msg,
      trace: w ? [...w.trail.map((t) => 'choice ' + t.label + ' -> ' + t.pick), ...w.events.map((e) => e.where + ' ' + e.t + ' ' + show(e.obj) + ' ' + show(e.val) + ' in ' + e.fn[e.fn.length - 1])] : [],
    })
  }
  // explore follows all abstract paths of a scenario.
  explore(construct, body, opts) {
    if (!this.rules.has('followed')) this.rule('followed', 'the code can be followed: no construct of it is unknown to the analysis, and it ends')
    let prefix = []
    const o = this.ob('followed', construct)
    let n = 0
    const start = Date.now()
    const before = this.viol.length
    for (;;) {
      // once the rules are broken there is no need to see every path
      if (this.viol.length > before && Date.now() - start > 15000) return
      if (process.env.STARPC_PATHS) console.log(construct, n, Date.now() - start, prefix.length)
      if (++n > (opts?.max ?? 60000) || Date.now() - start > 400000) {
        o.failed++
        this.fail('followed', construct, 'too many paths to enumerate: undecided')
        return
      }
      let w
      let abandoned = false
      try {
        w = new World(opts?.prog ?? this.prog, prefix)
        w.setup()
        body(w)
        if (!opts?.rejections) {
          if (!this.rules.has('rejections')) this.rule('rejections', 'no promise is rejected without anybody who handles it, which ends a process')
          const bad = w.promises.filter((p) => p.pstate === 'rejected' && !p.handled)
          this.check('rejections', construct, bad.length === 0, () => 'nobody handles the failure of a promise: ' + bad.map((p) => show(p.pvalue) + (p.pvalue?.madeAt ? ' made at ' + p.pvalue.madeAt : '')).join(', '), w, bad[0]?.madeAt && w.whereOf?.(bad[0].madeAt))
        }
      } catch (e) {
        if (e instanceof Infeasible) abandoned = true
        else if (e instanceof Unsupported) {
          o.failed++
          this.fail('followed', construct, 'the analysis can not follow the code: ' + e.message + ': undecided', w, e.where)
          if (process.env.STARPC_TRACE) console.log(e.stack)
          return
        } else if (e instanceof Thrown) {
          o.failed++
          this.fail('followed', construct, 'an exception which nothing handles: ' + show(e.v) + (e.v?.madeAt ? ' made at ' + e.v.madeAt : ''), w, e.v?.madeAt)
        } else if (e instanceof RangeError && /call stack/.test(e.message)) {
          o.failed++
          this.fail('followed', construct, 'recursion without end: undecided', w)
          return
        } else throw e
      }
      o.instances++
      if (!abandoned) {
        this.npath++
        this.nev += w.events.length
      }
      // next path
      const t = w.trail
      let i = t.length - 1
      while (i >= 0 && t[i].pick + 1 >= t[i].n) i--
      if (i < 0) break
      prefix = t.slice(0, i).map((x) => x.pick)
      prefix.push(t[i].pick + 1)
    }
  }
  loadKnown(verif) {
    const known = new Map()
    let text = ''
    try {
      text = fs.readFileSync(path.join(verif, 'known-findings.txt'), 'utf8')
    } catch {}
    for (const l of text.split('\n')) {
      const m = l.match(/^known: property=(\S+) (rule=\S+ construct=.*?) \| (.*)$/)
      if (m && m[1] === this.id) known.set(m[2], m[3])
    }
    return known
  }
  finish(verif, start) {
    const known = this.loadKnown(verif)
    const viol = []
    for (const v of this.viol) {
      const t = known.get('rule=' + v.rule + ' construct=' + v.construct)
      if (t) console.log('KNOWN-FINDING: property=' + this.id + ' ' + t)
      else viol.push(v)
    }
    const obls = [...this.obl.values()].sort((a, b) => (a.rule + a.construct < b.rule + b.construct ? -1 : 1))
    if (obls.length === 0 && viol.length === 0) viol.push({ rule: 'vacuous', construct: this.id, where: '', msg: 'no obligation was generated', trace: [] })
    const inst = obls.reduce((a, o) => a + o.instances, 0)
    const tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick'
    const ev = {
      property: this.id,
      tier,
      seed: parseInt(process.env.VERIF_SEED ?? '0') || 0,
      level: 'other',
      coverage: {
        explanation:
          "Static analysis of the TypeScript syntax trees of /repo's current source; nothing is executed and no solver is used. " +
          'An abstract interpretation with the job order of the language follows every control-flow path of the entry points over abstract values (each stands for a class of inputs: any non-empty string, any bytes, any error), ' +
          'with models of the libraries below; counters are widened. Each rule is decided on every path.',
        obligations: obls.length,
        discharged: obls.filter((o) => o.failed === 0).length,
        instances_examined: inst,
        rules: [...this.rules].map(([k, v]) => k + ': ' + v),
        obligation_list: obls,
        control_flow_paths: this.npath,
        events_on_paths: this.nev,
        functions_analysed: [...this.prog.fns].sort(),
      },
      assumptions: [
        'the documented behaviour of the language, the browser interfaces and the packages it-pushable, it-pipe, it-first, event-iterator, uint8arraylist and protobuf-es-lite, as modelled in ts/lib and ts/globals.mjs',
        'the environment uses the interfaces as documented: one read of a stream at a time',
      ],
      wall_s: (Date.now() - start) / 1000,
      violations: viol.length,
    }
    fs.mkdirSync(path.join(verif, 'evidence'), { recursive: true })
    const write = (n, v) => fs.writeFileSync(path.join(verif, 'evidence', n), JSON.stringify(v, null, 1) + '\n')
    write(this.id + '.json', ev)
    if (viol.length === 0) {
      console.log('OK property=' + this.id + ' obligations=' + obls.length + ' instances=' + inst + ' paths=' + this.npath)
      return 0
    }
    const rep = path.join(verif, 'evidence', this.id + '.report.json')
    write(this.id + '.report.json', { property: this.id, violations: viol, replay: 'cd /verif && ./check.sh ' + this.id })
    for (const v of viol) {
      console.log(v.where + ': ' + v.msg + ' [' + v.rule + ': ' + v.construct + ']')
      if (process.env.STARPC_TRACE) for (const l of v.trace) console.log('    ' + l)
    }
    console.log('VIOLATION property=' + this.id + ' replay=' + rep)
    return 1
  }
}
export { Thrown, Unsupported, Infeasible, Sym, Str, Lin, lin, isNum, Obj, Fn, show, seqLen, seqEq, linEq, World, parseFile, parseText, ts, K }
