// A small parser for the .proto files: they are the oracle for the generated
// TypeScript code.
import fs from 'fs'
import path from 'path'

export function protoFiles(root) {
  const out = []
  const walk = (d) => {
    for (const e of fs.readdirSync(path.join(root, d), { withFileTypes: true })) {
      const p = path.join(d, e.name)
      if (e.isDirectory()) {
        if (!['node_modules', 'vendor', '.git', 'dist', 'hack', 'deps'].includes(e.name)) walk(p)
      } else if (e.name.endsWith('.proto')) out.push(p)
    }
  }
  walk('')
  return out.sort()
}

export function parseProto(text) {
  const toks = []
  const re = /\/\/[^\n]*|\/\*[\s\S]*?\*\/|\s+|("(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*')|([A-Za-z0-9_.+-]+)|([{}()\[\]<>;=,:])/gy
  let m
  let at = 0
  while (at < text.length) {
    re.lastIndex = at
    m = re.exec(text)
    if (!m) throw new Error('the schema has an unknown character ' + text[at])
    at = re.lastIndex
    const t = m[1] ?? m[2] ?? m[3]
    if (t) toks.push(t)
  }
  let i = 0
  const next = () => toks[i++]
  const want = (t) => {
    const x = next()
    if (x !== t) throw new Error('the schema has ' + x + ' and not ' + t)
  }
  const skip = () => {
    let d = 0
    for (;;) {
      const t = next()
      if (t === undefined) throw new Error('the schema ends early')
      if (t === '{') d++
      if (t === '}' && --d <= 0) return
      if (t === ';' && d === 0) return
    }
  }
  const f = { pkg: '', messages: [], enums: [], services: [] }
  const options = () => {
    if (toks[i] === '[') while (next() !== ']');
  }
  const field = (msg, oneof) => {
    const x = { label: '', oneof }
    if (['repeated', 'optional'].includes(toks[i])) x.label = next()
    x.type = next()
    if (x.type === 'map') {
      want('<')
      x.key = next()
      want(',')
      x.value = next()
      want('>')
    }
    x.name = next()
    want('=')
    x.no = parseInt(next())
    options()
    want(';')
    msg.fields.push(x)
  }
  const message = (prefix) => {
    const msg = { name: prefix + next(), fields: [] }
    f.messages.push(msg)
    want('{')
    while (toks[i] !== '}') {
      const t = toks[i]
      if (t === 'message') {
        i++
        message(msg.name + '.')
      } else if (t === 'enum') {
        i++
        f.enums.push(msg.name + '.' + toks[i])
        skip()
      } else if (t === 'oneof') {
        i++
        const o = next()
        want('{')
        while (toks[i] !== '}') field(msg, o)
        want('}')
      } else if (t === 'reserved' || t === 'option') skip()
      else if (t === ';') i++
      else field(msg)
    }
    want('}')
  }
  while (i < toks.length) {
    const t = next()
    if (t === 'package') {
      f.pkg = next()
      want(';')
    } else if (t === 'message') message('')
    else if (t === 'enum') {
      f.enums.push(toks[i])
      skip()
    } else if (t === 'service') {
      const s = { name: next(), methods: [] }
      f.services.push(s)
      want('{')
      while (toks[i] !== '}') {
        if (next() !== 'rpc') {
          i--
          skip()
          continue
        }
        const r = { name: next() }
        want('(')
        if (toks[i] === 'stream') r.reqStream = !!next()
        r.in = next()
        want(')')
        want('returns')
        want('(')
        if (toks[i] === 'stream') r.resStream = !!next()
        r.out = next()
        want(')')
        if (toks[i] === '{') skip()
        else want(';')
        s.methods.push(r)
      }
      want('}')
    } else if (t !== ';') skip()
  }
  return f
}
