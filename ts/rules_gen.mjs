// Generated code and its generator: the messages, the definitions of services
// and the clients, against the schemas.
import fs from 'fs'
import path from 'path'
import { pick, sameStr, sameBytes, show, Obj, Fn, Thrown } from './util.mjs'
import { parseText, ts, K } from './frame.mjs'
import { protoFiles, parseProto } from './proto.mjs'

const SCALARS = { double: 1, float: 2, int64: 3, uint64: 4, int32: 5, fixed64: 6, fixed32: 7, bool: 8, string: 9, bytes: 12, uint32: 13, sfixed32: 15, sfixed64: 16, sint32: 17, sint64: 18 }
const camel = (s) => s.replace(/_+([a-z0-9])/g, (_, c) => c.toUpperCase())
// the full name of a type which a schema names
const full = (f, scope, name) => {
  if (name.startsWith('.')) return name.slice(1)
  const parts = scope ? scope.split('.') : []
  for (let n = parts.length; n > 0; n--) {
    const x = [...parts.slice(0, n), name].join('.')
    if (f.messages.some((m) => m.name === x) || f.enums.includes(x)) return (f.pkg ? f.pkg + '.' : '') + x
  }
  const all = [...f.messages.map((m) => m.name), ...f.enums]
  return all.includes(name) && f.pkg ? f.pkg + '.' + name : name
}
const kindName = (r) => (r.reqStream ? (r.resStream ? 'BiDiStreaming' : 'ClientStreaming') : r.resStream ? 'ServerStreaming' : 'Unary')

export function messages(c) {
  c.rule('type', 'each message of a schema is exported as a message type with its full name')
  c.rule('fields', 'which has exactly the fields of the schema, each with its number, name, type and oneof')
  for (const p of protoFiles(c.prog.root)) {
    const f = parseProto(fs.readFileSync(c.prog.file(p), 'utf8'))
    const file = p.replace(/\.proto$/, '.pb.ts')
    if (!f.messages.length || !fs.existsSync(c.prog.file(file))) continue
    c.explore(p, (w) => {
      for (const m of f.messages) {
        const local = m.name.replace(/\./g, '_')
        const want = (f.pkg ? f.pkg + '.' : '') + m.name
        const t = w.exported(file, local)
        c.check('type', want, t instanceof Obj && t.mtype === want, () => file + ': ' + local + ' is ' + show(t?.mtype), w, file)
        if (!(t instanceof Obj && t.mdef)) continue
        let l = w.get(t.mdef, 'fields')
        if (l instanceof Fn) l = w.fnCall(l)
        const got = w.list(l)
        const g = (x, k) => w.get(x, k)
        c.check('fields', want + ' numbers', got.map((x) => g(x, 'no')).sort((a, b) => a - b).join() === m.fields.map((x) => x.no).sort((a, b) => a - b).join(), () => file + ': ' + local + ' has the fields ' + got.map((x) => show(g(x, 'no'))) + ' and not ' + m.fields.map((x) => x.no), w, file)
        for (const x of m.fields) {
          const y = got.find((y) => g(y, 'no') === x.no)
          if (!y) continue
          const bad = []
          const is = (what, a, b) => a === b || bad.push(what + ' ' + show(a) + ' and not ' + show(b))
          is('the name', g(y, 'name'), x.name)
          if (g(y, 'localName') !== undefined) is('the property', g(y, 'localName'), camel(x.name))
          const o = g(y, 'oneof')
          is('the oneof', o instanceof Obj ? g(o, 'name') : o, x.oneof)
          is('repeated', !!g(y, 'repeated') || !!g(y, 'repeat'), x.label === 'repeated')
          is('optional', !!g(y, 'opt'), x.label === 'optional')
          const kind = g(y, 'kind')
          if (SCALARS[x.type]) {
            is('the kind', kind, 'scalar')
            is('the type', g(y, 'T'), SCALARS[x.type])
          } else if (x.type === 'map') {
            is('the kind', kind, 'map')
            is('the type of the keys', g(y, 'K'), SCALARS[x.key])
          } else {
            const n = full(f, m.name, x.type)
            const isEnum = f.enums.some((e) => (f.pkg ? f.pkg + '.' : '') + e === n)
            is('the kind', kind, isEnum ? 'enum' : 'message')
            if (!isEnum) {
              let u = g(y, 'T')
              if (u instanceof Fn) u = w.fnCall(u)
              is('the type', u?.mtype, n)
            }
          }
          c.check('fields', want + '.' + x.name, bad.length === 0, () => file + ': the field has ' + bad.join(', '), w, file)
        }
      }
    })
  }
}

// ---- services

function rpcOf(w) {
  const s = { calls: [] }
  s.obj = w.opaque('rpc')
  const m = (name, stream) =>
    w.def(s.obj, name, w.native(name, (t, a) => {
      const k = { name, self: t, args: a }
      s.calls.push(k)
      if (s.throws) throw new Thrown(s.throws)
      if (stream) {
        k.src = w.source('response stream')
        return k.src.obj
      }
      k.d = w.deferred()
      return k.d.p
    }))
  m('request')
  m('clientStreamingRequest')
  m('serverStreamingRequest', true)
  m('bidirectionalStreamingRequest', true)
  return s
}
const CALL = { Unary: 'request', ServerStreaming: 'serverStreamingRequest', ClientStreaming: 'clientStreamingRequest', BiDiStreaming: 'bidirectionalStreamingRequest' }
const NUM = { Unary: 0, ServerStreaming: 1, ClientStreaming: 2, BiDiStreaming: 3 }

function serviceRules(c) {
  c.rule('definition', 'each service of a schema has a definition with its full name and exactly its methods, each under its name with its name, types, kind and idempotency')
  c.rule('client', 'a service with methods has a client, for which each method is there, also on its own')
  c.rule('call', 'calling a method makes exactly one call: of its kind, on the service of the client (its own by default), with the name of the method, and with the signal it was given')
  c.rule('request', 'the request, or each message of the stream of requests, is sent encoded as the type of the requests, once and in order')
  c.rule('response', 'the result, or each result, is delivered decoded as the type of the responses, once and in order')
  c.rule('failure', 'what fails (a request which can not be encoded, the call, a response which can not be decoded) is the failure of the method')
}
// service decides one service of a generated file
//   svc: { local, typeName, methods: [{ name, in, out, kind, idem }] }
function service(c, file, who, svc, prog) {
  const opts = { prog }
  const world = (what, f) => c.explore(who + ': ' + what, f, opts)
  world('definition', (w) => {
    const d = w.exported(file, svc.local + 'Definition')
    const g = (x, k) => (x instanceof Obj ? w.get(x, k) : undefined)
    c.check('definition', who + ' name', g(d, 'typeName') === svc.typeName && w.exported(file, svc.local + 'ServiceName') === svc.typeName, () => 'the name of the service is ' + show(g(d, 'typeName')) + ', ' + show(w.exported(file, svc.local + 'ServiceName')) + ' and not ' + svc.typeName, w, file)
    const ms = g(d, 'methods')
    const keys = ms instanceof Obj ? [...ms.props.keys()] : []
    c.check('definition', who + ' methods', keys.slice().sort().join() === svc.methods.map((m) => m.name).sort().join(), () => 'the methods are ' + keys, w, file)
    for (const m of svc.methods) {
      const x = g(ms, m.name)
      const bad = []
      const is = (what, a, b) => a === b || bad.push(what + ' ' + show(a) + ' and not ' + show(b))
      is('the name', g(x, 'name'), m.name)
      is('the requests', g(x, 'I')?.mtype, m.in)
      is('the responses', g(x, 'O')?.mtype, m.out)
      is('the kind', g(x, 'kind'), NUM[m.kind])
      is('the idempotency', g(x, 'idempotency'), m.idem)
      c.check('definition', who + ' ' + m.name, bad.length === 0, () => file + ': the method has ' + bad.join(', '), w, file)
    }
  })
  if (!svc.methods.length) return
  for (const m of svc.methods) {
    const name = who + ' ' + m.name
    const reqStream = m.kind === 'ClientStreaming' || m.kind === 'BiDiStreaming'
    const resStream = m.kind === 'ServerStreaming' || m.kind === 'BiDiStreaming'
    world(m.name, (w) => {
      const s = rpcOf(w)
      const id = pick(w, 'service', [() => null, () => undefined, () => '', () => w.str('service id')])()
      const args = [s.obj]
      if (id !== null) args.push(w.object(id === undefined ? {} : { service: id }))
      const cl = w.construct(w.exported(file, svc.local + 'Client'), args)
      const f = w.get(cl, m.name)
      if (!c.check('client', name, f instanceof Fn, 'the client has no such method', w, file)) return
      const bound = pick(w, 'called', ['on the client', 'on its own'])
      const sig = pick(w, 'signal', [() => null, () => undefined, () => w.opaque('signal')])()
      const I = w.get(w.get(w.get(w.exported(file, svc.local + 'Definition'), 'methods'), m.name), 'I')
      const O = w.get(w.get(w.get(w.exported(file, svc.local + 'Definition'), 'methods'), m.name), 'O')
      const e = w.error('failed')
      const msg = (n) => w.opaque(n)
      const encoded = (b, x, T) => b instanceof Obj && b.encodes && b.encodes.type === T && (b.encodes.msg === x || b.encodes.msg?.createdFrom === x)
      const decoded = (x, b) => x instanceof Obj && x.decodedFrom && x.decodedFrom.type === O && x.decodedFrom.bytes === b
      const src = reqStream ? w.source('requests') : null
      const req = reqStream ? src.obj : msg('request')
      const badReq = !reqStream && pick(w, 'request', ['good', 'bad']) === 'bad'
      if (badReq) req.badEnc = e
      const syncFail = !badReq && pick(w, 'call', ['works', 'throws']) === 'throws'
      if (syncFail) s.throws = e
      const r = w.attempt(() => w.call(f, bound === 'on its own' ? undefined : cl, sig === null ? [req] : [req, sig]))
      let res = null
      let out = null
      if (!r.threw) {
        if (resStream) out = w.pump(r.v)
        else res = w.watch(r.v)
      }
      w.drain()
      const failed = (what, err) => {
        const ok = r.threw ? r.e === err : resStream ? out.st === 'failed' && out.err === err : res.st === 'rejected' && res.v === err
        c.check('failure', name + ' ' + what, ok && (r.threw || resStream || !res.plain), () => what + ': ' + (r.threw ? 'throws ' + show(r.e) : resStream ? out.st + ' ' + show(out.err) : res.st + ' ' + show(res.v)), w, file)
      }
      if (badReq) {
        failed('the request can not be encoded', e)
        c.check('call', name + ' bad request', s.calls.length === 0, 'a call is made without its request', w, file)
        return
      }
      const k = s.calls[0]
      const wantId = id === null || !id ? svc.typeName : id
      if (!c.check('call', name, s.calls.length === 1 && k.name === CALL[m.kind] && k.self === s.obj && sameStr(k.args[0], wantId) && k.args[1] === m.name && (k.args[3] === (sig ?? undefined)), () => 'makes the calls ' + s.calls.map((k) => k.name + '(' + k.args.map((x) => show(x)) + ')'), w, file)) return
      if (syncFail) return failed('the call throws', e)
      if (!reqStream) c.check('request', name, encoded(k.args[2], req, I), () => 'the request is sent as ' + show(k.args[2]), w, file)
      else {
        const q = w.pump(k.args[2])
        w.drain()
        const n = pick(w, 'requests', [0, 1, 2])
        const all = []
        for (let i = 0; i < n; i++) {
          const x = msg('request' + i)
          all.push(x)
          src.feed(x)
          c.check('request', name, q.items.length === all.length && q.items.every((b, j) => encoded(b, all[j], I)) && q.st === 'open', () => 'the requests are sent as ' + q.items.map((x) => show(x)), w, file)
        }
        const fin = pick(w, 'requests end', ['end', 'fail', 'bad'])
        if (fin === 'end') {
          src.end()
          c.check('request', name + ' end', q.st === 'done', 'the requests have ended, the stream of them not', w, file)
        } else {
          if (fin === 'fail') src.fail(e)
          else {
            const x = msg('bad request')
            x.badEnc = e
            src.feed(x)
          }
          c.check('failure', name + ' requests', q.st === 'failed' && q.err === e, () => 'the requests ' + fin + ': what is sent is ' + q.st + ' ' + show(q.err), w, file)
        }
      }
      const b = (n) => w.someBytes(n)
      if (!resStream) {
        const how = pick(w, 'result', ['good', 'bad', 'fails'])
        const x = b('response')
        c.check('response', name + ' early', res.st === 'pending', 'the method returns before the call', w, file)
        if (how === 'bad') x.badDec = e
        if (how === 'fails') k.d.reject(e)
        else k.d.resolve(x)
        w.drain()
        if (how === 'good') c.check('response', name, res.st === 'fulfilled' && decoded(res.v, x), () => 'the result ' + show(x) + ' is delivered as ' + res.st + ' ' + show(res.v), w, file)
        else failed('the call ' + how, e)
        return
      }
      const n = pick(w, 'results', [0, 1, 2])
      const all = []
      for (let i = 0; i < n; i++) {
        const x = b('response' + i)
        all.push(x)
        k.src.feed(x)
        c.check('response', name, out.items.length === all.length && out.items.every((y, j) => decoded(y, all[j])) && out.st === 'open', () => 'the results ' + all.map((x) => show(x)) + ' are delivered as ' + out.items.map((x) => show(x)), w, file)
      }
      const fin = pick(w, 'results end', ['end', 'fail', 'bad'])
      if (fin === 'end') {
        k.src.end()
        c.check('response', name + ' end', out.st === 'done', 'the results have ended, the stream of them not', w, file)
      } else {
        if (fin === 'fail') k.src.fail(e)
        else {
          const x = b('bad response')
          x.badDec = e
          k.src.feed(x)
        }
        failed('the results ' + fin, e)
      }
    })
  }
}

// names decides, without types, that every name of a generated file is
// declared or imported, and what is imported from files of the tree is there
function names(c, who, file, prog) {
  const abs = prog.file(file)
  const sf = parseText(abs, prog.text(abs))
  const known = new Set(['Promise', 'AbortSignal', 'const', 'undefined', 'Uint8Array', 'AsyncIterable', 'Error'])
  const bad = []
  for (const s of sf.statements) {
    if (s.name?.text) known.add(s.name.text)
    if (s.kind === K.VariableStatement) s.declarationList.declarations.forEach((d) => known.add(d.name.text))
    if (s.kind === K.ImportDeclaration && s.importClause?.namedBindings?.elements)
      for (const e of s.importClause.namedBindings.elements) {
        known.add(e.name.text)
        const spec = s.moduleSpecifier.text
        if ((spec.startsWith('.') || spec === 'starpc') && !hasExport(prog, prog.resolve(spec, path.dirname(abs)), (e.propertyName ?? e.name).text)) bad.push('no ' + e.name.text + ' in ' + spec)
      }
  }
  const walk = (n) => {
    if (n.kind === K.TypeReference && n.typeName.kind === K.Identifier && !known.has(n.typeName.text)) bad.push('unknown type ' + n.typeName.text)
    ts.forEachChild(n, walk)
  }
  walk(sf)
  c.check('names', who, bad.length === 0, () => file + ': ' + [...new Set(bad)].join(', '), undefined, file)
  return sf
}
function hasExport(prog, abs, name, seen = new Set()) {
  if (seen.has(abs)) return false
  seen.add(abs)
  const sf = parseText(abs, prog.text(abs))
  for (const s of sf.statements) {
    if (s.kind === K.ExportDeclaration) {
      const t = () => prog.resolve(s.moduleSpecifier.text, path.dirname(abs))
      if (!s.exportClause) {
        if (hasExport(prog, t(), name, seen)) return true
      } else if (s.exportClause.elements?.some((e) => e.name.text === name)) return true
    }
    if (s.modifiers?.some((m) => m.kind === K.ExportKeyword)) {
      if (s.name?.text === name) return true
      if (s.kind === K.VariableStatement && s.declarationList.declarations.some((d) => d.name.text === name)) return true
    }
  }
  return false
}
// the interface of a service, by its types
function iface(c, who, sf, svc, file) {
  const d = sf.statements.find((s) => s.kind === K.InterfaceDeclaration && s.name.text === svc.local)
  const t = (n) => n?.getText(sf).replace(/\s+/g, '')
  const sig = (m) => {
    const I = m.in.split('.').pop()
    const O = m.out.split('.').pop()
    return [m.kind === 'ClientStreaming' || m.kind === 'BiDiStreaming' ? 'MessageStream<' + I + '>' : I, m.kind === 'ServerStreaming' || m.kind === 'BiDiStreaming' ? 'MessageStream<' + O + '>' : 'Promise<' + O + '>'].join(' => ')
  }
  for (const m of svc.methods) {
    const x = d?.members.find((y) => y.name?.text === m.name)
    const f = x?.kind === K.PropertySignature ? x.type : x
    const got = f?.parameters ? t(f.parameters[0]?.type) + ' => ' + t(f.type) : 'nothing'
    c.check('interface', who + ' ' + m.name, got === sig(m), () => file + ': the method is declared as ' + got + ' and not ' + sig(m), undefined, file)
  }
  c.check('interface', who, !!d && d.members.length === svc.methods.length, 'the interface of the service does not have exactly its methods', undefined, file)
}

export function services(c) {
  serviceRules(c)
  c.rule('interface', 'the interface of a service has exactly its methods, with the types of the schema')
  c.rule('names', 'every type which is named is declared or imported, and what is imported from the tree is there')
  for (const p of protoFiles(c.prog.root)) {
    const f = parseProto(fs.readFileSync(c.prog.file(p), 'utf8'))
    const file = p.replace(/\.proto$/, '_srpc.pb.ts')
    if (!f.services.length || !fs.existsSync(c.prog.file(file))) continue
    const sf = names(c, file, file, c.prog)
    for (const s of f.services) {
      const svc = { local: s.name, typeName: (f.pkg ? f.pkg + '.' : '') + s.name, methods: s.methods.map((r) => ({ name: r.name, in: full(f, '', r.in), out: full(f, '', r.out), kind: kindName(r), idem: undefined })) }
      iface(c, svc.typeName, sf, svc, file)
      service(c, file, svc.typeName, svc, c.prog)
    }
  }
}

// ---- the generator

const IDEM = { NoSideEffects: 1, Idempotent: 2 }
export function generator(c) {
  serviceRules(c)
  c.rule('interface', 'the generated interface of a service has exactly its methods, with the types of the schema')
  c.rule('names', 'every type which the generated code names is declared or imported, and what it imports from starpc is there')
  c.rule('files', 'each schema gives one file, named after it, with its preamble, which parses, and nothing else')
  c.rule('plugin', 'the plugin generates TypeScript with this generator, and the command runs the plugin')

  // schemas: every kind of method, of idempotency, services without methods, several services and files
  const KINDS = ['Unary', 'ServerStreaming', 'ClientStreaming', 'BiDiStreaming']
  const method = (kind, name, idem, i, o) => ({ kind, name, idem, in: i ?? 'test.In', out: o ?? 'test.Out' })
  const schemas = {
    'all kinds': [{ name: 'all', services: [{ local: 'All', typeName: 'test.All', methods: KINDS.map((k, i) => method(k, 'Do' + k, [undefined, 1, 2, undefined][i])) }] }],
    'other order': [{ name: 'dir/other', services: [{ local: 'Other', typeName: 'test.pkg.Other', methods: [...KINDS].reverse().map((k, i) => method(k, 'm' + i, [1, undefined, undefined, 2][i], 'test.Out', 'test.In')) }] }],
    'several': [
      {
        name: 'one',
        services: [
          { local: 'Empty1', typeName: 'test.Empty1', methods: [] },
          { local: 'First', typeName: 'test.First', methods: [method('Unary', 'Call')] },
          { local: 'Second', typeName: 'other.Second', methods: [method('BiDiStreaming', 'Call'), method('Unary', 'Get', 1, 'test.In', 'test.In')] },
        ],
      },
      { name: 'two', services: [{ local: 'Third', typeName: 'test.Third', methods: [method('ServerStreaming', 'Watch', 2)] }] },
    ],
    'streams only': [{ name: 's', services: [{ local: 'Streams', typeName: 'Streams', methods: [method('ClientStreaming', 'Put'), method('ClientStreaming', 'Put2', 2)] }] }],
  }
  const types = "import { createMessageType } from '@aptre/protobuf-es-lite'\nexport const In = createMessageType({ typeName: 'test.In', fields: [] })\nexport const Out = createMessageType({ typeName: 'test.Out', fields: [] })\n"
  for (const [what, files] of Object.entries(schemas)) {
    const made = new Map()
    let ok = true
    c.explore('generate ' + what, (w) => {
      made.clear()
      const el = (x, f) => {
        if (typeof x === 'string') return x
        if (typeof x === 'number' || typeof x === 'boolean') return String(x)
        if (x instanceof Obj && x.gen) return x.gen(f)
        if (x instanceof Obj && w.isArray?.(x)) return w.list(x).map((y) => el(y, f)).join('')
        w.unsupported('printing ' + show(x))
      }
      const gen = (label, f) => {
        const o = w.opaque(label)
        o.gen = f
        return o
      }
      const sym = (name, from) => gen('symbol ' + name, (f) => {
        f.imports.set(name, from)
        return name
      })
      w.env.createImportSymbol = (name, from) => sym(name, from)
      const msg = {}
      for (const n of ['In', 'Out']) msg['test.' + n] = sym(n, './test.pb.js')
      for (const n of ['In', 'Out']) {
        w.def(msg['test.' + n], 'kind', 'message')
        w.def(msg['test.' + n], 'typeName', 'test.' + n)
        w.def(msg['test.' + n], 'name', n)
      }
      const schema = w.opaque('schema')
      const protos = files.map((d) => {
        const p = w.opaque('schema file ' + d.name)
        w.def(p, 'name', d.name)
        w.def(p, 'services', w.arrayOf(d.services.map((s) => {
          const o = w.opaque('service ' + s.local)
          w.def(o, 'localName', s.local)
          w.def(o, 'name', s.local)
          w.def(o, 'typeName', s.typeName)
          w.def(o, 'file', p)
          w.def(o, 'methods', w.arrayOf(s.methods.map((m) => {
            const x = w.opaque('method ' + m.name)
            w.def(x, 'name', m.name)
            w.def(x, 'localName', m.name)
            w.def(x, 'parent', o)
            w.def(x, 'input', msg[m.in])
            w.def(x, 'output', msg[m.out])
            w.def(x, 'methodKind', NUM[m.kind])
            w.def(x, 'idempotency', m.idem)
            return x
          })))
          return o
        })))
        w.def(p, 'messages', w.arrayOf([]))
        w.def(p, 'enums', w.arrayOf([]))
        return p
      })
      w.def(schema, 'files', w.arrayOf(protos))
      w.def(schema, 'allFiles', w.arrayOf(protos))
      w.def(schema, 'runtime', w.object({ MethodKind: sym('MethodKind', '@aptre/protobuf-es-lite'), MethodIdempotency: sym('MethodIdempotency', '@aptre/protobuf-es-lite') }))
      const n = []
      w.def(schema, 'generateFile', w.native('generateFile', (t, a) => {
        const f = { name: a[0], imports: new Map(), text: '', preambles: [] }
        n.push(f)
        const o = w.opaque('generated file ' + show(a[0]))
        const m = (k, g) => w.def(o, k, w.native(k, g))
        m('preamble', (t, b) => void f.preambles.push(b[0]))
        m('print', (t, b) => {
          f.text += b.map((x) => el(x, f)).join('') + '\n'
        })
        m('string', (t, b) => gen('string', () => JSON.stringify(b[0])))
        m('jsDoc', (t, b) => gen('comment', () => '/**\n * comment\n */'))
        m('exportDecl', (t, b) => gen('declaration', () => 'export ' + b[0] + ' ' + el(b[1], f)))
        m('import', (t, b) => sym(b[0], b[1]))
        m('typeOnly', (t, b) => b[0])
        return o
      }))
      // the plugin of the command
      let init
      const plugin = w.opaque('plugin')
      w.env.createEcmaScriptPlugin = (x) => {
        init = x
        return plugin
      }
      const ran = []
      w.env.runNodeJs = (...a) => void ran.push(a)
      const p = w.exported('cmd/protoc-gen-es-starpc/plugin.ts', 'protocGenEsStarpc')
      const g = init instanceof Obj ? w.get(init, 'generateTs') : undefined
      c.check('plugin', 'generateTs', p === plugin && g instanceof Fn && g === w.exported('cmd/protoc-gen-es-starpc/typescript.ts', 'generateTs'), 'the plugin does not use the generator', w, 'cmd/protoc-gen-es-starpc/plugin.ts')
      w.module(c.prog.file('cmd/protoc-gen-es-starpc/protoc-gen-es-starpc.ts'))
      c.check('plugin', 'command', ran.length === 1 && ran[0][0] === plugin, 'the command does not run the plugin', w, 'cmd/protoc-gen-es-starpc/protoc-gen-es-starpc.ts')
      if (!(g instanceof Fn)) return
      w.fnCall(g, schema)
      w.drain()
      ok = c.check('files', what, n.length === files.length && n.every((f, i) => f.name === files[i].name + '_srpc.pb.ts' && f.preambles.length === 1 && f.preambles[0] === protos[i]), () => 'the files ' + n.map((f) => show(f.name)) + ' are generated', w)
      for (const f of n) made.set(f.name, f)
    })
    if (!ok) continue
    for (const d of files) {
      const f = made.get(d.name + '_srpc.pb.ts')
      if (!f) continue
      const rel = 'generated/' + path.basename(d.name) + '_srpc.pb.ts'
      const imports = [...f.imports].map(([n, from]) => 'import { ' + n + " } from '" + from + "'\n").join('')
      const prog = c.prog.with({ [rel]: imports + f.text, 'generated/test.pb.ts': types })
      let sf
      try {
        sf = parseText(prog.file(rel), prog.text(prog.file(rel)))
      } catch (e) {
        c.check('files', what + ' parses', false, 'the generated code of ' + d.name + ': ' + e.message + ': ' + (e.line ?? ''), undefined, 'cmd/protoc-gen-es-starpc/typescript.ts')
        continue
      }
      c.check('files', what + ' parses', true, '')
      names(c, what + ' ' + d.name, rel, prog)
      for (const s of d.services) {
        iface(c, what + ' ' + s.typeName, sf, s, rel)
        service(c, rel, what + ' ' + s.typeName, s, prog)
      }
      const extra = sf.statements.filter((x) => x.kind === K.ClassDeclaration).map((x) => x.name.text).filter((x) => !d.services.some((s) => s.methods.length && x === s.local + 'Client'))
      c.check('files', what + ' classes', extra.length === 0, () => 'the generated code has the classes ' + extra, undefined)
    }
  }
}
