// The server side: finding the method of a call and running it.
import { pick, body, packet, dataPacket, isEmptyBytes, nonEmptyStr, sameStr, sameBytes, falsy, show, Obj, Fn } from './util.mjs'

const KINDS = ['Unary', 'ServerStreaming', 'ClientStreaming', 'BiDiStreaming']
export const kindOf = (w, name) => ({ Unary: 0, ServerStreaming: 1, ClientStreaming: 2, BiDiStreaming: 3 })[name]

export function msgTypes(w) {
  const I = w.messageType(w.object({ typeName: 'test.In' }))
  const O = w.messageType(w.object({ typeName: 'test.Out' }))
  return { I, O }
}
const response = (w, name) => w.opaque(name, {})

export function invoke(c) {
  c.rule('request', 'the implementation is called once, a method with a single request with the first message decoded, one with a stream of requests with the stream of all of them decoded, in order, which ends as the requests do')
  c.rule('none', 'a method with a single request is not called when there is none, or when it can not be decoded: the call fails with the error')
  c.rule('response', 'the response, or each response as it comes, is sent once, encoded and in order')
  c.rule('complete', 'after the responses the call is completed without an error, exactly once, and ends')
  c.rule('error', 'whatever fails (the implementation, at once or later, a response which is missing or can not be encoded) is told to the other side as the error of the call, and the call is not completed without it before')
  c.rule('cancel', 'after a cancel nothing but the error of the cancel is sent, whatever the implementation does')

  const scenario = (name, f) => {
    for (const kind of KINDS)
      c.explore(kind + ': ' + name, (w) => {
        const reqStream = kind === 'ClientStreaming' || kind === 'BiDiStreaming'
        const resStream = kind === 'ServerStreaming' || kind === 'BiDiStreaming'
        const s = { kind, reqStream, resStream, calls: [], ...msgTypes(w) }
        s.impl = w.native('implementation', (t, a) => {
          s.calls.push(a)
          return s.behave(a)
        })
        const info = w.object({ name: w.str('method'), I: s.I, O: s.O, kind: kindOf(w, kind) })
        const create = w.exported('srpc/invoker.ts', 'createInvokeFn')
        s.fn = w.fnCall(create, info, s.impl)
        const lookup = w.native('lookup', () => w.promiseResolve(s.fn))
        s.rpc = w.make('srpc/server-rpc.ts', 'ServerRPC', lookup)
        s.out = w.pump(w.get(s.rpc, 'source'))
        s.send = (k, v) => {
          w.do(s.rpc, 'handlePacket', body(w, k, k === 'callCancel' ? v : w.object(v)))
          w.drain()
        }
        s.start = (data) => s.send('callStart', { rpcService: w.str('svc'), rpcMethod: w.str('mtd'), data: data ?? w.bytesOf([]), dataIsZero: !!data && isEmptyBytes(data) })
        s.data = (data, complete, error) => s.send('callData', { data: data ?? w.bytesOf([]), dataIsZero: !!data && isEmptyBytes(data), complete: !!complete, error: error ?? '' })
        s.packets = () => s.out.items.map((p) => packet(w, p))
        // ended decides how the call ended, after n responses
        s.completed = (n) => {
          const p = s.packets()
          const i = p.slice(n)
          c.check('complete', kind, i.length >= 1 && dataPacket(w, i[0], { complete: true }) === '' && i.slice(1).every((x) => x.case === 'callCancel') && i.length <= 2 && s.out.st === 'done' && w.get(s.rpc, 'isClosed') !== false, () => 'the call is not completed once after its responses: ' + JSON.stringify(i.map((x) => x.case + ' ' + show(x.error))) + ' ' + s.out.st, w)
        }
        s.failed = (n, want, rule) => {
          const p = s.packets()
          const i = p.slice(n)
          const why = i.length !== 1 ? i.length + ' packets' : dataPacket(w, i[0], { complete: true, error: want })
          c.check(rule ?? 'error', kind, why === '' && s.out.st === 'done', () => 'the call does not fail with the error: ' + why + ' ' + s.out.st, w)
        }
        s.sent = (list) => {
          const p = s.packets()
          c.check('response', kind, p.length >= list.length && list.every((m, i) => p[i].case === 'callData' && sent(w, s, p[i], m) && !p[i].complete && falsy(p[i].error)), () => 'the responses are not sent as they are: ' + p.map((x) => x.case + ' ' + show(x.data)).join(', '), w)
        }
        f(w, s, kind)
      })
  }
  const sent = (w, s, p, m) => {
    if (m.emptyEnc) return isEmptyBytes(p.data) && p.dataIsZero === true
    return p.data?.encodes?.msg === m && p.data.encodes.type === s.O && falsy(p.dataIsZero)
  }
  const decoded = (s, x, bytes) => x instanceof Obj && x.decodedFrom && x.decodedFrom.type === s.I && sameBytes(x.decodedFrom.bytes, bytes)

  // the request
  scenario('requests', (w, s, kind) => {
    if (s.reqStream) {
      const n = pick(w, 'requests', [0, 1, 2])
      const inStart = n > 0 && pick(w, 'first', ['start', 'data']) === 'start'
      const fin = pick(w, 'end', ['complete', 'with last', 'error', 'undecodable'])
      const reqs = []
      for (let i = 0; i < n; i++) reqs.push(pick(w, 'request' + i, [() => w.someBytes('request' + i), () => w.bytesOf([])])())
      if (fin === 'with last' && (n === 0 || (n === 1 && inStart))) w.infeasible()
      const ret = s.resStream ? w.source('responses') : w.deferred()
      s.behave = (a) => {
        if (w.get(a[0], Symbol.asyncIterator)) s.req = w.pump(a[0])
        return s.resStream ? ret.obj : ret.p
      }
      s.start(inStart ? reqs[0] : undefined)
      for (let i = inStart ? 1 : 0; i < n; i++) s.data(reqs[i], fin === 'with last' && i === n - 1)
      const err = w.str('error of the client')
      const bad = w.someBytes('bad')
      bad.badDec = w.error('malformed')
      if (fin === 'complete') s.data(undefined, true)
      if (fin === 'error') s.data(undefined, true, err)
      if (fin === 'undecodable') s.data(bad, false)
      const r = s.req ?? { items: [], st: 'missing' }
      const okn = s.calls.length === 1 && s.calls[0].length === 1 && r.items.length === n && r.items.every((x, i) => decoded(s, x, reqs[i]))
      const oke = fin === 'error' ? r.st === 'failed' && sameStr(w.msg(r.err), err) : fin === 'undecodable' ? r.st === 'failed' && r.err === bad.badDec : r.st === 'done'
      c.check('request', kind, okn && oke, () => 'the implementation does not get the requests: ' + s.calls.length + ' calls, ' + r.items.length + ' of ' + n + ' requests, ' + r.st + ' ' + show(r.err), w)
      return
    }
    const how = pick(w, 'request', ['start', 'data', 'none', 'error', 'undecodable'])
    const first = pick(w, 'message', [() => w.someBytes('first'), () => w.bytesOf([])])()
    const ret = s.resStream ? w.source('responses') : w.deferred()
    s.behave = () => (s.resStream ? ret.obj : ret.p)
    s.start(how === 'start' ? first : undefined)
    if (how === 'data') s.data(first, pick(w, 'complete', [true, false]))
    const err = w.str('error of the client')
    const bad = w.someBytes('bad')
    bad.badDec = w.error('malformed')
    if (how === 'none') s.data(undefined, true)
    if (how === 'error') s.data(undefined, true, err)
    if (how === 'undecodable') s.data(bad, true)
    if (how === 'start' || how === 'data') {
      const extra = w.someBytes('extra')
      s.data(extra, true)
      c.check('request', kind, s.calls.length === 1 && s.calls[0].length === 1 && decoded(s, s.calls[0][0], first), () => 'the implementation is not called once with the request but ' + s.calls.length + ' times: ' + show(s.calls[0]?.[0]), w)
      c.check('request', kind + ' answers', s.out.items.length === 0, 'something is sent before there is a response', w)
    } else {
      c.check('none', kind, s.calls.length === 0, 'the implementation is called without a request', w)
      s.failed(0, how === 'error' ? err : how === 'undecodable' ? w.msg(bad.badDec) : true, 'none')
    }
  })

  // the response
  scenario('responses', (w, s, kind) => {
    const go = () => {
      s.start(w.someBytes('request'))
    }
    const badMsg = () => {
      const m = response(w, 'bad response')
      m.badEnc = w.error('unencodable')
      return m
    }
    const mkMsg = (n) => {
      const m = response(w, n)
      if (pick(w, n + ' encodes to', ['bytes', 'nothing']) === 'nothing') m.emptyEnc = true
      return m
    }
    const errs = (n) => pick(w, n, [
      () => { const e = w.error('implementation failed'); return { e, want: w.msg(e) } },
      () => { const e = w.error('x'); w.def(e, 'message', ''); return { e, want: true } },
      () => ({ e: undefined, want: true }),
      () => ({ e: 'text', want: true }),
    ])()
    if (s.resStream) {
      const how = pick(w, 'result', ['stream', 'throws', 'undefined'])
      if (how === 'throws') {
        const x = errs('thrown')
        s.behave = () => {
          throw new c.Thrown(x.e)
        }
        go()
        return s.failed(0, x.want)
      }
      if (how === 'undefined') {
        s.behave = () => undefined
        go()
        return s.failed(0, true)
      }
      const src = w.source('responses')
      s.behave = () => src.obj
      go()
      const n = pick(w, 'responses', [0, 1, 2, 3])
      const list = []
      for (let i = 0; i < n; i++) {
        const m = mkMsg('response' + i)
        list.push(m)
        src.feed(m)
        c.check('response', kind + ' at once', s.out.items.length === i + 1, 'a response waits for the next one', w)
      }
      s.sent(list)
      const fin = pick(w, 'end', ['end', 'fail', 'bad'])
      if (fin === 'end') {
        src.end()
        s.sent(list)
        return s.completed(n)
      }
      if (fin === 'bad') {
        const m = badMsg()
        src.feed(m)
        src.end()
        s.sent(list)
        return s.failed(n, w.msg(m.badEnc))
      }
      const e = w.error('implementation failed')
      src.fail(e)
      s.sent(list)
      return s.failed(n, w.msg(e))
    }
    const how = pick(w, 'result', ['promise', 'throws', 'undefined', 'no promise'])
    if (how === 'throws') {
      const x = errs('thrown')
      s.behave = () => {
        throw new c.Thrown(x.e)
      }
      go()
      return s.failed(0, x.want)
    }
    if (how === 'undefined' || how === 'no promise') {
      s.behave = () => (how === 'undefined' ? undefined : response(w, 'no promise'))
      go()
      return s.failed(0, true)
    }
    const d = w.deferred()
    const early = pick(w, 'settles', ['before', 'later'])
    s.behave = () => d.p
    if (early === 'later') {
      go()
      c.check('response', kind + ' waits', s.out.items.length === 0, 'something is sent before there is a response', w)
    }
    const fin = pick(w, 'resolves', ['message', 'nothing', 'bad', 'rejects'])
    const m = fin === 'bad' ? badMsg() : fin === 'message' ? mkMsg('response') : undefined
    const x = fin === 'rejects' ? errs('rejected') : null
    if (x) d.reject(x.e)
    else d.resolve(m)
    if (early === 'before') go()
    w.drain()
    if (fin === 'message') {
      s.sent([m])
      return s.completed(1)
    }
    s.failed(0, x ? x.want : fin === 'bad' ? w.msg(m.badEnc) : true)
  })

  // a cancel at any time
  scenario('canceled', (w, s, kind) => {
    const ret = s.resStream ? w.source('responses') : w.deferred()
    s.behave = (a) => {
      if (s.reqStream && w.get(a[0], Symbol.asyncIterator)) s.req = w.pump(a[0])
      return s.resStream ? ret.obj : ret.p
    }
    s.start(w.someBytes('request'))
    const n = s.resStream ? pick(w, 'responses before', [0, 1]) : 0
    const list = []
    if (n) {
      list.push(response(w, 'response'))
      ret.feed(list[0])
    }
    s.send('callCancel', true)
    if (s.reqStream) c.check('cancel', kind + ' requests', s.req?.st === 'failed', () => 'the stream of requests does not fail when the call is canceled but is ' + s.req?.st, w)
    const after = pick(w, 'after', ['response', 'end', 'fail'])
    if (s.resStream) {
      if (after === 'response') ret.feed(response(w, 'late'))
      if (after === 'fail') ret.fail(w.error('late'))
      else ret.end()
    } else if (after === 'fail') ret.reject(w.error('late'))
    else ret.resolve(after === 'end' ? undefined : response(w, 'late'))
    w.drain()
    s.sent(list)
    s.failed(n, 'ERR_RPC_ABORT', 'cancel')
  })
}

export function mux(c) {
  c.rule('register', 'a handler is found under each of its method ids and its service id and under no others, also if other handlers have the same service; the one registered last is the one of an id which two have; a handler without a service id is refused')
  c.rule('lookup', 'a lookup is passed to the handler of the method with both ids; if there is none, or it has nothing, to the lookup functions, in order, until one has it; its result is that of the first which has it, null if none has')
  c.rule('error', 'when a handler or lookup function fails so does the lookup')
  c.rule('handler', 'a static handler has exactly the methods it was made with, under its service id or none, whatever their names are')
  c.rule('create', 'the handler of a definition has exactly the methods which the implementation has, under the service id given or else the name of the service; each runs this method, with the implementation as receiver')

  const result = (w, name, log, label) =>
    pick(w, name, [
      () => ({ k: 'found', fn: w.native(name + ' method', () => undefined) }),
      () => ({ k: 'null' }),
      () => ({ k: 'reject', e: w.error(name) }),
      () => ({ k: 'throw', e: w.error(name) }),
    ])()
  const perform = (w, r) => {
    if (r.k === 'throw') throw new c.Thrown(r.e)
    const d = w.deferred()
    if (r.k === 'reject') d.reject(r.e)
    else d.resolve(r.k === 'found' ? r.fn : null)
    return d.p
  }

  c.explore('mux', (w) => {
    const m = pick(w, 'made', [() => w.make('srpc/mux.ts', 'StaticMux'), () => w.fnCall(w.exported('srpc/mux.ts', 'createMux'))])()
    const log = []
    const regs = []
    const nh = pick(w, 'handlers', [0, 1, 2])
    const nl = pick(w, 'lookups', nh === 2 ? [0, 1] : [0, 1, 2])
    const handler = (i, methods) => {
      const svc = w.str('service' + i)
      const h = w.object({})
      w.def(h, 'getServiceID', w.native('getServiceID', () => svc))
      w.def(h, 'getMethodIDs', w.native('getMethodIDs', () => w.arrayOf(methods)))
      w.def(
        h,
        'lookupMethod',
        w.native('lookupMethod', (t, a) => {
          const r = (h.res ??= result(w, 'handler' + i))
          log.push({ h, t, a, r })
          return perform(w, r)
        }),
      )
      for (const id of methods) regs.push({ svc, id, h })
      w.do(m, 'register', h)
      return h
    }
    const lookups = []
    const addLookups = () => {
      for (let i = 0; i < nl; i++) {
        const l = w.native('lookup' + i, (t, a) => {
          const r = result(w, 'lookup' + i)
          log.push({ l, a, r })
          return perform(w, r)
        })
        lookups.push(l)
        w.do(m, 'registerLookupMethod', l)
      }
    }
    const first = pick(w, 'order', [true, false])
    if (!first && (nl === 0 || nh === 0)) w.infeasible()
    if (!first) addLookups()
    if (nh > 0) handler(0, nh === 1 ? [w.str('method0'), w.str('method1')] : [w.str('method0')])
    if (nh > 1) handler(1, [w.str('method2')])
    if (first) addLookups()
    const svc = pick(w, 'service', ['', w.str('askedService')])
    const mtd = pick(w, 'method', ['', w.str('askedMethod')])
    const fn = w.get(m, 'lookupMethod')
    const r = w.attempt(() => w.watch(w.fnCall(fn, svc, mtd)))
    w.drain()
    const got = r.v
    c.check('error', 'lookup', !r.threw && got.st !== 'pending', 'a lookup does not return a promise which is settled', w)
    if (r.threw) return
    // what it has to be
    const want = []
    let res = { k: 'null' }
    let fin = false
    if (svc !== '') {
      let h
      for (const x of regs) if (w.strictEq(x.svc, svc) && w.strictEq(x.id, mtd)) h = x.h
      if (h) {
        want.push({ h })
        if (h.res && h.res.k !== 'null') {
          res = h.res
          fin = true
        }
      }
    }
    for (const l of lookups) {
      if (fin) break
      want.push({ l })
      const e = log.find((x) => x.l === l)
      if (e && e.r.k !== 'null') {
        res = e.r
        fin = true
      }
    }
    const okl = log.length === want.length && log.every((x, i) => x.h === want[i].h && x.l === want[i].l)
    const hs = log.filter((x) => x.h)
    const wh = want.filter((x) => x.h)
    c.check('register', 'handlers', hs.length === wh.length && hs.every((x, i) => x.h === wh[i].h && x.t === x.h), () => (hs.length < wh.length ? 'a registered method is not found' : 'a handler is asked which does not have the method, or the wrong one'), w)
    c.check('lookup', 'order', okl, () => 'the lookup is not passed on as it should be: ' + log.length + ' of ' + want.length, w)
    c.check('lookup', 'ids', log.every((x) => sameStr(x.a[0], svc) && sameStr(x.a[1], mtd)), 'the lookup is passed on with other ids', w)
    if (res.k === 'found') c.check('lookup', 'result', got.st === 'fulfilled' && got.v === res.fn, () => 'the lookup does not return the method which was found but ' + got.st + ' ' + show(got.v), w)
    else if (res.k === 'null') c.check('lookup', 'null', got.st === 'fulfilled' && (got.v === null || got.v === undefined), () => 'the lookup returns ' + got.st + ' ' + show(got.v) + ' although there is no such method', w)
    else c.check('error', 'failure', got.st === 'rejected' && got.v === res.e, () => 'the failure of a lookup is hidden: ' + got.st + ' ' + show(got.v), w)
  })
  c.explore('register without id', (w) => {
    const m = w.make('srpc/mux.ts', 'StaticMux')
    const h = pick(w, 'handler', [
      () => undefined,
      () => null,
      () => w.object({ getServiceID: w.native('getServiceID', () => ''), getMethodIDs: w.native('getMethodIDs', () => w.arrayOf([w.str('m')])) }),
      () => w.object({ getServiceID: w.native('getServiceID', () => undefined), getMethodIDs: w.native('getMethodIDs', () => w.arrayOf([w.str('m')])) }),
    ])()
    const r = w.attempt(() => w.do(m, 'register', h))
    c.check('register', 'no id', r.threw && w.isErr(r.e), 'a handler without a service id is registered', w)
  })

  c.explore('static handler', (w) => {
    const n = pick(w, 'methods', [0, 1, 2])
    const fns = []
    const o = w.object({})
    for (let i = 0; i < n; i++) {
      const id = pick(w, 'name' + i, [() => w.str('method' + i), () => ['constructor', '__proto__x'][i]])()
      const fn = w.native('invoke' + i, () => undefined)
      w.def(o, id, fn)
      fns.push({ id, fn })
    }
    if (n === 2 && w.strictEq(fns[0].id, fns[1].id)) w.infeasible()
    const svc = w.str('service')
    const h = w.make('srpc/handler.ts', 'StaticHandler', svc, o)
    c.check('handler', 'service id', w.do(h, 'getServiceID') === svc, 'the service id is not the one given', w)
    const ids = w.list(w.do(h, 'getMethodIDs'))
    c.check('handler', 'method ids', ids.length === n && fns.every((f) => ids.some((x) => sameStr(x, f.id))), () => 'the method ids are ' + ids.map((x) => show(x)), w)
    const as = pick(w, 'service', ['', w.str('askedService')])
    const am = pick(w, 'method', ['', w.str('askedMethod'), 'toString'])
    const r = w.watch(w.do(h, 'lookupMethod', as, am))
    w.drain()
    let want = null
    if (as === '' || w.strictEq(as, svc)) for (const f of fns) if (w.strictEq(f.id, am)) want = f.fn
    c.check('handler', 'lookup', r.st === 'fulfilled' && (want ? r.v === want : r.v === null || r.v === undefined), () => 'the lookup returns ' + show(r.v) + ' and not ' + show(want), w)
  })

  c.explore('handler of a definition', (w) => {
    const types = msgTypes(w)
    const n = pick(w, 'methods', [0, 1, 2])
    const defs = w.object({})
    const proto = new Obj(null, 'Object')
    const impl = new Obj(proto, 'Object')
    const ms = []
    for (let i = 0; i < n; i++) {
      const name = w.str('method' + i)
      const has = pick(w, 'has' + i, ['own', 'class', 'none'])
      const m = { name, calls: [] }
      m.fn = w.native('implementation' + i, (t, a) => {
        m.calls.push({ t, a })
        return w.newPromise()
      })
      if (has === 'own') w.def(impl, name, m.fn)
      if (has === 'class') w.def(proto, name, m.fn)
      m.has = has !== 'none'
      w.def(defs, 'key' + i, w.object({ name, I: types.I, O: types.O, kind: kindOf(w, 'Unary') }))
      ms.push(m)
    }
    if (n === 2 && w.strictEq(ms[0].name, ms[1].name)) w.infeasible()
    const tn = w.str('typeName')
    const def = w.object({ typeName: tn, methods: defs })
    const sid = pick(w, 'service id', [undefined, '', w.str('serviceID')])
    const h = w.fnCall(w.exported('srpc/handler.ts', 'createHandler'), def, impl, sid)
    const wantSid = falsy(sid) ? tn : sid
    c.check('create', 'service id', sameStr(w.do(h, 'getServiceID'), wantSid), 'the service id is wrong', w)
    const ids = w.list(w.do(h, 'getMethodIDs'))
    const have = ms.filter((m) => m.has)
    c.check('create', 'method ids', ids.length === have.length && have.every((m) => ids.some((x) => sameStr(x, m.name))), () => 'the method ids are ' + ids.map((x) => show(x)) + ' and not ' + have.map((m) => show(m.name)), w)
    for (const m of ms) {
      const r = w.watch(w.do(h, 'lookupMethod', wantSid, m.name))
      w.drain()
      c.check('create', 'lookup', r.st === 'fulfilled' && (m.has ? r.v instanceof Fn : falsy(r.v)), () => 'the lookup of a method of the definition returns ' + show(r.v), w)
      if (!(r.v instanceof Fn)) continue
      const src = w.source('requests')
      const sunk = []
      const sink = w.native('sink', (t, a) => {
        sunk.push(a[0])
        return w.newPromise()
      })
      w.watch(w.fnCall(r.v, src.obj, sink))
      const data = w.someBytes('request')
      src.feed(data)
      w.drain()
      c.check('create', 'invoke', m.calls.length === 1 && m.calls[0].t === impl && m.calls[0].a[0]?.decodedFrom?.bytes === data, 'a method of the handler does not run the method of the implementation with it as receiver', w)
      c.check('create', 'invoke others', ms.every((x) => x === m || x.calls.length === (x.done ? 1 : 0)), 'a method of the handler runs another method', w)
      m.done = true
    }
  })
}
