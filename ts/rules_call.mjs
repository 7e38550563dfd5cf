// The two ends of a call: packets which come in and packets which go out.
import { pick, bytesClass, strClass, boolClass, body, packet, isEmptyBytes, sameBytes, nonEmptyStr, sameStr, dataPacket, isErrPacket, falsy, show, Obj, Fn } from './util.mjs'

const SERVER = 'srpc/server-rpc.ts'
const CLIENT = 'srpc/client-rpc.ts'

// end builds a call of one side with what the environment sees of it.
function end(w, side, lookupMode) {
  const s = { side, lookups: [], invokes: [], pendingLookup: null }
  s.lookupErr = w.error('lookup failed')
  s.emptyErr = w.error('empty')
  w.def(s.emptyErr, 'message', '')
  const handler = w.native('handler', (t, a) => {
    s.invokes.push(a)
    const d = w.deferred()
    s.handlerDone = d
    return d.p
  })
  s.handler = handler
  const lookup = w.native('lookupMethod', (t, a) => {
    s.lookups.push(a)
    if (lookupMode === 'throw') w.throwErr('Error', 'lookup threw')
    const d = w.deferred()
    if (lookupMode === 'found') d.resolve(handler)
    else if (lookupMode === 'null') d.resolve(null)
    else if (lookupMode === 'reject') d.reject(s.lookupErr)
    else if (lookupMode === 'undefined') d.reject(undefined)
    else if (lookupMode === 'empty') d.reject(s.emptyErr)
    else if (lookupMode === 'pending') s.pendingLookup = d
    return d.p
  })
  if (side === 'server') s.rpc = w.make(SERVER, 'ServerRPC', lookup)
  else {
    s.svc = w.str('service')
    s.mtd = w.str('method')
    s.rpc = w.make(CLIENT, 'ClientRPC', s.svc, s.mtd)
  }
  w.drain()
  s.out = w.pump(w.get(s.rpc, 'source'))
  s.data = w.pump(w.get(s.rpc, 'rpcDataSource'))
  w.drain()
  return s
}
const packets = (w, s) => s.out.items.map((p) => packet(w, p))

// inPacket is one of all the classes of packets which may arrive.
function inPacket(w, i, full) {
  const kind = pick(w, 'packet' + i, ['callStart', 'callData', 'callCancel', 'none'])
  if (kind === 'none') {
    const p = pick(w, 'body' + i, [() => w.object({}), () => w.object({ body: w.object({ case: undefined }) })])()
    return { kind, p }
  }
  if (kind === 'callCancel') {
    const v = pick(w, 'cancel' + i, [true, false])
    return { kind, p: body(w, 'callCancel', v), v }
  }
  if (kind === 'callStart') {
    const svc = full ? strClass(w, 'svc' + i) : w.str('svc' + i)
    const mtd = full ? strClass(w, 'mtd' + i) : w.str('mtd' + i)
    const data = bytesClass(w, 'startdata' + i)
    const zero = boolClass(w, 'startzero' + i)
    return { kind, svc, mtd, data, zero, p: body(w, 'callStart', w.object({ rpcService: svc, rpcMethod: mtd, data: data.v, dataIsZero: zero })) }
  }
  const data = bytesClass(w, 'data' + i)
  const zero = full ? boolClass(w, 'zero' + i) : pick(w, 'zero' + i, [false, true])
  const complete = full ? boolClass(w, 'complete' + i) : pick(w, 'complete' + i, [false, true])
  const error = full ? strClass(w, 'error' + i) : pick(w, 'error' + i, ['', w.str('error' + i)])
  return { kind, data, zero, complete, error, p: body(w, 'callData', w.object({ data: data.v, dataIsZero: zero, complete, error })) }
}

// Model is what the call has to do.
class Model {
  constructor(s, lookupMode) {
    this.s = s
    this.mode = lookupMode
    this.ids = s.side === 'client'
    this.got = [] // delivered
    this.fin = null // {err} or {}
    this.closed = null // {err: true|string}
    this.invoked = 0
    this.lookups = 0
  }
  close(err) {
    if (this.closed) return
    this.closed = { err }
    if (!this.fin) this.fin = { err }
  }
  deliver(data, zero) {
    if (this.fin) return
    if (zero === true) this.got.push('empty')
    else if (data.k === 'bytes') this.got.push(data.v)
  }
  step(x) {
    if (x.kind === 'callStart') {
      if (this.s.side === 'client' || this.ids) return this.close(true)
      if (!x.svc || !x.mtd) {
        this.badStart = true
        return this.close(true)
      }
      this.ids = true
      this.lookups++
      this.wantIds = x
      if (this.mode === 'null' || this.mode === 'undefined' || this.mode === 'empty') return this.close(true)
      if (this.mode === 'throw') return this.close('lookup threw')
      if (this.mode === 'reject') return this.close(this.s.lookupErr)
      this.deliver(x.data, x.zero)
      this.invoked++
    } else if (x.kind === 'callData') {
      if (!this.ids) return this.close(true)
      this.deliver(x.data, x.zero)
      if (!falsy(x.error)) this.fin ??= { err: x.error }
      else if (x.complete) this.fin ??= {}
    } else if (x.kind === 'callCancel' && x.v) this.close('ERR_RPC_ABORT')
  }
}

function compare(c, w, s, m, name) {
  const rpc = s.rpc
  // invocation
  if (s.side === 'server') {
    c.check('start', name, s.invokes.length === m.invoked, () => 'the method is invoked ' + s.invokes.length + ' times and not ' + m.invoked, w)
    if (m.lookups === 1 || s.lookups.length) {
      const a = s.lookups[0]
      c.check('start', name, s.lookups.length === m.lookups && (!a || (sameStr(a[0], m.wantIds?.svc) && sameStr(a[1], m.wantIds?.mtd))), 'the method is not looked up once with the ids of the start', w)
    }
    for (const a of s.invokes) {
      c.check('start', name, a[0] === w.get(rpc, 'rpcDataSource') && a[1] instanceof Fn, 'the method is not invoked with the messages of the call and a sink for the responses', w)
    }
  }
  // delivery
  let ok = s.data.items.length === m.got.length
  for (let i = 0; ok && i < m.got.length; i++) ok = m.got[i] === 'empty' ? isEmptyBytes(s.data.items[i]) : sameBytes(s.data.items[i], m.got[i])
  c.check('deliver', name, ok, () => 'the messages ' + s.data.items.map((x) => show(x)).join(', ') + ' are delivered and not ' + m.got.map((x) => (x === 'empty' ? 'an empty message' : show(x))).join(', '), w)
  // end of the messages
  const d = s.data
  if (!m.fin) c.check('end', name, d.st === 'open', 'the messages end although the other side has not ended them', w)
  else if (m.fin.err) {
    const want = m.fin.err
    const e = w.msg(d.err)
    c.check('end', name, d.st === 'failed' && (want === true ? nonEmptyStr(e) : sameStr(e, want instanceof Obj ? w.msg(want) : want)), () => 'the messages do not end with the error ' + (want === true ? '' : show(want)) + ' but ' + d.st + ' ' + show(d.err), w)
  } else c.check('end', name, d.st === 'done', 'the messages do not end although the other side has completed', w)
  // closing
  const isClosed = w.get(rpc, 'isClosed')
  const ps = packets(w, s)
  if (!m.closed) {
    c.check('close', name, isClosed === false && s.out.st === 'open' && ps.length === 0, () => 'the call is closed, or answers, without a reason: ' + JSON.stringify(ps.map((p) => p.case)), w)
  } else {
    const want = m.closed.err
    const p = ps[0] ?? {}
    const why = ps.length !== 1 ? ps.length + ' packets are sent and not one error' : dataPacket(w, p, { complete: true, error: want === true ? true : want instanceof Obj ? w.msg(want) : want })
    c.check('close', name, why === '' && s.out.st === 'done' && w.isErr(isClosed), () => 'a call which fails does not tell the other side the error and end: ' + why + ' ' + s.out.st + ' ' + show(isClosed), w)
  }
}

export function incoming(c) {
  c.rule('start', 'a call starts when its start arrives with both ids: the method is looked up once with these ids, and is invoked once with the messages of the call and a sink, if it was found')
  c.rule('deliver', 'the messages of start and data packets are delivered exactly once, in order and unchanged: an empty one exactly if the packet has the flag for it')
  c.rule('end', 'the messages end with the error of the packet which carries one, otherwise cleanly when the other side completes, and never earlier')
  c.rule('close', 'whatever violates the protocol (data before the start, a second start, a start from a server, empty ids, a method which is not found or a lookup which fails) and a cancel close the call: the other side is told the error, both directions end; nothing else closes it or sends anything')
  c.rule('order', 'packets are handled one after the other: one which arrives while the method is looked up waits for it')
  c.rule('stream', 'when the packet stream fails the call is closed with its error; when it ends, the messages end, so that no reader waits for ever')
  c.rule('message', 'an encoded packet has the effect of its packet; one which can not be decoded closes the call with an error')
  c.rule('never', 'handling a packet never fails, whatever it contains')

  // one packet of any class on a new call
  for (const side of ['server', 'client']) {
    c.explore(side + ': first packet', (w) => {
      const mode = side === 'server' ? pick(w, 'lookup', ['found', 'null', 'reject', 'throw', 'undefined', 'empty']) : 'found'
      const x = inPacket(w, 1, true)
      if (mode !== 'found' && x.kind !== 'callStart') w.infeasible()
      const s = end(w, side, mode)
      const m = new Model(s, mode)
      const r = w.watch(w.do(s.rpc, 'handlePacket', x.p))
      w.drain()
      m.step(x)
      c.check('never', side, r.st === 'fulfilled', () => 'handlePacket does not return: ' + r.st + ' ' + show(r.v), w)
      compare(c, w, s, m, side + ' ' + x.kind)
    })
    // any two packets on a call which has started
    c.explore(side + ': packets of a running call', (w) => {
      const x = inPacket(w, 1, true)
      const y = inPacket(w, 2, false)
      if (y.kind === 'callStart' && (y.data.k !== 'bytes' || y.zero !== undefined)) w.infeasible()
      if (x.kind === 'callStart' && (x.data.k !== 'bytes' || x.zero !== undefined || falsy(x.svc) || falsy(x.mtd))) w.infeasible()
      if (x.kind === 'none' && y.kind === 'none') w.infeasible()
      const s = end(w, side, 'found')
      const m = new Model(s, 'found')
      if (side === 'server') {
        const st = { kind: 'callStart', svc: w.str('svc'), mtd: w.str('mtd'), data: { k: 'none' }, zero: false }
        st.p = body(w, 'callStart', w.object({ rpcService: st.svc, rpcMethod: st.mtd, data: w.bytesOf([]), dataIsZero: false }))
        w.do(s.rpc, 'handlePacket', st.p)
        w.drain()
        m.step(st)
      }
      for (const z of [x, y]) {
        w.widen(null, (s.snap ??= new Map()))
        const r = w.watch(w.do(s.rpc, 'handlePacket', z.p))
        w.drain()
        m.step(z)
        c.check('never', side, r.st === 'fulfilled', 'handlePacket does not return: ' + r.st, w)
      }
      w.widen(null, s.snap)
      // one more message, to see that the state is as it should be
      const last = { kind: 'callData', data: { k: 'bytes', v: w.someBytes('last') }, zero: false, complete: false, error: '' }
      last.p = body(w, 'callData', w.object({ data: last.data.v, dataIsZero: false, complete: false, error: '' }))
      w.do(s.rpc, 'handlePacket', last.p)
      w.drain()
      m.step(last)
      compare(c, w, s, m, side + ' ' + x.kind)
    })
  }
  // streams of packets
  for (const kind of ['async', 'sync']) {
    c.explore('server: sink of a ' + kind + ' source', (w) => {
      const s = end(w, 'server', kind === 'async' ? 'pending' : 'found')
      const m = new Model(s, 'found')
      const d1 = w.someBytes('d1')
      const d2 = w.someBytes('d2')
      const mk = (x) => ({ ...x, p: body(w, x.kind, w.object({ rpcService: x.svc, rpcMethod: x.mtd, data: x.data.v, dataIsZero: false, complete: false, error: '' })) })
      const ps = [mk({ kind: 'callStart', svc: w.str('svc'), mtd: w.str('mtd'), data: { k: 'none' } }), mk({ kind: 'callData', data: { k: 'bytes', v: d1 } }), mk({ kind: 'callData', data: { k: 'bytes', v: d2 } })]
      const sink = w.get(s.rpc, 'sink')
      if (kind === 'sync') {
        w.watch(w.fnCall(sink, w.arrayOf(ps.map((x) => x.p))))
        w.drain()
        ps.forEach((x) => m.step(x))
        m.fin = {}
        compare(c, w, s, m, 'sink ' + kind)
        return
      }
      const src = w.source('packets')
      const r = w.watch(w.fnCall(sink, src.obj))
      src.feed(ps[0].p)
      src.feed(ps[1].p)
      c.check('order', 'sink', s.lookups.length === 1 && s.invokes.length === 0 && s.data.items.length === 0 && w.get(s.rpc, 'isClosed') === false, 'a packet is handled while the method of the call is looked up', w)
      s.pendingLookup.resolve(s.handler)
      w.drain()
      src.feed(ps[2].p)
      ps.forEach((x) => m.step(x))
      compare(c, w, s, m, 'sink ' + kind)
      if (pick(w, 'end', [true, false])) {
        src.end()
        c.check('stream', 'end', s.data.st === 'done' && s.data.items.length === 2, () => 'the packet stream ended, and the reader of the messages is left ' + s.data.st, w)
      } else {
        const e = w.error('stream failed')
        src.fail(e)
        m.close(e)
        compare(c, w, s, m, 'sink failed')
      }
      c.check('stream', 'sink', r.st === 'fulfilled', 'the sink does not return', w)
    })
  }
  // encoded packets
  c.explore('encoded packets', (w) => {
    const s = end(w, 'client', 'found')
    const m = new Model(s, 'found')
    const data = w.someBytes('d')
    const p = body(w, 'callData', w.object({ data, dataIsZero: false, complete: false, error: '' }))
    const enc = w.someBytes('encoded')
    const bad = pick(w, 'decodes', [false, true])
    const PT = w.exported('srpc/rpcproto.pb.ts', 'Packet')
    if (bad) enc.badDec = w.error('malformed')
    else enc.encodes = { type: PT, msg: p }
    const r = w.watch(w.do(s.rpc, 'handleMessage', enc))
    w.drain()
    if (bad) {
      m.close(true)
      c.check('message', 'handleMessage', w.isErr(w.get(s.rpc, 'isClosed')) && s.data.st === 'failed' && s.out.st === 'done', 'a message which can not be decoded does not close the call', w)
    } else {
      m.step({ kind: 'callData', data: { k: 'bytes', v: data }, zero: false })
      c.check('message', 'handleMessage', s.data.items.length === 1 && s.data.items[0] === data, 'the message is not delivered', w)
    }
    compare(c, w, s, m, 'handleMessage')
  })
}

export function outgoing(c) {
  c.rule('start', 'the start of a call is one packet with its service, method and the first message, if there is one: the flag of an empty message exactly if it is empty; a call without service or method writes nothing and fails')
  c.rule('data', 'a message is one packet with exactly this message (the flag exactly if it is empty), the completion and the error which were asked for')
  c.rule('order', 'packets are sent in the order in which they were written, each once')
  c.rule('source', 'the messages of a source are sent as they come, followed by one completion when it ends; when it fails the call is closed with its error')
  c.rule('close', 'closing a call sends one packet (the error with the completion, or a cancel if there is none), then ends both directions, the messages with this error; what closes it again does nothing, also at the same time; what is written later is not sent')
  c.rule('state', 'isClosed says whether and with which error the call was closed')

  c.explore('client: start', (w) => {
    const data = bytesClass(w, 'data')
    const s = { svc: w.str('service'), mtd: w.str('method') }
    s.rpc = w.make(CLIENT, 'ClientRPC', s.svc, s.mtd)
    s.out = w.pump(w.get(s.rpc, 'source'))
    const r = w.watch(w.do(s.rpc, 'writeCallStart', data.v))
    w.drain()
    const p = packets(w, s)[0] ?? {}
    const okd = data.k === 'bytes' ? sameBytes(p.data, data.v) && falsy(p.dataIsZero) : (p.data === undefined || isEmptyBytes(p.data)) && !!p.dataIsZero === (data.k === 'empty')
    c.check('start', 'writeCallStart', r.st === 'fulfilled' && s.out.items.length === 1 && p.case === 'callStart' && p.rpcService === s.svc && p.rpcMethod === s.mtd && okd, () => 'the start of a call with ' + data.k + ' is ' + show(s.out.items[0]) + ' (' + s.out.items.length + ' packets)', w)
  })
  c.explore('client: start without ids', (w) => {
    const svc = pick(w, 'svc', ['', undefined, w.str('service')])
    const mtd = pick(w, 'mtd', ['', undefined, w.str('method')])
    if (!falsy(svc) && !falsy(mtd)) w.infeasible()
    const rpc = w.make(CLIENT, 'ClientRPC', svc, mtd)
    const out = w.pump(w.get(rpc, 'source'))
    const r = w.attempt(() => w.watch(w.do(rpc, 'writeCallStart', undefined)))
    w.drain()
    c.check('start', 'writeCallStart without ids', (r.threw || r.v.st === 'rejected') && out.items.length === 0, 'a call without service or method is started', w)
  })
  for (const side of ['client', 'server']) {
    c.explore(side + ': data', (w) => {
      const s = end(w, side, 'found')
      const data = bytesClass(w, 'data')
      const complete = boolClass(w, 'complete')
      const error = strClass(w, 'error')
      const r = w.watch(w.do(s.rpc, 'writeCallData', data.v, complete, error))
      w.drain()
      const ps = packets(w, s)
      const why = ps.length === 1 ? dataPacket(w, ps[0], { data: data.v, complete, error: falsy(error) ? undefined : error }) : ps.length + ' packets'
      c.check('data', 'writeCallData', why === '' && r.st === 'fulfilled', () => 'a message is sent as ' + why, w)
      // and a second one, in order
      const d2 = w.someBytes('second')
      w.do(s.rpc, 'writeCallData', d2)
      w.do(s.rpc, 'writeCallCancel')
      w.drain()
      const p2 = packets(w, s)
      c.check('order', 'writes', p2.length === 3 && dataPacket(w, p2[1], { data: d2 }) === '' && p2[2].case === 'callCancel' && p2[2].value === true, () => 'packets are not sent in order: ' + p2.map((p) => p.case).join(', '), w)
    })
    c.explore(side + ': data from a source', (w) => {
      const s = end(w, side, 'found')
      const n = pick(w, 'items', [0, 1, 2, 3])
      const items = []
      for (let i = 0; i < n; i++) items.push(pick(w, 'item' + i, [() => w.someBytes('item' + i), () => w.bytesOf([])])())
      const src = w.source('requests')
      const r = w.watch(w.do(s.rpc, 'writeCallDataFromSource', src.obj))
      w.drain()
      for (const it of items) src.feed(it)
      const ps = packets(w, s)
      c.check('source', 'items', ps.length === n && items.every((it, i) => dataPacket(w, ps[i], { data: it }) === ''), () => 'the messages of a source are sent as ' + ps.map((p) => p.case + ' ' + show(p.data)).join(', '), w)
      if (pick(w, 'ends', [true, false])) {
        src.end()
        const q = packets(w, s)
        c.check('source', 'end', q.length === n + 1 && dataPacket(w, q[n] ?? {}, { complete: true }) === '' && r.st === 'fulfilled' && w.get(s.rpc, 'isClosed') === false, 'the end of a source is not sent as one completion', w)
      } else {
        const e = w.error('source failed')
        src.fail(e)
        const q = packets(w, s)
        c.check('source', 'failure', q.length === n + 1 && dataPacket(w, q[n] ?? {}, { complete: true, error: w.msg(e) }) === '' && s.out.st === 'done' && w.get(s.rpc, 'isClosed') === e && s.data.st === 'failed' && s.data.err === e, 'a source which fails does not close the call with its error', w)
      }
    })
    c.explore(side + ': close', (w) => {
      const s = end(w, side, 'found')
      const mk = (n) => pick(w, n, [() => undefined, () => w.error(n), () => { const e = w.error(n); w.def(e, 'message', ''); return e }])()
      const e1 = mk('first')
      const e2 = mk('second')
      const together = pick(w, 'together', [true, false])
      const before = w.someBytes('before')
      w.do(s.rpc, 'writeCallData', before)
      if (!together) w.drain()
      const r1 = w.watch(w.do(s.rpc, 'close', e1))
      if (!together) w.drain()
      const r2 = w.watch(w.do(s.rpc, 'close', e2))
      w.drain()
      const ps = packets(w, s)
      const p = ps[1] ?? {}
      const hasMsg = e1 && w.truthy(w.msg(e1))
      const okp = hasMsg ? dataPacket(w, p, { complete: true, error: w.msg(e1) }) === '' : p.case === 'callCancel' && p.value === true
      c.check('close', 'packet', ps.length === 2 && okp && dataPacket(w, ps[0], { data: before }) === '', () => 'closing a call sends ' + ps.slice(1).map((x) => x.case + ' ' + show(x.error)).join(', '), w)
      c.check('close', 'ends', s.out.st === 'done' && (e1 ? s.data.st === 'failed' && s.data.err === e1 : s.data.st === 'done'), () => 'closing a call does not end both directions: packets ' + s.out.st + ', messages ' + s.data.st + ' ' + show(s.data.err), w)
      c.check('close', 'returns', r1.st === 'fulfilled' && r2.st === 'fulfilled', 'close does not return', w)
      const st = w.get(s.rpc, 'isClosed')
      c.check('state', 'isClosed', e1 ? st === e1 : st === true, () => 'isClosed is ' + show(st), w)
      w.do(s.rpc, 'writeCallData', w.someBytes('late'))
      w.drain()
      c.check('close', 'later', s.out.items.length === 2, 'a message is sent after the call was closed', w)
    })
    c.explore(side + ': open', (w) => {
      const s = end(w, side, 'found')
      c.check('state', 'open', w.get(s.rpc, 'isClosed') === false && s.out.st === 'open' && s.data.st === 'open' && s.out.items.length === 0, 'a new call is closed, or sends something', w)
    })
  }
}
