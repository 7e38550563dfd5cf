// Shared parts of the rules.
import { Obj, Fn, Sym, Str, show, seqLen, seqEq, linEq, Thrown } from './frame.mjs'

export const pick = (w, label, list) => list[w.choose(list.length, label)]

// classes of optional values: each covers all values of its kind
export const bytesClass = (w, name) =>
  pick(w, name, [
    () => ({ k: 'none', v: undefined }),
    () => ({ k: 'empty', v: w.bytesOf([]) }),
    () => ({ k: 'bytes', v: w.someBytes(name) }),
  ])()
export const strClass = (w, name) =>
  pick(w, name, [
    () => undefined,
    () => '',
    () => w.str(name),
  ])()
export const boolClass = (w, name) => pick(w, name, [undefined, false, true])

export const body = (w, kase, value) => w.object({ body: w.object({ case: kase, value }) })

// packet reads an outgoing packet
export function packet(w, p) {
  const b = p instanceof Obj ? w.get(p, 'body') : undefined
  if (!(b instanceof Obj)) return { case: undefined }
  const k = w.get(b, 'case')
  const v = w.get(b, 'value')
  const r = { case: k, value: v }
  if (v instanceof Obj) {
    for (const f of ['rpcService', 'rpcMethod', 'data', 'dataIsZero', 'complete', 'error', 'componentId']) r[f] = w.get(v, f)
    r.fields = [...v.props.keys()]
  }
  return r
}
export const isEmpty = (w, d) => d === undefined || d === null || (d instanceof Obj && d.seq && linEq(seqLen(d.seq), 0))
export const isEmptyBytes = (d) => d instanceof Obj && d.cls === 'Uint8Array' && d.seq && linEq(seqLen(d.seq), 0)
export const falsy = (v) => v === undefined || v === null || v === false || v === '' || v === 0
export const sameBytes = (a, b) => a === b || (a instanceof Obj && b instanceof Obj && a.seq && b.seq && seqEq(a.seq, b.seq))
export const nonEmptyStr = (v) => (typeof v === 'string' && v !== '') || v instanceof Sym || v instanceof Str
export const sameStr = (a, b) => a === b || ((a instanceof Str || b instanceof Str) && String(a) === String(b)) || (a instanceof Sym && a.bound !== undefined && sameStr(a.bound, b)) || (b instanceof Sym && b.bound !== undefined && sameStr(a, b.bound))

// what a data packet says
export function dataPacket(w, p, want) {
  if (p.case !== 'callData') return 'a ' + p.case + ' packet and not a callData packet'
  if (want.data === undefined || isEmpty(w, want.data)) {
    if (!isEmpty(w, p.data)) return 'data ' + show(p.data) + ' which was not asked for'
    const zero = want.data !== undefined
    if (!!p.dataIsZero !== zero) return zero ? 'an empty message without the flag for it' : 'the flag of an empty message without a message'
  } else {
    if (!sameBytes(p.data, want.data)) return 'data ' + show(p.data) + ' and not ' + show(want.data)
    if (!falsy(p.dataIsZero)) return 'the flag of an empty message with a message'
  }
  if (!!p.complete !== !!want.complete) return want.complete ? 'no completion' : 'a completion which was not asked for'
  if (want.error) {
    if (want.error === true ? !nonEmptyStr(p.error) : !sameStr(p.error, want.error)) return 'the error ' + show(p.error) + (want.error === true ? ' and not a text' : ' and not ' + show(want.error))
  } else if (!falsy(p.error)) return 'the error ' + show(p.error) + ' which was not asked for'
  return ''
}
export const isErrPacket = (p) => p.case === 'callData' && !falsy(p.error)

export { Obj, Fn, Sym, Str, show, Thrown }

// abortSignal is a signal of the environment.
export function abortSignal(w, aborted) {
  const s = { fns: [] }
  const o = w.object({ aborted: !!aborted })
  s.obj = o
  s.reason = w.error('abort reason')
  w.def(o, 'reason', aborted ? s.reason : undefined)
  w.def(o, 'onabort', null)
  w.def(o, 'addEventListener', w.native('addEventListener', (t, a) => {
    const f = a[1]
    if (a[0] === 'abort' && !s.fns.some((x) => x.f === f)) s.fns.push({ f, once: a[2] instanceof Obj && w.truthy(w.get(a[2], 'once')) })
  }))
  w.def(o, 'removeEventListener', w.native('removeEventListener', (t, a) => void (s.fns = s.fns.filter((x) => a[0] !== 'abort' || x.f !== a[1]))))
  w.def(o, 'throwIfAborted', w.native('throwIfAborted', () => {
    if (w.get(o, 'aborted')) throw new Thrown(s.reason)
  }))
  s.abort = () => {
    if (w.get(o, 'aborted')) return
    w.def(o, 'aborted', true)
    w.def(o, 'reason', s.reason)
    const ev = w.object({ type: 'abort', target: o })
    const list = s.fns.slice()
    s.fns = s.fns.filter((x) => !x.once)
    const on = w.get(o, 'onabort')
    if (on instanceof Fn) w.fnCall(on, ev)
    for (const x of list) w.fnCall(x.f, ev)
    w.drain()
  }
  return s
}
// packetStream is a stream of encoded packets of the environment: what is sent
// into it, and what it delivers.
export function packetStream(w, opts) {
  const s = { sunk: 0, out: null }
  s.src = w.source('stream')
  s.done = w.deferred()
  const o = w.object({ source: s.src.obj })
  w.def(o, 'sink', w.native('sink', (t, a) => {
    s.sunk++
    if (opts?.sinkThrows) throw new Thrown(opts.sinkThrows)
    s.out = w.pump(a[0])
    return s.done.p
  }))
  s.obj = o
  s.type = () => w.exported('srpc/rpcproto.pb.ts', 'Packet')
  s.packets = () => (s.out?.items ?? []).map((b) => (b instanceof Obj && b.encodes?.type === s.type() ? packet(w, b.encodes.msg) : { case: 'no packet: ' + show(b) }))
  // sync resolves the sink when its source has ended
  s.sync = () => {
    w.drain()
    if (s.out && s.out.st === 'done') s.done.resolve(undefined)
    if (s.out && s.out.st === 'failed') s.done.reject(s.out.err)
    w.drain()
  }
  s.recv = (k, v) => {
    const p = body(w, k, k === 'callCancel' ? v : w.object(v))
    const b = w.someBytes('packet')
    b.encodes = { type: s.type(), msg: p }
    s.src.feed(b)
    s.sync()
  }
  s.data = (data, complete, error) => s.recv('callData', { data: data ?? w.bytesOf([]), dataIsZero: !!data && isEmptyBytes(data), complete: !!complete, error: error ?? '' })
  return s
}
// port is a MessagePort or a BroadcastChannel of the environment.
export function port(w, kind, name) {
  const s = { posted: [], closed: 0, started: kind === 'BroadcastChannel', fns: [], queue: [], name }
  const o = new Obj(w.protos[kind], kind)
  o.label = kind + (name === undefined ? '' : ' ' + show(name))
  s.obj = o
  let on = null
  const run = () => {
    while (s.started && s.queue.length && !s.closed) {
      const ev = w.object({ type: 'message', data: s.queue.shift(), target: o })
      if (on instanceof Fn) w.call(on, o, [ev])
      for (const x of s.fns.slice()) {
        if (!s.fns.includes(x)) continue
        if (x.once) s.fns = s.fns.filter((y) => y !== x)
        if (x.f instanceof Fn) w.call(x.f, o, [ev])
        else w.do(x.f, 'handleEvent', ev)
      }
      w.drain()
    }
  }
  o.props.set('onmessage', {
    get: w.native('onmessage', () => on),
    set: w.native('onmessage', (t, a) => {
      on = a[0]
      if (on instanceof Fn) s.started = true
      run()
    }),
  })
  const m = (n, f) => w.def(o, n, w.native(n, f))
  m('postMessage', (t, a) => {
    if (s.closed) {
      s.late = true
      if (kind === 'BroadcastChannel') throw new Thrown(w.err('Error', 'InvalidStateError: BroadcastChannel is closed'))
      return
    }
    if (a[0]?.uncloneable) throw new Thrown(a[0].uncloneable)
    let d = a[0]
    if (d instanceof Obj && d.cls === 'Object' && !d.label) {
      d = w.object({})
      w.copyProps(d, a[0])
      for (const [, p] of d.props) if (p.v?.uncloneable) throw new Thrown(p.v.uncloneable)
    }
    s.posted.push(d)
    s.onPost?.(d)
  })
  m('close', () => void s.closed++)
  m('start', () => {
    s.started = true
    run()
  })
  m('addEventListener', (t, a) => {
    if (a[0] === 'message' && !s.fns.some((x) => x.f === a[1])) s.fns.push({ f: a[1], once: a[2] instanceof Obj && w.truthy(w.get(a[2], 'once')) })
  })
  m('removeEventListener', (t, a) => void (s.fns = s.fns.filter((x) => a[0] !== 'message' || x.f !== a[1])))
  m('unref', () => o)
  m('ref', () => o)
  if (kind === 'BroadcastChannel') w.def(o, 'name', name)
  s.deliver = (d) => {
    if (s.closed) return
    if (kind === 'BroadcastChannel' && !(on instanceof Fn) && !s.fns.length) return void (s.lost = true)
    s.queue.push(d)
    run()
    w.drain()
  }
  return s
}
