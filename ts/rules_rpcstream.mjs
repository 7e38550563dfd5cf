// Packet streams which are carried by a call.
import { pick, body, packet, isEmptyBytes, nonEmptyStr, sameStr, sameBytes, falsy, show, Obj, Str, Thrown } from './util.mjs'

const RS = 'rpcstream/rpcstream.ts'

// says reports whether the text of an error has the text
const says = (w, e, text) => {
  const m = w.msg(e)
  return sameStr(m, text) || (m !== undefined && String(m instanceof Str || typeof m === 'string' ? m : show(m)).includes(String(text instanceof Obj || typeof text === 'string' ? text : show(text)).replace(/^"|"$/g, '')))
}
const dataOk = (p, d) => p.case === 'data' && (isEmptyBytes(d) ? isEmptyBytes(p.value) : sameBytes(p.value, d))
const bytes = (w, n) => pick(w, n, [() => w.someBytes(n), () => w.bytesOf([])])()

// other packets than the expected one
const others = (w, not) => {
  const all = [
    ['data', () => body(w, 'data', w.someBytes('early'))],
    ['ack', () => body(w, 'ack', w.object({ error: '' }))],
    ['init', () => body(w, 'init', w.object({ componentId: w.str('other') }))],
    ['nothing', () => w.object({})],
    ['empty body', () => w.object({ body: w.object({}) })],
  ].filter((x) => x[0] !== not)
  return pick(w, 'packet', all)[1]()
}

// exercise uses an open stream in both directions.
//   out: what is sent (pumped), n0: packets before, rx: the incoming packets
function exercise(c, w, st, out, n0, rx, who) {
  const dir = pick(w, 'direction', ['send', 'receive'])
  if (dir === 'send') {
    const user = w.source('user data')
    const r = w.watch(w.do(st, 'sink', user.obj))
    w.drain()
    const n = pick(w, 'sent', [0, 1, 2])
    for (let i = 0; i < n; i++) {
      const d = bytes(w, 'out' + i)
      user.feed(d)
      const p = out.items.map((x) => packet(w, x))
      c.check('send', who, p.length === n0 + i + 1 && dataOk(p[n0 + i], d), () => show(d) + ' is sent as ' + p.slice(n0 + i).map((x) => x.case + ' ' + show(x.value)), w)
    }
    c.check('send', who + ' open', out.st === 'open' && r.st === 'pending', 'the stream ends while there is more to send', w)
    const e = w.error('user failed')
    if (pick(w, 'end', ['ends', 'fails']) === 'ends') {
      user.end()
      c.check('send', who + ' end', out.st === 'done', 'what is sent does not end with its source', w)
    } else {
      user.fail(e)
      c.check('send', who + ' failure', out.st === 'failed' && out.err === e, 'the failure of what is sent is lost', w)
    }
    c.check('send', who + ' returns', r.st !== 'pending', 'the sink does not return', w)
    c.check('send', who + ' once', out.items.length === n0 + n, 'more packets than data', w)
    return { ended: true }
  }
  const inn = w.pump(w.get(st, 'source'))
  w.drain()
  const want = []
  const n = pick(w, 'received', [0, 1, 2])
  for (let i = 0; i < n; i++) {
    const k = pick(w, 'kind' + i, ['data', 'ack', 'init', 'nothing'])
    if (k === 'data') {
      const d = bytes(w, 'in' + i)
      want.push(d)
      rx.feed(body(w, 'data', d))
    } else if (k === 'ack') rx.feed(body(w, 'ack', w.object({ error: pick(w, 'error' + i, ['', undefined]) })))
    else if (k === 'init') rx.feed(body(w, 'init', w.object({ componentId: w.str('again') })))
    else rx.feed(pick(w, 'none' + i, [() => w.object({}), () => w.object({ body: w.object({}) })])())
    c.check('receive', who, inn.items.length === want.length && want.every((d, j) => (isEmptyBytes(d) ? isEmptyBytes(inn.items[j]) : sameBytes(inn.items[j], d))) && inn.st === 'open', () => 'the data ' + want.map((x) => show(x)) + ' is received as ' + inn.items.map((x) => show(x)) + ' ' + inn.st, w)
    if (inn.st !== 'open') return {}
  }
  const e = w.error('call failed')
  const fin = pick(w, 'end', ['ends', 'fails', 'error'])
  const text = w.str('remote error')
  if (fin === 'ends') {
    rx.end()
    c.check('receive', who + ' end', inn.st === 'done', 'what is received does not end with the call', w)
  } else if (fin === 'fails') {
    rx.fail(e)
    c.check('receive', who + ' failure', inn.st === 'failed' && inn.err === e, 'the failure of the call is lost', w)
  } else {
    rx.feed(body(w, 'ack', w.object({ error: text })))
    c.check('receive', who + ' error', inn.st === 'failed' && says(w, inn.err, text), 'the error of the remote is lost', w)
  }
  return {}
}

export function rpcStream(c) {
  c.rule('init', 'opening makes one call and sends its component id first, once')
  c.rule('ack', 'with an ack to wait for the stream is there when, and only when, the first packet is an ack without an error; the error of the remote, any other packet, an end or a failure is the error of opening')
  c.rule('release', 'a call whose stream could not be opened is ended')
  c.rule('send', 'each array which is written is sent as one packet, in order, also an empty one; what is sent ends and fails with its source')
  c.rule('receive', 'the data of each packet is delivered once, in order, unchanged; packets without data are skipped, an error, the end and a failure are passed on')
  c.rule('lookup', 'the handler is looked up once, with the component id of the first packet; a stream which does not start with it is an error')
  c.rule('answer', 'the lookup is answered with exactly one ack, before anything else: without an error exactly if there is a handler')
  c.rule('handle', 'the handler gets the stream once, and the call ends when the handler does, with its error')

  // opening
  const open = (w, waitAck) => {
    const s = { calls: 0 }
    s.rx = w.source('packets')
    s.fn = w.native('caller', (t, a) => {
      s.calls++
      s.out = w.pump(a[0])
      if (s.throws) throw new Thrown(s.throws)
      return s.rx.obj
    })
    s.id = pick(w, 'component', [() => w.str('component'), () => ''])()
    s.go = () => {
      const args = [s.id, s.fn]
      if (waitAck !== undefined) args.push(waitAck)
      s.r = w.watch(w.fnCall(w.exported(RS, 'openRpcStream'), ...args))
      w.drain()
      return s
    }
    s.initOk = (n) => {
      const p = (s.out?.items ?? []).map((x) => packet(w, x))
      c.check('init', 'openRpcStream', s.calls === 1 && p[0]?.case === 'init' && sameStr(p[0].componentId, s.id) && p.length === n, () => s.calls + ' calls, which send ' + p.map((x) => x.case + ' ' + show(x.componentId)), w)
    }
    return s
  }
  c.explore('open', (w) => {
    const s = open(w, pick(w, 'waitAck', [undefined, false])).go()
    s.initOk(1)
    if (!c.check('ack', 'no wait', s.r.st === 'fulfilled', () => 'there is no stream: ' + s.r.st + ' ' + show(s.r.v), w)) return
    exercise(c, w, s.r.v, s.out, 1, s.rx, 'openRpcStream')
  })
  c.explore('open with ack', (w) => {
    const s = open(w, true).go()
    s.initOk(1)
    c.check('ack', 'waits', s.r.st === 'pending', 'the stream is there before the ack', w)
    c.check('release', 'not early', s.out.st === 'open', 'the call ends while it waits', w)
    const text = w.str('remote error')
    const e = w.error('call failed')
    const how = pick(w, 'first', ['ack', 'error', 'other', 'ends', 'fails'])
    if (how === 'ack') s.rx.feed(body(w, 'ack', w.object({ error: pick(w, 'no error', ['', undefined]) })))
    else if (how === 'error') s.rx.feed(body(w, 'ack', w.object({ error: text })))
    else if (how === 'other') s.rx.feed(others(w, 'ack'))
    else if (how === 'ends') s.rx.end()
    else s.rx.fail(e)
    s.initOk(1)
    if (how === 'ack') {
      if (!c.check('ack', 'opened', s.r.st === 'fulfilled', () => 'the ack does not open the stream: ' + s.r.st + ' ' + show(s.r.v), w)) return
      exercise(c, w, s.r.v, s.out, 1, s.rx, 'openRpcStream')
      return
    }
    const ok = s.r.st === 'rejected' && w.isErr(s.r.v) && (how !== 'error' || says(w, s.r.v, text)) && (how !== 'fails' || s.r.v === e)
    c.check('ack', how, ok, () => 'the first packet is ' + how + ', and opening is ' + s.r.st + ' ' + show(s.r.v), w)
    c.check('release', how, s.out.st !== 'open', 'the stream could not be opened, and its call stays open', w)
  })
  c.explore('caller fails', (w) => {
    const s = open(w, pick(w, 'waitAck', [undefined, true]))
    s.throws = w.error('caller failed')
    s.go()
    c.check('ack', 'caller', s.r.st === 'rejected' && s.r.v === s.throws, 'the failure of the call is lost', w)
  })
  c.explore('buildRpcStreamOpenStream', (w) => {
    const s = open(w)
    const fn = w.fnCall(w.exported(RS, 'buildRpcStreamOpenStream'), s.id, s.fn)
    c.check('init', 'not before', s.calls === 0, 'a call is made before a stream is opened', w)
    s.r = w.watch(w.fnCall(fn))
    w.drain()
    s.initOk(1)
    if (!c.check('ack', 'open function', s.r.st === 'fulfilled', 'there is no stream', w)) return
    const out = s.out
    const first = s.r.v
    // a second stream is a second call
    if (pick(w, 'again', [false, true])) {
      const rx = s.rx
      s.rx = w.source('packets 2')
      s.r = w.watch(w.fnCall(fn))
      w.drain()
      c.check('init', 'each', s.calls === 2 && s.out !== out && s.out.items.length === 1 && s.r.v !== first, 'two streams are not two calls', w)
      s.rx = rx
    }
    exercise(c, w, first, out, 1, s.rx, 'open function')
  })

  // handling
  const handle = (w) => {
    const s = { asked: [], handled: [] }
    s.rx = w.source('packets')
    s.look = w.deferred()
    s.done = w.deferred()
    s.getter = w.native('getter', (t, a) => {
      s.asked.push(a[0])
      if (s.getterThrows) throw new Thrown(s.getterThrows.v)
      return s.look.p
    })
    s.handler = w.native('handler', (t, a) => {
      s.handled.push(a[0])
      if (s.throws) throw new Thrown(s.throws)
      s.onHandle?.(a[0])
      return s.done.p
    })
    s.go = () => {
      s.out = w.pump(w.fnCall(w.exported(RS, 'handleRpcStream'), s.rx.obj, s.getter))
      w.drain()
      return s
    }
    s.packets = () => s.out.items.map((x) => packet(w, x))
    s.init = () => {
      s.id = pick(w, 'component', [() => w.str('component'), () => '', () => undefined])()
      s.rx.feed(body(w, 'init', w.object({ componentId: s.id })))
    }
    return s
  }
  c.explore('first packet', (w) => {
    const s = handle(w).go()
    c.check('lookup', 'waits', s.asked.length === 0 && s.out.items.length === 0, 'the handler is looked up before there is an id', w)
    const how = pick(w, 'first', ['other', 'ends', 'fails'])
    const e = w.error('call failed')
    if (how === 'other') s.rx.feed(others(w, 'init'))
    else if (how === 'ends') s.rx.end()
    else s.rx.fail(e)
    c.check('lookup', how, s.out.st === 'failed' && w.isErr(s.out.err) && (how !== 'fails' || s.out.err === e), () => 'the stream does not start with an id, and it is ' + s.out.st, w)
    c.check('lookup', how + ' asked', s.asked.length === 0 && !s.packets().some((p) => p.case === 'ack' && falsy(p.error)), 'the stream does not start with an id, and a handler is looked up', w)
  })
  c.explore('no handler', (w) => {
    const s = handle(w)
    const e = pick(w, 'failure', [
      () => w.error('lookup failed'),
      () => w.construct(w.genv.vars.get('Error').v, []),
      () => undefined,
      () => w.str('text'),
    ])()
    const how = pick(w, 'lookup', ['none', 'undefined', 'rejects', 'throws'])
    if (how === 'throws') s.getterThrows = { v: e }
    s.go()
    s.init()
    c.check('lookup', 'once', s.asked.length === 1 && (falsy(s.id) ? falsy(s.asked[0]) : sameStr(s.asked[0], s.id)), () => 'the handler of ' + s.asked.map((x) => show(x)) + ' is looked up and not of ' + show(s.id), w)
    if (how !== 'throws') {
      c.check('answer', 'waits', s.out.items.length === 0 && s.out.st === 'open', 'there is an answer before the lookup has one', w)
      if (how === 'rejects') s.look.reject(e)
      else s.look.resolve(how === 'none' ? null : undefined)
      w.drain()
    }
    const p = s.packets()
    c.check('answer', how, p.length === 1 && p[0].case === 'ack' && nonEmptyStr(p[0].error), () => 'there is no handler, and the answer is ' + p.map((x) => x.case + ' ' + show(x.error)), w)
    if (how === 'rejects' && w.isErr(e) && nonEmptyStr(w.msg(e))) c.check('answer', 'text', sameStr(p[0]?.error, w.msg(e)), () => 'the error of the lookup is sent as ' + show(p[0]?.error), w)
    c.check('answer', how + ' ends', s.out.st === 'failed' && w.isErr(s.out.err), () => 'there is no handler, and the call is ' + s.out.st, w)
    c.check('handle', 'none', s.handled.length === 0, 'a handler is called', w)
  })
  c.explore('handler', (w) => {
    const s = handle(w).go()
    s.init()
    const fails = pick(w, 'handler', ['runs', 'throws'])
    if (fails === 'throws') s.throws = w.error('handler failed')
    s.look.resolve(s.handler)
    w.drain()
    const p = s.packets()
    c.check('lookup', 'once', s.asked.length === 1 && (falsy(s.id) ? falsy(s.asked[0]) : sameStr(s.asked[0], s.id)), () => 'the handler of ' + s.asked.map((x) => show(x)) + ' is looked up and not of ' + show(s.id), w)
    c.check('answer', 'found', p.length === 1 && p[0].case === 'ack' && falsy(p[0].error), () => 'there is a handler, and the answer is ' + p.map((x) => x.case + ' ' + show(x.error)), w)
    c.check('handle', 'called', s.handled.length === 1, () => 'the handler is called ' + s.handled.length + ' times', w)
    if (s.handled.length !== 1) return
    if (s.throws) {
      c.check('handle', 'throws', s.out.st === 'failed' && s.out.err === s.throws, () => 'the handler failed, and the call is ' + s.out.st, w)
      return
    }
    c.check('handle', 'runs', s.out.st === 'open', 'the call ends while the handler runs', w)
    const r = exercise(c, w, s.handled[0], s.out, 1, s.rx, 'handleRpcStream')
    if (r.ended) return
    const e = w.error('handler failed')
    if (pick(w, 'handler ends', ['returns', 'fails']) === 'returns') {
      s.done.resolve(undefined)
      w.drain()
      c.check('handle', 'returns', s.out.st === 'done', () => 'the handler has returned, and the call is ' + s.out.st, w)
    } else {
      s.done.reject(e)
      w.drain()
      c.check('handle', 'fails', s.out.st === 'failed' && s.out.err === e, () => 'the handler failed, and the call is ' + s.out.st + ' ' + show(s.out.err), w)
    }
    c.check('answer', 'one', s.packets().filter((x) => x.case === 'ack').length === 1, 'there is a second answer', w)
  })
}
