// The echo service.
import { pick, body, packet, sameStr, sameBytes, falsy, nonEmptyStr, show, Obj } from './util.mjs'

const ES = 'echo/server.ts'

export function echo(c) {
  c.rule('echo', 'Echo answers with the message of the request')
  c.rule('server-stream', 'EchoServerStream answers with five messages of the body of the request, one at a time, and ends')
  c.rule('client-stream', 'EchoClientStream answers with the first message as soon as it has arrived; without one it fails, also with the failure of the requests')
  c.rule('bidi', 'EchoBidiStream sends its greeting at once and each message of the requests back, once and in order, as it comes; it ends and fails with the requests')
  c.rule('rpc-stream', 'RpcStream passes each stream to the server it was made with, whatever its component is called; without one it is answered with an error')
  c.rule('nothing', 'DoNothing answers with an empty message')

  const bodyOf = (w, name) => pick(w, name, [() => w.str(name), () => '', () => undefined])()
  const message = (w, name) => note(w.object({ body: bodyOf(w, name) }))
  // a message is compared with what it was when it was made
  const note = (o) => ((o.was = o.props.get('body').v), o)
  const same = (w, m, want) => m instanceof Obj && ((falsy(w.get(m, 'body')) && falsy(want.was)) || sameStr(w.get(m, 'body'), want.was))
  const texts = (w, l) => l.map((x) => show(x instanceof Obj ? w.get(x, 'body') : x)).join(', ')
  const make = (w, srv) => w.make(ES, 'EchoerServer', ...(srv ? [srv] : []))

  c.explore('Echo', (w) => {
    const s = make(w)
    const q = message(w, 'request')
    const r = w.watch(w.do(s, 'Echo', q))
    w.drain()
    c.check('echo', 'Echo', r.st === 'fulfilled' && same(w, r.v, q), () => show(q) + ' is answered with ' + r.st + ' ' + show(r.v), w)
  })
  c.explore('DoNothing', (w) => {
    const r = w.watch(w.do(make(w), 'DoNothing', pick(w, 'request', [() => w.object({}), () => message(w, 'body')])()))
    w.drain()
    c.check('nothing', 'DoNothing', r.st === 'fulfilled' && r.v instanceof Obj && [...r.v.props.values()].every((p) => falsy(p.v)), () => 'the answer is ' + r.st + ' ' + show(r.v), w)
  })
  c.explore('EchoServerStream', (w) => {
    const q = message(w, 'request')
    const out = w.pump(w.do(make(w), 'EchoServerStream', q))
    w.drain()
    const stop = pick(w, 'reader stops after', [0, 1, 4, undefined])
    for (let i = 0; i < 12; i++) {
      c.check('server-stream', 'paced', out.items.length <= i + 1, () => out.items.length + ' messages after ' + i + ' intervals', w)
      const t = w.liveTimers()[0]
      if (!t) break
      if (stop === i) {
        out.stop = true
        const n = out.items.length
        w.fire(t)
        const r = out.return()
        for (let k = 0; k < 3 && r.st === 'pending' && w.liveTimers()[0]; k++) w.fire(w.liveTimers()[0])
        w.drain()
        c.check('server-stream', 'stopped', r.st === 'fulfilled' && out.items.length <= n + 1, 'the stream does not end with its reader', w)
        return
      }
      w.fire(t)
    }
    c.check('server-stream', 'EchoServerStream', out.items.length === 5 && out.items.every((m) => same(w, m, q)) && out.st === 'done', () => show(q) + ' is answered with ' + texts(w, out.items) + ', which is ' + out.st, w)
  })
  c.explore('EchoClientStream', (w) => {
    const src = w.source('requests')
    const r = w.watch(w.do(make(w), 'EchoClientStream', src.obj))
    w.drain()
    c.check('client-stream', 'waits', r.st === 'pending', 'there is an answer before a message', w)
    const how = pick(w, 'first', ['message', 'end', 'failure'])
    const e = w.error('requests failed')
    if (how === 'message') {
      const q = message(w, 'first')
      src.feed(q)
      w.drain()
      c.check('client-stream', 'message', r.st === 'fulfilled' && same(w, r.v, q), () => show(q) + ' is answered with ' + r.st + ' ' + show(r.v), w)
      return
    }
    if (how === 'end') src.end()
    else src.fail(e)
    w.drain()
    c.check('client-stream', how, r.st === 'rejected' && w.isErr(r.v) && (how === 'end' || r.v === e), () => 'requests which have an ' + how + ' are answered with ' + r.st + ' ' + show(r.v), w)
  })
  c.explore('EchoBidiStream', (w) => {
    const src = w.source('requests')
    const late = pick(w, 'read', ['at once', 'later'])
    const it = w.do(make(w), 'EchoBidiStream', src.obj)
    const want = [note(w.object({ body: 'hello from server' }))]
    let out = late === 'later' ? null : w.pump(it)
    w.drain()
    const look = (what) => {
      out ??= w.pump(it)
      w.drain()
      c.check('bidi', what, out.items.length === want.length && out.items.every((m, i) => same(w, m, want[i])) && out.st === 'open', () => texts(w, want) + ' is expected, ' + texts(w, out.items) + ' is sent: ' + out.st, w)
    }
    if (out) look('greeting')
    const n = pick(w, 'messages', [0, 1, 2])
    for (let i = 0; i < n; i++) {
      const m = note(w.object({ body: w.str('message' + i) }))
      want.push(m)
      src.feed(m)
      w.drain()
      if (out) look('echo')
    }
    look('echo')
    const e = w.error('requests failed')
    const how = pick(w, 'end', ['end', 'failure'])
    if (how === 'end') src.end()
    else src.fail(e)
    w.drain()
    c.check('bidi', how, out.items.length === want.length && (how === 'end' ? out.st === 'done' : out.st === 'failed' && out.err === e), () => 'the requests have an ' + how + ', the answers are ' + out.st + ' ' + show(out.err), w)
  })
  c.explore('RpcStream', (w) => {
    const given = []
    const done = w.deferred()
    const handler = w.native('rpcStreamHandler', (t, a) => {
      given.push(a)
      return done.p
    })
    const has = pick(w, 'server', [true, false])
    const src = w.source('packets')
    const out = w.pump(w.do(make(w, has ? w.object({ rpcStreamHandler: handler }) : undefined), 'RpcStream', src.obj))
    w.drain()
    src.feed(body(w, 'init', w.object({ componentId: pick(w, 'component', [() => w.str('component'), () => ''])() })))
    w.drain()
    const p = out.items.map((x) => packet(w, x))
    if (!has) {
      c.check('rpc-stream', 'no server', p.length === 1 && p[0].case === 'ack' && nonEmptyStr(p[0].error) && out.st === 'failed', () => 'without a server it is answered with ' + p.map((x) => x.case + ' ' + show(x.error)) + ' and is ' + out.st, w)
      return
    }
    if (!c.check('rpc-stream', 'server', p.length === 1 && p[0].case === 'ack' && falsy(p[0].error) && given.length === 1 && out.st === 'open', () => 'it is answered with ' + p.map((x) => x.case + ' ' + show(x.error)) + ', the server gets ' + given.length + ' streams', w)) return
    const inn = w.pump(w.get(given[0][0], 'source'))
    const d = w.someBytes('data')
    src.feed(body(w, 'data', d))
    w.drain()
    c.check('rpc-stream', 'data', inn.items.length === 1 && sameBytes(inn.items[0], d), () => 'the server receives ' + inn.items.map((x) => show(x)), w)
    const e = w.error('server failed')
    const how = pick(w, 'end', ['end', 'failure'])
    if (how === 'end') done.resolve(undefined)
    else done.reject(e)
    w.drain()
    c.check('rpc-stream', how, how === 'end' ? out.st === 'done' : out.st === 'failed' && out.err === e, () => 'the server has an ' + how + ', the stream is ' + out.st + ' ' + show(out.err), w)
  })
}
