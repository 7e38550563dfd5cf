// Connections: message ports and broadcast channels as duplex streams, the
// connections over them and over web sockets, and the server on them.
import { pick, port, packetStream, sameBytes, sameStr, nonEmptyStr, falsy, show, isEmptyBytes, Obj, Fn, Thrown } from './util.mjs'
import { lin, seqLen, isNum } from './frame.mjs'

const MP = 'srpc/message-port.ts'
const BC = 'srpc/broadcast-channel.ts'
const list = (l) => '[' + l.map((x) => show(x)).join(', ') + ']'
const same = (a, b) => a.length === b.length && a.every((x, i) => x === b[i])

// a duplex over a message port or two broadcast channels
function duplexOf(w, kind, s) {
  if (kind === 'MessagePort') {
    s.tx = s.rx = port(w, kind)
    s.dx = pick(w, 'made by', [
      () => w.make(MP, 'MessagePortDuplex', s.tx.obj),
      () => w.fnCall(w.exported(MP, 'newMessagePortDuplex'), s.tx.obj),
    ])()
  } else {
    const made = []
    s.names = [w.str('read name'), w.str('write name')]
    w.newEnv = (n, a) => {
      if (n !== 'BroadcastChannel') w.unsupported('new ' + n)
      const p = port(w, n, a[0])
      made.push(p)
      return p.obj
    }
    s.dx = pick(w, 'made by', [
      () => w.make(BC, 'BroadcastChannelDuplex', w.newEnv('BroadcastChannel', [s.names[0]]), w.newEnv('BroadcastChannel', [s.names[1]])),
      () => w.fnCall(w.exported(BC, 'newBroadcastChannelDuplex'), ...s.names),
    ])()
    s.made = made
    s.rx = made.find((p) => sameStr(p.name, s.names[0]))
    s.tx = made.find((p) => sameStr(p.name, s.names[1]))
  }
  w.drain()
  s.ports = s.tx === s.rx ? [s.tx] : [s.tx, s.rx]
  s.closed = () => s.ports.every((p) => p.closed)
  s.open = () => s.ports.every((p) => !p.closed)
  return s
}

export function duplexes(c) {
  c.rule('ports', 'the duplex has the port, or the two channels with the names it was given, and uses one to read and the other to write; making it posts nothing')
  c.rule('send', 'each message which is written is posted once, in order, unchanged, as it comes')
  c.rule('receive', 'each message which arrives is delivered once, in order, unchanged, whatever it is but null, from when the reader starts')
  c.rule('end', 'when what is written ends or fails one null is posted and the ports are closed; the failure, also one to post, is the failure of the sink')
  c.rule('remote', 'null ends what is received, which is answered with null, and the ports are closed')
  c.rule('stop', 'a reader which stops, or has ended, listens no longer')
  c.rule('close', 'closing posts one null and closes the ports; closing again, or after either direction has ended, does nothing')

  for (const kind of ['MessagePort', 'BroadcastChannel']) {
    const any = (w, n) => pick(w, n, [() => w.opaque(n), () => w.bytesOf([]), () => 0, () => '', () => false, () => undefined])()
    // ended: exactly one null, after the messages
    const over = (w, s, msgs, what, rule) =>
      c.check(rule ?? 'end', kind + ' ' + what, same(s.tx.posted.slice(0, msgs.length), msgs) && s.tx.posted.length === msgs.length + 1 && s.tx.posted[msgs.length] === null && s.closed(), () => what + ': posted ' + list(s.tx.posted) + ', ports closed: ' + s.ports.map((p) => p.closed), w)
    const again = (w, s, msgs, what) => {
      const how = pick(w, 'then', ['nothing', 'close', 'remote'])
      if (how === 'close') {
        const r = w.attempt(() => w.do(s.dx, 'close'))
        w.drain()
        c.check('close', kind + ' again', !r.threw, () => 'closing after ' + what + ' throws ' + show(r.e), w)
      }
      if (how === 'remote') s.rx.deliver(null)
      if (how !== 'nothing') over(w, s, msgs, what + ', then ' + how, 'close')
    }
    c.explore(kind + ': ports', (w) => {
      const s = duplexOf(w, kind, {})
      const ok = kind === 'MessagePort' ? w.get(s.dx, 'port') === s.tx.obj : !!s.rx && !!s.tx && s.made.length === 2 && w.get(s.dx, 'read') === s.rx.obj && w.get(s.dx, 'write') === s.tx.obj
      c.check('ports', kind, ok && s.ports.every((p) => p.posted.length === 0 && !p.closed), 'the duplex does not have the ports it was made with, or uses them before it is used', w)
    })
    c.explore(kind + ': send', (w) => {
      const s = duplexOf(w, kind, {})
      const src = w.source('messages')
      const inn = pick(w, 'reader', [false, true]) ? w.pump(w.get(s.dx, 'source')) : null
      const r = w.watch(w.do(s.dx, 'sink', src.obj))
      w.drain()
      const n = pick(w, 'messages', [0, 1, 2])
      const msgs = []
      for (let i = 0; i < n; i++) {
        const m = any(w, 'message' + i)
        src.feed(m)
        msgs.push(m)
        c.check('send', kind, same(s.tx.posted, msgs) && r.st === 'pending' && s.open(), () => list(msgs) + ' is posted as ' + list(s.tx.posted) + ', sink ' + r.st, w)
      }
      const e = w.error('failed')
      const fin = pick(w, 'end', ['ends', 'fails', 'uncloneable'])
      if (fin === 'ends') src.end()
      if (fin === 'fails') src.fail(e)
      if (fin === 'uncloneable') {
        const m = w.opaque('uncloneable')
        m.uncloneable = e
        src.feed(m)
      }
      over(w, s, msgs, 'what is written ' + fin)
      c.check('end', kind + ' result', fin === 'ends' ? r.st === 'fulfilled' : r.st === 'rejected' && r.v === e, () => 'what is written ' + fin + ': the sink is ' + r.st + ' ' + show(r.v), w)
      again(w, s, msgs, 'what is written ' + fin)
    })
    c.explore(kind + ': receive', (w) => {
      const s = duplexOf(w, kind, {})
      const early = kind === 'MessagePort' && pick(w, 'early', [false, true])
      const want = []
      const go = (m) => {
        s.rx.deliver(m)
        want.push(m)
      }
      if (early) go(any(w, 'early message'))
      const inn = w.pump(w.get(s.dx, 'source'))
      w.drain()
      const got = () => c.check('receive', kind, same(inn.items, want) && inn.st === 'open' && s.tx.posted.length === 0 && s.open(), () => list(want) + ' is received as ' + list(inn.items) + ' ' + inn.st + ', posted ' + list(s.tx.posted), w)
      if (early) got()
      const n = pick(w, 'messages', [0, 1, 2])
      for (let i = 0; i < n; i++) {
        go(any(w, 'message' + i))
        got()
      }
      if (pick(w, 'end', ['null', 'stop']) === 'null') {
        s.rx.deliver(null)
        c.check('remote', kind + ' end', same(inn.items, want) && inn.st === 'done', () => 'null does not end what is received: ' + list(inn.items) + ' ' + inn.st, w)
        over(w, s, [], 'the remote ends', 'remote')
        c.check('stop', kind + ' ended', s.rx.fns.length === 0, 'the reader has ended and listens still', w)
        again(w, s, [], 'the remote ends')
      } else {
        // the reader leaves at a message
        inn.stop = true
        s.rx.deliver(w.opaque('last'))
        const r = inn.return()
        w.drain()
        c.check('stop', kind + ' left', r.st === 'fulfilled' && s.rx.fns.length === 0, () => 'a reader has stopped and listens still: ' + r.st, w)
      }
    })
    c.explore(kind + ': close', (w) => {
      const s = duplexOf(w, kind, {})
      const user = pick(w, 'used', ['no', 'reader', 'writer', 'both'])
      const msgs = []
      if (user === 'reader' || user === 'both') w.pump(w.get(s.dx, 'source'))
      let src, r
      if (user === 'writer' || user === 'both') {
        src = w.source('messages')
        r = w.watch(w.do(s.dx, 'sink', src.obj))
        w.drain()
        const m = w.opaque('message')
        src.feed(m)
        msgs.push(m)
      }
      const n = pick(w, 'times', [1, 2])
      for (let i = 0; i < n; i++) {
        const x = w.attempt(() => w.do(s.dx, 'close'))
        w.drain()
        c.check('close', kind + ' throws', !x.threw, () => 'close number ' + (i + 1) + ' throws ' + show(x.e), w)
      }
      over(w, s, msgs, 'closed', 'close')
      if (src) {
        if (pick(w, 'then', ['ends', 'writes']) === 'ends') src.end()
        else {
          src.feed(w.opaque('late'))
          src.end()
        }
        over(w, s, msgs, 'closed while it is written', 'close')
        c.check('close', kind + ' sink', r.st !== 'pending', 'the sink of a closed duplex does not return', w)
      }
    })
  }
}

// muxer of the environment
function muxer(w) {
  const s = { made: [], closes: [], aborts: [], opened: [], sunk: 0, calls: [], recv: null, replies: [] }
  const o = w.opaque('muxer')
  s.obj = o
  s.out = w.source('muxer source')
  s.done = w.deferred()
  w.def(o, 'source', s.out.obj)
  s.streams = w.opaque('streams')
  w.def(o, 'streams', s.streams)
  s.sink = w.native('sink', (t, a) => {
    s.sunk++
    s.recv = w.pump(a[0])
    return s.done.p
  })
  w.def(o, 'sink', s.sink)
  const ok = () => w.promiseResolve(undefined)
  w.def(o, 'close', w.native('close', (t, a) => {
    s.calls.push('close')
    s.closes.push(a)
    return ok()
  }))
  w.def(o, 'abort', w.native('abort', (t, a) => {
    s.calls.push('abort')
    s.aborts.push(a[0])
  }))
  w.def(o, 'newStream', w.native('newStream', (t, a) => {
    if (t !== o) throw new Thrown(w.err('TypeError', 'newStream of no muxer'))
    const d = w.deferred()
    s.opened.push(d)
    return d.p
  }))
  s.factory = w.opaque('factory')
  w.def(s.factory, 'createStreamMuxer', w.native('createStreamMuxer', (t, a) => {
    s.made.push(a[0])
    return o
  }))
  // the package of the default muxer
  s.yamux = []
  s.loggers = []
  w.env.defaultLogger = () => {
    const l = w.opaque('logger')
    s.loggers.push(l)
    return l
  }
  w.env.yamux = (...a) => {
    const y = { params: a[0], with: [] }
    s.yamux.push(y)
    return w.native('yamux', (t, b) => {
      y.with.push(b[0])
      return s.factory
    })
  }
  return s
}
// a stream of the muxer
function muxStream(w, name) {
  const s = { closes: [], aborts: [], out: null }
  s.src = w.source(name)
  s.done = w.deferred()
  const o = w.opaque(name)
  s.obj = o
  w.def(o, 'source', s.src.obj)
  w.def(o, 'sink', w.native('sink', (t, a) => {
    s.out = w.pump(a[0])
    return s.done.p
  }))
  w.def(o, 'close', w.native('close', (t, a) => {
    s.closes.push(a[0])
    return w.promiseResolve(undefined)
  }))
  w.def(o, 'abort', w.native('abort', (t, a) => void s.aborts.push(a[0])))
  return s
}
const framed = (w, p) => w.bytesOf([{ k: 'vals', vals: w.u32bytes(seqLen(p.seq), true) }, ...p.seq])
// carries decides whether a packet stream is the one of a stream of the muxer
function carries(c, w, rule, who, ps, st) {
  const ok = ps instanceof Obj && w.get(ps, 'sink') instanceof Fn
  if (!c.check(rule, who, ok, () => show(ps) + ' is no packet stream', w)) return
  const inn = w.pump(w.get(ps, 'source'))
  w.drain()
  const p = w.bytesOf([{ k: 'vals', vals: [1, 2, 3] }])
  st.src.feed(framed(w, p))
  c.check(rule, who + ' reads', inn.items.length === 1 && sameBytes(inn.items[0], p), () => 'a packet of the stream is read as ' + list(inn.items), w)
  const user = w.source('packets')
  w.watch(w.do(ps, 'sink', user.obj))
  w.drain()
  const q = w.someBytes('packet')
  user.feed(q)
  c.check(rule, who + ' writes', st.out && sameBytes(w.bytesOf(st.out.items.flatMap((x) => x.seq ?? [])), framed(w, q)), () => 'a packet is written to the stream as ' + list(st.out?.items ?? []), w)
}
const handler = (w) => {
  const s = { got: [] }
  s.obj = w.opaque('server')
  w.def(s.obj, 'handlePacketStream', w.native('handlePacketStream', (t, a) => {
    s.got.push(a)
    s.self = t
    return w.opaque('call')
  }))
  return s
}

// the connections
const CONNS = ['StreamConn', 'MessagePortConn', 'BroadcastChannelConn', 'WebSocketConn']
function connect(w, kind, opts) {
  const s = { kind, m: muxer(w) }
  s.server = opts.server ? handler(w) : undefined
  const args = [s.server?.obj]
  const p = opts.params ? opts.params(w, s) : undefined
  if (kind === 'StreamConn') {
    if (p) args.push(p)
    s.conn = w.make('srpc/conn.ts', kind, ...args)
  } else if (kind === 'WebSocketConn') {
    s.socket = w.opaque('web socket')
    s.wrapped = []
    s.net = { src: w.source('socket'), done: w.deferred(), out: null }
    w.env.default = (...a) => {
      s.wrapped.push(a[0])
      const d = w.opaque('socket duplex')
      w.def(d, 'source', s.net.src.obj)
      w.def(d, 'sink', w.native('sink', (t, b) => {
        s.net.out = w.pump(b[0])
        return s.net.done.p
      }))
      w.def(d, 'close', w.native('close', () => w.promiseResolve(undefined)))
      return d
    }
    s.direction = opts.direction ?? 'outbound'
    s.conn = w.make('srpc/websocket.ts', kind, s.socket, s.direction, ...args)
  } else {
    if (p) args.push(p)
    if (kind === 'MessagePortConn') {
      s.tx = s.rx = port(w, 'MessagePort')
      s.conn = w.make(MP, kind, s.tx.obj, ...args)
    } else {
      duplexOf(w, 'BroadcastChannel', s)
      s.conn = w.make(BC, kind, s.dx, ...args)
    }
    s.ports = s.tx === s.rx ? [s.tx] : [s.tx, s.rx]
  }
  w.drain()
  return s
}

export function connections(c) {
  c.rule('muxer', 'a connection has one muxer, from the factory it was given, otherwise from yamux with the parameters it was given, a logger, and keep-alive off (over ports on) unless they say otherwise; in the direction it was given, outbound without one')
  c.rule('view', 'the streams, the muxer, what goes in and out, the server, the port or socket are those of the connection')
  c.rule('open', 'each stream which is opened, also by a client of the connection or by its open function, is one new stream of the muxer, with packets in frames; the failure to open it is passed on')
  c.rule('incoming', 'a stream which comes in is handed to the server once, with packets in frames; without a server it is aborted with an error')
  c.rule('close', 'closing closes the muxer, or aborts it with the error, and closes the ports, telling the remote')
  c.rule('carry', 'what arrives goes into the muxer once, in order, unchanged; what comes out of it is sent once, in order, as one array each')
  c.rule('end', 'when the transport or the muxer ends the muxer is closed; when one of them fails it is aborted with the error before; the ports are closed')

  for (const kind of CONNS) {
    const ports = kind === 'MessagePortConn' || kind === 'BroadcastChannelConn'
    c.explore(kind + ': muxer', (w) => {
      const how = kind === 'WebSocketConn' ? 'none' : pick(w, 'params', ['none', 'empty', 'factory', 'yamux'])
      const direction = kind === 'WebSocketConn' ? pick(w, 'direction', ['inbound', 'outbound']) : how === 'none' ? undefined : pick(w, 'direction', [undefined, 'inbound', 'outbound'])
      const set = {}
      const s = connect(w, kind, {
        direction,
        server: pick(w, 'server', [false, true]),
        params: how === 'none' ? null : (w, s) => {
          const o = w.object({})
          if (direction) w.def(o, 'direction', direction)
          if (how === 'factory') w.def(o, 'muxerFactory', s.m.factory)
          if (how === 'factory' || how === 'yamux') {
            const y = w.object({})
            const ka = pick(w, 'keepAlive', [undefined, false, true])
            if (ka !== undefined) w.def(y, 'enableKeepAlive', (set.enableKeepAlive = ka))
            if (pick(w, 'more', [false, true])) {
              w.def(y, 'keepAliveInterval', (set.keepAliveInterval = w.num('interval')))
              w.def(y, 'maxInboundStreams', (set.maxInboundStreams = w.num('streams')))
            }
            if (how === 'yamux' || pick(w, 'both', [false, true])) w.def(o, 'yamuxParams', y)
          }
          return o
        },
      })
      const m = s.m
      c.check('muxer', kind + ' once', m.made.length === 1 && w.get(s.conn, 'muxer') === m.obj, () => m.made.length + ' muxers are made', w)
      const init = m.made[0]
      if (!(init instanceof Obj)) return
      const dir = w.get(init, 'direction')
      c.check('muxer', kind + ' direction', dir === (direction ?? 'outbound'), () => 'the direction of the muxer is ' + show(dir) + ' and not ' + (direction ?? 'outbound'), w)
      if (how === 'factory') c.check('muxer', kind + ' factory', m.yamux.every((y) => y.with.length === 0), 'there is a factory, and yamux is used', w)
      else {
        const y = m.yamux[0]
        const log = y?.with[0] instanceof Obj ? w.get(y.with[0], 'logger') : undefined
        c.check('muxer', kind + ' yamux', m.yamux.length === 1 && y.with.length === 1 && m.loggers.includes(log), 'the muxer is not made by yamux, with a logger', w)
        const get = (k) => (y?.params instanceof Obj ? w.get(y.params, k) : undefined)
        c.check('muxer', kind + ' keep-alive', get('enableKeepAlive') === (set.enableKeepAlive ?? ports), () => 'the keep-alive of yamux is ' + show(get('enableKeepAlive')), w)
        for (const k of ['keepAliveInterval', 'maxInboundStreams']) if (set[k] !== undefined) c.check('muxer', kind + ' ' + k, get(k) === set[k], () => 'the parameter ' + k + ' of yamux is ' + show(get(k)) + ' and not ' + show(set[k]), w)
        if (ports && set.keepAliveInterval === undefined && get('enableKeepAlive')) {
          const i = get('keepAliveInterval')
          c.check('muxer', kind + ' interval', i === undefined || (typeof i === 'number' && i > 0 && i < 60000), () => 'the interval of the keep-alive is ' + show(i), w)
        }
      }
    })
    c.explore(kind + ': view', (w) => {
      const s = connect(w, kind, { server: pick(w, 'server', [false, true]) })
      const g = (k) => w.get(s.conn, k)
      c.check('view', kind, g('muxer') === s.m.obj && g('streams') === s.m.streams && g('source') === s.m.out.obj && g('server') === s.server?.obj, 'the connection does not show its muxer, streams, source or server', w)
      if (kind === 'StreamConn') {
        const x = w.source('in')
        const f = g('sink')
        const v = w.opaque('chunk')
        w.watch(w.call(f, s.conn, [x.obj]))
        w.drain()
        x.feed(v)
        c.check('view', kind + ' sink', s.m.sunk === 1 && s.m.recv?.items.length === 1 && s.m.recv.items[0] === v, 'what goes into the connection does not go into its muxer', w)
      }
      if (kind === 'MessagePortConn') c.check('view', kind + ' port', g('messagePort') === s.tx.obj, 'not the port of the connection', w)
      if (kind === 'BroadcastChannelConn') c.check('view', kind + ' duplex', g('duplex') === s.dx, 'not the duplex of the connection', w)
      if (kind === 'WebSocketConn') c.check('view', kind + ' socket', w.do(s.conn, 'getSocket') === s.socket && s.wrapped.length === 1 && s.wrapped[0] === s.socket, 'not the socket of the connection', w)
    })
    c.explore(kind + ': open', (w) => {
      const s = connect(w, kind, { server: pick(w, 'server', [false, true]) })
      const how = pick(w, 'by', ['openStream', 'function', 'client'])
      const n = pick(w, 'streams', [1, 2])
      const fn = how === 'function' ? w.do(s.conn, 'buildOpenStreamFunc') : null
      const client = how === 'client' ? w.do(s.conn, 'buildClient') : null
      c.check('open', kind + ' early', s.m.opened.length === 0, 'a stream is opened before one is asked for', w)
      const all = []
      for (let i = 0; i < n; i++) {
        const st = muxStream(w, 'stream' + i)
        let r
        if (client) {
          const sig = w.opaque('request')
          sig.emptyEnc = false
          r = w.watch(w.do(client, 'request', 'service', 'method', w.someBytes('request')))
        } else r = w.watch(how === 'openStream' ? w.do(s.conn, 'openStream') : w.fnCall(fn))
        w.drain()
        c.check('open', kind + ' ' + how, s.m.opened.length === i + 1 && r.st === 'pending', () => s.m.opened.length + ' streams are opened for ' + (i + 1) + ', ' + r.st, w)
        all.push({ st, r, d: s.m.opened[i] })
      }
      const e = w.error('no stream')
      for (const x of all) {
        if (!x.d) return
        if (pick(w, 'opens', [true, false])) {
          x.d.resolve(x.st.obj)
          w.drain()
          if (client) c.check('open', kind + ' client', !!x.st.out && x.st.out.items.length > 0, 'the call of the client is not made on the stream', w)
          else {
            c.check('open', kind + ' ' + how + ' opened', x.r.st === 'fulfilled', () => 'the stream is opened: ' + x.r.st, w)
            if (x.r.st === 'fulfilled') carries(c, w, 'open', kind, x.r.v, x.st)
          }
        } else {
          x.d.reject(e)
          w.drain()
          c.check('open', kind + ' failure', x.r.st === 'rejected' && x.r.v === e, () => 'the stream can not be opened: ' + x.r.st + ' ' + show(x.r.v), w)
        }
      }
      c.check('open', kind + ' others', s.m.opened.length === n, 'more streams are opened than were asked for', w)
    })
    c.explore(kind + ': incoming', (w) => {
      const s = connect(w, kind, { server: pick(w, 'server', [false, true]) })
      const n = pick(w, 'streams', [1, 2])
      const on = s.m.made[0] instanceof Obj ? w.get(s.m.made[0], 'onIncomingStream') : undefined
      if (!c.check('incoming', kind + ' listens', on instanceof Fn, 'the muxer does not hand over the streams which come in', w)) return
      for (let i = 0; i < n; i++) {
        const st = muxStream(w, 'stream' + i)
        const r = w.attempt(() => (i === 0 ? w.fnCall(on, st.obj) : w.do(s.conn, 'handleIncomingStream', st.obj)))
        w.drain()
        c.check('incoming', kind + ' throws', !r.threw, () => 'a stream which comes in throws ' + show(r.e), w)
        if (!s.server) {
          c.check('incoming', kind + ' no server', st.aborts.length === 1 && w.isErr(st.aborts[0]) && nonEmptyStr(w.msg(st.aborts[0])) && !st.out, () => 'without a server a stream is ' + (st.aborts.length ? 'aborted with ' + list(st.aborts) : 'not aborted'), w)
          continue
        }
        c.check('incoming', kind + ' server', s.server.got.length === i + 1 && s.server.self === s.server.obj && st.aborts.length === 0 && st.closes.length === 0, () => 'the server gets ' + s.server.got.length + ' streams of ' + (i + 1) + ', aborted ' + list(st.aborts), w)
        if (s.server.got.length === i + 1) carries(c, w, 'incoming', kind, s.server.got[i][0], st)
      }
    })
    c.explore(kind + ': close', (w) => {
      const s = connect(w, kind, { server: false })
      const e = w.error('reason')
      const how = pick(w, 'how', ['close', 'error'])
      const n = pick(w, 'times', [1, 2])
      const m = s.m
      for (let i = 0; i < n; i++) {
        const r = w.attempt(() => (how === 'error' ? w.do(s.conn, 'close', e) : w.do(s.conn, 'close')))
        w.drain()
        c.check('close', kind + ' throws', !r.threw, () => 'closing throws ' + show(r.e), w)
        if (how === 'error') c.check('close', kind + ' abort', m.calls[0] === 'abort' && m.aborts.every((x) => x === e), () => 'closing with an error: the muxer is told ' + m.calls + ' ' + list(m.aborts), w)
        else c.check('close', kind + ' close', m.calls[0] === 'close' && m.aborts.length === 0, () => 'closing: the muxer is told ' + m.calls, w)
      }
      if (ports) {
        // the muxer ends, and its transport with it
        c.check('close', kind + ' ports', s.ports.every((p) => p.closed), 'closing leaves the ports open', w)
        c.check('close', kind + ' remote', s.tx.posted.length === 1 && s.tx.posted[0] === null, () => 'closing posts ' + list(s.tx.posted) + ' and not the end', w)
        m.out.end()
        m.done.resolve(undefined)
        w.drain()
        c.check('close', kind + ' posts', s.tx.posted.length === 1, () => 'after closing posted ' + list(s.tx.posted), w)
      } else if (kind === 'WebSocketConn') {
        m.out.end()
        c.check('close', kind + ' socket', s.net.out?.st === 'done', 'when the muxer ends the socket does not', w)
      }
    })
    if (kind === 'StreamConn') continue
    c.explore(kind + ': carry', (w) => {
      const s = connect(w, kind, { server: false })
      const m = s.m
      c.check('carry', kind + ' sink', m.sunk === 1, () => 'the muxer is connected ' + m.sunk + ' times', w)
      if (m.sunk !== 1) return
      const n = pick(w, 'steps', [1, 2, 3])
      const want = []
      const got = []
      const sent = () => (ports ? s.tx.posted : (s.net.out?.items ?? []))
      for (let i = 0; i < n; i++) {
        if (pick(w, 'step' + i, ['in', 'out']) === 'in') {
          const b = w.someBytes('in' + i)
          want.push(b)
          if (ports) s.rx.deliver(b)
          else s.net.src.feed(b)
        } else {
          const a = w.someBytes('a' + i)
          const b = w.someBytes('b' + i)
          const x = pick(w, 'chunk' + i, [() => a, () => w.construct(w.Uint8ArrayList, [a]), () => w.construct(w.Uint8ArrayList, [a, b])])()
          got.push(x.cls === 'Uint8Array' ? a : w.bytesOf(x.seq))
          m.out.feed(x)
        }
        c.check('carry', kind + ' in', same(m.recv.items, want) && m.recv.st === 'open', () => list(want) + ' goes into the muxer as ' + list(m.recv.items), w)
        const o = sent()
        c.check('carry', kind + ' out', o.length === got.length && o.every((x, j) => x instanceof Obj && x.cls === 'Uint8Array' && sameBytes(x, got[j])), () => list(got) + ' is sent as ' + list(o), w)
      }
      c.check('end', kind + ' early', m.calls.length === 0 && (!ports || s.ports.every((p) => !p.closed)), () => 'the connection is in use, and the muxer is told ' + m.calls, w)
      const e = w.error('failed')
      const how = pick(w, 'end', ['muxer ends', 'transport ends', 'muxer source fails', 'muxer sink fails', ...(ports ? ['post fails'] : ['transport fails', 'socket sink fails'])])
      const settle = () => {
        // what the transport tells the muxer ends it; the socket ends with what is written to it
        if (m.recv.st === 'done') {
          m.done.resolve(undefined)
          m.out.end()
        }
        if (m.recv.st === 'failed') {
          m.done.reject(m.recv.err)
          m.out.end()
        }
        if (s.net?.out?.st === 'done') s.net.done.resolve(undefined)
        if (s.net?.out?.st === 'failed') s.net.done.reject(s.net.out.err)
        w.drain()
      }
      if (how === 'muxer ends') {
        m.out.end()
        m.done.resolve(undefined)
      }
      if (how === 'transport ends') {
        if (ports) s.rx.deliver(null)
        else s.net.src.end()
      }
      if (how === 'muxer source fails') m.out.fail(e)
      if (how === 'muxer sink fails') m.done.reject(e)
      if (how === 'transport fails') s.net.src.fail(e)
      if (how === 'socket sink fails') s.net.done.reject(e)
      if (how === 'post fails') {
        const b = w.someBytes('uncloneable')
        b.uncloneable = e
        m.out.feed(b)
      }
      w.drain()
      settle()
      settle()
      if (/fail/.test(how)) c.check('end', kind + ' failure', m.calls[0] === 'abort' && m.aborts[0] === e, () => how + ': the muxer is told ' + m.calls + ' ' + list(m.aborts), w)
      else c.check('end', kind + ' end', m.calls.length >= 1 && m.aborts.length === 0, () => how + ': the muxer is told ' + m.calls + ' ' + list(m.aborts), w)
      if (ports) {
        c.check('end', kind + ' ports', s.ports.every((p) => p.closed), () => how + ': the ports stay open', w)
        const o = s.tx.posted.slice(got.length)
        c.check('end', kind + ' remote', o.length === 1 && o[0] === null, () => how + ': the remote is told ' + list(o) + ' and not the end', w)
      }
    })
  }
}

export function server(c) {
  c.rule('call', 'each stream is one call of its own: the method of its start is looked up once, with the function of the server, and gets its requests')
  c.rule('reply', 'what the call sends is sent on its stream as it comes, in order, each packet as one array, which ends with the call')
  c.rule('end', 'when the stream ends so do the requests; when it fails, sends what is no packet, or can not be written, the call is closed with the error, which the other side is told')
  c.rule('result', 'handling a stream gives its call; the handler of streams resolves when the stream has been handled, and not before')

  const make = (w) => {
    const s = { lookups: [], invoked: [] }
    s.lookup = w.native('lookup', (t, a) => {
      s.lookups.push(a)
      if (s.unknown) return w.promiseResolve(undefined)
      return w.promiseResolve(
        w.native('invoke', (t, b) => {
          const k = { service: a[0], method: a[1], req: w.pump(b[0]), sink: b[1], res: w.source('responses'), done: w.deferred() }
          k.wrote = w.watch(w.fnCall(b[1], k.res.obj))
          s.invoked.push(k)
          return k.done.p
        }),
      )
    })
    s.srv = w.make('srpc/server.ts', 'Server', s.lookup)
    return s
  }
  // a stream which the server handles
  const handle = (w, s, how, opts) => {
    const x = { st: packetStream(w, opts), how }
    x.service = w.str('service')
    x.method = w.str('method')
    if (how === 'handlePacketStream') {
      x.rpc = w.do(s.srv, 'handlePacketStream', x.st.obj)
    } else {
      const f = w.get(s.srv, 'rpcStreamHandler')
      x.r = w.watch(w.fnCall(f, x.st.obj))
    }
    w.drain()
    x.start = (d) => x.st.recv('callStart', { rpcService: x.service, rpcMethod: x.method, data: d ?? w.bytesOf([]), dataIsZero: !!d && isEmptyBytes(d) })
    return x
  }
  const HOW = ['handlePacketStream', 'rpcStreamHandler']
  const result = (w, x, rule) => {
    if (x.rpc) c.check(rule ?? 'result', x.how, x.rpc instanceof Obj && w.get(x.rpc, 'isClosed') !== undefined, () => 'handling a stream gives ' + show(x.rpc), w)
  }

  c.explore('calls', (w) => {
    const s = make(w)
    const n = pick(w, 'streams', [1, 2])
    const all = []
    for (let i = 0; i < n; i++) all.push(handle(w, s, pick(w, 'by' + i, HOW)))
    c.check('call', 'streams', all.every((x) => x.st.sunk === 1 && x.st.packets().length === 0) && s.lookups.length === 0, 'a stream is not connected once, or answered before it has said anything', w)
    // both start, then the second goes on first
    all.forEach((x, i) => {
      const first = pick(w, 'first' + i, [() => undefined, () => w.someBytes('first'), () => w.bytesOf([])])()
      x.want = first ? [first] : []
      x.start(first)
      result(w, x)
      x.k = s.invoked[i]
      c.check('call', x.how + ' lookup', s.lookups.length === i + 1 && s.lookups[i].length === 2 && sameStr(s.lookups[i][0], x.service) && sameStr(s.lookups[i][1], x.method) && s.invoked.length === i + 1, () => 'stream ' + i + ' starts: ' + s.lookups.length + ' lookups, the last of ' + list(s.lookups[i] ?? []) + ', ' + s.invoked.length + ' methods called', w)
    })
    const got = (x) => {
      const q = x.k?.req
      c.check('call', x.how + ' requests', q && q.items.length === x.want.length && q.items.every((d, j) => sameBytes(d, x.want[j])) && q.st === 'open', () => 'the requests ' + list(x.want) + ' arrive as ' + list(q?.items ?? []), w)
    }
    const order = all.slice().reverse()
    for (const x of order) {
      if (!x.k) return
      got(x)
      const d = w.someBytes('second')
      x.want.push(d)
      x.st.data(d)
      all.forEach(got)
    }
    for (const x of order) {
      const sent = () => x.st.packets()
      const a = w.someBytes('response a')
      const m = pick(w, 'responses', [0, 1, 2])
      const want = []
      for (let i = 0; i < m; i++) {
        const d = w.someBytes('response' + i)
        want.push(d)
        x.k.res.feed(d)
        x.st.sync()
        const p = sent()
        c.check('reply', x.how, p.length === want.length && p.every((y, j) => y.case === 'callData' && sameBytes(y.data, want[j]) && !y.complete) && x.st.out.st === 'open', () => 'the responses ' + list(want) + ' are sent as ' + p.map((y) => y.case + ' ' + show(y.data)), w)
      }
      if (x.r) c.check('result', x.how + ' early', x.r.st === 'pending', 'the stream is in use, and its handler has returned', w)
      x.k.res.end()
      x.k.done.resolve(undefined)
      x.st.sync()
      const p = sent()
      c.check('reply', x.how + ' end', p[m]?.case === 'callData' && p[m].complete === true && falsy(p[m].error) && x.st.out.st === 'done', () => 'the call has ended, and the stream: ' + p.slice(m).map((y) => y.case + ' ' + show(y.error)) + ' ' + x.st.out.st, w)
      if (x.rpc) c.check('result', x.how + ' closed', w.get(x.rpc, 'isClosed') === true, 'the call has ended and is not closed', w)
      // the other side ends its stream as well
      x.st.src.end()
      x.st.sync()
      if (x.r) c.check('result', x.how, x.r.st === 'fulfilled', () => 'the stream has been handled, and its handler is ' + x.r.st, w)
    }
    c.check('call', 'methods', s.invoked.length === n && s.lookups.length === n, 'a method is looked up or called again', w)
  })

  c.explore('ends', (w) => {
    const s = make(w)
    const e = w.error('failed')
    const how = pick(w, 'end', ['stream ends', 'stream fails', 'no packet', 'write fails', 'remote error', 'method fails', 'unknown method'])
    const x = handle(w, s, pick(w, 'by', HOW))
    s.unknown = how === 'unknown method'
    if (pick(w, 'started', [true, false]) || s.unknown || how === 'remote error' || how === 'method fails') x.start()
    const k = s.invoked[0]
    if (how === 'unknown method') {
      const p = x.st.packets()
      c.check('end', x.how + ' unknown', s.invoked.length === 0 && p.length === 1 && p[0].case === 'callData' && nonEmptyStr(p[0].error) && x.st.out.st === 'done', () => 'a method which is not found: ' + p.map((y) => y.case + ' ' + show(y.error)), w)
      return
    }
    if (how === 'stream ends') x.st.src.end()
    if (how === 'stream fails') x.st.src.fail(e)
    if (how === 'no packet') {
      const b = w.someBytes('no packet')
      b.badDec = e
      x.st.src.feed(b)
    }
    if (how === 'write fails') x.st.done.reject(e)
    const text = w.str('remote error')
    if (how === 'remote error') x.st.data(undefined, true, text)
    if (how === 'method fails') {
      k.done.reject(e)
      k.res.fail(e)
    }
    x.st.sync()
    if (how === 'write fails') w.drain()
    const told = x.st.packets()
    if (how === 'stream ends') {
      if (k) {
        c.check('end', x.how + ' requests', k.req.st === 'done', () => 'the stream has ended, the requests are ' + k.req.st, w)
        c.check('end', x.how + ' responses', x.st.out.st === 'open' && told.length === 0, 'the stream has ended, and so has the answer before the method', w)
      }
    } else if (how === 'remote error') {
      c.check('end', x.how + ' remote error', k?.req.st === 'failed' && sameStr(w.msg(k.req.err), text), () => 'the error of the other side: the requests are ' + k?.req.st + ' ' + show(k?.req.err), w)
    } else if (how === 'write fails') {
      if (k) c.check('end', x.how + ' write', k.req.st === 'failed' && k.req.err === e, () => 'the stream can not be written: the requests are ' + k.req.st + ' ' + show(k.req.err), w)
      if (x.rpc) c.check('end', x.how + ' closed', w.get(x.rpc, 'isClosed') === e, () => 'the stream can not be written: the call is closed: ' + show(w.get(x.rpc, 'isClosed')), w)
    } else {
      if (k) c.check('end', x.how + ' ' + how, k.req.st === 'failed' && k.req.err === e, () => how + ': the requests are ' + k.req.st + ' ' + show(k.req.err), w)
      if (x.rpc) c.check('end', x.how + ' closed', w.get(x.rpc, 'isClosed') === e, () => how + ': the call is closed: ' + show(w.get(x.rpc, 'isClosed')), w)
      c.check('end', x.how + ' told', told.length === 1 && told[0].case === 'callData' && sameStr(told[0].error, w.msg(e)) && x.st.out.st === 'done', () => how + ': the other side is told ' + told.map((y) => y.case + ' ' + show(y.error)) + ', the stream is ' + x.st.out.st, w)
      if (how === 'method fails') x.st.src.end()
    }
    x.st.sync()
    if (x.r && x.st.out.st === 'done') c.check('result', x.how + ' ended', x.r.st !== 'pending', 'the stream has been handled, and its handler has not returned', w)
  })

  c.explore('startRpc', (w) => {
    const s = make(w)
    const a = w.do(s.srv, 'startRpc')
    const b = w.do(s.srv, 'startRpc')
    const send = (r, id) => {
      const out = w.pump(w.get(r, 'source'))
      w.do(r, 'handlePacket', w.object({ body: w.object({ case: 'callStart', value: w.object({ rpcService: id, rpcMethod: 'method', data: w.bytesOf([]), dataIsZero: false }) }) }))
      w.drain()
      return out
    }
    send(a, 'a')
    send(b, 'b')
    c.check('call', 'startRpc', a !== b && s.lookups.length === 2 && s.lookups[0][0] === 'a' && s.lookups[1][0] === 'b', () => 'two calls which are started look up ' + s.lookups.map((x) => list(x)), w)
  })
}
