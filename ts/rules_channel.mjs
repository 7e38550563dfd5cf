// Streams over the message channels of browsers, and the watchdog.
import { pick, port, sameStr, nonEmptyStr, falsy, show, Obj, Fn, Thrown } from './util.mjs'
import { lin } from './frame.mjs'

const CH = 'srpc/channel.ts'
const KINDS = ['MessagePort', 'BroadcastChannel']

// fields which a message has
const says = (w, m) => {
  const r = {}
  for (const f of ['from', 'ack', 'opened', 'closed', 'error', 'data']) {
    const v = m instanceof Obj ? w.get(m, f) : undefined
    if (f === 'data' ? v !== undefined : !falsy(v)) r[f] = v
  }
  return r
}
const text = (m) => '{' + Object.entries(m).map(([k, v]) => k + ': ' + show(v)).join(', ') + '}'

function make(w, kind, opts) {
  const s = { kind }
  if (opts?.clock) w.clock()
  s.id = 'local'
  s.remote = opts?.sender ?? 'remote'
  const o = w.object({})
  for (const [k, v] of Object.entries(opts?.set ?? {})) w.def(o, k, v)
  s.tx = port(w, kind)
  s.rx = kind === 'MessagePort' ? s.tx : port(w, kind)
  const args = [s.id, kind === 'MessagePort' ? s.tx.obj : w.object({ tx: s.tx.obj, rx: s.rx.obj })]
  if (opts?.set) args.push(o)
  s.st = w.make(CH, 'ChannelStream', ...args)
  w.drain()
  s.posted = () => s.tx.posted.map((m) => says(w, m))
  s.recv = (m) => {
    const x = w.object({ from: s.remote })
    for (const [k, v] of Object.entries(m)) w.def(x, k, v)
    s.rx.deliver(x)
  }
  s.inn = null
  s.read = () => {
    s.inn = w.pump(w.get(s.st, 'source'))
    w.drain()
  }
  s.write = () => {
    s.src = w.source('messages')
    s.sink = w.watch(w.do(s.st, 'sink', s.src.obj))
    w.drain()
  }
  s.ack = w.watch(w.get(s.st, 'waitRemoteAck'))
  s.open = w.watch(w.get(s.st, 'waitRemoteOpen'))
  w.drain()
  return s
}
const only = (m, id, fields) => sameStr(m.from, id) && Object.keys(m).filter((k) => k !== 'from').sort().join() === fields

export function channelStream(c) {
  c.rule('hello', 'making a stream posts one ack, with its id, and nothing else')
  c.rule('other', 'messages without a sender and its own messages are ignored')
  c.rule('negotiate', 'nothing is sent before the remote has acked, which is answered by one opened message, and has opened; isAcked, isOpen and those who wait say so exactly then')
  c.rule('send', 'each message is posted once, in order, with the id, as it comes; then the end, or the error')
  c.rule('receive', 'the data of each message of the remote is delivered once, in order, unchanged, whatever it is; the end and the error of the remote end what is received')
  c.rule('close', 'closing posts the end with its error, closes the channels, ends what is received with the error and everything which waits; later nothing is posted and no timer runs, and closing again does nothing')
  c.rule('gone', 'if the remote closes before it has opened, those who wait for it and the sink fail')
  c.rule('keepAlive', 'from the start until it is closed a message is posted at least every keepAliveMs, and one which is posted only for that carries nothing')
  c.rule('idle', 'the stream is closed with the idle error if, and only if, the remote, once heard, sends nothing for idleTimeoutMs')

  for (const kind of KINDS) {
    const data = (w, n) => pick(w, n, [() => w.opaque('data ' + n), () => w.bytesOf([]), () => 0, () => '', () => false])()
    // sending
    c.explore(kind + ': send', (w) => {
      const remoteOpen = pick(w, 'remoteOpen', [undefined, false, true])
      const s = make(w, kind, remoteOpen === undefined ? {} : { set: { remoteOpen } })
      let p = s.posted()
      c.check('hello', kind, p.length === 1 && only(p[0], s.id, 'ack'), () => 'at first the stream posts ' + p.map(text), w)
      const was = { ack: !!remoteOpen, open: !!remoteOpen }
      const state = (what) => {
        const isA = w.truthy(w.get(s.st, 'isAcked'))
        const isO = w.truthy(w.get(s.st, 'isOpen'))
        c.check('negotiate', kind + ' state', isA === was.ack && isO === was.open && (s.ack.st === 'fulfilled') === was.ack && (s.open.st === 'fulfilled') === was.open, () => what + ': acked ' + isA + ', open ' + isO + ', waiting for them ' + s.ack.st + ' ' + s.open.st, w)
      }
      state('new')
      let n = 1
      let opened = 0
      let sinkOn = false
      const step = (what) => {
        if (sinkOn && was.ack && !opened) opened = ++n
        p = s.posted()
        c.check('negotiate', kind, p.length === n && (!opened || only(p[opened - 1], s.id, 'opened')), () => what + ': the stream has posted ' + p.map(text), w)
        state(what)
      }
      const start = pick(w, 'sink', ['first', 'after ack', 'after opened'])
      const order = pick(w, 'remote', remoteOpen ? ['opened'] : ['ack, opened', 'opened', 'ack, ack, opened', 'opened, ack'])
      const go = () => {
        s.write()
        sinkOn = true
        step('the sink is used')
      }
      if (start === 'first') go()
      for (const m of order.split(', ')) {
        s.recv({ [m]: true })
        was.ack = true
        if (m === 'opened') was.open = true
        step('the remote sends ' + m)
        if (m === 'ack' && start === 'after ack' && !sinkOn) go()
      }
      if (!sinkOn) go()
      const k = pick(w, 'messages', [0, 1, 2])
      for (let i = 0; i < k; i++) {
        const d = data(w, 'message' + i)
        s.src.feed(d)
        p = s.posted()
        n++
        c.check('send', kind, p.length === n && only(p[n - 1], s.id, 'data') && p[n - 1].data === d, () => show(d) + ' is posted as ' + p.slice(opened).map(text), w)
      }
      const e = w.error('messages failed')
      if (pick(w, 'end', ['ends', 'fails']) === 'ends') {
        s.src.end()
        p = s.posted()
        c.check('send', kind + ' end', p.length === n + 1 && only(p[n], s.id, 'closed'), () => 'the end is posted as ' + p.slice(n).map(text), w)
      } else {
        s.src.fail(e)
        p = s.posted()
        c.check('send', kind + ' error', p.length === n + 1 && sameStr(p[n].from, s.id) && p[n].error === e && p[n].data === undefined, () => 'the error is posted as ' + p.slice(n).map(text), w)
      }
      c.check('send', kind + ' returns', s.sink.st !== 'pending', 'the sink does not return', w)
      c.check('close', kind + ' not closed', !s.tx.closed && !s.rx.closed, 'the end of what is sent closes the channel', w)
    })
    // receiving
    c.explore(kind + ': receive', (w) => {
      const sender = pick(w, 'sender', ['remote', 'local-2', 'loca'])
      const was = { ack: false, opened: false }
      const s = make(w, kind, { sender })
      const late = pick(w, 'read', ['first', 'late'])
      if (late === 'first') s.read()
      const want = []
      const n = pick(w, 'messages', [0, 1, 2])
      for (let i = 0; i < n; i++) {
        const k = pick(w, 'message' + i, ['data', 'ack', 'opened', 'keep alive', 'own', 'nobody', 'nothing'])
        if (k === 'data') {
          const d = data(w, 'data' + i)
          want.push(d)
          s.recv({ data: d })
        } else if (k === 'own') s.recv({ ...pick(w, 'own' + i, [{ data: w.opaque('own') }, { closed: true }, { error: w.error('own') }, { ack: true, opened: true }]), from: s.id })
        else if (k === 'nobody') s.recv({ ...pick(w, 'nobody' + i, [{ data: w.opaque('own') }, { closed: true }, { ack: true, opened: true }]), from: pick(w, 'sender' + i, ['', undefined]) })
        else if (k === 'nothing') s.rx.deliver(pick(w, 'nothing' + i, [null, undefined]))
        else if (k === 'keep alive') s.recv({})
        else {
          s.recv({ [k]: true })
          was[k] = was.ack = true
        }
        if (k === 'own' || k === 'nobody' || k === 'nothing') {
          const un = w.truthy(w.get(s.st, 'isOpen')) === was.opened && w.truthy(w.get(s.st, 'isAcked')) === was.ack
          c.check('other', kind, un && (!s.inn || s.inn.st === 'open'), () => 'a message of ' + k + ' is taken', w)
        }
      }
      const e = w.error('remote failed')
      const fin = pick(w, 'end', ['closed', 'error', 'closed with error', 'data and closed'])
      if (fin === 'data and closed') {
        const d = w.opaque('last')
        want.push(d)
        s.recv({ data: d, closed: true })
      } else if (fin === 'closed') s.recv({ closed: true })
      else s.recv(fin === 'error' ? { error: e } : { error: e, closed: true })
      if (late === 'late') s.read()
      const ok = s.inn.items.length === want.length && want.every((d, i) => s.inn.items[i] === d)
      // an error may overtake what nobody has read yet
      c.check('receive', kind, ok || (late === 'late' && fin.includes('error') && s.inn.st === 'failed'), () => 'the data ' + want.map((x) => show(x)) + ' is received as ' + s.inn.items.map((x) => show(x)), w)
      c.check('receive', kind + ' end', fin.includes('error') ? s.inn.st === 'failed' && s.inn.err === e : s.inn.st === 'done', () => 'the remote ends with ' + fin + ', and what is received is ' + s.inn.st + ' ' + show(s.inn.err), w)
      s.recv({ data: w.opaque('too late') })
      c.check('receive', kind + ' late', s.inn.items.length <= want.length, 'a message after the end is delivered', w)
    })
    // own messages do not open
    c.explore(kind + ': own', (w) => {
      const s = make(w, kind)
      s.write()
      const m = { opened: true, ack: true, from: pick(w, 'sender', [() => s.id, () => '', () => undefined])() }
      s.recv(m)
      c.check('other', kind + ' open', !w.truthy(w.get(s.st, 'isOpen')) && !w.truthy(w.get(s.st, 'isAcked')) && s.posted().length === 1, 'an own message, or one of nobody, opens the stream', w)
    })
    // closing
    c.explore(kind + ': close', (w) => {
      const timers = pick(w, 'timers', [{}, { keepAliveMs: w.num('keepAliveMs', 1), idleTimeoutMs: w.num('idleTimeoutMs', 1) }])
      const s = make(w, kind, { set: timers, clock: true })
      s.read()
      const state = pick(w, 'state', ['new', 'sink', 'acked', 'open', 'sending', 'sent', 'received'])
      if (state !== 'new') s.write()
      if (!['new', 'sink'].includes(state)) s.recv({ ack: true })
      if (!['new', 'sink', 'acked'].includes(state)) s.recv({ opened: true })
      if (state === 'sending') s.src.feed(w.opaque('message'))
      if (state === 'sent') s.src.end()
      if (state === 'received') s.recv({ closed: true })
      const before = s.posted().length
      const e = pick(w, 'error', [() => undefined, () => w.error('closed with')])()
      const r = w.attempt(() => (e ? w.do(s.st, 'close', e) : w.do(s.st, 'close')))
      w.drain()
      let p = s.posted()
      c.check('close', kind + ' posts', !r.threw && p.length === before + 1 && sameStr(p[before].from, s.id) && p[before].closed === true && p[before].error === e, () => 'closing posts ' + p.slice(before).map(text), w)
      c.check('close', kind + ' channels', s.tx.closed && s.rx.closed, 'the channels are not closed', w)
      if (state !== 'received') c.check('close', kind + ' source', e ? s.inn.st === 'failed' && s.inn.err === e : s.inn.st === 'done', () => 'what is received is ' + s.inn.st + ' ' + show(s.inn.err), w)
      c.check('close', kind + ' waits', s.ack.st !== 'pending' && s.open.st !== 'pending' && (state === 'new' || !['sink', 'acked'].includes(state) || s.sink.st === 'rejected'), () => 'waiting for the ack is ' + s.ack.st + ', for opened ' + s.open.st + ', the sink ' + s.sink?.st, w)
      if (e) for (const x of [s.ack, s.open]) c.check('close', kind + ' waits error', x.st !== 'rejected' || x.v === e, 'who waits does not get the error', w)
      c.check('close', kind + ' timers', w.liveTimers().length === 0, 'a timer of a closed stream runs', w)
      // later
      const next = pick(w, 'later', ['again', 'send', 'end', 'fail', 'receive'])
      if (next === 'again') {
        const q = w.attempt(() => w.do(s.st, 'close', pick(w, 'error again', [() => undefined, () => w.error('again')])()))
        c.check('close', kind + ' again', !q.threw, () => 'closing again throws ' + show(q.e), w)
      } else if (['send', 'end', 'fail'].includes(next)) {
        if (!['open', 'sending'].includes(state)) return
        if (next === 'send') s.src.feed(w.opaque('late message'))
        else if (next === 'end') s.src.end()
        else s.src.fail(w.error('late failure'))
        if (next !== 'send') c.check('close', kind + ' sink', s.sink.st !== 'pending', 'the sink of a closed stream does not return', w)
      } else s.recv({ data: w.opaque('late') })
      w.drain()
      p = s.posted()
      c.check('close', kind + ' later', p.length === before + 1 && w.liveTimers().length === 0, () => 'a closed stream posts ' + p.slice(before + 1).map(text), w)
    })
    // the remote is gone before it has opened
    c.explore(kind + ': gone', (w) => {
      const s = make(w, kind)
      s.read()
      const sinks = pick(w, 'sink', ['before', 'after'])
      const acked = pick(w, 'acked', [false, true])
      if (sinks === 'before') s.write()
      if (acked) s.recv({ ack: true })
      const e = w.error('remote failed')
      const fails = pick(w, 'error', [false, true])
      s.recv(fails ? { closed: true, error: e } : { closed: true })
      if (sinks === 'after') s.write()
      c.check('gone', kind + ' waits', s.open.st === 'rejected' && (acked ? s.ack.st === 'fulfilled' : s.ack.st === 'rejected'), () => 'waiting for the ack is ' + s.ack.st + ', for opened ' + s.open.st, w)
      c.check('gone', kind + ' sink', s.sink.st === 'rejected' && (!fails || s.sink.v === e), () => 'the remote is gone, and the sink is ' + s.sink.st, w)
    })
    // keep alive
    c.explore(kind + ': keep alive', (w) => {
      const ms = w.num('keepAliveMs', 1)
      const s = make(w, kind, { set: { keepAliveMs: ms }, clock: true })
      let last = w.now
      let n = s.posted().length
      const look = () => {
        const p = s.posted()
        if (p.length > n) last = w.now
        const t = w.liveTimers()
        const m = p.slice(n)
        n = p.length
        c.check('keepAlive', kind, t.length > 0 && t.some((x) => w.ge0(lin(last).add(lin(ms)).add(lin(x.at), -1))), 'nothing will be posted within keepAliveMs', w)
        return m
      }
      look()
      for (let i = 0; i < 3; i++) {
        const k = pick(w, 'step' + i, ['wait', 'some time', 'ack', 'end'])
        if (k === 'wait') {
          w.elapse('wait' + i)
          const m = look()
          c.check('keepAlive', kind + ' nothing', m.every((x) => only(x, s.id, '')), () => 'to keep the stream alive it posts ' + m.map(text), w)
        } else if (k === 'some time') {
          // less than until the next timer
          const t = w.liveTimers()[0]
          const d = w.num('time' + i, 0)
          w.lins.push(lin(t.at).add(lin(w.now), -1).add(lin(d), -1))
          w.pass(d)
          look()
        } else if (k === 'ack') {
          if (!s.sink) s.write()
          s.recv({ ack: true, opened: true })
          look()
        } else if (k === 'end' && s.sink && s.sink.st === 'pending' && !s.ended) {
          s.ended = true
          s.src.end()
          // the end may be the last message
          const p = s.posted()
          n = p.length
        }
      }
      // a timer which fires has to post, or to wait for less than a whole time
      let rounds = 0
      const n0 = s.posted().length
      while (s.posted().length === n0 && rounds++ < 3) w.elapse('last' + rounds)
      c.check('keepAlive', kind + ' posts', s.posted().length > n0, 'the time elapses, and nothing is posted', w)
    })
    // idle
    c.explore(kind + ': idle', (w) => {
      const ms = w.num('idleTimeoutMs', 1)
      const set = { idleTimeoutMs: ms }
      if (pick(w, 'keepAlive', [false, true])) set.keepAliveMs = lin(ms).add(lin(w.num('more', 1))).norm()
      const s = make(w, kind, { set, clock: true })
      s.read()
      const some = (n) => {
        const d = w.num(n, 0)
        for (const t of w.liveTimers()) w.lins.push(lin(t.at).add(lin(w.now), -1).add(lin(d), -1))
        w.pass(d)
      }
      let last = null
      const closed = () => s.tx.closed > 0
      for (let i = 0; i < 3 && !closed(); i++) {
        const k = pick(w, 'step' + i, ['heard', 'own', 'wait', 'send'])
        if (k === 'heard') {
          some('time' + i)
          s.recv(pick(w, 'message' + i, [() => ({ ack: true, opened: true }), () => ({}), () => ({ data: w.opaque('data') })])())
          last = w.now
        } else if (k === 'own') {
          some('time' + i)
          s.recv({ from: s.id, ack: true })
        } else if (k === 'send') {
          if (s.sink) continue
          s.write()
        } else if (w.liveTimers().length) {
          w.elapse('wait' + i)
        }
        if (closed()) {
          c.check('idle', kind + ' early', last === null || w.ge0(lin(w.now).add(lin(last), -1).add(lin(ms), -1)), 'the stream is closed while the remote is heard', w)
        } else if (last !== null) c.check('idle', kind + ' timer', w.liveTimers().some((x) => w.ge0(lin(last).add(lin(ms)).add(lin(x.at), -1))), 'nothing will notice that the remote is silent', w)
      }
      if (last === null && !closed()) return
      let rounds = 0
      while (!closed() && rounds++ < 4) w.elapse('last' + rounds)
      if (!c.check('idle', kind, closed(), 'the remote is silent, and the stream is not closed', w)) return
      const p = s.posted()
      const f = p[p.length - 1]
      const idle = (e) => e instanceof Obj && sameStr(w.msg(e), 'ERR_STREAM_IDLE')
      c.check('idle', kind + ' error', f.closed === true && idle(f.error) && s.inn.st === 'failed' && idle(s.inn.err), () => 'the stream is closed with ' + text(f) + ', what is received is ' + s.inn.st + ' ' + show(s.inn.err), w)
      c.check('close', kind + ' timers', w.liveTimers().length === 0, 'a timer of a closed stream runs', w)
    })
    // nothing runs which was not asked for
    c.explore(kind + ': no timers', (w) => {
      const s = make(w, kind)
      s.write()
      s.recv({ ack: true, opened: true, data: w.opaque('d') })
      c.check('keepAlive', kind + ' off', w.liveTimers().length === 0, 'a timer runs which was not asked for', w)
    })
  }
  c.explore('newBroadcastChannelStream', (w) => {
    const made = []
    w.newEnv = (n, a) => {
      if (n !== 'BroadcastChannel') w.unsupported('new ' + n)
      const p = port(w, n, a[0])
      made.push(p)
      return p.obj
    }
    const [id, r, t] = ['local', w.str('read name'), w.str('write name')]
    const opts = pick(w, 'options', [undefined, { remoteOpen: true }])
    const s = w.fnCall(w.exported(CH, 'newBroadcastChannelStream'), id, r, t, ...(opts ? [w.object(opts)] : []))
    const by = (n) => made.filter((p) => sameStr(p.name, n))
    const p = by(t)[0]
    const m = (p?.posted ?? []).map((x) => says(w, x))
    c.check('hello', 'names', made.length === 2 && by(r).length === 1 && m.length === 1 && only(m[0], id, 'ack'), () => 'the channels are ' + made.map((x) => show(x.name) + ' with ' + x.posted.length + ' messages'), w)
    if (made.length !== 2 || !p) return
    c.check('negotiate', 'options', w.truthy(w.get(s, 'isOpen')) === !!opts, 'the options are lost', w)
    const inn = w.pump(w.get(s, 'source'))
    const d = w.opaque('data')
    by(r)[0].deliver(w.object({ from: 'remote', data: d }))
    c.check('receive', 'names', inn.items.length === 1 && inn.items[0] === d, 'what is sent to the channel to read is not received', w)
  })
}

export function watchdog(c) {
  c.rule('expire', 'the callback is called, once, when there was no feeding for the whole time, and not before')
  c.rule('running', 'while it is fed and not cleared a timer runs which is due not later than that time')
  c.rule('clear', 'after clearing, and before the first feeding, the callback is not called and no timer runs')
  c.explore('Watchdog', (w) => {
    w.clock()
    const ms = w.num('timeout', 1)
    const calls = []
    let dog
    let last = null // when it was fed, while it has to expire
    let inside = pick(w, 'in callback', ['nothing', 'feed', 'clear'])
    dog = w.make('srpc/watchdog.ts', 'Watchdog', ms, w.native('expired', () => {
      calls.push({ at: w.now, last })
      last = null
      if (inside === 'feed' && calls.length === 1) {
        last = w.now
        w.do(dog, 'feed')
      } else if (inside === 'clear') w.do(dog, 'clear')
    }))
    const look = (what) => {
      const t = w.liveTimers()
      if (last === null) c.check('clear', 'Watchdog', t.length === 0, () => what + ': a timer runs', w)
      else c.check('running', 'Watchdog', t.length > 0 && t.some((x) => w.ge0(lin(last).add(lin(ms)).add(lin(x.at), -1))), () => what + ': no timer runs which is due in time', w)
      for (const k of calls) c.check('expire', 'Watchdog', k.last !== null && w.ge0(lin(k.at).add(lin(k.last), -1).add(lin(ms), -1)), what + ': the callback is called before the time is over', w)
    }
    look('new')
    const n = 4
    for (let i = 0; i < n; i++) {
      const op = pick(w, 'operation' + i, ['feed', 'feed later', 'clear', 'wait'])
      if (op === 'feed' || op === 'feed later') {
        if (op === 'feed later') {
          const d = w.num('time' + i, 1)
          const t = w.liveTimers()[0]
          if (t) w.lins.push(lin(t.at).add(lin(w.now), -1).add(lin(d), -1))
          w.pass(d)
        }
        w.do(dog, 'feed')
        last = w.now
      } else if (op === 'clear') {
        w.do(dog, 'clear')
        last = null
      } else {
        const due = last
        const had = calls.length
        if (!w.elapse('wait' + i, true)) continue
        const over = due !== null && w.ge0(lin(w.now).add(lin(due), -1).add(lin(ms), -1))
        c.check('expire', 'once', calls.length === had + (over ? 1 : 0), () => 'the time is ' + (over ? '' : 'not ') + 'over, and the callback is called ' + (calls.length - had) + ' times', w)
      }
      look(op)
    }
  })
}
