// The client side: requests of the four kinds.
import { pick, body, packet, dataPacket, isEmptyBytes, nonEmptyStr, sameStr, sameBytes, falsy, show, Obj, Fn, abortSignal, packetStream } from './util.mjs'

const KINDS = ['request', 'clientStreamingRequest', 'serverStreamingRequest', 'bidirectionalStreamingRequest']

export function client(c) {
  c.rule('start', 'a request opens one stream and sends one start first, with its service and method and the single request (none if the requests are a stream)')
  c.rule('requests', 'a stream of requests is sent in order, each once, followed by the completion when it ends; when it fails the call is closed with its error')
  c.rule('response', 'the response, or every response in order as it comes, is delivered unchanged, also an empty one, and the responses end when the server completes')
  c.rule('empty', 'a request with a single response fails if the server completes, or the stream ends, without one')
  c.rule('error', 'the error of the server, of opening the stream, or of the stream is the error of the request')
  c.rule('abort', 'a request which is aborted fails with the abort error: before it opened a stream nothing is opened, while the stream is opened nothing is started, later the server is told; aborting a request which has ended does nothing')
  c.rule('release', 'when a request has ended, however it ended, what it sends has ended too, so that the stream can be closed')
  c.rule('wait', 'requests wait until there is a function to open streams and use the one which was set last')

  const scenario = (name, f, opts) => {
    for (const kind of opts?.kinds ?? KINDS)
      c.explore(kind + ': ' + name, (w) => {
        const s = { kind, opened: 0, many: kind === 'serverStreamingRequest' || kind === 'bidirectionalStreamingRequest', single: kind === 'request' || kind === 'serverStreamingRequest' }
        s.st = packetStream(w, opts)
        s.open = w.native('openStream', (t, a) => {
          s.opened++
          return s.opens ? s.opens() : w.promiseResolve(s.opened === 1 ? s.st.obj : packetStream(w).obj)
        })
        s.cl = opts?.late ? w.make('srpc/client.ts', 'Client') : w.make('srpc/client.ts', 'Client', s.open)
        s.svc = w.str('service')
        s.mtd = w.str('method')
        s.data = pick(w, 'message', opts?.late || opts?.one ? [() => w.someBytes('request')] : [() => w.someBytes('request'), () => w.bytesOf([])])()
        s.reqs = w.source('requests')
        s.go = (signal) => {
          const args = [s.svc, s.mtd, s.single ? s.data : s.reqs.obj]
          if (signal) args.push(signal.obj)
          const r = w.attempt(() => w.do(s.cl, kind, ...args))
          if (r.threw) {
            s.r = { st: 'rejected', v: r.e, items: [] }
            return
          }
          if (s.many) s.r = w.pump(r.v)
          else s.r = w.watch(r.v)
          s.st.sync()
        }
        // outcome of the request: pending, ok or the error
        s.outcome = () => {
          if (s.many) return s.r.st === 'open' ? { k: 'pending', n: s.r.items.length } : s.r.st === 'done' ? { k: 'ok', list: s.r.items } : { k: 'error', e: s.r.err }
          return s.r.st === 'pending' ? { k: 'pending', n: 0 } : s.r.st === 'fulfilled' ? { k: 'ok', list: [s.r.v] } : { k: 'error', e: s.r.v }
        }
        s.fails = (rule, want, what) => {
          const o = s.outcome()
          const m = o.k === 'error' ? w.msg(o.e) : undefined
          c.check(rule, kind, o.k === 'error' && (want instanceof Obj ? o.e === want || sameStr(m, w.msg(want)) : want === true ? nonEmptyStr(m) : sameStr(m, want)), () => what + ', and the request is ' + o.k + ' ' + show(o.e), w)
        }
        s.released = () => {
          s.st.sync()
          c.check('release', kind, s.st.out && s.st.out.st !== 'open', () => 'the request has ended, and what it sends has not: ' + s.st.packets().map((p) => p.case).join(', '), w)
        }
        s.startOk = (n) => {
          const p = s.st.packets()
          const q = p[0] ?? {}
          const okd = !s.single ? falsy(q.dataIsZero) && (q.data === undefined || isEmptyBytes(q.data)) : isEmptyBytes(s.data) ? q.dataIsZero === true && (q.data === undefined || isEmptyBytes(q.data)) : falsy(q.dataIsZero) && sameBytes(q.data, s.data)
          c.check('start', kind, s.opened === 1 && s.st.sunk === 1 && q.case === 'callStart' && sameStr(q.rpcService, s.svc) && sameStr(q.rpcMethod, s.mtd) && okd && p.filter((x) => x.case === 'callStart').length === 1, () => 'the call is started with ' + p.map((x) => x.case + ' ' + show(x.data)).join(', ') + ' on ' + s.opened + ' streams', w)
          if (n !== undefined) c.check('start', kind + ' alone', p.length === n, () => 'after its start the call sends ' + p.slice(1).map((x) => x.case).join(', '), w)
        }
        f(w, s, kind)
      })
  }
  const msg = (w, n) => pick(w, n, [() => w.someBytes(n), () => w.bytesOf([])])()
  const delivered = (list, want) => list.length === want.length && want.every((d, i) => (isEmptyBytes(d) ? isEmptyBytes(list[i]) : sameBytes(list[i], d)))

  // responses and the ends of a call
  scenario('responses', (w, s, kind) => {
    s.go()
    s.startOk(1)
    c.check('response', kind + ' waits', s.outcome().k === 'pending', 'the request ends before there is a response', w)
    const n = pick(w, 'responses', [0, 1, 2])
    const list = []
    const withLast = n > 0 && pick(w, 'completion', ['with the last', 'alone']) === 'with the last'
    const fin = withLast ? 'complete' : pick(w, 'end', ['complete', 'error', 'stream ends', 'stream fails', 'cancel'])
    for (let i = 0; i < n; i++) {
      list.push(msg(w, 'response' + i))
      s.st.data(list[i], withLast && i === n - 1)
      if (s.many && !withLast) c.check('response', kind + ' at once', s.r.items.length === i + 1, 'a response is not delivered when it comes', w)
    }
    const err = w.str('server error')
    const e = w.error('stream failed')
    if (fin === 'complete' && !withLast) s.st.data(undefined, true)
    if (fin === 'error') s.st.data(undefined, true, err)
    if (fin === 'stream ends') s.st.src.end()
    if (fin === 'stream fails') s.st.src.fail(e)
    if (fin === 'cancel') s.st.recv('callCancel', true)
    s.st.sync()
    const o = s.outcome()
    if (s.many) {
      c.check('response', kind, delivered(s.r.items, list), () => 'the responses ' + list.map((x) => show(x)) + ' are delivered as ' + s.r.items.map((x) => show(x)), w)
      if (fin === 'complete' || fin === 'stream ends') c.check('response', kind + ' end', o.k === 'ok', () => 'the responses do not end: ' + o.k + ' ' + show(o.e), w)
      else s.fails('error', fin === 'error' ? err : fin === 'stream fails' ? e : 'ERR_RPC_ABORT', 'the call failed')
    } else if (n > 0) {
      c.check('response', kind, o.k === 'ok' && delivered(o.list, list.slice(0, 1)), () => 'the response ' + show(list[0]) + ' is delivered as ' + o.k + ' ' + show(o.list?.[0] ?? o.e), w)
    } else if (fin === 'complete' || fin === 'stream ends') s.fails('empty', true, 'there was no response')
    else s.fails('error', fin === 'error' ? err : fin === 'stream fails' ? e : 'ERR_RPC_ABORT', 'the call failed')
    s.released()
    const bad = s.st.packets().slice(1).filter((p) => p.case !== 'callCancel' && !(p.case === 'callData' && p.complete && !falsy(p.error)))
    c.check('start', kind + ' after', bad.length === 0, () => 'the request sends ' + bad.map((p) => p.case).join(', ') + ' which was not asked for', w)
  })

  // streams of requests
  scenario('requests', (w, s, kind) => {
    s.go()
    s.startOk(1)
    const n = pick(w, 'requests', [0, 1, 2, 3])
    const list = []
    for (let i = 0; i < n; i++) {
      list.push(msg(w, 'request' + i))
      s.reqs.feed(list[i])
      s.st.sync()
      c.check('requests', kind + ' at once', s.st.packets().length === i + 2, 'a request is not sent when it comes', w)
    }
    const fin = pick(w, 'end', ['end', 'fail'])
    const e = w.error('requests failed')
    if (fin === 'end') s.reqs.end()
    else s.reqs.fail(e)
    s.st.sync()
    const p = s.st.packets().slice(1)
    c.check('requests', kind, p.length >= n && list.every((d, i) => dataPacket(w, p[i], { data: d }) === ''), () => 'the requests are sent as ' + p.map((x) => x.case + ' ' + show(x.data)).join(', '), w)
    if (fin === 'end') {
      c.check('requests', kind + ' end', p.length === n + 1 && dataPacket(w, p[n], { complete: true }) === '' && s.outcome().k === 'pending' && s.st.out.st === 'open', () => 'the end of the requests is not sent as one completion: ' + p.slice(n).map((x) => x.case).join(', ') + ' ' + s.outcome().k, w)
      const d = msg(w, 'response')
      s.st.data(d, false)
      s.st.data(undefined, true)
      const o = s.outcome()
      c.check('response', kind + ' after requests', o.k === 'ok' && delivered(o.list, [d]), () => 'the response is delivered as ' + o.k + ' ' + show(o.e), w)
      s.released()
    } else {
      c.check('requests', kind + ' failure', p.length === n + 1 && dataPacket(w, p[n], { complete: true, error: w.msg(e) }) === '', () => 'a failure of the requests is sent as ' + p.slice(n).map((x) => x.case).join(', '), w)
      s.fails('requests', e, 'the requests failed')
      s.released()
    }
  }, { kinds: ['clientStreamingRequest', 'bidirectionalStreamingRequest'] })

  // opening fails
  scenario('open fails', (w, s, kind) => {
    const e = w.error('open failed')
    const how = pick(w, 'open', ['rejects', 'throws', 'later'])
    const d = w.deferred()
    s.opens = () => {
      if (how === 'throws') throw new c.Thrown(e)
      if (how === 'rejects') d.reject(e)
      return d.p
    }
    s.go()
    if (how === 'later') {
      c.check('error', kind + ' open', s.outcome().k === 'pending', 'the request ends while its stream is opened', w)
      d.reject(e)
      w.drain()
    }
    s.fails('error', e, 'the stream could not be opened')
    c.check('start', kind + ' opens once', s.opened === 1, 'a stream is opened more than once', w)
  }, { one: true })
  // sending fails
  scenario('sink fails', (w, s, kind) => {
    s.go()
    s.startOk()
    const e = w.error('sink failed')
    s.st.done.reject(e)
    w.drain()
    s.fails('error', e, 'the packets could not be sent')
  }, { one: true })
  // ids
  scenario('without ids', (w, s, kind) => {
    const which = pick(w, 'missing', ['service', 'method'])
    if (which === 'service') s.svc = ''
    else s.mtd = ''
    s.go()
    s.fails('error', true, 'a call without ' + which + ' was asked for')
    c.check('start', kind + ' without ids', !s.st.packets().some((p) => p.case === 'callStart'), 'a call without ids is started', w)
    if (s.opened) s.released()
  }, { one: true })

  // abort
  scenario('abort', (w, s, kind) => {
    const when = pick(w, 'when', ['before', 'opening', 'running', 'after a response', 'after the end', 'never'])
    const sig = abortSignal(w, when === 'before')
    const d = w.deferred()
    if (when === 'opening') s.opens = () => d.p
    s.go(sig)
    if (when === 'before') {
      s.fails('abort', 'ERR_RPC_ABORT', 'it was aborted before it began')
      c.check('abort', kind + ' before', s.opened === 0, 'a stream is opened for a call which was aborted before', w)
      return
    }
    if (when === 'opening') {
      sig.abort()
      d.resolve(s.st.obj)
      s.st.sync()
      s.fails('abort', 'ERR_RPC_ABORT', 'it was aborted while its stream was opened')
      c.check('abort', kind + ' opening', !s.st.packets().some((p) => p.case === 'callStart'), 'a call which was aborted while its stream was opened is started', w)
      return s.released()
    }
    s.startOk(1)
    if (when === 'after a response' && !s.many) w.infeasible()
    const list = []
    if (when === 'after a response' || when === 'after the end' || when === 'never') {
      list.push(w.someBytes('response'))
      s.st.data(list[0], false)
      if (when !== 'after a response') {
        s.st.data(undefined, true)
        s.st.sync()
      }
    }
    const before = s.st.packets().length
    if (when !== 'never') sig.abort()
    s.st.sync()
    const o = s.outcome()
    if (when === 'after the end' || when === 'never') {
      c.check('abort', kind + ' ended', o.k === 'ok' && delivered(o.list, list) && s.st.packets().length === before, () => 'an abort after the end changes the outcome: ' + o.k, w)
      return s.released()
    }
    s.fails('abort', 'ERR_RPC_ABORT', 'it was aborted')
    if (s.many) c.check('response', kind + ' before abort', delivered(s.r.items, list), 'the responses before the abort are not delivered', w)
    const p = s.st.packets().slice(before)
    c.check('abort', kind + ' told', p.length >= 1 && p.every((x) => (x.case === 'callCancel' && x.value === true) || (x.case === 'callData' && x.complete && sameStr(x.error, 'ERR_RPC_ABORT'))), () => 'the server is not told that the call was aborted: ' + p.map((x) => x.case).join(', '), w)
    s.released()
  }, { one: true })

  // the function which opens streams
  scenario('open function', (w, s, kind) => {
    s.go()
    c.check('wait', kind + ' none', s.outcome().k === 'pending', 'a request ends although there is no function to open streams', w)
    const other = w.native('openOther', () => {
      s.other = true
      return w.newPromise()
    })
    w.do(s.cl, 'setOpenStreamFn', s.open)
    w.drain()
    s.startOk(1)
    const second = pick(w, 'second', ['other', 'none'])
    w.do(s.cl, 'setOpenStreamFn', second === 'other' ? other : undefined)
    w.watch(w.attempt(() => w.do(s.cl, 'request', w.str('s2'), w.str('m2'), w.someBytes('d2'))).v)
    w.drain()
    c.check('wait', kind + ' replaced', s.opened === 1 && !!s.other === (second === 'other'), 'a request does not use the function to open streams which was set last', w)
  }, { late: true })
}
