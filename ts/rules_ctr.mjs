// Containers of values which are set later, and errors.
import { pick, nonEmptyStr, sameStr, falsy, show, Obj, Thrown } from './util.mjs'

export function containers(c) {
  c.rule('value', 'the container has the value it was made with or which was set last, whatever the value is')
  c.rule('wait', 'who waits gets the value at once if there is one, and otherwise the first which is set; each exactly once')
  c.rule('open', 'the function of a container waits for the function which is set, calls the one which is there now, with what it was given, and returns what it returns')
  c.rule('abort', 'exactly an object with the text of the error is recognised as that error, and nothing makes the question fail')
  c.rule('cast', 'anything thrown becomes an error with a text: an error stays itself, a text becomes its message')

  const values = (w, n) => pick(w, n, [() => w.opaque('value ' + n), () => 0, () => false, () => ''])()
  c.explore('ValueCtr', (w) => {
    const init = pick(w, 'initial', [() => ({ none: true }), () => ({ v: undefined }), () => ({ v: values(w, 'initial value') })])()
    const ctr = init.none ? w.make('srpc/value-ctr.ts', 'ValueCtr') : w.make('srpc/value-ctr.ts', 'ValueCtr', init.v)
    let cur = init.v
    const waiting = []
    const has = (what) => c.check('value', what, w.get(ctr, 'value') === cur, () => 'the value is ' + show(w.get(ctr, 'value')) + ' and not ' + show(cur), w)
    const look = () => {
      for (const x of waiting) {
        const got = x.r ? (x.r.st === 'fulfilled' ? [x.r.v] : x.r.st === 'rejected' ? ['rejected'] : []) : x.got
        c.check('wait', x.how, x.has ? got.length === 1 && got[0] === x.want : got.length === 0, () => 'who waits gets ' + got.map((y) => show(y)) + ' and not ' + (x.has ? show(x.want) : 'nothing'), w)
      }
    }
    has('initial')
    const n = pick(w, 'operations', [1, 2, 3])
    for (let i = 0; i < n; i++) {
      const op = pick(w, 'operation' + i, ['set', 'clear', 'wait', 'callback'])
      if (op === 'set') {
        cur = values(w, 'set' + i)
        w.do(ctr, 'set', cur)
        for (const x of waiting) if (!x.has) Object.assign(x, { has: true, want: cur })
      } else if (op === 'clear') {
        cur = undefined
        w.do(ctr, 'set', undefined)
      } else {
        const x = { how: op, has: cur !== undefined, want: cur }
        if (op === 'wait') x.r = w.watch(w.do(ctr, 'wait'))
        else {
          x.got = []
          w.do(ctr, 'waitWithCb', w.native('callback', (t, a) => void x.got.push(a[0])))
        }
        waiting.push(x)
      }
      // others run before the next operation, or not
      if (i === n - 1 || pick(w, 'pause' + i, [false, true])) w.drain()
      has('set')
    }
    look()
  })
  // a callback which waits again gets the next value
  c.explore('ValueCtr again', (w) => {
    const ctr = w.make('srpc/value-ctr.ts', 'ValueCtr')
    const got = []
    const cb = w.native('callback', (t, a) => {
      got.push(a[0])
      if (got.length === 1) {
        w.do(ctr, 'set', undefined)
        w.do(ctr, 'waitWithCb', cb)
      }
    })
    w.do(ctr, 'waitWithCb', cb)
    const v1 = w.opaque('first')
    const v2 = w.opaque('second')
    w.do(ctr, 'set', v1)
    c.check('wait', 'again', got.length === 1 && got[0] === v1, 'a callback does not get the value once', w)
    w.do(ctr, 'set', v2)
    c.check('wait', 'again', got.length === 2 && got[1] === v2, 'a callback which waits again does not get the next value', w)
  })
  for (const [file, cls, prop, args] of [['srpc/open-stream-ctr.ts', 'OpenStreamCtr', 'openStreamFunc', 0], ['srpc/handle-stream-ctr.ts', 'HandleStreamCtr', 'handleStreamFunc', 1]])
    c.explore(cls, (w) => {
      const calls = []
      const mk = (n) => {
        const f = { d: w.deferred() }
        f.fn = w.native(n, (t, a) => {
          calls.push({ f, a })
          if (f.throws) throw new Thrown(f.throws)
          return f.d.p
        })
        return f
      }
      const one = mk('one')
      const two = mk('two')
      const when = pick(w, 'set', ['made with', 'before', 'after', 'changed', 'removed'])
      const ctr = when === 'made with' ? w.make(file, cls, one.fn) : w.make(file, cls)
      if (when === 'before' || when === 'changed') w.do(ctr, 'set', one.fn)
      const early = pick(w, 'function', ['before the value', 'after'])
      let fn
      if (early === 'before the value') fn = w.get(ctr, prop)
      if (when === 'changed') w.do(ctr, 'set', two.fn)
      if (when === 'removed') {
        w.do(ctr, 'set', one.fn)
        w.do(ctr, 'set', undefined)
      }
      fn ??= w.get(ctr, prop)
      c.check('open', cls + ' not before', calls.length === 0, 'a stream is opened before one is asked for', w)
      const st = w.opaque('stream')
      const f = when === 'changed' || when === 'removed' ? two : one
      const how = pick(w, 'outcome', ['returns', 'rejects', 'throws'])
      const e = w.error('failed')
      if (how === 'throws') f.throws = e
      const r = w.watch(w.fnCall(fn, ...(args ? [st] : [])))
      w.drain()
      if (when === 'after' || when === 'removed') {
        c.check('open', cls + ' waits', r.st === 'pending' && calls.length === 0, 'there is no function, and it does not wait for one', w)
        w.do(ctr, 'set', f.fn)
        w.drain()
      }
      c.check('open', cls, calls.length === 1 && calls[0].f === f && (!args || calls[0].a[0] === st), () => calls.length + ' calls, or not of the function which is set', w)
      const v = w.opaque('result')
      if (how === 'returns') f.d.resolve(v)
      else if (how === 'rejects') f.d.reject(e)
      w.drain()
      c.check('open', cls + ' result', how === 'returns' ? r.st === 'fulfilled' && r.v === v : r.st === 'rejected' && r.v === e, () => 'the function ' + how + ' and the result is ' + r.st + ' ' + show(r.v), w)
      if (how === 'returns' && pick(w, 'again', [false, true])) {
        w.fnCall(fn, ...(args ? [st] : []))
        w.drain()
        c.check('open', cls + ' again', calls.length === 2 && calls[1].f === f, 'a second stream is not a second call', w)
      }
    })

  // errors
  const odd = (w) =>
    pick(w, 'thrown', [
      () => undefined,
      () => null,
      () => '',
      () => 0,
      () => false,
      () => 7,
      () => true,
      () => w.str('text'),
      () => w.object({}),
      () => w.error('other'),
      () => w.construct(w.genv.vars.get('Error').v, []),
      () => w.arrayOf([]),
    ])()
  for (const [fn, text] of [['isAbortError', 'ERR_RPC_ABORT'], ['isStreamIdleError', 'ERR_STREAM_IDLE']])
    c.explore(fn, (w) => {
      const t = w.exported('srpc/errors.ts', text)
      c.check('abort', text, t === text, () => 'the text of the error is ' + show(t), w)
      const same = pick(w, 'kind', ['odd', 'error', 'object'])
      const other = text === 'ERR_RPC_ABORT' ? 'ERR_STREAM_IDLE' : 'ERR_RPC_ABORT'
      const v = same === 'odd' ? pick(w, 'other', [() => odd(w), () => w.construct(w.genv.vars.get('Error').v, [other])])() : same === 'error' ? w.construct(w.genv.vars.get('Error').v, [text]) : w.object({ message: text })
      const r = w.attempt(() => w.fnCall(w.exported('srpc/errors.ts', fn), v))
      c.check('abort', fn, !r.threw && r.v === (v instanceof Obj && sameStr(w.msg(v), text)), () => fn + ' of ' + show(v) + ' is ' + (r.threw ? 'an exception' : show(r.v)), w)
    })
  c.explore('castToError', (w) => {
    const v = pick(w, 'kind', [() => odd(w), () => w.object({ message: w.str('message') })])()
    const d = pick(w, 'default', [() => undefined, () => w.str('default')])()
    const r = w.attempt(() => w.fnCall(w.exported('srpc/errors.ts', 'castToError'), v, d))
    const m = r.threw ? undefined : w.msg(r.v)
    if (!c.check('cast', 'castToError', !r.threw && r.v instanceof Obj && nonEmptyStr(m), () => show(v) + ' becomes ' + show(r.threw ? r.e : r.v), w)) return
    if (v instanceof Obj && nonEmptyStr(w.msg(v))) c.check('cast', 'error', r.v === v, 'an error does not stay itself', w)
    else c.check('cast', 'new', w.isErr(r.v), 'what was thrown does not become an error', w)
    if (nonEmptyStr(v)) c.check('cast', 'text', sameStr(m, v), () => 'the text ' + show(v) + ' becomes ' + show(m), w)
    if (v === undefined || v === null || v === '') c.check('cast', 'default', d === undefined || sameStr(m, d), () => 'the default text is ' + show(m), w)
  })
}
