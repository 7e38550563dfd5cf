// Framing of packets on a stream of bytes, and the transforms of messages.
import { pick, sameBytes, show, Obj, Fn, Thrown } from './util.mjs'
import { lin, linEq, seqLen, isNum } from './frame.mjs'

const PK = 'srpc/packet.ts'

// u32 is any number of 32 bits, by its bytes.
function u32(w, name) {
  let r = lin(0)
  const bytes = []
  for (let i = 0; i < 4; i++) {
    const b = w.num(name + '.byte' + i, 0, 255)
    bytes.push(b.norm())
    r = r.add(b.scale(2 ** (8 * i)))
  }
  return { v: r.norm(), bytes }
}
const header = (w, n) => (typeof n.v === 'number' ? [n.v & 255, (n.v >>> 8) & 255, (n.v >>> 16) & 255, (n.v >>> 24) & 255] : n.bytes)
const listOf = (w, b) => {
  const l = w.u8list(b.seq)
  return l
}
// read runs an iterable which may be synchronous
const collect = (w, it) => w.pump(it)
const srcOf = (w, items) => w.arrayOf(items)

export function framing(c) {
  c.rule('encode', 'each packet is written as its length, as a number of four bytes, the lowest first, followed by its bytes; in order, each once, also an empty one')
  c.rule('decode', 'for every way to cut the stream into pieces each packet is delivered exactly once, in order and unchanged, as soon as its last byte has arrived')
  c.rule('end', 'the packets end with the stream; if it ends in the middle of a packet, or fails, so do they')
  c.rule('number', 'the numbers of four bytes are written and read the lowest byte first, for every number; a number out of too few bytes is refused')
  c.rule('stream', 'a stream is read and written as a stream of packets with this framing; it is closed when what is written into it ends or fails')
  c.rule('list', 'a list of pieces is combined into one array of the same bytes, an array is passed on')
  c.rule('message', 'messages are encoded and decoded one by one, in order, also those which come in an array; what can not be is an error')
  c.rule('queue', 'what is written to a queue is passed on in order and ends as its source does')

  // encoding
  for (const how of ['lengthPrefixEncode', 'prependLengthPrefixTransform'])
    c.explore('encode: ' + how, (w) => {
      const n = pick(w, 'packets', [0, 1, 2])
      const ps = []
      for (let i = 0; i < n; i++) {
        const b = pick(w, 'packet' + i, [() => w.bytesOf([]), () => { const l = u32(w, 'l' + i); w.lins.push(lin(l.v).add(lin(-1))); return w.someBytes('packet' + i, lin(l.v)) }])()
        ps.push(pick(w, 'as' + i, [() => b, () => listOf(w, b)])())
      }
      const src = w.source('packets')
      const it = how === 'lengthPrefixEncode' ? w.fnCall(w.exported(PK, how), src.obj, w.exported(PK, 'uint32LEEncode')) : w.fnCall(w.fnCall(w.exported(PK, how)), src.obj)
      const r = w.pump(it)
      w.drain()
      const want = (p) => w.bytesOf([{ k: 'vals', vals: w.u32bytes(seqLen(p.seq), true) }, ...p.seq])
      let out = []
      for (let i = 0; i < n; i++) {
        src.feed(ps[i])
        out = out.concat(want(ps[i]).seq)
        const got = r.items.flatMap((x) => (x instanceof Obj && x.seq ? x.seq : []))
        c.check('encode', how, sameBytes(w.bytesOf(got), w.bytesOf(out)), () => 'the packets ' + ps.map((x) => show(x)) + ' are written as ' + r.items.map((x) => show(x)), w)
      }
      const e = w.error('source failed')
      if (pick(w, 'end', [true, false])) {
        src.end()
        c.check('end', how, r.st === 'done', 'the bytes do not end when the packets do', w)
      } else {
        src.fail(e)
        c.check('end', how + ' failure', r.st === 'failed' && r.err === e, 'the failure of the packets is lost', w)
      }
      w.drain()
    })

  // decoding: two packets and every pair of cuts; the pieces before the first
  // cut bring the decoder into any state it can be in between two packets
  for (const how of ['lengthPrefixDecode', 'parseLengthPrefixTransform'])
    c.explore('decode: ' + how, (w) => {
      const P = ['h0', 'h1', 'h2', 'h3', 'h4', 'mid']
      const nf = 2
      const frames = []
      for (let i = 0; i < nf; i++) {
        const empty = pick(w, 'length' + i, ['some', 'zero']) === 'zero'
        const n = empty ? { v: 0 } : u32(w, 'length' + i)
        if (!empty) w.lins.push(lin(n.v).add(lin(-1)))
        frames.push({ n, empty, h: header(w, n), body: empty ? w.bytesOf([]) : w.someBytes('packet' + i, lin(n.v)) })
      }
      const pos = (x) => frames.slice(0, x.f)
      const place = (label, min) => {
        const all = []
        for (let f = 0; f < nf; f++) for (const p of P) all.push({ f, p, k: f * P.length + P.indexOf(p) })
        all.push({ f: nf, p: 'h0', k: nf * P.length })
        const ok = all.filter((x) => x.k >= min && !(x.p === 'mid' && frames[x.f].empty) && !(x.p === 'h4' && x.f < nf && frames[x.f].empty))
        return pick(w, label, ok)
      }
      const c1 = place('first cut', 0)
      const c2 = place('second cut', c1.k)
      if (c1.k === c2.k && c1.p !== 'mid') w.infeasible()
      // the bytes in pieces, cut at the places
      const chunk = [[], [], []]
      const mids = {}
      const seg = (ci, s) => chunk[ci].push(...(Array.isArray(s) ? s : [s]))
      const where = (k) => (k < c1.k ? 0 : k < c2.k ? 1 : 2)
      frames.forEach((fr, f) => {
        const base = f * P.length
        for (let i = 0; i < 4; i++) seg(where(base + i), { k: 'vals', vals: [fr.h[i]] })
        if (fr.empty) return
        // the body: before mid belongs to h4's piece, after it to mid's
        const m1 = c1.f === f && c1.p === 'mid'
        const m2 = c2.f === f && c2.p === 'mid'
        const cuts = []
        if (m1) cuts.push(0)
        if (m2) cuts.push(1)
        if (!cuts.length) return seg(where(base + 4), fr.body.seq)
        let rest = fr.body.seq
        let at = where(base + 4)
        let used = lin(0)
        for (const k of cuts) {
          const off = w.num('cut' + k + 'of' + f, 1)
          used = used.add(off)
          w.lins.push(lin(fr.n.v).add(used, -1).add(lin(-1)))
          const [a, b] = w.splitAt(rest, off.norm())
          seg(at, a)
          rest = b
          at = k + 1
        }
        seg(at, rest)
      })
      const kind = pick(w, 'pieces', ['arrays', 'lists'])
      const src = w.source('bytes')
      const it = how === 'lengthPrefixDecode' ? w.fnCall(w.exported(PK, how), src.obj, w.exported(PK, 'uint32LEDecode')) : w.fnCall(w.fnCall(w.exported(PK, how)), src.obj)
      const r = w.pump(it)
      w.drain()
      // complete after a piece: how many packets have all of their bytes
      const complete = [c1, c2, { f: nf }].map((x) => x.f)
      let fed = 0
      const ending = pick(w, 'end', ['all', 'after first', 'after second'])
      const stop = ending === 'after first' ? 1 : ending === 'after second' ? 2 : 3
      const snap = new Map()
      for (let i = 0; i < stop; i++) {
        const b = w.bytesOf(chunk[i])
        w.widen(null, snap)
        src.feed(kind === 'arrays' ? b : listOf(w, b))
        fed++
        const n = complete[i]
        c.check('decode', how, r.st === 'open' && r.items.length === n && r.items.every((x, j) => sameBytes(x, frames[j].body)), () => 'after a piece of the stream ' + r.items.length + ' of ' + n + ' packets are delivered: ' + r.items.map((x) => show(x)) + ' ' + r.st + ' ' + show(r.err), w)
        if (r.st !== 'open') return
      }
      const last = stop === 3 ? { p: 'h0' } : stop === 1 ? c1 : c2
      if (pick(w, 'how', ['ends', 'fails']) === 'fails') {
        const e = w.error('stream failed')
        src.fail(e)
        c.check('end', how + ' failure', r.st === 'failed' && r.err === e, 'the failure of the stream is lost', w)
      } else {
        src.end()
        if (last.p === 'h0') c.check('end', how, r.st === 'done', () => 'the packets do not end with the stream: ' + r.st + ' ' + show(r.err), w)
        else c.check('end', how + ' inside', r.st === 'failed' && w.isErr(r.err), 'the stream ended in the middle of a packet, and the packets end as if it were complete', w)
      }
    })

  // numbers
  c.explore('numbers', (w) => {
    const n = pick(w, 'number', [() => u32(w, 'n'), () => ({ v: 0 }), () => ({ v: 2 ** 32 - 1 }), () => ({ v: 2 ** 31 })])()
    const bytes = header(w, n)
    const b = w.bytesOf([{ k: 'vals', vals: bytes }])
    const more = pick(w, 'more', [() => [], () => w.someBytes('more').seq])()
    const e1 = w.fnCall(w.exported(PK, 'encodeUint32Le'), n.v)
    c.check('number', 'encodeUint32Le', sameBytes(e1, b), () => show(n.v) + ' is written as ' + show(e1), w)
    const e2 = w.fnCall(w.exported(PK, 'uint32LEEncode'), n.v)
    c.check('number', 'uint32LEEncode', sameBytes(e2, b), () => show(n.v) + ' is written as ' + show(e2), w)
    const d1 = w.fnCall(w.exported(PK, 'decodeUint32Le'), b)
    c.check('number', 'decodeUint32Le', isNum(d1) && linEq(d1, n.v), () => show(b) + ' is read as ' + show(d1), w)
    const d2 = w.fnCall(w.exported(PK, 'uint32LEDecode'), w.u8list([...b.seq, ...more]))
    c.check('number', 'uint32LEDecode', isNum(d2) && linEq(d2, n.v), () => show(b) + ' is read as ' + show(d2), w)
    for (const f of ['uint32LEDecode', 'uint32LEEncode']) c.check('number', f + '.bytes', w.get(w.exported(PK, f), 'bytes') === 4, 'the length of a length is not 4', w)
    // too few
    const k = pick(w, 'few', [0, 1, 2, 3])
    const few = bytes.slice(0, k)
    const r = w.attempt(() => w.fnCall(w.exported(PK, 'uint32LEDecode'), w.u8list([{ k: 'vals', vals: few }])))
    c.check('number', 'too few', r.threw === true, 'a number is read out of too few bytes', w)
  })
  c.explore('prependPacketLen', (w) => {
    const p = pick(w, 'packet', [() => w.bytesOf([]), () => { const l = u32(w, 'l'); w.lins.push(lin(l.v).add(lin(-1))); return w.someBytes('packet', lin(l.v)) }])()
    const r = w.fnCall(w.exported(PK, 'prependPacketLen'), p)
    const want = w.bytesOf([{ k: 'vals', vals: w.u32bytes(seqLen(p.seq), true) }, ...p.seq])
    c.check('encode', 'prependPacketLen', sameBytes(r, want) && r.cls === 'Uint8Array', () => 'a packet is written as ' + show(r), w)
  })

  // lists
  c.explore('lists', (w) => {
    const b = pick(w, 'bytes', [() => w.bytesOf([]), () => w.someBytes('a')])()
    const x = pick(w, 'as', [() => b, () => listOf(w, w.bytesOf([...b.seq, ...w.someBytes('b').seq]))])()
    const src = w.source('pieces')
    const r = w.pump(w.fnCall(w.fnCall(w.exported('srpc/array-list.ts', 'combineUint8ArrayListTransform')), src.obj))
    src.feed(x)
    c.check('list', 'combine', r.items.length === 1 && r.items[0].cls === 'Uint8Array' && sameBytes(r.items[0], x), () => show(x) + ' becomes ' + r.items.map((y) => show(y)), w)
    const e = w.error('failed')
    if (pick(w, 'end', [true, false])) {
      src.end()
      c.check('end', 'combine', r.st === 'done', 'the arrays do not end with the lists', w)
    } else {
      src.fail(e)
      c.check('end', 'combine failure', r.st === 'failed' && r.err === e, 'the failure of the lists is lost', w)
    }
  })

  // streams
  c.explore('stream', (w) => {
    const src = w.source('bytes in')
    const closes = []
    let out = null
    const done = w.deferred()
    const stream = w.object({ source: src.obj })
    w.def(stream, 'sink', w.native('sink', (t, a) => {
      out = w.pump(a[0])
      return done.p
    }))
    const cl = (name) => w.native(name, (t, a) => {
      closes.push({ name, a })
      const d = w.deferred()
      d.resolve(undefined)
      return d.p
    })
    w.def(stream, 'close', cl('close'))
    w.def(stream, 'abort', cl('abort'))
    const ps = w.fnCall(w.exported('srpc/stream.ts', 'streamToPacketStream'), stream)
    const inn = w.pump(w.get(ps, 'source'))
    w.drain()
    const n = u32(w, 'n')
    w.lins.push(lin(n.v).add(lin(-1)))
    const p = w.someBytes('packet in', lin(n.v))
    src.feed(w.bytesOf([{ k: 'vals', vals: n.bytes.slice(0, 2) }]))
    src.feed(w.bytesOf([{ k: 'vals', vals: n.bytes.slice(2) }, ...p.seq]))
    c.check('stream', 'read', inn.items.length === 1 && inn.items[0].cls === 'Uint8Array' && sameBytes(inn.items[0], p), () => 'a packet of the stream is read as ' + inn.items.map((x) => show(x)), w)
    c.check('stream', 'not closed', closes.length === 0, 'the stream is closed while it is read', w)
    const user = w.source('packets out')
    const r = w.watch(w.do(ps, 'sink', user.obj))
    w.drain()
    const q = w.someBytes('packet out')
    user.feed(q)
    const got = (out?.items ?? []).flatMap((x) => x.seq ?? [])
    c.check('stream', 'write', sameBytes(w.bytesOf(got), w.bytesOf([{ k: 'vals', vals: w.u32bytes(seqLen(q.seq), true) }, ...q.seq])), () => 'a packet is written to the stream as ' + (out?.items ?? []).map((x) => show(x)), w)
    c.check('stream', 'not closed while written', closes.length === 0, 'the stream is closed while it is written', w)
    c.check('stream', 'sink waits', r.st === 'pending', 'writing to the stream returns while there is more to write', w)
    const how = pick(w, 'end', ['ends', 'source fails', 'sink fails'])
    const e = w.error('failed')
    if (how === 'ends') user.end()
    else if (how === 'source fails') user.fail(e)
    if (how === 'sink fails') done.reject(e)
    else if (out?.st === 'failed') done.reject(out.err)
    else if (out?.st === 'done') done.resolve(undefined)
    w.drain()
    c.check('stream', 'close', closes.length >= 1, () => 'the stream is not closed when what is written into it ' + how, w)
    c.check('stream', 'sink returns', r.st !== 'pending', 'writing to the stream does not return', w)
  })

  // messages
  c.explore('messages', (w) => {
    const T = w.messageType(w.object({ typeName: 'test.T' }))
    const dir = pick(w, 'direction', ['decode', 'encode'])
    const mk = (n) => (dir === 'decode' ? w.someBytes(n) : w.opaque(n))
    const f = w.fnCall(w.exported('srpc/message.ts', dir === 'decode' ? 'buildDecodeMessageTransform' : 'buildEncodeMessageTransform'), T)
    const src = w.source('messages')
    const r = w.pump(w.fnCall(f, src.obj))
    w.drain()
    const all = []
    const n = pick(w, 'items', [1, 2])
    for (let i = 0; i < n; i++) {
      const items = pick(w, 'item' + i, [() => [mk('m' + i)], () => [mk('a' + i), mk('b' + i)], () => [], () => [dir === 'decode' ? w.bytesOf([]) : mk('single' + i)]])()
      const array = items.length !== 1 || pick(w, 'array' + i, [false, true])
      src.feed(array ? w.arrayOf(items) : items[0])
      all.push(...items)
      const same = (x, m) => x instanceof Obj && (dir === 'decode' ? x.decodedFrom?.type === T && x.decodedFrom.bytes === m : x.encodes?.type === T && x.encodes.msg === m)
      c.check('message', dir, r.items.length === all.length && all.every((m, j) => same(r.items[j], m)), () => dir + ' of ' + all.map((x) => show(x)) + ' gives ' + r.items.map((x) => show(x)), w)
    }
    const e = w.error('failed')
    const how = pick(w, 'end', ['ends', 'fails', 'bad'])
    if (how === 'ends') {
      src.end()
      c.check('message', dir + ' end', r.st === 'done', 'the messages do not end with their source', w)
    } else if (how === 'fails') {
      src.fail(e)
      c.check('message', dir + ' failure', r.st === 'failed' && r.err === e, 'the failure of the source is lost', w)
    } else {
      const b = mk('bad')
      b.badDec = b.badEnc = e
      src.feed(b)
      c.check('message', dir + ' bad', r.st === 'failed' && r.err === e && r.items.length === all.length, 'a message which can not be converted is no error', w)
    }
  })

  // queues
  c.explore('queues', (w) => {
    const make = w.exported('srpc/pushable.ts', 'messagePushable')
    const q = w.fnCall(make)
    const out = w.pump(q)
    const how = pick(w, 'function', ['writeToPushable', 'buildPushableSink', 'sync source'])
    const items = [w.opaque('a'), w.opaque('b')]
    if (how === 'sync source') {
      const r = w.watch(w.fnCall(w.fnCall(w.exported('srpc/pushable.ts', 'buildPushableSink'), q), w.arrayOf(items)))
      w.drain()
      c.check('queue', how, r.st === 'fulfilled' && out.st === 'done' && out.items.length === 2 && out.items.every((x, i) => x === items[i]), () => 'the queue has ' + out.items.length + ' items and is ' + out.st, w)
      return
    }
    const src = w.source('items')
    const r = w.watch(how === 'writeToPushable' ? w.fnCall(w.exported('srpc/pushable.ts', how), src.obj, q) : w.fnCall(w.fnCall(w.exported('srpc/pushable.ts', how), q), src.obj))
    w.drain()
    items.forEach((x, i) => {
      src.feed(x)
      c.check('queue', how + ' at once', out.items.length === i + 1 && out.items[i] === x, 'an item is not passed on when it comes', w)
    })
    const e = w.error('failed')
    if (pick(w, 'end', [true, false])) {
      src.end()
      c.check('queue', how + ' end', out.st === 'done' && r.st === 'fulfilled', 'the queue does not end with its source', w)
    } else {
      src.fail(e)
      c.check('queue', how + ' failure', out.st === 'failed' && out.err === e && r.st === 'fulfilled', 'the failure of the source is lost, or thrown', w)
    }
  })
}
