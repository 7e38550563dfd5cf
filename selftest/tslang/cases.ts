// Snippets whose results the analyser has to agree with node on.
export const t: Record<string, () => any> = {}
const log: any[] = []
t.labels = () => {
  const r: number[] = []
  outer: for (let i = 0; i < 3; i++) {
    for (let j = 0; j < 3; j++) {
      if (j === 2) continue outer
      if (i === 2) break outer
      r.push(i * 10 + j)
    }
  }
  return r
}
t.switchFall = () => {
  const f = (x: any) => {
    let r = ''
    switch (x) {
      case 1:
        r += 'a'
      case 2:
        r += 'b'
        break
      default:
        r += 'd'
      case 3:
        r += 'c'
    }
    return r
  }
  return [1, 2, 3, 4, 'x'].map(f)
}
t.destructure = () => {
  const { a, b: { c = 5, ...d } = {} as any, ...e } = { a: 1, b: { x: 2, y: 3 }, z: 9, w: 8 } as any
  const [p, , q = 7, ...r] = [1, 2, undefined, 4, 5]
  let m = 1
  let n = 2
  ;[m, n] = [n, m]
  const f = ({ k = 1, l }: any = {}, [o]: any = [3]) => [k, l, o]
  return [a, c, d, e, p, q, r, m, n, f(), f({ l: 2 }, [9])]
}
t.spread = () => {
  const f = (...a: any[]) => a.length
  const x = [1, 2]
  return [f(...x, 3, ...[4, 5]), { ...{ a: 1, b: 2 }, b: 3 }, [...x, ...'ab'], Math.max(...x)]
}
t.optional = () => {
  const o: any = { f: () => 1, n: null, a: [1] }
  return [o?.f?.(), o.g?.(), o.n?.x.y.z, o.a?.[0], o.q?.[0], o.n ?? 5, o.z ?? 'd', (o.k ??= 4), (o.k ||= 5), (o.k &&= 6), delete o.k, 'k' in o, o.f !== undefined]
}
t.generators = () => {
  function* g(): any {
    const x = yield 1
    yield x * 2
    try {
      yield* h()
    } finally {
      log.push('fin')
    }
    return 9
  }
  function* h() {
    yield 'a'
    yield 'b'
    return 'c'
  }
  const it = g()
  const r: any[] = [it.next(), it.next(21), it.next(), it.return(5), it.next()]
  const all = [...h()]
  const obj = {
    *[Symbol.iterator]() {
      yield 1
      yield 2
    },
  }
  const s = []
  for (const x of obj) s.push(x)
  const [first] = obj as any
  return [r, all, s, first, log.splice(0)]
}
class A {
  static count = 0
  static make() {
    return new this()
  }
  #secret = 4
  x = 1
  protected readonly y: number
  constructor(public z = 3) {
    this.y = 2
    A.count++
  }
  get sum() {
    return this.x + this.y + this.z + this.#secret
  }
  set sum(v) {
    this.x = v
  }
  #priv() {
    return this.#secret * 2
  }
  call() {
    return this.#priv()
  }
  arrow = () => this.x
  has(o: any) {
    return #secret in o
  }
}
class B extends A {
  x = 10
  constructor() {
    super(30)
  }
  get sum() {
    return super.sum + 1000
  }
  set sum(v) {
    super.sum = v
  }
  call() {
    return super.call() + 1
  }
}
t.classes = () => {
  const a = new A()
  const b = new B()
  a.sum = 100
  const f = b.arrow
  return [a.sum, b.sum, a.call(), b.call(), A.count, B.make() instanceof B, f(), a.has(b), a.has({}), b instanceof A, Object.getPrototypeOf(b) === B.prototype, b.constructor.name, typeof A]
}
t.arrays = () => {
  const a = [5, 3, 8, 1]
  const c = [...a]
  return [
    a.map((x, i) => x * i), a.filter((x) => x > 2), a.reduce((s, x) => s + x), a.reduce((s, x) => s + x, 10), a.some((x) => x > 7), a.every((x) => x > 7),
    a.find((x) => x > 5), a.findIndex((x) => x === 8), a.indexOf(8), a.includes(3), a.slice(1, -1), a.concat([9], 10 as any), a.join('-'), [[1], [2, [3]]].flat(),
    a.flatMap((x) => [x, x]), a.at(-1), c.splice(1, 2), c, c.push(7, 8), c.pop(), c.shift(), c.unshift(0), c.reverse(), [...a.entries()], [...a.keys()],
    Array.from({ length: 3 }, (_, i) => i), Array.of(1, 2), Array.isArray(a), new Array(3).fill(0), [3, 1, 2].sort(), [3, 1, 2].sort((x, y) => y - x), a.length, a.lastIndexOf(1), a.findLast((x) => x > 4),
  ]
}
t.objects = () => {
  const o: any = { a: 1, b: 2, get c() { return 3 } }
  Object.defineProperty(o, 'h', { value: 7, enumerable: false })
  const k = []
  for (const x in o) k.push(x)
  return [Object.keys(o), Object.values(o), Object.entries(o), Object.assign({}, o, { d: 4 }), Object.fromEntries([['x', 1]]), k, o.h, Object.hasOwn(o, 'a'), o.hasOwnProperty('z'), Object.freeze({ q: 1 }), 'a' in o, { ['x' + 1]: 2 }, Object.create({ p: 1 }).p]
}
t.mapsets = () => {
  const m = new Map<any, any>([['a', 1]])
  m.set('b', 2).set('c', 3)
  m.delete('a')
  const s = new Set([1, 2, 2, 3])
  const r: any[] = []
  m.forEach((v, k) => r.push([k, v]))
  for (const [k, v] of m) r.push(k + v)
  const w = new WeakMap()
  const key = {}
  w.set(key, 5)
  return [m.size, m.get('b'), m.has('a'), r, [...m.keys()], [...m.values()], [...m.entries()], s.size, [...s], s.has(2), s.add(9).size, s.delete(1), [...s], w.get(key), w.has({}), Array.from(s, (x) => x * 2)]
}
t.strings = () => ['abc'.length, 'abc'[1], 'abc'.charCodeAt(0), 'a,b'.split(','), 'Abc'.toLowerCase(), 'abc'.toUpperCase(), ' x '.trim(), 'abc'.slice(1), 'abc'.substring(0, 2), 'abc'.indexOf('c'), 'abc'.includes('b'), 'abc'.startsWith('ab'), 'abc'.endsWith('bc'), 'aXbX'.replace('X', '-'), 'ab'.repeat(2), `a${1 + 1}b`, 'a' + 1 + null + undefined + true, 'abc'.at(-1), '5'.padStart(3, '0'), 'a' < 'b', String(5), 'abc'.concat('d'), 'x'.charAt(0)]
t.numbers = () => [7 % 3, 2 ** 5, 7 / 2, Math.floor(3.7), Math.min(1, 2), Math.abs(-3), 5 & 3, 5 | 3, 5 ^ 3, ~5, 1 << 4, -8 >> 1, -8 >>> 28, Number('5'), parseInt('12'), Number.isInteger(5), isNaN(NaN), Number.isNaN(3), +true, -'3', 0.1 + 0.2, 0xff, 1e3, (255).toString(16), 5 == ('5' as any), null == undefined, null === (undefined as any), NaN === NaN, Number.MAX_SAFE_INTEGER, Infinity, Math.ceil(1.2), Math.round(1.5), Math.trunc(-1.5), Math.sign(-4)]
t.types = () => [typeof 1, typeof 'a', typeof undefined, typeof null, typeof {}, typeof (() => 1), typeof Symbol(), typeof true, void 0, !0, !!'a', (1, 2), [] instanceof Array, typeof 5n]
enum Color { Red, Green = 5, Blue }
enum Name { A = 'a', B = 'b' }
t.enums = () => [Color.Red, Color.Blue, Color[5], Name.B, Object.keys(Name)]
t.errors = () => {
  class MyError extends Error {
    constructor(m: string, public code = 1) {
      super(m)
      this.name = 'MyError'
    }
  }
  const r: any[] = []
  try {
    throw new MyError('x')
  } catch (e: any) {
    r.push(e.message, e.name, e.code, e instanceof MyError, e instanceof Error, String(e))
  } finally {
    r.push('f')
  }
  const f = () => {
    try {
      return 1
    } finally {
      r.push('g')
    }
  }
  r.push(f())
  const g = () => {
    for (const x of [1, 2]) {
      try {
        continue
      } finally {
        r.push(x)
      }
    }
    try {
      throw 1
    } catch {
      return 'c'
    }
  }
  r.push(g())
  try {
    ;(null as any).x
  } catch (e: any) {
    r.push(e instanceof TypeError)
  }
  try {
    ;(undefined as any)()
  } catch (e: any) {
    r.push(e instanceof TypeError)
  }
  r.push(new Error('a', { cause: 5 }).cause)
  return r
}
t.closures = () => {
  const fs: any[] = []
  for (let i = 0; i < 3; i++) fs.push(() => i)
  var v = 1
  {
    var v = 2
  }
  function hoisted() {
    return inner()
    function inner() {
      return 'in'
    }
  }
  const counter = (() => {
    let c = 0
    return { inc: () => ++c, dec: () => c--, get: () => c }
  })()
  counter.inc()
  counter.inc()
  counter.dec()
  return [fs.map((f) => f()), v, hoisted(), counter.get(), (function (this: any) { return arguments.length }).call(null, 1, 2), (function (this: any, a: any) { return this.q + a }).apply({ q: 1 }, [2]), (function (this: any, a: any, b: any) { return [this.q, a, b] }).bind({ q: 1 }, 2)(3)]
}
t.loops = () => {
  let i = 0
  const r = []
  do {
    r.push(i++)
  } while (i < 3)
  while (true) {
    if (--i < 0) break
  }
  for (; i < 2; ) i += 2
  for (const [k, v] of Object.entries({ a: 1 })) r.push(k, v)
  for (const x of new Set(['s'])) r.push(x)
  for (var q = 0, w = 5; q < w; q++, w--);
  return [r, i, q, w]
}
t.bytes = () => {
  const u = new Uint8Array([1, 2, 3, 4])
  const d = new DataView(u.buffer, u.byteOffset, 4)
  const v = new Uint8Array(6)
  v.set(u, 1)
  v[5] = 300
  const n = new Uint8Array(4)
  new DataView(n.buffer).setUint32(0, 258, true)
  return [u.length, [...u.subarray(1, 3)], [...u.slice(2)], d.getUint32(0, true), d.getUint16(1), [...v], [...n], Array.from(u), u.byteLength, [...Uint8Array.of(9)], [...new Uint8Array(2).fill(7)], u.at(-1), u instanceof Uint8Array]
}
t.promises = async () => {
  const r: any[] = []
  const p = Promise.resolve(1)
  p.then((x) => r.push('then' + x))
  queueMicrotask(() => r.push('micro'))
  await null
  r.push('after')
  const [a, b] = await Promise.all([p, 2])
  const s = await Promise.allSettled([Promise.reject(new Error('x')), 3])
  const w = await Promise.race([new Promise((res) => setTimeout(() => res('slow'), 5)), 'fast'])
  const any = await Promise.any([Promise.reject(1), Promise.resolve(4)])
  const c = await Promise.reject(new Error('c')).catch((e) => e.message)
  const f = await Promise.resolve(5).finally(() => r.push('fin'))
  const th = await { then: (ok: any) => ok('thenable') }
  let res: any
  const np = new Promise((a) => (res = a))
  res(Promise.resolve('nested'))
  return [r, a, b, s.map((x) => x.status), w, any, c, f, th, await np, await (async () => { try { await Promise.reject(1) } catch (e) { return e } finally { r.push('z') } })()]
}
t.asyncgen = async () => {
  const r: any[] = []
  async function* g() {
    try {
      yield 1
      const x: any = yield Promise.resolve(2)
      r.push(x)
      yield* inner()
      yield 5
    } finally {
      r.push('cleanup')
    }
  }
  async function* inner() {
    yield 3
    yield 4
  }
  for await (const x of g()) {
    r.push(x)
    if (x === 4) break
  }
  for await (const x of [Promise.resolve('p'), 'q']) r.push(x)
  const it = g()
  r.push(await it.next(), await it.return(7 as any), await it.next())
  const bad = (async function* () { throw new Error('bad') })()
  try {
    for await (const _ of bad);
  } catch (e: any) {
    r.push(e.message)
  }
  const obj = { async *[Symbol.asyncIterator]() { yield 'o' } }
  for await (const x of obj) r.push(x)
  return r
}
t.order = async () => {
  const r: any[] = []
  const a = async (n: string) => {
    r.push(n + 1)
    await null
    r.push(n + 2)
    await new Promise<void>((x) => x())
    r.push(n + 3)
  }
  const x = a('x')
  const y = a('y')
  Promise.resolve().then(() => r.push('t1')).then(() => r.push('t2')).then(() => r.push('t3'))
  await Promise.all([x, y])
  return r
}
t.symbols = () => {
  const s = Symbol('d')
  const o = { [s]: 1, [Symbol.toStringTag]: 'X' }
  return [o[s], Symbol.for('a') === Symbol.for('a'), Object.keys(o).length, typeof Symbol.iterator]
}
t.misc = () => {
  const o: any = { n: 1, toString: () => 'str', f(this: any) { return this.n } }
  const tag = (s: any, ...v: any[]) => s.join('|') + v.join()
  let u
  u ??= 3
  let z = 5
  z **= 2
  z <<= 1
  z %= 7
  const acc = { get a() { return 1 }, set a(v) {} }
  return [o.f(), (0, o.f).call({ n: 2 }), tag`a${1}b${2}c`, u, z, acc.a, JSON.stringify({ a: [1, 'x', null] }), [1, [2, 3]].toString(), isFinite(3), structuredClone({ a: [1] }), Number.parseInt('7'), [..."hé"].length, globalThis === globalThis]
}
t.timers = async () => {
  const r: any[] = []
  const x = setTimeout(() => r.push('never'), 1)
  clearTimeout(x)
  setTimeout((a: any) => r.push(a), 1, 'arg')
  await new Promise<void>((res) => setTimeout(res, 10))
  return r
}
t.abort = async () => {
  const c = new AbortController()
  const r: any[] = []
  c.signal.addEventListener('abort', () => r.push('aborted'), { once: true })
  r.push(c.signal.aborted)
  c.abort(new Error('why'))
  r.push(c.signal.aborted, (c.signal.reason as any).message)
  try {
    c.signal.throwIfAborted()
  } catch (e: any) {
    r.push(e.message)
  }
  return r
}
abstract class Shape {
  abstract area(): number
  static #n = 0
  static {
    Shape.#n = 5
  }
  static get n() {
    return Shape.#n
  }
  describe() {
    return `area ${this.area()}`
  }
}
class Sq extends Shape {
  constructor(private s: number) {
    super()
  }
  area() {
    return this.s ** 2
  }
}
t.abstract = () => [new Sq(3).describe(), Shape.n, (new Sq(2) as any).s, new (class { q = 1 })().q, ((x: unknown) => x as number)(4), (<any>{ a: 1 }).a!, ({ a: 1 } satisfies object).a]
t.iterproto = () => {
  const it = [1, 2, 3][Symbol.iterator]()
  it.next()
  const rest = [...(it as any)]
  const m = new Map([[1, 2]])
  const e = m.entries().next().value
  class L {
    constructor(private n: number) {}
    *[Symbol.iterator]() { for (let i = 0; i < this.n; i++) yield i }
  }
  return [rest, e, [...new L(3)], Array.from(new L(2)), Math.max(...new L(4)), Object.entries({ a: new Set([1]).size })]
}
t.regex = () => [/a+b/.test('xaab'), 'a-b-c'.replace(/-/g, '+'), 'x1y2'.match(/\d/g), 'a1'.search(/\d/), 'k=v'.split(/=/)]
t.dates = () => [typeof Date.now(), typeof new Date().getTime(), typeof performance.now()]
t.deepcopy = () => {
  const { a: { b: [c] } } = { a: { b: [7] } }
  const swap = ([x, y]: any) => [y, x]
  const kw = { if: 1, class: 2 }
  return [c, swap([1, 2]), kw.if + kw.class, [,1].length, [1,,3].length, ((a, b = a + 1, ...c) => [a, b, c])(1), { __proto__: { inh: 1 } } as any]
}
t.getterDelegation = () => {
  const target: any = { a: 1 }
  const p = new Proxy(target, { get: (o, k) => (k in o ? o[k] : 'none') })
  return [p.a, p.b, Reflect.get(target, 'a'), Reflect.has(target, 'b'), Reflect.ownKeys(target)]
}
t.updates = () => {
  const a = [1, 2, 3]
  let i = 0
  a[i++] += 10
  a[i++]++
  const o: any = { n: null, get g() { return this.h ?? 1 }, set g(v) { this.h = v * 2 } }
  o.g += 5
  o.n ??= { deep: 1 }
  o.n.deep &&= 7
  o['x' + i] ||= 'set'
  let calls = 0
  const f = () => (calls++, o)
  f().y = 1
  f().y += 1
  f().y++
  f().z ??= 3
  const big = 3n ** 2n
  return [a, i, o.g, o.n, o.x2, calls, o.y, o.z, typeof big, big === 9n]
}
t.vars = () => {
  const r: any[] = []
  const f = (x: any) => {
    if (x) {
      var y = 1
    } else {
      var y = 2
    }
    r.push(y)
    for (var k in { a: 1, b: 2 });
    for (var e of [5, 6]);
    try {
      throw 1
    } catch (err) {
      var z = 'z'
    }
    switch (x) {
      case 1:
        var sw = 'sw'
    }
    return [y, k, e, z, sw, typeof later]
    var later = 1
  }
  const fs: any[] = []
  for (var i = 0; i < 3; i++) fs.push(() => i)
  for (const x of [1, 2]) fs.push(() => x)
  for (const x in { q: 1 }) fs.push(() => x)
  return [f(1), f(0), r, fs.map((x) => x())]
}
t.tdz = () => {
  try {
    const f = () => late
    const x = f()
    const late = 1
    return [x, late]
  } catch (e: any) {
    return e instanceof ReferenceError
  }
}
t.functions = () => {
  function f(a: any, b = a + 1, ...rest: any[]) {
    return [a, b, rest, arguments.length]
  }
  const fact = function self(n: number): number {
    return n < 2 ? 1 : n * self(n - 1)
  }
  const curry = (a: number) => (b: number) => (c: number) => a + b + c
  const compose = (...fns: any[]) => (x: any) => fns.reduceRight((v, g) => g(v), x)
  return [f(1), f(1, 2, 3, 4), f.name, fact(5), curry(1)(2)(3), compose((x: number) => x + 1, (x: number) => x * 2)(5), f.call(null, 9), (() => {}).name, (class Q {}).name, typeof f.bind({}), [1, 2, 3].map(String), ['1', '2'].map(Number), [0, 1, ''].filter(Boolean)]
}
t.control = () => {
  const r: any[] = []
  const f = (n: number) => {
    l: {
      if (n === 1) break l
      r.push('in' + n)
    }
    if (n > 1) return 'big'
    else if (n < 0) return 'neg'
    return 'small'
  }
  r.push(f(1), f(2), f(-1))
  const g = () => {
    try {
      try {
        throw new Error('a')
      } finally {
        r.push('f1')
      }
    } catch (e: any) {
      r.push(e.message)
      try {
        return 'ret'
      } finally {
        r.push('f2')
      }
    } finally {
      r.push('f3')
    }
  }
  r.push(g())
  const h = () => {
    for (;;) {
      try {
        return 1
      } finally {
        break
      }
    }
    return 2
  }
  r.push(h())
  let n = 0
  do {
    n++
    if (n === 2) continue
    if (n === 4) break
  } while (n < 10)
  r.push(n)
  const sw = (x: any) => {
    switch (true) {
      case x > 10: {
        return 'gt'
      }
      case typeof x === 'string':
        return 'str'
    }
    return 'none'
  }
  r.push(sw(11), sw('a'), sw(1))
  return r
}
t.inherit = () => {
  const r: any[] = []
  class Base {
    static s() {
      return 'bs'
    }
    field = this.init()
    init() {
      return 'base'
    }
    get v() {
      return 1
    }
  }
  class Mid extends Base {
    init() {
      return 'mid'
    }
    static s() {
      return super.s() + 'ms'
    }
  }
  const Mixin = (C: any) => class extends C { mixed() { return super.init() + '!' } }
  class Leaf extends Mixin(Mid) {
    constructor(...a: any[]) {
      super(...a)
      r.push(new.target === Leaf)
    }
    toString() {
      return 'leaf'
    }
  }
  const l: any = new Leaf()
  const o = { __proto__: { hi() { return 'proto' } }, hi() { return super.hi() + '2' } } as any
  function Old(this: any, x: any) {
    this.x = x
  }
  Old.prototype.get = function () {
    return this.x
  }
  return [l.field, l.mixed(), Mid.s(), `${l}`, l.v, r, o.hi(), new (Old as any)(4).get(), l instanceof Base, Object.keys(l), 'v' in l, l.hasOwnProperty('v')]
}
t.asyncerr = async () => {
  const r: any[] = []
  const f = async (x: any) => {
    try {
      return await (x ? Promise.resolve(x) : Promise.reject(new Error('no')))
    } catch (e: any) {
      return e.message
    } finally {
      r.push('fin')
    }
  }
  r.push(await f(1), await f(0))
  const g = async () => { throw new Error('g') }
  await g().then(() => r.push('no'), (e) => r.push(e.message))
  await Promise.all([g(), g()]).catch((e) => r.push('all ' + e.message))
  const res = await Promise.allSettled([g(), 1])
  r.push(res[0].status, (res[1] as any).value)
  await Promise.any([g()]).catch((e) => r.push(e instanceof AggregateError))
  const { promise, resolve } = (Promise as any).withResolvers ? (Promise as any).withResolvers() : (() => { let resolve: any; const promise = new Promise((x) => (resolve = x)); return { promise, resolve } })()
  setTimeout(resolve, 1, 'late')
  r.push(await promise)
  const seq: any[] = []
  await Promise.all([1, 2, 3].map(async (x) => { await null; seq.push(x) }))
  for (const p of [g, async () => 'ok']) try { r.push(await p()) } catch (e: any) { r.push('c' + e.message) }
  return [r, seq]
}
t.agen2 = async () => {
  const r: any[] = []
  async function* take(src: any, n: number) {
    let i = 0
    for await (const x of src) {
      if (i++ >= n) return 'done'
      yield x
    }
  }
  async function* nums() {
    let i = 0
    try {
      while (true) yield i++
    } finally {
      r.push('closed')
    }
  }
  for await (const x of take(nums(), 3)) r.push(x)
  const q = nums()
  const [a, b, c] = await Promise.all([q.next(), q.next(), q.return(undefined as any)])
  r.push(a, b, c)
  const thrower = nums()
  await thrower.next()
  await thrower.throw(new Error('t')).catch((e: any) => r.push(e.message))
  const man = { i: 0, [Symbol.asyncIterator]() { return this }, async next() { return this.i < 2 ? { value: this.i++, done: false } : { value: undefined, done: true } }, async return() { r.push('ret'); return { value: undefined, done: true } } }
  for await (const x of man as any) r.push(x)
  for await (const x of { ...man, i: 0 } as any) { r.push(x); break }
  const it = (async function* (): any { const z = yield* take(nums(), 0); r.push(z) })()
  await it.next()
  return r
}
t.microtasks = async () => {
  const r: any[] = []
  const log = (x: any) => r.push(x)
  const thenable = { then(ok: any) { log('then'); ok('T') } }
  ;(async () => { log('a1'); log(await thenable); log('a3') })()
  ;(async () => { log('b1'); await undefined; log('b2'); await Promise.resolve(); log('b3') })()
  Promise.resolve().then(() => { log('p1'); return Promise.resolve('inner') }).then(log)
  Promise.reject('rej').catch(log).then(() => log('afterc'))
  queueMicrotask(() => log('q'))
  new Promise((res) => { log('exec'); res(1) }).then(log).finally(() => log('fin'))
  await new Promise((x) => setTimeout(x, 2))
  return r
}
t.events = () => {
  const e = new EventTarget()
  const r: any[] = []
  const f = () => r.push('f')
  e.addEventListener('x', f)
  e.addEventListener('x', f)
  e.addEventListener('x', () => r.push('once'), { once: true })
  e.dispatchEvent(new Event('x'))
  e.removeEventListener('x', f)
  e.dispatchEvent(new Event('x'))
  const c = new AbortController()
  const any = AbortSignal.any([c.signal])
  any.onabort = () => r.push('any')
  c.abort()
  return [r, any.aborted, AbortSignal.abort().aborted]
}
t.u8 = () => {
  const a = Uint8Array.from([3, 1, 2])
  const joined = new Uint8Array(a.length + 2)
  joined.set(a)
  joined.set([9, 8], a.length)
  let s = 0
  for (let i = 0; i < joined.byteLength; i++) s += joined[i]
  for (const x of joined) s += x
  a.forEach((x) => (s += x))
  return [[...joined], s, joined.indexOf(9), joined.every((x) => x > 0), [...joined.map((x) => x * 2)], joined.slice(-2)[0], joined.subarray(1, -1).length, Array.from(joined.entries()).length, joined.join('-'), [...new Uint8Array(joined.buffer, 1, 2)], a.reduce((x, y) => x + y, 0), [...Uint8Array.from('123', Number)]]
}
t.stringly = () => ['a-b-c'.split('-', 2), 'aaa'.replaceAll('a', 'b'), 'x1'.replace(/\d/, (d) => String(+d + 1)), [...'abc'].reverse().join(''), 'abc'.split(''), 'a\tb\u0041', String.raw`a\n`, 'ab'.codePointAt(0), `${[1, 2]}`, `${{}}`, 'b' > 'a', 'abc'.localeCompare('abd'), '  x'.trimStart(), 'abc'.lastIndexOf('c'), /(\w)(\d)/.exec('a1')?.[2], 'a.b'.split('.').pop(), 'Content'.at(0), 'é'.normalize().length, encodeURIComponent('a b'), 'abc'.search(/c/)]
t.objs2 = () => {
  const o: any = { b: 1, a: 2, 1: 'n', [Symbol('s')]: 3 }
  const { a, ...rest } = o
  const frozen = Object.freeze({ x: 1 })
  let threw = false
  try {
    ;(frozen as any).x = 2
  } catch {
    threw = true
  }
  const g = Object.groupBy ? 1 : 1
  return [Object.keys(o), rest, a, threw, Object.isFrozen(frozen), Object.entries(rest).map(([k, v]) => k + v), JSON.stringify(o), JSON.parse('{"a":[1,{"b":null}]}'), Object.is(NaN, NaN), g, { ...null, ...undefined, ...[1] }, Object.getOwnPropertyNames({ z: 1 }), delete o.b, 'b' in o]
}
