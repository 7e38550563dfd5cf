// The standard library as far as the analysed code may use it.
import { Thrown, Sym, Str, Lin, lin, isNum, Obj, Fn, show, seqLen, mergeSeq, segLen } from './values.mjs'

export function installGlobals(w) {
  w.depth0 = 0
  w.instances = []
  const P = (w.protos = {})
  P.Object = new Obj(null, 'Object')
  P.Function = new Fn(P.Object, '')
  P.Function.native = () => undefined
  for (const n of ['Array', 'String', 'Number', 'Boolean', 'Promise', 'Generator', 'AsyncGenerator', 'Uint8Array', 'RegExp', 'Map', 'Set', 'WeakMap', 'DataView', 'ArrayBuffer']) P[n] = new Obj(P.Object, n)
  const G = (w.g = {})
  const genv = { vars: new Map(), parent: null, fn: null, global: true, lookup: (n) => genv.vars.get(n) ?? null }
  w.genv = genv
  const g = (name, v) => {
    G[name] = v
    genv.vars.set(name, { v })
  }
  const m = (o, name, fn) => w.def(o, name, w.native(typeof name === 'string' ? name : String(name), fn))
  const getter = (o, name, fn) => o.props.set(name, { get: w.native(name, fn) })
  const cls = (name, proto, nativeNew, call) => {
    const f = w.native(name, call ?? (() => w.throwErr('TypeError', 'class constructor ' + name + ' cannot be invoked without new')))
    f.nativeNew = nativeNew
    w.def(f, 'prototype', proto)
    w.def(proto, 'constructor', f)
    g(name, f)
    return f
  }
  const T = (v) => {
    throw new Thrown(v)
  }
  const idx = (v, len, dflt) => {
    // relative index of slice and the like
    if (v === undefined) return dflt
    v = w.toNum(v)
    if (typeof v === 'number' && v < 0) {
      const r = lin(len).add(lin(v))
      return w.ge0(r) ? r.norm() : 0
    }
    if (v instanceof Lin && !w.ge0(v)) w.unsupported('a negative index ' + v)
    if (typeof v === 'number' && typeof len === 'number') return Math.min(v, len)
    return w.ge0(lin(len).add(lin(v), -1)) ? v : len
  }

  // Object
  const O = cls(
    'Object',
    P.Object,
    (a) => (a[0] instanceof Obj ? a[0] : w.object({})),
    (t, a) => (a[0] instanceof Obj ? a[0] : w.object({})),
  )
  m(P.Object, 'toString', (t) => (t instanceof Obj && t.cls === 'Array' ? '[object Array]' : '[object Object]'))
  m(P.Object, 'valueOf', (t) => t)
  m(P.Object, 'hasOwnProperty', (t, a) => !!w.findOwn(t, w.key(a[0])))
  P.Object.props.set('__proto__', {
    get: w.native('get __proto__', (t) => (t instanceof Obj ? t.proto : P.Object)),
    set: w.native('set __proto__', (t, a) => {
      if (t instanceof Obj && (a[0] instanceof Obj || a[0] === null)) t.proto = a[0]
    }),
  })
  const isInt = (k) => typeof k === 'string' && /^(0|[1-9]\d{0,8})$/.test(k)
  const intsFirst = (l) => (l.some(isInt) ? [...l.filter(isInt).sort((x, y) => x - y), ...l.filter((k) => !isInt(k))] : l)
  const ownKeys = (o) => (o instanceof Obj ? (o.proxy ? w.unsupported('the keys of a proxy') : o.arr ? o.arr.map((_, i) => String(i)) : intsFirst([...o.props].filter(([k, p]) => typeof k !== 'symbol' && !p.hid).map(([k]) => k))) : o === undefined || o === null ? w.throwErr('TypeError', 'cannot convert to object') : [])
  const val = (o, k) => {
    if (o.arr) return o.arr[Number(k)]
    const p = o.props.get(k)
    return p.get ? w.call(p.get, o, []) : p.v
  }
  m(O, 'keys', (t, a) => w.arrayOf(ownKeys(a[0])))
  m(O, 'getOwnPropertyNames', (t, a) => w.arrayOf(ownKeys(a[0])))
  m(O, 'values', (t, a) => w.arrayOf(ownKeys(a[0]).map((k) => val(a[0], k))))
  m(O, 'entries', (t, a) => w.arrayOf(ownKeys(a[0]).map((k) => w.arrayOf([k, val(a[0], k)]))))
  m(O, 'fromEntries', (t, a) => {
    const o = w.object({})
    for (const e of w.list(a[0])) {
      const [k, v] = w.list(e)
      w.setOwn(o, w.key(k), v)
    }
    return o
  })
  m(O, 'assign', (t, a) => {
    for (const s of a.slice(1)) if (s instanceof Obj) for (const k of ownKeys(s)) w.set(a[0], k, val(s, k))
    return a[0]
  })
  m(O, 'create', (t, a) => new Obj(a[0], 'Object'))
  m(O, 'freeze', (t, a) => {
    if (a[0] instanceof Obj) a[0].frozen = true
    return a[0]
  })
  m(O, 'seal', (t, a) => a[0])
  m(O, 'getPrototypeOf', (t, a) => a[0].proto)
  m(O, 'setPrototypeOf', (t, a) => {
    a[0].proto = a[1]
    return a[0]
  })
  m(O, 'hasOwn', (t, a) => !!w.findOwn(a[0], w.key(a[1])))
  m(O, 'is', (t, a) => (typeof a[0] === 'number' && typeof a[1] === 'number' ? Object.is(a[0], a[1]) : w.strictEq(a[0], a[1])))
  m(O, 'defineProperty', (t, a) => {
    const d = a[2]
    const k = w.key(a[1])
    const gt = w.get(d, 'get')
    const old = a[0].props.get(k)
    const en = w.find(d, 'enumerable')
    const hid = en ? !w.truthy(w.get(d, 'enumerable')) : old ? old.hid : true
    if (gt || w.get(d, 'set')) a[0].props.set(k, { get: gt, set: w.get(d, 'set'), hid })
    else a[0].props.set(k, { v: w.find(d, 'value') ? w.get(d, 'value') : old?.v, hid })
    return a[0]
  })
  m(O, 'defineProperties', (t, a) => {
    for (const k of ownKeys(a[1])) w.call(w.get(O, 'defineProperty'), O, [a[0], k, val(a[1], k)])
    return a[0]
  })
  m(O, 'isFrozen', (t, a) => !(a[0] instanceof Obj) || !!a[0].frozen)
  m(P.Object, 'isPrototypeOf', (t, a) => {
    for (let x = a[0] instanceof Obj ? a[0].proto : null; x; x = x.proto) if (x === t) return true
    return false
  })

  // Function
  cls('Function', P.Function, () => w.unsupported('new Function'))
  m(P.Function, 'bind', (t, a) => {
    const f = new Fn(P.Function, 'bound ' + t.fname)
    f.boundTarget = t
    f.boundThis = a[0]
    f.boundArgs = a.slice(1)
    return f
  })
  m(P.Function, 'call', (t, a) => w.call(t, a[0], a.slice(1)))
  m(P.Function, 'apply', (t, a) => w.call(t, a[0], a[1] ? w.list(a[1]) : []))
  getter(P.Function, 'name', (t) => t.fname)

  // Errors
  for (const n of ['Error', 'TypeError', 'RangeError', 'ReferenceError', 'SyntaxError', 'EvalError', 'AggregateError', 'DOMException']) {
    const pr = new Obj(n === 'Error' ? P.Object : P.Error, 'Error')
    if (n === 'Error') P.Error = pr
    w.def(pr, 'name', n)
    const mk = function (a, nt) {
      const e = new Obj(nt ? w.get(nt, 'prototype') : pr, 'Error')
      e.errName = n
      e.madeAt = w.where()
      if (a[0] !== undefined) w.def(e, 'message', w.toStr(a[0]))
      if (a[1] instanceof Obj && w.find(a[1], 'cause')) w.def(e, 'cause', w.get(a[1], 'cause'))
      return e
    }
    const c = cls(n, pr, mk, (t, a) => mk(a))
    if (n === 'Error') m(c, 'captureStackTrace', () => undefined)
    else c.proto = G.Error
  }
  w.def(P.Error, 'message', '')
  w.def(P.Error, 'stack', 'stack')
  m(P.Error, 'toString', (t) => {
    const msg = w.get(t, 'message')
    const n = w.toStr(w.get(t, 'name') ?? 'Error')
    return w.truthy(msg) ? w.concat([n, ': ', w.toStr(msg)]) : n
  })

  // Symbol
  const S = cls('Symbol', new Obj(P.Object, 'Symbol'), () => w.throwErr('TypeError', 'Symbol is not a constructor'), (t, a) => Symbol(a[0]))
  for (const n of ['iterator', 'asyncIterator', 'toStringTag', 'hasInstance', 'toPrimitive']) w.def(S, n, Symbol[n])
  w.def(S, 'dispose', Symbol.dispose ?? Symbol.for('dispose'))
  w.def(S, 'asyncDispose', Symbol.asyncDispose ?? Symbol.for('asyncDispose'))
  m(S, 'for', (t, a) => Symbol.for(a[0]))

  // Array
  const A = cls(
    'Array',
    P.Array,
    (a) => w.arrayOf(a.length === 1 && typeof a[0] === 'number' ? new Array(a[0]).fill(undefined) : a),
    (t, a) => w.arrayOf(a),
  )
  m(A, 'isArray', (t, a) => a[0] instanceof Obj && !!a[0].arr)
  m(A, 'from', (t, a) => {
    let l
    if (a[0] instanceof Obj && !a[0].arr && w.get(a[0], Symbol.iterator) === undefined) {
      const n = w.get(a[0], 'length')
      l = new Array(typeof n === 'number' ? n : 0).fill(undefined)
    } else l = w.list(a[0])
    if (a[1] instanceof Fn) l = l.map((x, i) => w.call(a[1], undefined, [x, i]))
    return w.arrayOf(l)
  })
  m(A, 'of', (t, a) => w.arrayOf(a))
  const cb = (f, th) => (x, i, l) => w.call(f, th, [x, i, l])
  const tcb = (f) => (x, i) => w.truthy(w.call(f, undefined, [x, i]))
  const AP = P.Array
  m(AP, 'push', (t, a) => t.arr.push(...a))
  m(AP, 'pop', (t) => t.arr.pop())
  m(AP, 'shift', (t) => t.arr.shift())
  m(AP, 'unshift', (t, a) => t.arr.unshift(...a))
  m(AP, 'slice', (t, a) => w.arrayOf(t.arr.slice(a[0], a[1])))
  m(AP, 'splice', (t, a) => w.arrayOf(a.length === 1 ? t.arr.splice(a[0]) : t.arr.splice(a[0], a[1], ...a.slice(2))))
  m(AP, 'concat', (t, a) => w.arrayOf([...t.arr, ...a.flatMap((x) => (x instanceof Obj && x.arr ? x.arr : [x]))]))
  m(AP, 'map', (t, a) => w.arrayOf(t.arr.map(cb(a[0]))))
  m(AP, 'forEach', (t, a) => void t.arr.forEach(cb(a[0])))
  m(AP, 'filter', (t, a) => w.arrayOf(t.arr.filter(tcb(a[0]))))
  m(AP, 'find', (t, a) => t.arr.find(tcb(a[0])))
  m(AP, 'findIndex', (t, a) => t.arr.findIndex(tcb(a[0])))
  m(AP, 'findLast', (t, a) => [...t.arr].reverse().find((x, i) => tcb(a[0])(x, t.arr.length - 1 - i)))
  m(AP, 'findLastIndex', (t, a) => {
    for (let i = t.arr.length - 1; i >= 0; i--) if (tcb(a[0])(t.arr[i], i)) return i
    return -1
  })
  m(AP, 'lastIndexOf', (t, a) => {
    for (let i = t.arr.length - 1; i >= 0; i--) if (w.strictEq(t.arr[i], a[0])) return i
    return -1
  })
  m(AP, 'reduceRight', (t, a) => {
    let i = t.arr.length - 1
    let acc = a.length > 1 ? a[1] : t.arr[i--]
    for (; i >= 0; i--) acc = w.call(a[0], undefined, [acc, t.arr[i], i])
    return acc
  })
  m(AP, 'toReversed', (t) => w.arrayOf([...t.arr].reverse()))
  m(AP, 'toSpliced', (t, a) => {
    const l = [...t.arr]
    if (a.length === 1) l.splice(a[0])
    else l.splice(a[0], a[1], ...a.slice(2))
    return w.arrayOf(l)
  })
  m(AP, 'with', (t, a) => w.arrayOf(t.arr.with(a[0], a[1])))
  m(AP, 'some', (t, a) => t.arr.some(tcb(a[0])))
  m(AP, 'every', (t, a) => t.arr.every(tcb(a[0])))
  m(AP, 'reduce', (t, a) => {
    let i = 0
    let acc = a.length > 1 ? a[1] : t.arr[i++]
    for (; i < t.arr.length; i++) acc = w.call(a[0], undefined, [acc, t.arr[i], i])
    return acc
  })
  m(AP, 'includes', (t, a) => t.arr.some((x) => w.strictEq(x, a[0])))
  m(AP, 'indexOf', (t, a) => t.arr.findIndex((x) => w.strictEq(x, a[0])))
  m(AP, 'join', (t, a) => w.concat(t.arr.flatMap((x, i) => (i ? [a[0] ?? ',', x === undefined || x === null ? '' : w.toStr(x)] : [x === undefined || x === null ? '' : w.toStr(x)]))))
  m(AP, 'reverse', (t) => (t.arr.reverse(), t))
  m(AP, 'at', (t, a) => t.arr.at(a[0]))
  const flat = (l, d) => l.flatMap((x) => (x instanceof Obj && x.arr ? (d > 1 ? flat(x.arr, d - 1) : x.arr) : [x]))
  m(AP, 'flat', (t, a) => w.arrayOf(a[0] === 0 ? [...t.arr] : flat(t.arr, a[0] ?? 1)))
  m(AP, 'flatMap', (t, a) => w.arrayOf(t.arr.map(cb(a[0])).flatMap((x) => (x instanceof Obj && x.arr ? x.arr : [x]))))
  m(AP, 'fill', (t, a) => (t.arr.fill(a[0], a[1], a[2]), t))
  m(AP, 'toString', (t) => w.call(w.get(t, 'join'), t, []))
  const sort = (l, f) => {
    if (!f && l.every((x) => typeof x === 'string' || typeof x === 'number')) l.sort()
    else if (!f) w.unsupported('sort of unknown values')
    else
      l.sort((x, y) => {
        const r = w.toNum(w.call(f, undefined, [x, y]))
        if (typeof r === 'number') return r
        return w.ge0(lin(r).add(lin(-1))) ? 1 : w.eq0(lin(r)) ? 0 : -1
      })
    return l
  }
  m(AP, 'sort', (t, a) => (sort(t.arr, a[0]), t))
  m(AP, 'toSorted', (t, a) => w.arrayOf(sort([...t.arr], a[0])))
  const iterOf = (next) => {
    const it = new Obj(P.Generator, 'Iterator')
    m(it, 'next', () => {
      const r = next()
      return r ? w.iterResult(r[0], false) : w.iterResult(undefined, true)
    })
    m(it, Symbol.iterator, (t) => t)
    w.def(it, 'return', undefined)
    w.def(it, 'throw', undefined)
    return it
  }
  w.iterOf = iterOf
  const arrIter = (t) => {
    let i = 0
    return iterOf(() => (i < t.arr.length ? [t.arr[i++]] : null))
  }
  m(AP, Symbol.iterator, arrIter)
  m(AP, 'values', arrIter)
  m(AP, 'keys', (t) => {
    let i = 0
    return iterOf(() => (i < t.arr.length ? [i++] : null))
  })
  m(AP, 'entries', (t) => {
    let i = 0
    return iterOf(() => (i < t.arr.length ? [w.arrayOf([i, t.arr[i++]])] : null))
  })

  // String
  const St = cls('String', P.String, () => w.unsupported('new String'), (t, a) => (a.length ? w.toStr(a[0]) : ''))
  m(St, 'fromCharCode', (t, a) => String.fromCharCode(...a))
  const SP = P.String
  m(SP, 'toString', (t) => t)
  m(SP, 'valueOf', (t) => t)
  const test = (name) =>
    m(SP, name, (t, a) => {
      if (typeof t === 'string' && typeof a[0] === 'string') return t[name](a[0])
      return w.decide(name + ':' + show(t) + ':' + show(a[0]))
    })
  ;['startsWith', 'endsWith', 'includes'].forEach(test)
  for (const n of ['toUpperCase', 'toLowerCase', 'slice', 'substring', 'substr', 'charAt', 'charCodeAt', 'codePointAt', 'indexOf', 'lastIndexOf', 'padStart', 'padEnd', 'repeat', 'at', 'trim', 'trimStart', 'trimEnd', 'localeCompare', 'normalize'])
    m(SP, n, (t, a) => {
      if (typeof t !== 'string' || a.some((x) => x instanceof Obj || x instanceof Sym)) w.unsupported(n + ' of an unknown string')
      return t[n](...a)
    })
  m(SP, 'concat', (t, a) => w.concat([t, ...a.map((x) => w.toStr(x))]))
  const groups = (r) => {
    if (!r) return null
    const o = w.arrayOf([...r])
    w.def(o, 'index', r.index)
    w.def(o, 'input', r.input)
    w.def(o, 'groups', r.groups ? w.object({ ...r.groups }) : undefined)
    return o
  }
  const plainStr = (t, a, n) => {
    if (typeof t !== 'string' || a.some((x) => x instanceof Sym || x instanceof Str)) w.unsupported(n + ' of an unknown string')
  }
  m(SP, 'match', (t, a) => (plainStr(t, a, 'match'), groups(t.match(re(a[0])))))
  m(SP, 'matchAll', (t, a) => {
    plainStr(t, a, 'matchAll')
    const l = [...t.matchAll(re(a[0]))].map(groups)
    return iterOf(() => (l.length ? [l.shift()] : null))
  })
  m(SP, 'search', (t, a) => (plainStr(t, a, 'search'), t.search(re(a[0]))))
  m(P.RegExp, 'exec', (t, a) => (plainStr(a[0], [], 'exec'), groups(t.re.exec(a[0]))))
  getter(P.RegExp, 'source', (t) => t.re.source)
  getter(P.RegExp, 'lastIndex', (t) => t.re.lastIndex)
  const re = (x) => (x instanceof Obj && x.re ? x.re : x)
  m(SP, 'replace', (t, a) => (typeof t === 'string' && typeof a[1] === 'string' ? t.replace(re(a[0]), a[1]) : typeof t === 'string' && a[1] instanceof Fn ? t.replace(re(a[0]), (...x) => w.call(a[1], undefined, x)) : w.unsupported('replace')))
  m(SP, 'replaceAll', (t, a) => (typeof t === 'string' && typeof a[1] === 'string' ? t.replaceAll(re(a[0]), a[1]) : typeof t === 'string' && a[1] instanceof Fn ? t.replaceAll(re(a[0]), (...x) => w.call(a[1], undefined, x)) : w.unsupported('replaceAll')))
  m(SP, 'split', (t, a) => (typeof t === 'string' ? w.arrayOf(t.split(re(a[0]), a[1])) : w.unsupported('split')))
  m(SP, Symbol.iterator, (t) => {
    if (typeof t !== 'string') w.unsupported('iteration of an unknown string')
    let i = 0
    return iterOf(() => (i < t.length ? [t[i++]] : null))
  })
  m(P.RegExp, 'test', (t, a) => (typeof a[0] === 'string' ? t.re.test(a[0]) : w.decide('re:' + t.re + ':' + show(a[0]))))

  m(St, 'raw', (t, a) => w.concat(w.list(w.get(a[0], 'raw')).flatMap((x, i) => (i ? [i < a.length ? w.toStr(a[i]) : '', x] : [x]))))
  for (const n of ['encodeURIComponent', 'decodeURIComponent', 'encodeURI', 'decodeURI'])
    g(n, w.native(n, (t, a) => (typeof a[0] === 'string' ? globalThis[n](a[0]) : w.unsupported(n))))
  // Number, Boolean, Math
  const N = cls('Number', P.Number, () => w.unsupported('new Number'), (t, a) => (a.length ? w.toNum(a[0]) : 0))
  for (const k of ['MAX_SAFE_INTEGER', 'MIN_SAFE_INTEGER', 'MAX_VALUE', 'POSITIVE_INFINITY', 'NaN', 'EPSILON']) w.def(N, k, Number[k])
  m(N, 'isInteger', (t, a) => (typeof a[0] === 'number' ? Number.isInteger(a[0]) : a[0] instanceof Lin))
  m(N, 'isSafeInteger', (t, a) => (typeof a[0] === 'number' ? Number.isSafeInteger(a[0]) : a[0] instanceof Lin))
  m(N, 'isFinite', (t, a) => (typeof a[0] === 'number' ? Number.isFinite(a[0]) : a[0] instanceof Lin))
  m(N, 'isNaN', (t, a) => (typeof a[0] === 'number' ? Number.isNaN(a[0]) : false))
  g('isNaN', w.native('isNaN', (t, a) => (typeof a[0] === 'number' ? Number.isNaN(a[0]) : false)))
  for (const n of ['parseInt', 'parseFloat']) {
    const f = w.native(n, (t, a) => {
      if (n === 'parseInt' && a[0] instanceof Lin) return w.floor(a[0])
      if (typeof a[0] !== 'string' && typeof a[0] !== 'number') w.unsupported(n)
      return globalThis[n](a[0], a[1])
    })
    g(n, f)
    w.def(N, n, f)
  }
  g('isFinite', w.native('isFinite', (t, a) => (typeof a[0] === 'number' ? Number.isFinite(a[0]) : a[0] instanceof Lin)))
  for (const k of ['MIN_VALUE', 'NEGATIVE_INFINITY']) w.def(N, k, Number[k])
  g('BigInt', w.native('BigInt', (t, a) => (['number', 'string', 'bigint'].includes(typeof a[0]) ? BigInt(a[0]) : w.unsupported('BigInt'))))
  m(P.Number, 'toString', (t, a) => (typeof t === 'number' || typeof t === 'bigint' ? t.toString(a[0]) : new Str([t])))
  m(P.Number, 'toFixed', (t, a) => (typeof t === 'number' ? t.toFixed(a[0]) : new Str([t])))
  m(P.Number, 'valueOf', (t) => t)
  m(P.Boolean, 'toString', (t) => String(t))
  m(P.Boolean, 'valueOf', (t) => t)
  cls('Boolean', P.Boolean, () => w.unsupported('new Boolean'), (t, a) => w.truthy(a[0]))
  const M = w.object({}, 'Math')
  g('Math', M)
  for (const n of ['floor', 'trunc'])
    m(M, n, (t, a) => {
      const v = w.toNum(a[0])
      if (typeof v === 'number') return Math[n](v)
      if (n === 'trunc' && v instanceof Lin && !w.ge0(v)) w.unsupported('trunc of a negative number')
      return w.floor(v)
    })
  m(M, 'ceil', (t, a) => (typeof a[0] === 'number' ? Math.ceil(a[0]) : lin(w.floor(lin(a[0]).scale(-1).norm())).scale(-1).norm()))
  m(M, 'round', (t, a) => (typeof a[0] === 'number' ? Math.round(a[0]) : w.floor(lin(a[0]).add(lin(0.5)).norm())))
  m(M, 'min', (t, a) => a.map((x) => w.toNum(x)).reduce((x, y) => (typeof x === 'number' && typeof y === 'number' ? Math.min(x, y) : w.ge0(lin(y).add(lin(x), -1)) ? x : y)))
  m(M, 'max', (t, a) => a.map((x) => w.toNum(x)).reduce((x, y) => (typeof x === 'number' && typeof y === 'number' ? Math.max(x, y) : w.ge0(lin(x).add(lin(y), -1)) ? x : y)))
  m(M, 'abs', (t, a) => (typeof a[0] === 'number' ? Math.abs(a[0]) : w.ge0(a[0]) ? a[0] : lin(a[0]).scale(-1).norm()))
  m(M, 'pow', (t, a) => (typeof a[0] === 'number' && typeof a[1] === 'number' ? Math.pow(a[0], a[1]) : w.unsupported('Math.pow')))
  m(M, 'log2', (t, a) => (typeof a[0] === 'number' ? Math.log2(a[0]) : w.unsupported('Math.log2')))
  for (const n of ['sign', 'sqrt', 'cbrt', 'log', 'log10', 'exp', 'hypot', 'clz32', 'fround', 'imul', 'log1p', 'expm1', 'sin', 'cos', 'tan', 'atan', 'atan2'])
    m(M, n, (t, a) => {
      const l = a.map((x) => w.toNum(x))
      if (n === 'sign' && l[0] instanceof Lin) return w.eq0(lin(l[0])) ? 0 : w.ge0(l[0]) ? 1 : -1
      if (l.some((x) => typeof x !== 'number')) w.unsupported('Math.' + n)
      return Math[n](...l)
    })
  for (const k of ['PI', 'E', 'LN2', 'LN10', 'SQRT2']) w.def(M, k, Math[k])
  m(M, 'random', () => w.freshNum('random', 0, 1))
  g('Infinity', Infinity)
  g('NaN', NaN)
  g('undefined', undefined)

  // Promise
  const Pr = cls('Promise', P.Promise, (a, nt) => {
    const p = w.newPromise()
    let done = false
    const once = (f) => (t, x) => {
      if (done) return
      done = true
      f(p, x[0])
    }
    try {
      w.call(a[0], undefined, [
        w.native(
          'resolve',
          once((p, v) => {
            p.locked = false
            w.resolveP(p, v)
          }),
        ),
        w.native(
          'reject',
          once((p, v) => w.settle(p, 'rejected', v)),
        ),
      ])
    } catch (e) {
      if (!(e instanceof Thrown)) throw e
      if (!done) {
        done = true
        w.settle(p, 'rejected', e.v)
      }
    }
    return p
  })
  w.protoThen = w.native('then', (t, a) => w.promiseThen(t, a[0], a[1]))
  w.def(P.Promise, 'then', w.protoThen)
  m(P.Promise, 'catch', (t, a) => w.call(w.get(t, 'then'), t, [undefined, a[0]]))
  m(P.Promise, 'finally', (t, a) => {
    const f = a[0]
    return w.promiseThen(
      t,
      w.native('', (_, x) => w.promiseThen(w.promiseResolve(w.call(f, undefined, [])), w.native('', () => x[0]))),
      w.native('', (_, x) => w.promiseThen(w.promiseResolve(w.call(f, undefined, [])), w.native('', () => T(x[0])))),
    )
  })
  m(Pr, 'resolve', (t, a) => w.promiseResolve(a[0]))
  m(Pr, 'reject', (t, a) => {
    const p = w.newPromise()
    w.settle(p, 'rejected', a[0])
    return p
  })
  m(Pr, 'withResolvers', () => {
    const p = w.newPromise()
    return w.object({ promise: p, resolve: w.native('resolve', (t, a) => w.resolveP(p, a[0])), reject: w.native('reject', (t, a) => w.settle(p, 'rejected', a[0])) })
  })
  const aggregate = (l) => {
    const e = w.construct(G.AggregateError, ['All promises were rejected'])
    w.def(e, 'errors', w.arrayOf(l))
    return e
  }
  const all = (kind) => (t, a) => {
    const p = w.newPromise()
    const items = w.list(a[0])
    const out = new Array(items.length)
    let left = items.length
    if (left === 0 && kind !== 'race') w.resolveP(p, w.arrayOf([]))
    items.forEach((x, i) => {
      const fin = (v) => {
        out[i] = v
        if (--left === 0) w.resolveP(p, w.arrayOf(out))
      }
      w.thenP(
        w.promiseResolve(x),
        (v) => (kind === 'race' || kind === 'any' ? w.resolveP(p, v) : kind === 'settled' ? fin(w.object({ status: 'fulfilled', value: v })) : fin(v)),
        (e) => (kind === 'settled' ? fin(w.object({ status: 'rejected', reason: e })) : kind === 'any' ? ((out[i] = e), --left === 0 && w.settle(p, 'rejected', aggregate(out))) : w.settle(p, 'rejected', e)),
      )
    })
    return p
  }
  m(Pr, 'all', all('all'))
  m(Pr, 'allSettled', all('settled'))
  m(Pr, 'race', all('race'))
  m(Pr, 'any', all('any'))
  g('queueMicrotask', w.native('queueMicrotask', (t, a) => w.job(() => w.call(a[0], undefined, []))))

  // generators
  m(P.Generator, 'next', (t, a) => w.genStep(t, 'next', a[0]))
  m(P.Generator, 'return', (t, a) => w.genStep(t, 'return', a[0]))
  m(P.Generator, 'throw', (t, a) => w.genStep(t, 'throw', a[0]))
  m(P.Generator, Symbol.iterator, (t) => t)
  m(P.AsyncGenerator, 'next', (t, a) => w.agenRequest(t, 'next', a[0]))
  m(P.AsyncGenerator, 'return', (t, a) => w.agenRequest(t, 'return', a[0]))
  m(P.AsyncGenerator, 'throw', (t, a) => w.agenRequest(t, 'throw', a[0]))
  m(P.AsyncGenerator, Symbol.asyncIterator, (t) => t)

  // Map, Set
  const findKey = (t, k) => {
    for (const e of t.mapv) if (e.k === k) return e
    for (const e of t.mapv) if (w.strictEq(e.k, k)) return e
    return null
  }
  for (const n of ['Map', 'WeakMap', 'Set', 'WeakSet']) {
    const pr = (P[n] ??= new Obj(P.Object, n))
    const isMap = n.endsWith('Map')
    cls(n, pr, (a) => {
      const o = new Obj(pr, n)
      o.mapv = []
      if (a[0] !== undefined && a[0] !== null)
        for (const e of w.list(a[0])) {
          if (isMap) o.mapv.push({ k: w.list(e)[0], v: w.list(e)[1] })
          else if (!findKey(o, e)) o.mapv.push({ k: e, v: e })
        }
      return o
    })
    m(pr, 'has', (t, a) => !!findKey(t, a[0]))
    m(pr, 'get', (t, a) => findKey(t, a[0])?.v)
    m(pr, isMap ? 'set' : 'add', (t, a) => {
      const e = findKey(t, a[0])
      if (e) e.v = isMap ? a[1] : e.v
      else t.mapv.push({ k: a[0], v: isMap ? a[1] : a[0] })
      return t
    })
    m(pr, 'delete', (t, a) => {
      const e = findKey(t, a[0])
      if (e) t.mapv.splice(t.mapv.indexOf(e), 1)
      return !!e
    })
    m(pr, 'clear', (t) => void (t.mapv.length = 0))
    getter(pr, 'size', (t) => t.mapv.length)
    m(pr, 'forEach', (t, a) => void [...t.mapv].forEach((e) => w.call(a[0], undefined, [e.v, e.k, t])))
    const it = (f) => (t) => {
      let i = 0
      return iterOf(() => (i < t.mapv.length ? [f(t.mapv[i++])] : null))
    }
    m(pr, 'keys', it((e) => e.k))
    m(pr, 'values', it((e) => e.v))
    m(pr, 'entries', it((e) => w.arrayOf([e.k, e.v])))
    m(pr, Symbol.iterator, isMap ? it((e) => w.arrayOf([e.k, e.v])) : it((e) => e.v))
  }

  // bytes
  const UP = P.Uint8Array
  const U = cls('Uint8Array', UP, (a) => {
    const x = a[0]
    if (x === undefined) return w.bytesOf([])
    if (typeof x === 'number') return w.bytesOf(x === 0 ? [] : x <= 64 ? [{ k: 'vals', vals: new Array(x).fill(0) }] : [{ k: 'zero', len: x }])
    if (x instanceof Lin) return w.bytesOf([{ k: 'zero', len: x }])
    if (x instanceof Obj && x.buf) {
      const n = seqLen(x.buf.seq)
      const off = a[1] ?? 0
      const len = a[2] ?? lin(n).add(lin(off), -1).norm()
      if (lin(off).key() === '' && off === 0 && lin(len).add(lin(n), -1).norm() === 0) return x.buf
      return w.bytesOf(w.slice(x.buf.seq, off, lin(off).add(lin(len)).norm()))
    }
    if (x instanceof Obj && x.seq) return w.bytesOf(x.seq)
    return w.bytesOf([{ k: 'vals', vals: w.list(x).map((b) => w.toByte(b)) }])
  })
  U.instanceTest = (a) => a.cls === 'Uint8Array'
  m(U, 'from', (t, a) => (a[0].seq ? w.bytesOf(a[0].seq) : w.bytesOf([{ k: 'vals', vals: w.list(a[0]).map((b) => w.toByte(b)) }])))
  m(U, 'of', (t, a) => w.bytesOf([{ k: 'vals', vals: a.map((b) => w.toByte(b)) }]))
  // an array of the environment is a view of any part of a buffer
  getter(UP, 'byteOffset', (t) => {
    if (t.alias) w.unsupported('the offset of a part of an array')
    if (!t.bname) return 0
    return (t.boff ??= w.num('offset(' + t.bname + ')'))
  })
  getter(UP, 'buffer', (t) => {
    if (t.alias) w.unsupported('the buffer of a part of an array')
    if (!t.abuf) {
      t.abuf = new Obj(P.ArrayBuffer, 'ArrayBuffer')
      t.abuf.buf = t
      if (t.bname) t.abuf.buf = w.bytesOf([{ k: 'range', src: 'before ' + t.bname, from: 0, to: w.get(t, 'byteOffset') }, ...t.seq, { k: 'range', src: 'after ' + t.bname, from: 0, to: w.num('after(' + t.bname + ')') }])
      t.abuf.buf.abuf = t.abuf
    }
    return t.abuf
  })
  getter(P.ArrayBuffer, 'byteLength', (t) => seqLen(t.buf.seq))
  cls('ArrayBuffer', P.ArrayBuffer, (a) => {
    const o = new Obj(P.ArrayBuffer, 'ArrayBuffer')
    o.buf = w.construct(U, a)
    o.buf.abuf = o
    return o
  })
  m(UP, 'set', (t, a) => {
    const off = a[1] ?? 0
    const src = a[0].seq ?? [{ k: 'vals', vals: w.list(a[0]).map((b) => w.toByte(b)) }]
    const n = seqLen(src)
    const end = lin(off).add(lin(n))
    if (!w.ge0(lin(seqLen(t.seq)).add(end, -1))) w.throwErr('RangeError', 'offset is out of bounds')
    const [x, r] = w.splitAt(t.seq, off)
    const [, y] = w.splitAt(r, n)
    t.seq = mergeSeq([...x, ...src, ...y])
  })
  const sub = (t, a) => {
    const n = seqLen(t.seq)
    const from = idx(a[0], n, 0)
    const to = idx(a[1], n, n)
    if (linSame(from, 0) && linSame(to, n)) return w.bytesOf(t.seq)
    return w.bytesOf(w.slice(t.seq, from, to))
  }
  const linSame = (a, b) => lin(a).add(lin(b), -1).norm() === 0
  m(UP, 'subarray', (t, a) => {
    const r = sub(t, a)
    r.alias = t.alias ?? t
    return r
  })
  m(UP, 'slice', sub)
  m(UP, 'fill', (t, a) => {
    const n = seqLen(t.seq)
    if (a.length > 1 || (a[0] !== 0 && !(typeof n === 'number' && n <= 64))) w.unsupported('fill')
    if (a[0] !== 0) {
      t.seq = mergeSeq([{ k: 'vals', vals: new Array(n).fill(w.toByte(a[0])) }])
      return t
    }
    t.seq = [{ k: 'zero', len: seqLen(t.seq) }]
    return t
  })
  const byteList = (t) => {
    const l = []
    for (let i = 0; i < 4096; i++) {
      const v = w.byteAt(t, i)
      if (v === undefined) return w.arrayOf(l)
      l.push(v)
    }
    w.unsupported('the bytes of an unknown array')
  }
  for (const n of ['forEach', 'find', 'findIndex', 'some', 'every', 'reduce', 'reduceRight', 'includes', 'indexOf', 'lastIndexOf', 'join', 'at', 'findLast', 'findLastIndex', 'entries', 'keys'])
    m(UP, n, (t, a) => w.call(w.get(AP, n), byteList(t), a))
  for (const n of ['map', 'filter', 'toReversed', 'toSorted', 'with'])
    m(UP, n, (t, a) => w.bytesOf(mergeSeq([{ k: 'vals', vals: w.list(w.call(w.get(AP, n), byteList(t), a)).map((b) => w.toByte(b)) }])))
  m(UP, Symbol.iterator, (t) => {
    let i = 0
    return iterOf(() => {
      const v = w.byteAt(t, i++)
      return v === undefined ? null : [v]
    })
  })
  w.u32 = (seq, off, le) => {
    const s = w.slice(seq, off, lin(off).add(lin(4)).norm())
    if (s.length === 1 && s[0].k === 'range') {
      const n = 'u32' + (le ? 'le' : 'be') + '(' + s[0].src + '@' + show(s[0].from) + ')'
      if (!w.memo.has(n)) {
        const v = w.num(n, 0, 2 ** 32 - 1)
        w.memo.set(n, v)
      }
      return w.memo.get(n)
    }
    if (s.length === 1 && (s[0].k === 'vals' || s[0].k === 'zero')) {
      const vals = s[0].k === 'zero' ? [0, 0, 0, 0] : s[0].vals
      let r = lin(0)
      vals.forEach((b, i) => (r = r.add(lin(b).scale(2 ** (8 * (le ? i : 3 - i))))))
      return r.norm()
    }
    w.unsupported('a number out of mixed bytes')
  }
  w.u32bytes = (v, le) => {
    v = w.toNum(v)
    let bytes
    if (typeof v === 'number') bytes = [v & 255, (v >>> 8) & 255, (v >>> 16) & 255, (v >>> 24) & 255]
    else {
      bytes = []
      let r = lin(v)
      const known = r.terms.size && [...r.terms.keys()].every((k) => k.hi <= 255)
      if (known) {
        for (let i = 0; i < 4; i++) {
          const low = lin(w.bitAnd(r, 255))
          bytes.push(low.norm())
          r = r.add(low, -1).scale(1 / 256)
        }
      } else for (let i = 0; i < 4; i++) bytes.push(w.byteOfNum(r, i))
    }
    return le ? bytes : bytes.reverse()
  }
  // the i-th byte of an unknown number
  w.byteOfNum = (l, i) => {
    const n = 'byte' + i + '(' + l + ')'
    if (!w.memo.has(n)) w.memo.set(n, w.num(n, 0, 255))
    return w.memo.get(n)
  }
  cls('DataView', P.DataView, (a) => {
    const o = new Obj(P.DataView, 'DataView')
    o.dv = a[0].buf
    if (a[1] !== undefined && a[1] !== 0) o.dv = w.bytesOf(w.slice(o.dv.seq, a[1], a[2] === undefined ? seqLen(o.dv.seq) : lin(a[1]).add(lin(a[2])).norm()))
    return o
  })
  m(P.DataView, 'setUint32', (t, a) => {
    const [x, r] = w.splitAt(t.dv.seq, a[0])
    if (!w.ge0(lin(seqLen(r)).add(lin(-4)))) w.throwErr('RangeError', 'offset is outside the bounds of the DataView')
    const [, y] = w.splitAt(r, 4)
    t.dv.seq = mergeSeq([...x, { k: 'vals', vals: w.u32bytes(a[1], w.truthy(a[2])) }, ...y])
  })
  m(P.DataView, 'getUint32', (t, a) => {
    if (!w.ge0(lin(seqLen(t.dv.seq)).add(lin(a[0]), -1).add(lin(-4)))) w.throwErr('RangeError', 'offset is outside the bounds of the DataView')
    return w.u32(t.dv.seq, a[0], w.truthy(a[1]))
  })
  // the other widths, of bytes which are known
  for (const [n, size] of [['Int8', 1], ['Int16', 2], ['Uint16', 2], ['Int32', 4], ['Float32', 4], ['Float64', 8], ['BigUint64', 8], ['BigInt64', 8]]) {
    m(P.DataView, 'get' + n, (t, a) => {
      if (!w.ge0(lin(seqLen(t.dv.seq)).add(lin(a[0]), -1).add(lin(-size)))) w.throwErr('RangeError', 'offset is outside the bounds of the DataView')
      const s = w.slice(t.dv.seq, a[0], lin(a[0]).add(lin(size)).norm())
      const b = s.flatMap((x) => (x.k === 'vals' ? x.vals : x.k === 'zero' && typeof x.len === 'number' ? new Array(x.len).fill(0) : [null]))
      if (n === 'Uint16' && b.length === 2 && b.every((x) => isNum(x))) {
        const [hi, lo] = w.truthy(a[1]) ? [b[1], b[0]] : b
        return lin(hi).scale(256).add(lin(lo)).norm()
      }
      if (b.length !== size || b.some((x) => typeof x !== 'number')) w.unsupported('get' + n + ' of unknown bytes')
      return new DataView(Uint8Array.from(b).buffer)['get' + n](0, w.truthy(a[1]))
    })
    m(P.DataView, 'set' + n, (t, a) => {
      if (typeof a[1] !== 'number' && typeof a[1] !== 'bigint') w.unsupported('set' + n + ' of an unknown number')
      const u = new Uint8Array(size)
      new DataView(u.buffer)['set' + n](0, a[1], w.truthy(a[2]))
      const [x, r] = w.splitAt(t.dv.seq, a[0])
      if (!w.ge0(lin(seqLen(r)).add(lin(-size)))) w.throwErr('RangeError', 'offset is outside the bounds of the DataView')
      const [, y] = w.splitAt(r, size)
      t.dv.seq = mergeSeq([...x, { k: 'vals', vals: [...u] }, ...y])
    })
  }
  getter(P.DataView, 'byteLength', (t) => seqLen(t.dv.seq))
  m(P.DataView, 'setUint8', (t, a) => w.setByte(t.dv, a[0], a[1]))
  m(P.DataView, 'getUint8', (t, a) => w.byteAt(t.dv, a[0]))
  cls('TextEncoder', new Obj(P.Object), () => w.object({ encode: w.native('encode', (t, a) => w.someBytes('utf8(' + show(a[0]) + ')')) }))

  // Uint8ArrayList (of the package uint8arraylist)
  const LP = (P.Uint8ArrayList = new Obj(P.Object, 'Uint8ArrayList'))
  const L = w.native('Uint8ArrayList', () => w.throwErr('TypeError', 'class constructor Uint8ArrayList cannot be invoked without new'))
  w.def(L, 'prototype', LP)
  const segs = (x) => {
    if (x instanceof Obj && x.seq) return x.seq
    w.throwErr('Error', 'Could not append value, must be an Uint8Array or a Uint8ArrayList')
  }
  const mkList = (seq, proto) => {
    const o = new Obj(proto ?? LP, 'Uint8ArrayList')
    o.seq = mergeSeq(seq)
    return o
  }
  w.u8list = mkList
  L.nativeNew = (a, nt) => mkList(a.flatMap(segs), nt ? w.get(nt, 'prototype') : LP)
  w.Uint8ArrayList = L
  m(L, 'fromUint8Arrays', (t, a) => mkList(w.list(a[0]).flatMap(segs)))
  m(LP, 'append', (t, a) => {
    t.seq = mergeSeq([...t.seq, ...a.flatMap(segs)])
  })
  m(LP, 'prepend', (t, a) => {
    t.seq = mergeSeq([...a.flatMap(segs), ...t.seq])
  })
  m(LP, 'consume', (t, a) => {
    const n = w.toNum(a[0])
    if (!w.ge0(lin(seqLen(t.seq)).add(lin(n), -1))) t.seq = []
    else t.seq = w.splitAt(t.seq, n)[1]
  })
  const lsub = (t, a) => {
    const n = seqLen(t.seq)
    const from = a[0] === undefined ? 0 : w.toNum(a[0])
    const to = a[1] === undefined ? n : w.toNum(a[1])
    if (!w.ge0(lin(n).add(lin(to), -1)) || !w.ge0(from) || !w.ge0(lin(to).add(lin(from), -1))) w.throwErr('RangeError', 'index is out of bounds')
    return w.slice(t.seq, from, to)
  }
  m(LP, 'sublist', (t, a) => mkList(lsub(t, a)))
  m(LP, 'subarray', (t, a) => w.bytesOf(lsub(t, a)))
  m(LP, 'slice', (t, a) => w.bytesOf(lsub(t, a)))
  m(LP, 'get', (t, a) => w.byteAt(t, a[0]))
  m(LP, 'set', (t, a) => w.setByte(t, a[0], a[1]))
  m(LP, 'write', (t, a) => w.call(w.get(UP, 'set'), t, [a[0], a[1]]))
  m(LP, 'getUint32', (t, a) => {
    if (!w.ge0(lin(seqLen(t.seq)).add(lin(a[0]), -1).add(lin(-4)))) w.throwErr('RangeError', 'index is out of bounds')
    return w.u32(t.seq, a[0], w.truthy(a[1]))
  })
  m(LP, 'setUint32', (t, a) => {
    if (!w.ge0(lin(seqLen(t.seq)).add(lin(a[0]), -1).add(lin(-4)))) w.throwErr('RangeError', 'index is out of bounds')
    const [x, r] = w.splitAt(t.seq, a[0])
    const [, y] = w.splitAt(r, 4)
    t.seq = mergeSeq([...x, { k: 'vals', vals: w.u32bytes(a[1], w.truthy(a[2])) }, ...y])
  })
  m(LP, Symbol.iterator, (t) => {
    let i = 0
    const l = t.seq.map((s) => w.bytesOf([s]))
    return iterOf(() => (i < l.length ? [l[i++]] : null))
  })
  m(LP, 'isUint8ArrayList', () => true)

  // the rest
  const con = w.object({}, 'console')
  for (const n of ['log', 'error', 'warn', 'debug', 'info', 'trace']) m(con, n, () => undefined)
  g('console', con)
  const DP = new Obj(P.Object, 'Date')
  const D = cls('Date', DP, (a) => {
    const o = new Obj(DP, 'Date')
    o.at = a.length === 0 ? w.dateNow() : a.length === 1 && isNum(a[0]) ? a[0] : a.length === 1 && typeof a[0] === 'string' ? Date.parse(a[0]) : w.unsupported('new Date')
    return o
  })
  for (const n of ['getTime', 'valueOf']) m(DP, n, (t) => t.at)
  for (const n of ['toISOString', 'toJSON', 'toString']) m(DP, n, (t) => w.str('date(' + show(t.at) + ')'))
  m(D, 'now', () => w.dateNow())
  // the time, if the rule has a clock; it goes on when a timer fires
  w.now = null
  w.dateNow = () => w.now ?? w.freshNum('now')
  const perf = w.object({}, 'performance')
  m(perf, 'now', () => w.dateNow())
  g('performance', perf)
  const timer = (repeat) => (t, a) => {
    const h = new Obj(P.Object, 'Timeout')
    h.label = 'timer' + (w.timers.length + 1)
    const tm = { h, fn: a[0], delay: a[1] ?? 0, args: a.slice(2), live: true, repeat, at: w.now === null ? null : lin(w.now).add(lin(a[1] ?? 0)).norm() }
    w.timers.push(tm)
    w.ev('setTimeout', { tm })
    return h
  }
  g('setTimeout', w.native('setTimeout', timer(false)))
  g('setInterval', w.native('setInterval', timer(true)))
  const clear = w.native('clearTimeout', (t, a) => {
    const tm = w.timers.find((x) => x.h === a[0])
    if (tm) {
      if (tm.live) w.ev('clearTimeout', { tm })
      tm.live = false
    }
  })
  g('clearTimeout', clear)
  g('clearInterval', clear)
  g('setImmediate', w.native('setImmediate', timer(false)))
  const J = w.object({}, 'JSON')
  m(J, 'stringify', (t, a) => {
    // what is known is written as it is
    const host = (v, d) => {
      if (v === undefined || v === null || ['string', 'number', 'boolean'].includes(typeof v)) return v
      if (v instanceof Fn) return undefined
      if (!(v instanceof Obj) || d > 8 || v.seq || v.mapv || w.find(v, 'toJSON')) throw w
      if (v.arr) return v.arr.map((x) => host(x, d + 1))
      const o = {}
      for (const k of ownKeys(v)) o[k] = host(val(v, k), d + 1)
      return o
    }
    try {
      if (a[1] === undefined || a[1] === null) return JSON.stringify(host(a[0], 0), null, a[2])
    } catch (e) {
      if (e !== w) throw e
    }
    return new Str(['json(', w.str('json:' + show(a[0])), ')'])
  })
  m(J, 'parse', (t, a) => {
    if (typeof a[0] !== 'string' || a[1]) w.unsupported('JSON.parse of an unknown string')
    const back = (v) => (Array.isArray(v) ? w.arrayOf(v.map(back)) : v && typeof v === 'object' ? w.object(Object.fromEntries(Object.entries(v).map(([k, x]) => [k, back(x)]))) : v)
    let v
    try {
      v = JSON.parse(a[0])
    } catch (e) {
      w.throwErr('SyntaxError', e.message)
    }
    return back(v)
  })
  g('JSON', J)
  const clone = (v, seen) => {
    if (!(v instanceof Obj)) return v
    if (v instanceof Fn) w.throwErr('DOMException', 'could not be cloned')
    if (seen.has(v)) return seen.get(v)
    if (v.seq) return w.bytesOf(v.seq)
    if (v.mapv || v.label || v.cls === 'Promise') w.unsupported('structuredClone')
    const o = v.arr ? w.arrayOf([]) : v.cls === 'Error' ? new Obj(v.proto, 'Error') : w.object({})
    seen.set(v, o)
    if (v.arr) for (const x of v.arr) o.arr.push(clone(x, seen))
    else for (const k of ownKeys(v)) w.setOwn(o, k, clone(val(v, k), seen))
    return o
  }
  g('structuredClone', w.native('structuredClone', (t, a) => clone(a[0], new Map())))
  const proc = w.object({ env: w.object({}) }, 'process')
  g('process', proc)
  // channels of the browser: objects of the environment
  for (const n of ['MessagePort', 'BroadcastChannel', 'WebSocket', 'MessageChannel', 'EventTarget', 'AbortSignal', 'AbortController']) {
    const pr = new Obj(P.Object, n)
    P[n] = pr
    const c = cls(n, pr, (a) => (w.newEnv ? w.newEnv(n, a) : w.unsupported('new ' + n)))
    c.instanceTest = function (a) {
      for (let x = a.proto; x; x = x.proto) if (x === pr) return true
      return false
    }
  }
  // targets of events which the code makes itself
  const EP = P.EventTarget
  P.AbortSignal.proto = EP
  const target = (o) => {
    o.listeners = []
    return o
  }
  const fire = (o, type, ev) => {
    if (!o.listeners) w.unsupported('dispatchEvent of the environment')
    const on = w.get(o, 'on' + type)
    if (on instanceof Fn) w.call(on, o, [ev])
    for (const l of [...o.listeners]) {
      if (l.type !== type || l.gone) continue
      if (l.once) drop(o, l)
      if (l.fn instanceof Fn) w.call(l.fn, o, [ev])
      else w.call(w.get(l.fn, 'handleEvent'), l.fn, [ev])
    }
  }
  const drop = (o, l) => {
    l.gone = true
    const i = o.listeners.indexOf(l)
    if (i >= 0) o.listeners.splice(i, 1)
  }
  m(EP, 'addEventListener', (t, a) => {
    if (!t.listeners) w.unsupported('addEventListener of the environment')
    if (a[1] === null || a[1] === undefined || t.listeners.some((l) => l.type === a[0] && l.fn === a[1])) return
    const l = { type: a[0], fn: a[1], once: a[2] instanceof Obj && w.truthy(w.get(a[2], 'once')) }
    const sig = a[2] instanceof Obj ? w.get(a[2], 'signal') : undefined
    if (sig instanceof Obj) {
      if (w.truthy(w.get(sig, 'aborted'))) return
      w.call(w.get(sig, 'addEventListener'), sig, ['abort', w.native('', () => drop(t, l))])
    }
    t.listeners.push(l)
  })
  m(EP, 'removeEventListener', (t, a) => {
    for (const l of [...(t.listeners ?? [])]) if (l.type === a[0] && l.fn === a[1]) drop(t, l)
  })
  m(EP, 'dispatchEvent', (t, a) => {
    w.setOwn(a[0], 'target', t)
    fire(t, w.get(a[0], 'type'), a[0])
    return true
  })
  G.EventTarget.nativeNew = (a, nt) => target(new Obj(nt ? w.get(nt, 'prototype') : EP, 'EventTarget'))
  for (const n of ['Event', 'CustomEvent', 'MessageEvent', 'CloseEvent', 'ErrorEvent']) {
    const pr = new Obj(n === 'Event' ? P.Object : P.Event, n)
    P[n] = pr
    cls(n, pr, (a, nt) => {
      const o = new Obj(nt ? w.get(nt, 'prototype') : pr, n)
      w.def(o, 'type', a[0])
      if (a[1] instanceof Obj) for (const k of ownKeys(a[1])) w.def(o, k, val(a[1], k))
      return o
    })
  }
  const signal = () => {
    const o = target(new Obj(P.AbortSignal, 'AbortSignal'))
    w.def(o, 'aborted', false)
    w.def(o, 'reason', undefined)
    return o
  }
  const abort = (o, a) => {
    if (o.props.get('aborted').v === true) return
    o.props.get('aborted').v = true
    o.props.get('reason').v = a[0] === undefined ? w.construct(G.DOMException, ['This operation was aborted', 'AbortError']) : a[0]
    fire(o, 'abort', w.object({ type: 'abort', target: o }))
  }
  m(P.AbortSignal, 'throwIfAborted', (t) => {
    if (w.truthy(w.get(t, 'aborted'))) T(w.get(t, 'reason'))
  })
  m(G.AbortSignal, 'abort', (t, a) => {
    const o = signal()
    abort(o, a)
    return o
  })
  m(G.AbortSignal, 'any', (t, a) => {
    const o = signal()
    for (const s of w.list(a[0])) {
      if (w.truthy(w.get(s, 'aborted'))) abort(o, [w.get(s, 'reason')])
      else w.call(w.get(s, 'addEventListener'), s, ['abort', w.native('', () => abort(o, [w.get(s, 'reason')])), w.object({ once: true })])
    }
    return o
  })
  G.AbortController.nativeNew = (a, nt) => {
    const o = new Obj(nt ? w.get(nt, 'prototype') : P.AbortController, 'AbortController')
    w.def(o, 'signal', signal())
    return o
  }
  m(P.AbortController, 'abort', (t, a) => abort(w.get(t, 'signal'), a))
  // Proxy, Reflect
  const Px = w.native('Proxy', () => w.throwErr('TypeError', "constructor Proxy requires 'new'"))
  Px.nativeNew = (a) => {
    const o = a[0] instanceof Fn ? new Fn(a[0].proto, a[0].fname) : new Obj(a[0].proto, a[0].cls)
    if (a[0].arr || a[0].seq || a[0].mapv || (a[0] instanceof Fn && a[0].isClass)) w.unsupported('a proxy of ' + show(a[0]))
    o.proxy = { target: a[0], handler: a[1] }
    return o
  }
  g('Proxy', Px)
  const R = w.object({}, 'Reflect')
  g('Reflect', R)
  m(R, 'get', (t, a) => w.get(a[0], w.key(a[1]), a[2]))
  m(R, 'set', (t, a) => (w.set(a[0], w.key(a[1]), a[2]), true))
  m(R, 'has', (t, a) => w.has(a[0], w.key(a[1])))
  m(R, 'deleteProperty', (t, a) => (w.del(a[0], w.key(a[1])), true))
  m(R, 'ownKeys', (t, a) => w.arrayOf(a[0].arr ? [...ownKeys(a[0]), 'length'] : [...a[0].props.keys()]))
  m(R, 'apply', (t, a) => w.call(a[0], a[1], w.list(a[2])))
  m(R, 'construct', (t, a) => w.construct(a[0], w.list(a[1]), a[2]))
  m(R, 'getPrototypeOf', (t, a) => a[0].proto)
  m(R, 'setPrototypeOf', (t, a) => ((a[0].proto = a[1]), true))
  m(R, 'defineProperty', (t, a) => (w.call(w.get(O, 'defineProperty'), O, a), true))
  const glob = w.object({}, 'globalThis')
  glob.onMissing = (k) => genv.vars.get(k)?.v
  g('globalThis', glob)
  w.def(P.Function, Symbol.hasInstance, undefined)
  for (const p of Object.values(P)) p.builtin = true
  // properties which an unknown name is tried against: those which everybody has
  for (const [k, p] of P.Object.props) if (!['constructor', '__proto__', 'toString'].includes(k)) p.hiddenFromUnknown = true
}
