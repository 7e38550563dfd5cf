// The abstract values of the analysis of the TypeScript sources.
//
// Concrete primitives stand for themselves. Everything which comes from
// outside of the analysed code is one of the abstract values below, each of
// which stands for all the values of its class.

export class Thrown {
  constructor(v) {
    this.v = v
  }
}
export class Unsupported extends Error {
  constructor(msg, where) {
    super(msg)
    this.where = where
  }
}
export class Infeasible extends Error {}
export class ReturnSignal {
  constructor(v) {
    this.v = v
  }
}

// Sym is an unknown value: kind 'str' is any non-empty string, 'bool' any
// boolean, 'any' anything.
export class Sym {
  constructor(kind, name) {
    this.kind = kind
    this.name = name
    this.props = new Map()
  }
  toString() {
    return this.name
  }
}

// Str is a concatenation of strings some of which are unknown.
export class Str {
  constructor(parts) {
    this.parts = parts
  }
  toString() {
    return '`' + this.parts.map((p) => (typeof p === 'string' ? p : '${' + show(p) + '}')).join('') + '`'
  }
}

// Num is an unknown number within bounds.
export class NumSym {
  constructor(name, lo, hi) {
    this.name = name
    this.lo = lo
    this.hi = hi
  }
}

// Lin is a linear expression over unknown numbers.
export class Lin {
  constructor(c, terms) {
    this.c = c
    this.terms = terms // Map NumSym -> coefficient
  }
  static of(x) {
    if (x instanceof Lin) return x
    if (x instanceof NumSym) return new Lin(0, new Map([[x, 1]]))
    return new Lin(x, new Map())
  }
  norm() {
    for (const [k, v] of this.terms) if (v === 0) this.terms.delete(k)
    return this.terms.size === 0 ? this.c : this
  }
  add(o, f = 1) {
    const t = new Map(this.terms)
    for (const [k, v] of o.terms) t.set(k, (t.get(k) ?? 0) + f * v)
    return Lin.of(new Lin(this.c + f * o.c, t).norm())
  }
  scale(f) {
    const t = new Map()
    for (const [k, v] of this.terms) t.set(k, v * f)
    return Lin.of(new Lin(this.c * f, t).norm())
  }
  lo() {
    let r = this.c
    for (const [k, v] of this.terms) r += v > 0 ? v * k.lo : v * k.hi
    return r
  }
  hi() {
    let r = this.c
    for (const [k, v] of this.terms) r += v > 0 ? v * k.hi : v * k.lo
    return r
  }
  key() {
    return [...this.terms]
      .map(([k, v]) => v + '*' + k.name)
      .sort()
      .join('+')
  }
  toString() {
    const t = [...this.terms].map(([k, v]) => (v === 1 ? '' : v + '*') + k.name)
    if (this.c !== 0 || t.length === 0) t.push(String(this.c))
    return t.join(' + ')
  }
}
export const lin = (x) => Lin.of(x)
export const isNum = (x) => typeof x === 'number' || x instanceof Lin

let nobj = 0
export class Obj {
  constructor(proto, cls) {
    this.proto = proto ?? null
    this.cls = cls || 'Object'
    this.props = new Map()
    this.id = ++nobj
  }
}
export class Fn extends Obj {
  constructor(proto, name) {
    super(proto, 'Function')
    this.fname = name
  }
}

export function show(v, d = 0) {
  if (v === undefined) return 'undefined'
  if (v === null) return 'null'
  if (typeof v === 'string') return JSON.stringify(v)
  if (typeof v === 'symbol') return v.toString()
  if (v instanceof Fn) return 'function ' + (v.fname || '(anonymous)')
  if (v instanceof Obj) {
    if (v.label) return v.label
    if (v.seq) return 'bytes(' + v.seq.map(showSeg).join(' ++ ') + ')'
    if (v.arr) return d > 3 ? '[...]' : '[' + v.arr.map((x) => show(x, d + 1)).join(', ') + ']'
    if (v.cls === 'Error') return 'Error(' + show(v.props.get('message')?.v) + ')'
    if (d > 3) return '{...}'
    const ps = []
    for (const [k, p] of v.props) if (!(p.v instanceof Fn)) ps.push(show(k).replace(/^"(.*)"$/, '$1') + ': ' + (p.get ? '(get)' : show(p.v, d + 1)))
    return (v.cls !== 'Object' ? v.cls : '') + '{' + ps.join(', ') + '}'
  }
  return String(v)
}

// Segments of byte sequences: known values, or a part [from, to) of an
// unknown sequence, or zeros.
export function showSeg(s) {
  if (s.k === 'vals') return '[' + s.vals.map((x) => show(x)).join(' ') + ']'
  if (s.k === 'zero') return 'zeros(' + show(s.len) + ')'
  return s.src + '[' + show(s.from) + ':' + show(s.to) + ']'
}
export function segLen(s) {
  if (s.k === 'vals') return s.vals.length
  if (s.k === 'zero') return s.len
  return lin(s.to).add(lin(s.from), -1).norm()
}
export function seqLen(seq) {
  let r = lin(0)
  for (const s of seq) r = r.add(lin(segLen(s)))
  return r.norm()
}
export function linEq(a, b) {
  const d = lin(a).add(lin(b), -1).norm()
  return d === 0
}
// mergeSeq joins neighbours which belong together.
export function mergeSeq(seq) {
  const out = []
  for (const s of seq) {
    if (linEq(segLen(s), 0)) continue
    const p = out[out.length - 1]
    if (p && p.k === 'range' && s.k === 'range' && p.src === s.src && linEq(p.to, s.from)) {
      out[out.length - 1] = { k: 'range', src: p.src, from: p.from, to: s.to }
    } else if (p && p.k === 'vals' && s.k === 'vals') {
      out[out.length - 1] = { k: 'vals', vals: [...p.vals, ...s.vals] }
    } else out.push(s)
  }
  return out
}
export function seqEq(a, b) {
  a = mergeSeq(a)
  b = mergeSeq(b)
  if (a.length !== b.length) return false
  for (let i = 0; i < a.length; i++) {
    const s = a[i]
    const t = b[i]
    if (s.k !== t.k) return false
    if (s.k === 'vals') {
      if (s.vals.length !== t.vals.length) return false
      for (let j = 0; j < s.vals.length; j++) if (!(isNum(s.vals[j]) && isNum(t.vals[j]) && linEq(s.vals[j], t.vals[j]))) return false
    } else if (s.k === 'zero') {
      if (!linEq(s.len, t.len)) return false
    } else if (s.src !== t.src || !linEq(s.from, t.from) || !linEq(s.to, t.to)) return false
  }
  return true
}
