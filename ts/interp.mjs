// The abstract interpreter: follows the control flow of the TypeScript
// syntax trees over abstract values, with the order of jobs of the language
// (promises, async functions, generators). One World is one abstract path;
// explore() follows every one of them.
import { createRequire } from 'module'
import fs from 'fs'
import path from 'path'
import { Thrown, Unsupported, Infeasible, ReturnSignal, Sym, Str, NumSym, Lin, lin, isNum, Obj, Fn, show, seqLen, mergeSeq, seqEq, linEq, segLen } from './values.mjs'
import { installGlobals } from './globals.mjs'

const require = createRequire('/opt/veriftools/node/node_modules/x.js')
export const ts = require('typescript')
const K = ts.SyntaxKind

const parsed = new Map()
// parseText parses the text of a file; virtual files may change
export function parseText(file, text) {
  const key = file + '\0' + text
  let sf = parsed.get(key)
  if (!sf) {
    sf = ts.createSourceFile(file, text, ts.ScriptTarget.ES2022, true, file.endsWith('.js') ? ts.ScriptKind.JS : ts.ScriptKind.TS)
    if (sf.parseDiagnostics.length) {
      const d = sf.parseDiagnostics[0]
      const e = new Unsupported('the file does not parse: ' + ts.flattenDiagnosticMessageText(d.messageText, ' '), file)
      e.line = text.slice(0, d.start).split('\n').length + ' ' + text.slice(d.start).split('\n')[0]
      throw e
    }
    parsed.set(key, sf)
    findCounters(sf)
  }
  return sf
}
export function parseFile(file) {
  let sf = parsed.get(file)
  if (!sf) parsed.set(file, (sf = parseText(file, fs.readFileSync(file, 'utf8'))))
  return sf
}

// the names which are only counted up, or only counted down, by one
const counted = new Map()
const isCounter = (n) => {
  const c = counted.get(n)
  return !!c && (c.up === 0) !== (c.down === 0)
}
function findCounters(sf) {
  const name = (e) => {
    while (e.kind === K.ParenthesizedExpression || e.kind === K.NonNullExpression) e = e.expression
    return e.kind === K.Identifier ? e.text : e.kind === K.PropertyAccessExpression ? e.name.text : undefined
  }
  const one = (e) => e.kind === K.NumericLiteral && e.text === '1'
  const note = (e, up) => {
    const n = name(e)
    if (n === undefined) return
    if (!counted.has(n)) counted.set(n, { up: 0, down: 0 })
    counted.get(n)[up ? 'up' : 'down']++
  }
  const visit = (n) => {
    if ((n.kind === K.PrefixUnaryExpression || n.kind === K.PostfixUnaryExpression) && (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken)) note(n.operand, n.operator === K.PlusPlusToken)
    else if (n.kind === K.BinaryExpression) {
      const op = n.operatorToken.kind
      if ((op === K.PlusEqualsToken || op === K.MinusEqualsToken) && one(n.right)) note(n.left, op === K.PlusEqualsToken)
      else if (op === K.EqualsToken && n.right.kind === K.BinaryExpression) {
        const r = n.right
        const o = r.operatorToken.kind
        if ((o === K.PlusToken || o === K.MinusToken) && ((one(r.right) && r.left.getText() === n.left.getText()) || (o === K.PlusToken && one(r.left) && r.right.getText() === n.left.getText()))) note(n.left, o === K.PlusToken)
      }
    }
    ts.forEachChild(n, visit)
  }
  visit(sf)
}

const forInKeys = (v) => {
  const out = []
  for (let x = v; x && !x.builtin; x = x.proto) for (const [k, p] of x.props) if (typeof k !== 'symbol' && !p.hid && !out.includes(k) && !(x !== v && k === 'constructor') && !(p.v instanceof Fn && x !== v && p.v.method)) out.push(k)
  return out
}
const isVar = (list) => !(list.flags & ts.NodeFlags.BlockScoped)
const varMemo = new WeakMap()
function varNames(node) {
  let out = varMemo.get(node)
  if (out) return out
  out = new Set()
  const name = (n) => {
    if (n.kind === K.Identifier) out.add(n.text)
    else for (const e of n.elements) if (e.name) name(e.name)
  }
  const visit = (n) => {
    if (ts.isFunctionLike(n) || ts.isClassLike(n) || n.kind === K.ModuleDeclaration) return
    if (n.kind === K.VariableDeclarationList && isVar(n) && !n.parent.modifiers?.some((x) => x.kind === K.DeclareKeyword)) for (const d of n.declarations) name(d.name)
    ts.forEachChild(n, visit)
  }
  ts.forEachChild(node, visit)
  varMemo.set(node, out)
  return out
}

class Env {
  constructor(parent, fn) {
    this.vars = new Map()
    this.parent = parent
    this.fn = fn ?? parent?.fn ?? null
  }
  lookup(name) {
    for (let e = this; e; e = e.parent) {
      const v = e.vars.get(name)
      if (v) return v
    }
    return null
  }
  declare(name, v, konst) {
    this.vars.set(name, { v, konst })
  }
}
// FnEnv is the activation of a function: its this, and what super means.
class Act {
  constructor(thisV, fn, newTarget) {
    this.thisV = thisV
    this.fn = fn
    this.newTarget = newTarget
  }
}
const UNINIT = { uninit: true }

export class World {
  constructor(prog, prefix) {
    this.prog = prog
    this.prefix = prefix
    this.trail = [] // [{n, pick, label}]
    this.memo = new Map()
    this.lins = [] // known >= 0
    this.differ = [] // strings which are not equal
    this.jobs = []
    this.events = []
    this.timers = []
    this.modules = new Map()
    this.steps = 0
    this.promises = []
    this.cur = null
    this.stack = []
    this.fresh = 0
    this.openCalls = 0
    installGlobals(this)
  }

  // ---- paths
  choose(n, label) {
    if (n < 2) return 0
    const i = this.trail.length
    const pick = i < this.prefix.length ? this.prefix[i] : 0
    if (this.trail.length > 400) throw new Unsupported('too many branches on one path', this.where())
    this.trail.push({ n, pick, label })
    return pick
  }
  decide(key, label) {
    let d = this.memo.get(key)
    if (d === undefined) {
      d = this.choose(2, label ?? key) === 0
      this.memo.set(key, d)
    }
    return d
  }
  infeasible() {
    throw new Infeasible()
  }
  str(name) {
    return new Sym('str', name)
  }
  num(name, lo = 0, hi = Infinity) {
    return lin(new NumSym(name, lo, hi))
  }
  freshNum(name, lo = 0, hi = Infinity) {
    return this.num(name + '#' + ++this.fresh, lo, hi)
  }
  where(node) {
    node = node ?? this.cur
    if (node && this.prog.isLib(node) && this.lastUser) node = this.lastUser
    if (!node) return ''
    const sf = node.getSourceFile()
    const { line } = sf.getLineAndCharacterOfPosition(node.getStart(sf))
    return path.relative(this.prog.root, sf.fileName) + ':' + (line + 1)
  }
  unsupported(msg, node) {
    throw new Unsupported(msg, this.where(node))
  }
  ev(t, o) {
    const e = { t, where: this.where(), fn: this.stack.slice(), ...o }
    this.events.push(e)
    return e
  }
  err(cls, msg) {
    const e = new Obj(this.g[cls].props.get('prototype').v, 'Error')
    e.errName = cls
    e.props.set('message', { v: msg })
    e.madeAt = this.where()
    return e
  }
  throwErr(cls, msg) {
    throw new Thrown(this.err(cls, msg))
  }

  // ---- linear facts: l >= 0
  implied(l) {
    l = lin(l)
    if (l.lo() >= 0) return true
    for (const f of this.lins) {
      if (l.add(f, -1).lo() >= 0) return true
    }
    for (const f of this.lins) for (const g of this.lins) if (l.add(f, -1).add(g, -1).lo() >= 0) return true
    return false
  }
  ge0(l, label) {
    l = lin(l)
    if (this.implied(l)) return true
    const neg = l.scale(-1).add(lin(-1))
    if (l.hi() < 0 || this.implied(neg)) return false
    const yes = this.choose(2, label ?? l + ' >= 0') === 0
    this.lins.push(yes ? l : neg)
    return yes
  }
  eq0(l) {
    l = lin(l)
    if (l.terms.size === 0) return l.c === 0
    if (l.lo() > 0 || l.hi() < 0) return false
    if (this.implied(l.add(lin(-1))) || this.implied(l.scale(-1).add(lin(-1)))) return false
    if (this.implied(l) && this.implied(l.scale(-1))) return true
    if (!this.ge0(l)) return false
    return this.ge0(l.scale(-1))
  }

  // ---- conversions
  truthy(v) {
    if (v === undefined || v === null) return false
    if (typeof v === 'boolean') return v
    if (typeof v === 'number') return v !== 0 && !Number.isNaN(v)
    if (typeof v === 'bigint') return v !== 0n
    if (typeof v === 'string') return v !== ''
    if (typeof v === 'symbol' || v instanceof Obj) return true
    if (v instanceof Sym) {
      if (v.bound !== undefined) return this.truthy(v.bound)
      if (v.kind === 'str') return true
      return this.decide('truthy:' + v.name)
    }
    if (v instanceof Str) return v.parts.some((p) => p instanceof Sym || (typeof p === 'string' && p !== '')) ? true : this.unsupported('truth of ' + v)
    if (v instanceof Lin) return !this.eq0(v)
    this.unsupported('truth of ' + show(v))
  }
  isStr(v) {
    return typeof v === 'string' || v instanceof Str || (v instanceof Sym && v.kind === 'str')
  }
  toPrim(v) {
    if (!(v instanceof Obj)) return v
    for (const m of ['valueOf', 'toString']) {
      const f = this.get(v, m)
      if (f instanceof Fn) {
        const r = this.call(f, v, [])
        if (!(r instanceof Obj)) return r
      }
    }
    this.throwErr('TypeError', 'cannot convert object to a primitive value')
  }
  toStr(v) {
    if (this.isStr(v)) return v
    if (v === undefined || v === null || typeof v === 'number' || typeof v === 'boolean' || typeof v === 'bigint') return String(v)
    if (v instanceof Lin || v instanceof Sym) return new Str([v])
    if (typeof v === 'symbol') this.throwErr('TypeError', 'cannot convert a symbol to a string')
    if (v instanceof Obj) {
      const f = this.get(v, 'toString')
      if (f instanceof Fn) {
        const r = this.call(f, v, [])
        if (!(r instanceof Obj)) return this.toStr(r)
      }
      return this.toStr(this.toPrim(v))
    }
    this.unsupported('string of ' + show(v))
  }
  concat(parts) {
    const out = []
    for (let p of parts) {
      if (p instanceof Str) for (const q of p.parts) add(q)
      else add(p)
    }
    function add(p) {
      if (p instanceof Sym && p.bound !== undefined) p = p.bound
      if (typeof p === 'string' && p === '') return
      if (typeof p === 'string' && typeof out[out.length - 1] === 'string') out[out.length - 1] += p
      else out.push(p)
    }
    if (out.length === 0) return ''
    if (out.length === 1 && (typeof out[0] === 'string' || (out[0] instanceof Sym && out[0].kind === 'str'))) return out[0]
    return new Str(out)
  }
  toNum(v) {
    if (isNum(v)) return v
    if (typeof v === 'bigint') return v
    if (v === undefined) return NaN
    if (v === null) return 0
    if (typeof v === 'boolean') return v ? 1 : 0
    if (typeof v === 'string') return Number(v)
    this.unsupported('number of ' + show(v))
  }
  key(v) {
    if (v instanceof Sym && v.bound !== undefined) v = v.bound
    if (typeof v === 'string' || typeof v === 'symbol') return v
    if (v instanceof Sym || v instanceof Str) return v
    if (typeof v === 'number') return String(v)
    if (v instanceof Lin) this.unsupported('unknown index ' + v)
    return this.toStr(v)
  }

  typeOf(v) {
    if (v === undefined) return 'undefined'
    if (v === null) return 'object'
    if (typeof v === 'boolean') return 'boolean'
    if (isNum(v)) return 'number'
    if (typeof v === 'bigint') return 'bigint'
    if (this.isStr(v)) return 'string'
    if (typeof v === 'symbol') return 'symbol'
    if (v instanceof Fn) return 'function'
    if (v instanceof Obj) return 'object'
    if (v instanceof Sym && v.kind === 'bool') return 'boolean'
    this.unsupported('typeof ' + show(v))
  }

  strictEq(a, b) {
    if (a instanceof Sym && a.bound !== undefined) a = a.bound
    if (b instanceof Sym && b.bound !== undefined) b = b.bound
    if (a === b) return true
    if (isNum(a) && isNum(b)) {
      if (Number.isNaN(a) || Number.isNaN(b)) return false
      return this.eq0(lin(a).add(lin(b), -1))
    }
    if (this.isStr(a) && this.isStr(b)) {
      if (typeof a === 'string' && typeof b === 'string') return a === b
      if (typeof b === 'string' || b instanceof Str) [a, b] = [b, a]
      // b is a Sym, or both are Str
      if (a === '') return b instanceof Str ? !this.truthy(b) : false
      if (a instanceof Str && b instanceof Str) {
        if (String(a) === String(b)) return true
      }
      // what was found to be different stays different when one of the two
      // turns out to be a certain string
      const res = (x) => (x instanceof Sym && x.bound !== undefined ? res(x.bound) : x)
      const same = (x, y) => x === y || (x instanceof Str && y instanceof Str && String(x) === String(y))
      for (const [x, y] of this.differ) {
        const [p, q] = [res(x), res(y)]
        if ((same(p, a) && same(q, b)) || (same(p, b) && same(q, a))) return false
      }
      const k = 'eq:' + [String(show(a)), String(show(b))].sort().join('=')
      const d = this.decide(k)
      if (!d) this.differ.push([a, b])
      if (d && typeof a === 'string' && b instanceof Sym) b.bound = a
      if (d && a instanceof Sym && b instanceof Sym) b.bound = a
      return d
    }
    if (a instanceof Sym && a.kind === 'bool' && typeof b === 'boolean') return this.truthy(a) === b
    if (b instanceof Sym && b.kind === 'bool' && typeof a === 'boolean') return this.truthy(b) === a
    if (a instanceof Sym && a.kind === 'any') {
      if (b === null || b === undefined || typeof b === 'boolean' || b === '' || b === 0) {
        if (this.memo.get('truthy:' + a.name) === !this.truthy(b)) return false
      }
      return this.decide('eq:' + a.name + '=' + show(b))
    }
    if (b instanceof Sym && b.kind === 'any') return this.strictEq(b, a)
    return false
  }
  looseEq(a, b) {
    if (a === undefined || a === null) return b === undefined || b === null || (b instanceof Sym && b.kind === 'any' && this.strictEq(b, null))
    if (b === undefined || b === null) return this.looseEq(b, a)
    const ta = this.typeOf(a)
    const tb = this.typeOf(b)
    if (ta === tb || (ta === 'function' && tb === 'object') || (ta === 'object' && tb === 'function')) return this.strictEq(a, b)
    if (typeof a === 'bigint' || typeof b === 'bigint' || typeof a === 'symbol' || typeof b === 'symbol') this.unsupported('== of different types')
    if (a instanceof Obj) return this.looseEq(this.toPrim(a), b)
    if (b instanceof Obj) return this.looseEq(a, this.toPrim(b))
    if (ta === 'boolean' && typeof a !== 'boolean') this.unsupported('== of different types')
    if (tb === 'boolean' && typeof b !== 'boolean') this.unsupported('== of different types')
    return this.strictEq(this.toNum(a), this.toNum(b))
  }

  // ---- properties
  findOwn(o, k) {
    if (o.arr && typeof k === 'string') {
      if (k === 'length') return { v: o.arr.length, special: true }
      if (/^\d+$/.test(k)) return Number(k) < o.arr.length ? { v: o.arr[Number(k)] } : undefined
    }
    if (o.seq && typeof k === 'string') {
      if (k === 'length' || k === 'byteLength') return { v: seqLen(o.seq) }
      if (/^\d+$/.test(k)) {
        const v = this.byteAt(o, Number(k))
        return v === undefined ? undefined : { v }
      }
    }
    if (typeof k === 'string' || typeof k === 'symbol') {
      const p = o.props.get(k)
      if (p) return p
      if (typeof k === 'string') for (const [q, p] of o.props) if (typeof q !== 'string' && typeof q !== 'symbol' && this.strictEq(q, k)) return p
      return undefined
    }
    for (const [q, p] of o.props) {
      if (q === k) return p
    }
    for (const [q, p] of o.props) {
      if (typeof q === 'symbol' || p.hiddenFromUnknown) continue
      if (this.strictEq(q, k)) return p
    }
    return undefined
  }
  find(o, k) {
    for (let x = o, n = 0; x && n < 100; x = x.proto, n++) {
      const p = this.findOwn(x, k)
      if (p) return p
    }
    return undefined
  }
  get(o, k, recv) {
    if (o instanceof Sym && o.bound !== undefined) o = o.bound
    if (o === undefined || o === null) this.throwErr('TypeError', 'cannot read properties of ' + o + " (reading '" + (typeof k === 'symbol' ? String(k) : show(k)) + "')")
    if (this.isStr(o)) {
      if (k === 'length') {
        if (typeof o === 'string') return o.length
        return this.symLen(o)
      }
      if (typeof o === 'string' && /^\d+$/.test(String(k))) return o[Number(k)]
      return this.getFrom(this.protos.String, k, o)
    }
    if (isNum(o) || typeof o === 'bigint') return this.getFrom(this.protos.Number, k, o)
    if (typeof o === 'boolean' || (o instanceof Sym && o.kind === 'bool')) return this.getFrom(this.protos.Boolean, k, o)
    if (typeof o === 'symbol') return k === 'description' ? o.description : this.getFrom(this.protos.Object, k, o)
    if (o instanceof Sym) {
      if (o.kind !== 'any') this.unsupported('property of ' + o)
      if (typeof k !== 'string') this.unsupported('property of an unknown value')
      if (!o.props.has(k)) o.props.set(k, new Sym('any', o.name + '.' + k))
      return o.props.get(k)
    }
    if (!(o instanceof Obj)) this.unsupported('property of ' + show(o))
    if (o.proxy) return this.trap(o, 'get', [k, recv ?? o], () => this.get(o.proxy.target, k))
    return this.getFrom(o, k, recv ?? o)
  }
  symLen(o) {
    const n = 'len(' + o + ')'
    if (!this.memo.has(n)) this.memo.set(n, this.num(n, 1))
    return this.memo.get(n)
  }
  getFrom(o, k, recv) {
    const p = this.find(o, k)
    if (!p) {
      if (o instanceof Obj && o.onMissing) return o.onMissing(k, recv)
      return undefined
    }
    if (p.get || p.set) return p.get ? this.call(p.get, recv, []) : undefined
    return p.v
  }
  set(o, k, v) {
    if (o instanceof Sym && o.bound !== undefined) o = o.bound
    if (o === undefined || o === null) this.throwErr('TypeError', 'cannot set properties of ' + o)
    if (!(o instanceof Obj)) {
      if (o instanceof Sym && o.kind === 'any') this.unsupported('store into an unknown value')
      return // primitives: ignored (or throws in strict mode)
    }
    if (o.proxy) {
      this.trap(o, 'set', [k, v, o], () => this.set(o.proxy.target, k, v))
      return
    }
    if (o.arr && typeof k === 'string' && /^\d+$/.test(k)) {
      const i = Number(k)
      while (o.arr.length < i) o.arr.push(undefined)
      o.arr[i] = v
      return
    }
    if (o.arr && k === 'length') {
      o.arr.length = v
      return
    }
    if (o.seq && typeof k === 'string' && /^\d+$/.test(k)) {
      this.setByte(o, Number(k), v)
      return
    }
    if (o.frozen) this.throwErr('TypeError', 'cannot assign to read only property')
    const p = this.find(o, k)
    if (p && (p.get || p.set)) {
      if (!p.set) this.throwErr('TypeError', 'cannot set property which has only a getter')
      this.call(p.set, o, [v])
      return
    }
    const own = this.findOwn(o, k)
    if (own) own.v = v
    else o.props.set(k, { v })
    if (o.onSet) o.onSet(k, v)
  }
  del(o, k) {
    if (o instanceof Obj) {
      if (o.proxy) {
        this.trap(o, 'deleteProperty', [k], () => this.del(o.proxy.target, k))
        return
      }
      if (o.arr && /^\d+$/.test(String(k))) {
        o.arr[Number(k)] = undefined
        return
      }
      for (const q of o.props.keys()) {
        if (q === k || (typeof q !== 'symbol' && typeof k !== 'symbol' && (typeof q !== 'string' || typeof k !== 'string') && this.strictEq(q, k))) {
          o.props.delete(q)
          return
        }
      }
    }
  }
  has(o, k) {
    if (!(o instanceof Obj)) this.throwErr('TypeError', "cannot use 'in' operator")
    if (o.proxy) return this.truthy(this.trap(o, 'has', [k], () => this.has(o.proxy.target, k)))
    return !!this.find(o, k)
  }
  // trap does what a proxy does with an operation on its target.
  trap(o, name, args, plain) {
    const f = this.get(o.proxy.handler, name)
    return f === undefined ? plain() : this.call(f, o.proxy.handler, [o.proxy.target, ...args])
  }
  def(o, k, v) {
    o.props.set(k, { v })
  }

  // ---- bytes
  bytesOf(seq, proto) {
    const o = new Obj(proto ?? this.protos.Uint8Array, 'Uint8Array')
    o.seq = mergeSeq(seq)
    return o
  }
  // someBytes is an unknown sequence of bytes which is not empty (or any).
  someBytes(name, len) {
    const l = len ?? this.num('len(' + name + ')', 1)
    const o = this.bytesOf([{ k: 'range', src: name, from: 0, to: l }])
    o.label = undefined
    o.bname = name
    return o
  }
  splitAt(seq, off) {
    // returns [before, after] at the offset off
    seq = mergeSeq(seq)
    const before = []
    let rest = lin(off)
    for (let i = 0; i < seq.length; i++) {
      const s = seq[i]
      const n = lin(segLen(s))
      if (linEq(rest, 0)) return [before, seq.slice(i)]
      const d = rest.add(n, -1)
      if (this.ge0(d)) {
        before.push(s)
        rest = lin(d.norm())
        continue
      }
      const r = rest.norm()
      if (!this.implied(lin(r))) this.unsupported('offset ' + show(r) + ' may be negative')
      if (s.k === 'vals') {
        if (typeof r !== 'number') this.unsupported('unknown offset into known bytes')
        return [[...before, { k: 'vals', vals: s.vals.slice(0, r) }], [{ k: 'vals', vals: s.vals.slice(r) }, ...seq.slice(i + 1)]]
      }
      if (s.k === 'zero') return [[...before, { k: 'zero', len: r }], [{ k: 'zero', len: n.add(lin(r), -1).norm() }, ...seq.slice(i + 1)]]
      const mid = lin(s.from).add(lin(r)).norm()
      return [
        [...before, { k: 'range', src: s.src, from: s.from, to: mid }],
        [{ k: 'range', src: s.src, from: mid, to: s.to }, ...seq.slice(i + 1)],
      ]
    }
    return [before, []]
  }
  slice(seq, from, to) {
    const [, r] = this.splitAt(seq, from)
    const n = lin(to).add(lin(from), -1)
    if (!this.ge0(n)) return []
    const [m] = this.splitAt(r, n.norm())
    return mergeSeq(m)
  }
  byteAt(o, i) {
    const [, r] = this.splitAt(o.seq, i)
    if (r.length === 0 || !this.ge0(lin(seqLen(r)).add(lin(-1)))) return undefined
    const s = r[0]
    if (s.k === 'vals') return s.vals[0]
    if (s.k === 'zero') return 0
    const n = 'byte(' + s.src + '@' + show(s.from) + ')'
    if (!this.memo.has(n)) {
      const x = this.num(n, 0, 255)
      x.byteOf = { src: s.src, at: s.from }
      this.memo.set(n, x)
    }
    return this.memo.get(n)
  }
  setByte(o, i, v) {
    const [a, r] = this.splitAt(o.seq, i)
    if (r.length === 0) return
    const [, c] = this.splitAt(r, 1)
    o.seq = mergeSeq([...a, { k: 'vals', vals: [this.toByte(v)] }, ...c])
  }
  toByte(v) {
    return this.bitAnd(this.toNum(v), 255)
  }
  // ---- integer arithmetic on linear forms
  bitAnd(a, m) {
    if (typeof a === 'number' && typeof m === 'number') return a & m
    if (typeof a === 'number') [a, m] = [m, a]
    if (typeof m !== 'number') this.unsupported('& of unknown values')
    const k = Math.log2(m + 1)
    if (!Number.isInteger(k)) this.unsupported('& with ' + m)
    const q = m + 1
    const low = this.splitMod(a, q)
    if (low.lo() >= 0 && low.hi() < q) return low.norm()
    this.unsupported('low bits of ' + a)
  }
  // 32 bit numbers: with and without sign
  toI32(l) {
    l = lin(l)
    if (l.hi() >= 2 ** 31 && this.ge0(l.add(lin(-(2 ** 31))))) return l.add(lin(-(2 ** 32))).norm()
    return l.norm()
  }
  toU32(l) {
    l = lin(l)
    if (l.lo() < 0 && this.implied(l.scale(-1).add(lin(-1)))) return l.add(lin(2 ** 32))
    return l
  }
  splitMod(a, q) {
    a = lin(a)
    const t = new Map()
    for (const [s, c] of a.terms) {
      if (!Number.isInteger(c)) this.unsupported('bits of a fraction')
      if (c % q !== 0) t.set(s, c)
    }
    return lin(new Lin(((a.c % q) + q) % q, t).norm())
  }
  floorDiv(a, q) {
    const low = this.splitMod(a, q)
    if (!(low.lo() >= 0 && low.hi() < q)) this.unsupported('division of ' + a)
    return lin(a).add(low, -1).scale(1 / q).norm()
  }
  floor(v) {
    if (typeof v === 'number') return Math.floor(v)
    const t = new Map()
    const frac = new Map()
    for (const [s, c] of v.terms) {
      if (Number.isInteger(c)) t.set(s, c)
      else frac.set(s, c)
    }
    const fc = v.c - Math.floor(v.c)
    const f = new Lin(fc, frac)
    if (f.lo() >= 0 && f.hi() < 1) return new Lin(Math.floor(v.c), t).norm()
    this.unsupported('floor of ' + v)
  }

  // ---- calls
  fnName(f) {
    return f.fname || '(anonymous)'
  }
  call(f, thisV, args, newTarget) {
    if (f instanceof Sym && f.bound !== undefined) f = f.bound
    if (!(f instanceof Fn)) {
      if (f instanceof Sym && f.kind === 'any') {
        this.ev('callany', { f, args })
        return new Sym('any', 'result' + ++this.fresh)
      }
      this.throwErr('TypeError', show(f) + ' is not a function')
    }
    if (f.boundTarget) return this.call(f.boundTarget, f.boundThis, [...f.boundArgs, ...args])
    if (f.proxy) return this.trap(f, 'apply', [thisV, this.arrayOf(args)], () => this.call(f.proxy.target, thisV, args))
    if (f.native) return f.native.call(this, thisV, args, newTarget)
    if (f.isClass && !newTarget) this.throwErr('TypeError', 'class constructor ' + f.fname + ' cannot be invoked without new')
    if (++this.depth0 > 400) this.unsupported('recursion')
    try {
      return this.callNode(f, thisV, args, newTarget)
    } finally {
      this.depth0--
    }
  }
  callNode(f, thisV, args, newTarget) {
    const node = f.node
    const env = new Env(f.env, f.arrow ? f.env.fn : new Act(thisV, f, newTarget))
    if (!f.arrow) env.declare('arguments', this.arrayOf(args))
    if (f.selfName) env.declare(f.selfName, f)
    this.prog.noteFn(f)
    if (f.isLib === undefined) f.isLib = this.prog.isLib(node)
    if (f.isLib && this.cur && !this.prog.isLib(this.cur)) this.lastUser = this.cur
    const self = this
    function* body() {
      yield* self.bindParams(node, env, args)
      if (!node.body) return undefined
      if (node.body.kind !== K.Block) return yield* self.ev_(node.body, env)
      self.hoistVars(node.body, env)
      const c = yield* self.block(node.body.statements, env)
      return c && c.t === 'return' ? c.v : undefined
    }
    const name = f.qname ?? self.fnName(f)
    if (f.gen) return f.async ? this.newAsyncGen(body(), name, f) : this.newGen(body(), name, f)
    if (f.async) {
      const p = this.newPromise()
      this.runAsync(body(), p, name)
      return p
    }
    return this.runSync(body(), name)
  }
  runSync(gen, name) {
    this.stack.push(name)
    const cur = this.cur
    try {
      const r = gen.next()
      if (!r.done) this.unsupported('await outside of an async function')
      return r.value
    } finally {
      this.stack.pop()
      this.cur = cur
    }
  }
  resume(gen, name, mode, v) {
    this.stack.push(name)
    const cur = this.cur
    try {
      if (mode === 'next') return gen.next(v)
      if (mode === 'throw') return gen.throw(new Thrown(v))
      return gen.throw(new ReturnSignal(v))
    } finally {
      this.stack.pop()
      this.cur = cur
    }
  }
  runAsync(gen, p, name) {
    const step = (mode, v) => {
      let r
      try {
        r = this.resume(gen, name, mode, v)
      } catch (e) {
        if (e instanceof Thrown) return this.rejectP(p, e.v)
        throw e
      }
      if (r.done) return this.resolveP(p, r.value)
      const q = this.promiseResolve(r.value.await)
      this.thenP(
        q,
        (x) => step('next', x),
        (x) => step('throw', x),
      )
    }
    step('next', undefined)
  }
  *bindParams(node, env, args) {
    let i = 0
    for (const p of node.parameters) {
      if (p.name.kind === K.Identifier && p.name.text === 'this') continue
      if (p.dotDotDotToken) {
        yield* this.bindPattern(p.name, this.arrayOf(args.slice(i)), env, 'let')
        break
      }
      let v = args[i++]
      if (v === undefined && p.initializer) v = yield* this.ev_(p.initializer, env)
      yield* this.bindPattern(p.name, v, env, 'let')
    }
  }
  construct(f, args, newTarget) {
    if (!(f instanceof Fn)) this.throwErr('TypeError', show(f) + ' is not a constructor')
    newTarget = newTarget ?? f
    if (f.boundTarget) return this.construct(f.boundTarget, [...f.boundArgs, ...args])
    if (f.nativeNew) return f.nativeNew.call(this, args, newTarget)
    if (f.native) this.throwErr('TypeError', f.fname + ' is not a constructor')
    if (!f.isClass) {
      if (f.arrow || f.method) this.throwErr('TypeError', f.fname + ' is not a constructor')
      const o = new Obj(this.get(newTarget, 'prototype'))
      const r = this.call(f, o, args, newTarget)
      return r instanceof Obj ? r : o
    }
    const derived = f.superCls !== undefined
    let thisV = UNINIT
    if (!derived) {
      thisV = new Obj(this.get(newTarget, 'prototype'), newTarget.fname)
      this.instances.push(thisV)
      this.initFields(f, thisV)
    }
    if (!f.ctor) {
      if (derived) {
        thisV = this.construct(f.superCls, args, newTarget)
        this.initFields(f, thisV)
      }
      return thisV
    }
    const act = new Act(thisV, f, newTarget)
    const env = new Env(f.env, act)
    env.declare('arguments', this.arrayOf(args))
    this.prog.noteFn(f)
    const self = this
    function* body() {
      yield* self.bindParams(f.ctor, env, args)
      if (!derived) self.paramProps(f.ctor, env, act.thisV)
      self.hoistVars(f.ctor.body, env)
      const c = yield* self.block(f.ctor.body.statements, env)
      return c && c.t === 'return' ? c.v : undefined
    }
    const r = this.runSync(body(), f.fname + '.constructor')
    if (r instanceof Obj) return r
    if (act.thisV === UNINIT) this.throwErr('ReferenceError', 'must call super constructor')
    return act.thisV
  }
  paramProps(ctor, env, thisV) {
    for (const p of ctor.parameters) {
      if (p.modifiers?.some((m) => [K.PublicKeyword, K.PrivateKeyword, K.ProtectedKeyword, K.ReadonlyKeyword].includes(m.kind))) this.def(thisV, p.name.text, env.lookup(p.name.text).v)
    }
  }
  initFields(f, thisV) {
    for (const fd of f.fields) {
      const env = new Env(f.env, new Act(thisV, f))
      let v
      if (fd.node.initializer) v = this.runSync(this.ev_(fd.node.initializer, env, fd.key), f.fname + '.fields')
      this.def(thisV, fd.key, v)
    }
  }
  native(name, fn) {
    const f = new Fn(this.protos.Function, name)
    f.native = fn
    return f
  }
  arrayOf(list) {
    const o = new Obj(this.protos.Array, 'Array')
    o.arr = [...list]
    return o
  }
  object(props, cls) {
    const o = new Obj(this.protos.Object, cls)
    for (const [k, v] of Object.entries(props ?? {})) this.def(o, k, v)
    return o
  }
  iterResult(value, done) {
    return this.object({ value, done })
  }

  // ---- promises
  newPromise() {
    const p = new Obj(this.protos.Promise, 'Promise')
    p.pstate = 'pending'
    this.promises.push(p)
    p.madeAt = this.cur
    p.reactions = []
    return p
  }
  job(f) {
    this.jobs.push(f)
  }
  drain() {
    let n = 0
    while (this.jobs.length) {
      if (++n > 20000) this.unsupported('the jobs never end')
      this.jobs.shift()()
    }
  }
  settle(p, st, v) {
    if (p.pstate !== 'pending') return
    p.pstate = st
    p.pvalue = v
    const rs = p.reactions
    p.reactions = []
    for (const r of rs) this.job(() => r[st](v))
  }
  rejectP(p, e) {
    if (p.locked && p.locked !== 'self') return
    this.settle(p, 'rejected', e)
  }
  resolveP(p, v) {
    if (p.pstate !== 'pending' || p.adopting) return
    if (v === p) return this.settle(p, 'rejected', this.err('TypeError', 'chaining cycle'))
    if (v instanceof Obj) {
      let th
      try {
        th = this.get(v, 'then')
      } catch (e) {
        if (e instanceof Thrown) return this.settle(p, 'rejected', e.v)
        throw e
      }
      if (th instanceof Fn) {
        p.adopting = true
        this.job(() => {
          let done = false
          const once = (st) => (x) => {
            if (done) return
            done = true
            p.adopting = false
            st === 'f' ? this.resolveP(p, x) : this.settle(p, 'rejected', x)
          }
          if (v.pstate && th === this.protoThen) return this.thenP(v, once('f'), once('r'))
          try {
            this.call(th, v, [
              this.native('resolve', (t, a) => once('f')(a[0])),
              this.native('reject', (t, a) => once('r')(a[0])),
            ])
          } catch (e) {
            if (e instanceof Thrown) once('r')(e.v)
            else throw e
          }
        })
        return
      }
    }
    this.settle(p, 'fulfilled', v)
  }
  // thenP calls host functions when the promise settles.
  thenP(p, onF, onR) {
    p.handled = true
    p.handled = true
    const r = { fulfilled: onF, rejected: onR }
    if (p.pstate === 'pending') p.reactions.push(r)
    else this.job(() => r[p.pstate](p.pvalue))
  }
  promiseResolve(v) {
    if (v instanceof Obj && v.pstate) return v
    const p = this.newPromise()
    this.resolveP(p, v)
    return p
  }
  promiseThen(p, onF, onR) {
    const q = this.newPromise()
    const mk = (cb, st) => (x) => {
      if (!(cb instanceof Fn)) return st === 'f' ? this.resolveP(q, x) : this.rejectP(q, x)
      let r
      try {
        r = this.call(cb, undefined, [x])
      } catch (e) {
        if (e instanceof Thrown) return this.rejectP(q, e.v)
        throw e
      }
      this.resolveP(q, r)
    }
    this.thenP(p, mk(onF, 'f'), mk(onR, 'r'))
    return q
  }

  // ---- generators
  newGen(gen, name, f) {
    const proto = this.get(f, 'prototype')
    const o = new Obj(proto instanceof Obj ? proto : this.protos.Generator, 'Generator')
    if (o.proto === null) o.proto = this.protos.Generator
    o.gen = gen
    o.gname = name
    o.gstate = 'start'
    return o
  }
  genStep(o, mode, v) {
    if (o.gstate === 'running') this.throwErr('TypeError', 'generator is running')
    if (o.gstate === 'done' || (o.gstate === 'start' && mode !== 'next')) {
      o.gstate = 'done'
      if (mode === 'throw') throw new Thrown(v)
      return this.iterResult(mode === 'return' ? v : undefined, true)
    }
    o.gstate = 'running'
    let r
    try {
      r = this.resume(o.gen, o.gname, mode, v)
    } catch (e) {
      o.gstate = 'done'
      if (e instanceof ReturnSignal) return this.iterResult(e.v, true)
      throw e
    }
    if (r.done) {
      o.gstate = 'done'
      return this.iterResult(r.value, true)
    }
    if (!('yield' in r.value)) this.unsupported('await in a generator')
    o.gstate = 'suspended'
    return this.iterResult(r.value.yield, false)
  }
  newAsyncGen(gen, name, f) {
    const o = new Obj(this.protos.AsyncGenerator, 'AsyncGenerator')
    o.agen = gen
    o.gname = name
    o.gstate = 'start'
    o.queue = []
    return o
  }
  agenRequest(o, mode, v) {
    const p = this.newPromise()
    o.queue.push({ mode, v, p })
    if (o.gstate !== 'running') this.agenDrain(o)
    return p
  }
  agenDrain(o) {
    while (o.queue.length) {
      const rq = o.queue[0]
      if (o.gstate === 'start' && rq.mode !== 'next') o.gstate = 'done'
      if (o.gstate === 'done') {
        if (rq.mode === 'next') {
          o.queue.shift()
          this.resolveP(rq.p, this.iterResult(undefined, true))
          continue
        }
        if (rq.mode === 'throw') {
          o.queue.shift()
          this.rejectP(rq.p, rq.v)
          continue
        }
        o.gstate = 'running'
        this.thenP(
          this.promiseResolve(rq.v),
          (x) => {
            o.gstate = 'done'
            o.queue.shift()
            this.resolveP(rq.p, this.iterResult(x, true))
            this.agenDrain(o)
          },
          (x) => {
            o.gstate = 'done'
            o.queue.shift()
            this.rejectP(rq.p, x)
            this.agenDrain(o)
          },
        )
        return
      }
      o.gstate = 'running'
      this.agenStep(o, rq.mode, rq.v)
      if (o.gstate === 'running') return
    }
  }
  agenStep(o, mode, v) {
    let r
    const finish = (st, x) => {
      o.gstate = 'done'
      const rq = o.queue.shift()
      if (st === 'f') this.resolveP(rq.p, this.iterResult(x, true))
      else this.rejectP(rq.p, x)
    }
    try {
      r = this.resume(o.agen, o.gname, mode, v)
    } catch (e) {
      if (e instanceof Thrown) return finish('r', e.v)
      if (e instanceof ReturnSignal) return finish('f', e.v)
      throw e
    }
    if (r.done) {
      // the value of a return statement was awaited by the statement
      return finish('f', r.value)
    }
    if ('await' in r.value) {
      this.thenP(
        this.promiseResolve(r.value.await),
        (x) => this.agenCont(o, 'next', x),
        (x) => this.agenCont(o, 'throw', x),
      )
      return
    }
    o.gstate = 'suspended'
    const rq = o.queue.shift()
    this.resolveP(rq.p, this.iterResult(r.value.yield, false))
  }
  agenCont(o, mode, v) {
    this.agenStep(o, mode, v)
    if (o.gstate !== 'running') this.agenDrain(o)
  }

  // ---- iteration
  getIter(v) {
    const m = this.get(v, Symbol.iterator)
    if (!(m instanceof Fn)) this.throwErr('TypeError', show(v) + ' is not iterable')
    const it = this.call(m, v, [])
    return { it, next: this.get(it, 'next') }
  }
  getAsyncIter(v) {
    if (v === undefined || v === null) this.throwErr('TypeError', show(v) + ' is not async iterable')
    let m = this.get(v, Symbol.asyncIterator)
    if (m === undefined || m === null) {
      const s = this.getIter(v)
      s.sync = true
      return s
    }
    const it = this.call(m, v, [])
    return { it, next: this.get(it, 'next') }
  }
  list(v) {
    // all items of a synchronous iterable
    if (v instanceof Obj && v.arr) return [...v.arr]
    const s = this.getIter(v)
    const out = []
    for (let i = 0; ; i++) {
      if (i > 200) this.unsupported('an endless iteration')
      const r = this.call(s.next, s.it, [])
      if (this.truthy(this.get(r, 'done'))) return out
      out.push(this.get(r, 'value'))
    }
  }

  // ---- statements
  hoist(stmts, env) {
    for (const s of stmts) {
      if (s.kind === K.FunctionDeclaration && s.body) {
        env.declare(s.name?.text ?? 'default', this.makeFn(s, env, s.name?.text ?? 'default'))
      } else if (s.kind === K.ClassDeclaration) {
        env.declare(s.name?.text ?? 'default', UNINIT)
      } else if (s.kind === K.VariableStatement && !isVar(s.declarationList)) {
        for (const d of s.declarationList.declarations) this.predeclare(d.name, env)
      }
    }
  }
  // hoistVars declares the names a function has of its var declarations.
  hoistVars(node, env) {
    for (const n of varNames(node)) if (!env.vars.has(n)) env.declare(n, undefined)
  }
  predeclare(n, env) {
    if (n.kind === K.Identifier) env.declare(n.text, UNINIT)
    else for (const e of n.elements) if (e.name) this.predeclare(e.name, env)
  }
  *block(stmts, env) {
    const e = new Env(env)
    this.hoist(stmts, e)
    for (const s of stmts) {
      const c = yield* this.exec(s, e)
      if (c) return c
    }
    return null
  }
  *exec(s, env) {
    if (++this.steps > 400000) this.unsupported('the analysis does not end', s)
    this.cur = s
    switch (s.kind) {
      case K.Block:
        return yield* this.block(s.statements, env)
      case K.ExpressionStatement:
        yield* this.ev_(s.expression, env)
        return null
      case K.VariableStatement:
        yield* this.varDecl(s.declarationList, env)
        return null
      case K.FunctionDeclaration:
      case K.InterfaceDeclaration:
      case K.TypeAliasDeclaration:
      case K.EmptyStatement:
      case K.DebuggerStatement:
        return null
      case K.ClassDeclaration: {
        const c = yield* this.evalClass(s, env, s.name?.text ?? 'default')
        env.lookup(s.name?.text ?? 'default').v = c
        return null
      }
      case K.ReturnStatement: {
        let v = s.expression ? yield* this.ev_(s.expression, env) : undefined
        this.cur = s
        if (env.fn?.fn?.gen && env.fn.fn.async && this.inGen(s)) v = yield { await: v }
        return { t: 'return', v }
      }
      case K.IfStatement:
        if (this.truthy(yield* this.ev_(s.expression, env))) return yield* this.exec(s.thenStatement, env)
        if (s.elseStatement) return yield* this.exec(s.elseStatement, env)
        return null
      case K.ThrowStatement:
        throw new Thrown(yield* this.ev_(s.expression, env))
      case K.TryStatement:
        return yield* this.tryStmt(s, env)
      case K.SwitchStatement:
        return yield* this.switchStmt(s, env)
      case K.ForStatement:
      case K.WhileStatement:
      case K.DoStatement:
      case K.ForOfStatement:
      case K.ForInStatement:
        return yield* this.loop(s, env, null)
      case K.LabeledStatement: {
        const l = s.label.text
        const st = s.statement
        const isLoop = [K.ForStatement, K.WhileStatement, K.DoStatement, K.ForOfStatement, K.ForInStatement].includes(st.kind)
        const c = isLoop ? yield* this.loop(st, env, l) : yield* this.exec(st, env)
        if (c && c.t === 'break' && c.label === l) return null
        return c
      }
      case K.BreakStatement:
        return { t: 'break', label: s.label?.text }
      case K.ContinueStatement:
        return { t: 'continue', label: s.label?.text }
      case K.EnumDeclaration:
        this.evalEnum(s, env)
        return null
    }
    this.unsupported('statement ' + K[s.kind], s)
  }
  inGen(node) {
    for (let n = node.parent; n; n = n.parent) {
      if (ts.isFunctionLike(n)) return !!n.asteriskToken
    }
    return false
  }
  evalEnum(s, env) {
    const o = this.object({})
    let next = 0
    for (const m of s.members) {
      let v = next
      if (m.initializer) {
        if (m.initializer.kind === K.StringLiteral) v = m.initializer.text
        else v = this.runSync(this.ev_(m.initializer, env), 'enum')
      }
      this.def(o, m.name.text, v)
      if (typeof v === 'number') {
        this.def(o, String(v), m.name.text)
        next = v + 1
      }
    }
    env.declare(s.name.text, o)
  }
  *varDecl(list, env) {
    const v0 = isVar(list)
    for (const d of list.declarations) {
      let v = undefined
      if (v0) {
        if (!d.initializer) continue
        v = yield* this.ev_(d.initializer, env, d.name.kind === K.Identifier ? d.name.text : undefined)
        yield* this.bindVar(d.name, v, env)
        continue
      }
      if (d.initializer) v = yield* this.ev_(d.initializer, env, d.name.kind === K.Identifier ? d.name.text : undefined)
      yield* this.bindPattern(d.name, v, env)
    }
  }
  *bindVar(n, v, env) {
    const e = new Env(env)
    yield* this.bindPattern(n, v, e)
    for (const [k, b] of e.vars) env.lookup(k).v = b.v
  }
  // bindPattern declares (or initialises) the names of a pattern.
  *bindPattern(n, v, env) {
    if (n.kind === K.Identifier) {
      const own = env.vars.get(n.text)
      if (own) own.v = v
      else env.declare(n.text, v)
      return
    }
    if (n.kind === K.ObjectBindingPattern) {
      if (v === undefined || v === null) this.throwErr('TypeError', 'cannot destructure ' + v)
      const used = []
      for (const e of n.elements) {
        if (e.dotDotDotToken) {
          yield* this.bindPattern(e.name, this.restOf(v, used), env)
          continue
        }
        const k = e.propertyName ? yield* this.propKey(e.propertyName, env) : e.name.text
        used.push(k)
        let x = this.get(v, k)
        if (x === undefined && e.initializer) x = yield* this.ev_(e.initializer, env)
        yield* this.bindPattern(e.name, x, env)
      }
      return
    }
    const items = this.list(v)
    let i = 0
    for (const e of n.elements) {
      if (e.kind === K.OmittedExpression) {
        i++
        continue
      }
      if (e.dotDotDotToken) {
        yield* this.bindPattern(e.name, this.arrayOf(items.slice(i)), env)
        break
      }
      let x = items[i++]
      if (x === undefined && e.initializer) x = yield* this.ev_(e.initializer, env)
      yield* this.bindPattern(e.name, x, env)
    }
  }
  restOf(v, used) {
    const o = this.object({})
    for (const [k, p] of v.props) if (!p.hid && !used.includes(k)) this.def(o, k, p.get ? this.call(p.get, v, []) : p.v)
    return o
  }
  *tryStmt(s, env) {
    let comp = null
    let err = null
    const host = (e) => !(e instanceof Thrown || e instanceof ReturnSignal)
    try {
      comp = yield* this.block(s.tryBlock.statements, env)
    } catch (e) {
      if (host(e)) throw e
      if (e instanceof Thrown && s.catchClause) {
        const ce = new Env(env)
        try {
          if (s.catchClause.variableDeclaration) yield* this.bindPattern(s.catchClause.variableDeclaration.name, e.v, ce)
          comp = yield* this.block(s.catchClause.block.statements, ce)
        } catch (e2) {
          if (host(e2)) throw e2
          err = e2
        }
      } else err = e
    }
    if (s.finallyBlock) {
      const fc = yield* this.block(s.finallyBlock.statements, env)
      if (fc) return fc
    }
    if (err) throw err
    return comp
  }
  *switchStmt(s, env) {
    const v = yield* this.ev_(s.expression, env)
    const e = new Env(env)
    const clauses = s.caseBlock.clauses
    for (const c of clauses) this.hoist(c.statements, e)
    let at = -1
    for (let i = 0; i < clauses.length; i++) {
      if (clauses[i].kind === K.DefaultClause) continue
      const x = yield* this.ev_(clauses[i].expression, e)
      if (this.strictEq(v, x)) {
        at = i
        break
      }
    }
    if (at < 0) at = clauses.findIndex((c) => c.kind === K.DefaultClause)
    if (at < 0) return null
    for (let i = at; i < clauses.length; i++) {
      for (const st of clauses[i].statements) {
        const c = yield* this.exec(st, e)
        if (c) {
          if (c.t === 'break' && !c.label) return null
          return c
        }
      }
    }
    return null
  }
  // widen forgets the counters which change from one round to the next.
  widen(env, snap, what) {
    const vars = []
    for (let e = env; e; e = e.parent) {
      if (e.global) break
      for (const [n, b] of e.vars) if (isCounter(n) && !b.get && (isNum(b.v) || b.v === undefined)) vars.push([n, b, (x) => (b.v = x)])
    }
    for (const o of this.instances) for (const [n, p] of o.props) if (isCounter(n) && !p.get && isNum(p.v)) vars.push([o.cls + '.' + String(n), p, (x) => (p.v = x)])
    for (const [n, b, set] of vars) {
      if (!snap.has(b)) {
        snap.set(b, b.v)
        continue
      }
      const old = snap.get(b)
      if (isNum(b.v) && isNum(old) && !linEq(b.v, old) && typeof b.v === 'number' && !b.widened) {
        b.widened = true
        set(this.freshNum(n, -Infinity))
      }
      snap.set(b, b.v)
    }
  }
  *loop(s, env, label) {
    const done = (c) => c && (c.t === 'break' ? !c.label || c.label === label : false)
    const cont = (c) => c && c.t === 'continue' && (!c.label || c.label === label)
    let n = 0
    const tick = () => {
      this.cur = s
      if (++n > 300) this.unsupported('a loop which is not known to end', s)
    }
    const snap = new Map()
    if (s.kind === K.ForOfStatement) {
      const v = yield* this.ev_(s.expression, env)
      const aw = !!s.awaitModifier
      this.cur = s
      const it = aw ? this.getAsyncIter(v) : this.getIter(v)
      for (;;) {
        tick()
        if (aw) this.widen(env, snap)
        let r = this.call(it.next, it.it, [])
        if (aw && !it.sync) r = yield { await: r }
        this.cur = s
        if (!(r instanceof Obj)) this.throwErr('TypeError', 'iterator result is not an object')
        if (this.truthy(this.get(r, 'done'))) return null
        let x = this.get(r, 'value')
        if (aw && it.sync) x = yield { await: x }
        const e = new Env(env)
        let c
        try {
          if (s.initializer.kind === K.VariableDeclarationList) yield* isVar(s.initializer) ? this.bindVar(s.initializer.declarations[0].name, x, e) : this.bindPattern(s.initializer.declarations[0].name, x, e)
          else yield* this.assign(s.initializer, x, e)
          c = yield* this.exec(s.statement, e)
        } catch (er) {
          if (er instanceof Thrown || er instanceof ReturnSignal) {
            const f = this.get(it.it, 'return')
            if (f instanceof Fn) {
              try {
                const q = this.call(f, it.it, [])
                if (aw && !it.sync) yield { await: q }
              } catch (e2) {
                if (!(e2 instanceof Thrown)) throw e2
                if (er instanceof ReturnSignal) throw e2
              }
            }
          }
          throw er
        }
        if (!c || cont(c)) continue
        const f = this.get(it.it, 'return')
        if (f instanceof Fn) {
          const q = this.call(f, it.it, [])
          if (aw && !it.sync) yield { await: q }
        }
        return done(c) ? null : c
      }
    }
    if (s.kind === K.ForInStatement) {
      const v = yield* this.ev_(s.expression, env)
      const keys = v instanceof Obj ? (v.arr ? v.arr.map((_, i) => String(i)) : forInKeys(v)) : []
      for (const k of keys) {
        const e = new Env(env)
        if (s.initializer.kind !== K.VariableDeclarationList) yield* this.assign(s.initializer, k, e)
        else yield* isVar(s.initializer) ? this.bindVar(s.initializer.declarations[0].name, k, e) : this.bindPattern(s.initializer.declarations[0].name, k, e)
        const c = yield* this.exec(s.statement, e)
        if (!c || cont(c)) continue
        return done(c) ? null : c
      }
      return null
    }
    if (s.kind === K.ForStatement) {
      let e = new Env(env)
      if (s.initializer) {
        if (s.initializer.kind === K.VariableDeclarationList) yield* this.varDecl(s.initializer, e)
        else yield* this.ev_(s.initializer, e)
      }
      for (;;) {
        tick()
        if (s.condition && !this.truthy(yield* this.ev_(s.condition, e))) return null
        const c = yield* this.exec(s.statement, e)
        if (c && !cont(c)) return done(c) ? null : c
        const ne = new Env(env)
        for (const [k, b] of e.vars) ne.vars.set(k, { ...b })
        e = ne
        if (s.incrementor) yield* this.ev_(s.incrementor, e)
      }
    }
    for (;;) {
      tick()
      if (s.kind === K.WhileStatement && !this.truthy(yield* this.ev_(s.expression, env))) return null
      const c = yield* this.exec(s.statement, env)
      if (c && !cont(c)) return done(c) ? null : c
      if (s.kind === K.DoStatement && !this.truthy(yield* this.ev_(s.expression, env))) return null
    }
  }

  // ---- functions and classes
  makeFn(node, env, name) {
    const f = new Fn(this.protos.Function, name)
    f.node = node
    f.env = env
    const mods = node.modifiers ?? []
    f.async = mods.some((m) => m.kind === K.AsyncKeyword)
    f.gen = !!node.asteriskToken
    f.arrow = node.kind === K.ArrowFunction
    f.method = node.kind === K.MethodDeclaration || node.kind === K.GetAccessor || node.kind === K.SetAccessor
    f.qname = this.qname(node, name)
    if (!f.arrow && !f.method && !f.async) this.def(f, 'prototype', f.gen ? new Obj(this.protos.Generator) : this.object({}))
    return f
  }
  qname(node, name) {
    const parts = [name || '(anonymous)']
    for (let n = node.parent; n; n = n.parent) {
      if (ts.isClassLike(n)) parts.unshift(n.name?.text ?? '(class)')
      else if (ts.isFunctionLike(n)) parts.unshift(n.name?.getText() ?? (n.kind === K.Constructor ? 'constructor' : '(anonymous)'))
    }
    return parts.join('.')
  }
  *evalClass(node, env, name) {
    const ce = new Env(env)
    const f = new Fn(this.protos.Function, name)
    f.isClass = true
    f.node = node
    f.env = ce
    f.qname = name
    f.fields = []
    if (node.name) ce.declare(node.name.text, f)
    let pp = this.protos.Object
    for (const h of node.heritageClauses ?? []) {
      if (h.token !== K.ExtendsKeyword) continue
      const sup = yield* this.ev_(h.types[0].expression, env)
      if (!(sup instanceof Fn)) this.throwErr('TypeError', 'class extends a value which is not a constructor')
      f.superCls = sup
      f.proto = sup
      pp = this.get(sup, 'prototype')
    }
    const proto = new Obj(pp, name)
    this.def(f, 'prototype', proto)
    this.def(proto, 'constructor', f)
    const statics = []
    for (const m of node.members) {
      const st = m.modifiers?.some((x) => x.kind === K.StaticKeyword)
      const on = st ? f : proto
      if (m.kind === K.Constructor) {
        if (m.body) f.ctor = m
      } else if (m.kind === K.MethodDeclaration) {
        if (!m.body) continue
        const k = yield* this.propKey(m.name, ce)
        const g = this.makeFn(m, ce, typeof k === 'string' ? k : String(k))
        g.home = on
        this.def(on, k, g)
      } else if (m.kind === K.GetAccessor || m.kind === K.SetAccessor) {
        if (!m.body) continue
        const k = yield* this.propKey(m.name, ce)
        const g = this.makeFn(m, ce, String(k))
        g.home = on
        const p = on.props.get(k) ?? {}
        if (m.kind === K.GetAccessor) p.get = g
        else p.set = g
        on.props.set(k, p)
      } else if (m.kind === K.PropertyDeclaration) {
        if (m.modifiers?.some((x) => x.kind === K.DeclareKeyword || x.kind === K.AbstractKeyword)) continue
        const k = yield* this.propKey(m.name, ce)
        if (st) statics.push({ key: k, node: m })
        else f.fields.push({ key: k, node: m })
      } else if (m.kind === K.ClassStaticBlockDeclaration) {
        statics.push({ block: m })
      }
    }
    f.homeProto = proto
    for (const s of statics) {
      const e = new Env(ce, new Act(f, f))
      if (s.block) this.hoistVars(s.block.body, e)
      if (s.block) yield* this.block(s.block.body.statements, e)
      else this.def(f, s.key, s.node.initializer ? yield* this.ev_(s.node.initializer, e) : undefined)
    }
    return f
  }
  *propKey(n, env) {
    switch (n.kind) {
      case K.Identifier:
      case K.PrivateIdentifier:
      case K.StringLiteral:
      case K.NoSubstitutionTemplateLiteral:
        return n.text
      case K.NumericLiteral:
        return String(Number(n.text))
      case K.ComputedPropertyName:
        return this.key(yield* this.ev_(n.expression, env))
    }
    this.unsupported('property name ' + K[n.kind], n)
  }

  // ---- expressions
  *args(list, env) {
    const out = []
    for (const a of list ?? []) {
      if (a.kind === K.SpreadElement) out.push(...this.list(yield* this.ev_(a.expression, env)))
      else out.push(yield* this.ev_(a, env))
    }
    return out
  }
  ref(name, env, node) {
    const b = env.lookup(name)
    if (!b) {
      if (name === 'undefined') return undefined
      this.unsupported('the name ' + name + ' is not known', node)
    }
    if (b.get) return b.get()
    if (b.v === UNINIT) this.throwErr('ReferenceError', 'cannot access ' + name + ' before initialization')
    return b.v
  }
  *ev_(n, env, nameHint) {
    if (++this.steps > 400000) this.unsupported('the analysis does not end', n)
    switch (n.kind) {
      case K.Identifier:
        return this.ref(n.text, env, n)
      case K.ThisKeyword: {
        const t = env.fn ? env.fn.thisV : undefined
        if (t === UNINIT) this.throwErr('ReferenceError', 'must call super constructor before accessing this')
        return t
      }
      case K.NumericLiteral:
        return Number(n.text)
      case K.BigIntLiteral:
        return BigInt(n.text.slice(0, -1))
      case K.StringLiteral:
      case K.NoSubstitutionTemplateLiteral:
        return n.text
      case K.TrueKeyword:
        return true
      case K.FalseKeyword:
        return false
      case K.NullKeyword:
        return null
      case K.RegularExpressionLiteral:
        return this.regexp(n.text)
      case K.TemplateExpression: {
        const parts = [n.head.text]
        for (const s of n.templateSpans) {
          const v = yield* this.ev_(s.expression, env)
          this.cur = n
          parts.push(this.toStr(v))
          parts.push(s.literal.text)
        }
        return this.concat(parts)
      }
      case K.ParenthesizedExpression:
      case K.AsExpression:
      case K.NonNullExpression:
      case K.SatisfiesExpression:
      case K.TypeAssertionExpression:
      case K.ExpressionWithTypeArguments:
        return yield* this.ev_(n.expression, env, nameHint)
      case K.ArrowFunction:
      case K.FunctionExpression: {
        const f = this.makeFn(n, env, n.name?.text ?? nameHint ?? '')
        if (n.name) f.selfName = n.name.text
        return f
      }
      case K.ClassExpression:
        return yield* this.evalClass(n, env, n.name?.text ?? nameHint ?? '')
      case K.ArrayLiteralExpression:
        return this.arrayOf(yield* this.args(n.elements.map((e) => e), env))
      case K.OmittedExpression:
        return undefined
      case K.ObjectLiteralExpression:
        return yield* this.objLit(n, env)
      case K.PropertyAccessExpression:
      case K.ElementAccessExpression:
      case K.CallExpression: {
        const r = yield* this.chain(n, env)
        return r.short ? undefined : r.v
      }
      case K.NewExpression: {
        const f = yield* this.ev_(n.expression, env)
        const a = yield* this.args(n.arguments, env)
        this.cur = n
        return this.construct(f, a)
      }
      case K.TypeOfExpression: {
        if (n.expression.kind === K.Identifier && !env.lookup(n.expression.text) && n.expression.text !== 'undefined') return 'undefined'
        return this.typeOf(yield* this.ev_(n.expression, env))
      }
      case K.VoidExpression:
        yield* this.ev_(n.expression, env)
        return undefined
      case K.DeleteExpression: {
        let x = n.expression
        while (x.kind === K.ParenthesizedExpression || x.kind === K.NonNullExpression || x.kind === K.AsExpression) x = x.expression
        const o = yield* this.ev_(x.expression, env)
        const k = x.kind === K.PropertyAccessExpression ? x.name.text : this.key(yield* this.ev_(x.argumentExpression, env))
        this.del(o, k)
        return true
      }
      case K.AwaitExpression: {
        const v = yield* this.ev_(n.expression, env)
        const r = yield { await: v }
        this.cur = n
        return r
      }
      case K.YieldExpression:
        return yield* this.yieldExpr(n, env)
      case K.ConditionalExpression:
        return this.truthy(yield* this.ev_(n.condition, env)) ? yield* this.ev_(n.whenTrue, env, nameHint) : yield* this.ev_(n.whenFalse, env, nameHint)
      case K.PrefixUnaryExpression: {
        if (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken) return yield* this.incDec(n.operand, n.operator, true, env)
        const v = yield* this.ev_(n.operand, env)
        this.cur = n
        if (n.operator === K.ExclamationToken) return !this.truthy(v)
        if (n.operator === K.MinusToken) return typeof v === 'number' || typeof v === 'bigint' ? -v : lin(this.toNum(v)).scale(-1).norm()
        if (n.operator === K.PlusToken) return this.toNum(v)
        if (n.operator === K.TildeToken && typeof v === 'number') return ~v
        break
      }
      case K.PostfixUnaryExpression:
        return yield* this.incDec(n.operand, n.operator, false, env)
      case K.BinaryExpression:
        return yield* this.binary(n, env)
      case K.MetaProperty:
        if (n.keywordToken === K.NewKeyword) return env.fn?.newTarget
        return this.object({ url: 'file:///x' })
      case K.TaggedTemplateExpression: {
        const c = yield* this.sub(n.tag, env)
        const t = n.template
        const strs = t.kind === K.TemplateExpression ? [t.head.text, ...t.templateSpans.map((x) => x.literal.text)] : [t.text]
        const vals = []
        if (t.kind === K.TemplateExpression) for (const x of t.templateSpans) vals.push(yield* this.ev_(x.expression, env))
        const a = this.arrayOf(strs)
        this.def(a, 'raw', this.arrayOf(t.kind === K.TemplateExpression ? [t.head.rawText, ...t.templateSpans.map((x) => x.literal.rawText)] : [t.rawText]))
        this.cur = n
        return this.call(c.v, c.recv, [a, ...vals])
      }
    }
    this.unsupported('expression ' + K[n.kind], n)
  }
  regexp(text) {
    const o = new Obj(this.protos.RegExp, 'RegExp')
    const i = text.lastIndexOf('/')
    o.re = new RegExp(text.slice(1, i), text.slice(i + 1))
    return o
  }
  *objLit(n, env) {
    const o = this.object({})
    for (const p of n.properties) {
      switch (p.kind) {
        case K.PropertyAssignment: {
          const k = yield* this.propKey(p.name, env)
          const v = yield* this.ev_(p.initializer, env, typeof k === 'string' ? k : undefined)
          if (k === '__proto__' && p.name.kind !== K.ComputedPropertyName) {
            if (v instanceof Obj || v === null) o.proto = v
          } else this.setOwn(o, k, v)
          break
        }
        case K.ShorthandPropertyAssignment:
          this.def(o, p.name.text, this.ref(p.name.text, env, p))
          break
        case K.SpreadAssignment: {
          const v = yield* this.ev_(p.expression, env)
          this.copyProps(o, v)
          break
        }
        case K.MethodDeclaration: {
          const k = yield* this.propKey(p.name, env)
          const f = this.makeFn(p, env, String(k))
          f.home = o
          this.def(o, k, f)
          break
        }
        case K.GetAccessor:
        case K.SetAccessor: {
          const k = yield* this.propKey(p.name, env)
          const f = this.makeFn(p, env, String(k))
          f.home = o
          const q = o.props.get(k) ?? {}
          if (p.kind === K.GetAccessor) q.get = f
          else q.set = f
          o.props.set(k, q)
          break
        }
        default:
          this.unsupported('property ' + K[p.kind], p)
      }
    }
    return o
  }
  setOwn(o, k, v) {
    const own = this.findOwn(o, k)
    if (own) own.v = v
    else o.props.set(k, { v })
  }
  copyProps(o, v) {
    if (v === undefined || v === null || typeof v === 'boolean') return
    if (v instanceof Sym && v.kind === 'any') this.unsupported('spread of an unknown value')
    if (!(v instanceof Obj)) return
    if (v.arr) v.arr.forEach((x, i) => this.def(o, String(i), x))
    for (const [k, p] of v.props) if (!p.hid) this.setOwn(o, k, p.get ? this.call(p.get, v, []) : p.v)
  }
  // chain evaluates a member access or call with optional chaining.
  *chain(n, env) {
    if (n.kind === K.PropertyAccessExpression || n.kind === K.ElementAccessExpression) {
      if (n.expression.kind === K.SuperKeyword) {
        const home = this.homeOf(env)
        const k = n.kind === K.PropertyAccessExpression ? n.name.text : this.key(yield* this.ev_(n.argumentExpression, env))
        return { v: this.getFrom(home.proto, k, env.fn.thisV), recv: env.fn.thisV }
      }
      const o = yield* this.sub(n.expression, env)
      if (o.short) return o
      if (n.questionDotToken && this.looseEq(o.v, null)) return { short: true }
      const k = n.kind === K.PropertyAccessExpression ? n.name.text : this.key(yield* this.ev_(n.argumentExpression, env))
      this.cur = n
      return { v: this.get(o.v, k), recv: o.v }
    }
    // call
    if (n.expression.kind === K.SuperKeyword) {
      const act = env.fn
      const f = act.fn
      const a = yield* this.args(n.arguments, env)
      if (act.thisV !== UNINIT) this.throwErr('ReferenceError', 'super constructor called twice')
      act.thisV = this.construct(f.superCls, a, act.newTarget)
      this.initFields(f, act.thisV)
      this.paramProps(f.ctor, env, act.thisV)
      return { v: undefined }
    }
    if (n.expression.kind === K.ImportKeyword) this.unsupported('dynamic import', n)
    const c = yield* this.sub(n.expression, env)
    if (c.short) return c
    if (n.questionDotToken && this.looseEq(c.v, null)) return { short: true }
    const a = yield* this.args(n.arguments, env)
    this.cur = n
    if (!(c.v instanceof Fn) && !(c.v instanceof Sym)) this.throwErr('TypeError', n.expression.getText().slice(0, 60) + ' is not a function')
    return { v: this.call(c.v, c.recv, a) }
  }
  *sub(e, env) {
    switch (e.kind) {
      case K.PropertyAccessExpression:
      case K.ElementAccessExpression:
      case K.CallExpression:
        return yield* this.chain(e, env)
      case K.NonNullExpression:
        return yield* this.sub(e.expression, env)
      case K.ParenthesizedExpression:
      case K.AsExpression: {
        let x = e
        while (x.kind === K.ParenthesizedExpression || x.kind === K.AsExpression || x.kind === K.NonNullExpression) x = x.expression
        if (x.kind === K.PropertyAccessExpression || x.kind === K.ElementAccessExpression) {
          const r = yield* this.chain(x, env)
          return r.short ? { v: undefined } : r
        }
        return { v: yield* this.ev_(x, env) }
      }
    }
    return { v: yield* this.ev_(e, env) }
  }
  homeOf(env) {
    const f = env.fn.fn
    return f.home ?? f.homeProto
  }
  *yieldExpr(n, env) {
    const isAsync = env.fn.fn.async
    if (n.asteriskToken) {
      const v = yield* this.ev_(n.expression, env)
      this.cur = n
      const it = isAsync ? this.getAsyncIter(v) : this.getIter(v)
      let mode = 'next'
      let arg
      for (let i = 0; ; i++) {
        if (i > 300) this.unsupported('an endless iteration', n)
        let r
        if (mode === 'next') r = this.call(it.next, it.it, [arg])
        else {
          const m = this.get(it.it, mode)
          if (!(m instanceof Fn)) {
            if (mode === 'return') throw new ReturnSignal(arg)
            this.throwErr('TypeError', 'the iterator does not have throw')
          }
          r = this.call(m, it.it, [arg])
        }
        if (isAsync && !it.sync) r = yield { await: r }
        if (this.truthy(this.get(r, 'done'))) {
          if (mode === 'return') throw new ReturnSignal(this.get(r, 'value'))
          return this.get(r, 'value')
        }
        let x = this.get(r, 'value')
        if (isAsync && it.sync) x = yield { await: x }
        try {
          arg = yield { yield: x }
          mode = 'next'
        } catch (e) {
          if (e instanceof Thrown) {
            mode = 'throw'
            arg = e.v
          } else if (e instanceof ReturnSignal) {
            mode = 'return'
            arg = e.v
          } else throw e
        }
      }
    }
    let v = n.expression ? yield* this.ev_(n.expression, env) : undefined
    if (isAsync) v = yield { await: v }
    this.cur = n
    return yield { yield: v }
  }
  *incDec(t, op, prefix, env) {
    const p = yield* this.place(t, env)
    const old = this.toNum(p.get())
    const v = typeof old === 'bigint' ? (op === K.PlusPlusToken ? old + 1n : old - 1n) : lin(old)
      .add(lin(op === K.PlusPlusToken ? 1 : -1))
      .norm()
    p.set(v)
    return prefix ? v : old
  }
  // place evaluates the target of an update once.
  *place(t, env) {
    while (t.kind === K.ParenthesizedExpression || t.kind === K.NonNullExpression || t.kind === K.AsExpression || t.kind === K.TypeAssertionExpression || t.kind === K.SatisfiesExpression) t = t.expression
    if (t.kind === K.Identifier) {
      const b = env.lookup(t.text)
      if (!b) this.unsupported('assignment to the unknown name ' + t.text, t)
      return { get: () => this.ref(t.text, env, t), set: (v) => (b.v = v) }
    }
    if (t.kind !== K.PropertyAccessExpression && t.kind !== K.ElementAccessExpression) this.unsupported('assignment to ' + K[t.kind], t)
    const sup = t.expression.kind === K.SuperKeyword
    const o = sup ? env.fn.thisV : yield* this.ev_(t.expression, env)
    const k = t.kind === K.PropertyAccessExpression ? t.name.text : this.key(yield* this.ev_(t.argumentExpression, env))
    this.cur = t
    const home = sup ? this.homeOf(env) : null
    return { get: () => (sup ? this.getFrom(home.proto, k, o) : this.get(o, k)), set: (v) => (sup ? this.setSuper(home, o, k, v) : this.set(o, k, v)) }
  }
  setSuper(home, o, k, v) {
    const p = this.find(home.proto, k)
    if (p?.set) this.call(p.set, o, [v])
    else this.set(o, k, v)
  }
  *assign(t, v, env) {
    switch (t.kind) {
      case K.Identifier: {
        const b = env.lookup(t.text)
        if (!b) this.unsupported('assignment to the unknown name ' + t.text, t)
        b.v = v
        return
      }
      case K.PropertyAccessExpression: {
        const o = yield* this.ev_(t.expression, env)
        this.cur = t
        this.set(o, t.name.text, v)
        return
      }
      case K.ElementAccessExpression: {
        const o = yield* this.ev_(t.expression, env)
        const k = this.key(yield* this.ev_(t.argumentExpression, env))
        this.cur = t
        this.set(o, k, v)
        return
      }
      case K.ParenthesizedExpression:
      case K.NonNullExpression:
      case K.AsExpression:
        yield* this.assign(t.expression, v, env)
        return
      case K.ArrayLiteralExpression: {
        const items = this.list(v)
        let i = 0
        for (const e of t.elements) {
          if (e.kind === K.SpreadElement) {
            yield* this.assign(e.expression, this.arrayOf(items.slice(i)), env)
            break
          }
          const x = items[i++]
          if (e.kind === K.OmittedExpression) continue
          yield* this.assignDef(e, x, env)
        }
        return
      }
      case K.ObjectLiteralExpression: {
        const used = []
        for (const p of t.properties) {
          if (p.kind === K.ShorthandPropertyAssignment) {
            used.push(p.name.text)
            let x = this.get(v, p.name.text)
            if (x === undefined && p.objectAssignmentInitializer) x = yield* this.ev_(p.objectAssignmentInitializer, env)
            yield* this.assign(p.name, x, env)
          } else if (p.kind === K.PropertyAssignment) {
            const k = yield* this.propKey(p.name, env)
            used.push(k)
            yield* this.assignDef(p.initializer, this.get(v, k), env)
          } else if (p.kind === K.SpreadAssignment) yield* this.assign(p.expression, this.restOf(v, used), env)
          else this.unsupported('pattern', p)
        }
        return
      }
    }
    this.unsupported('assignment to ' + K[t.kind], t)
  }
  *assignDef(e, x, env) {
    if (e.kind === K.BinaryExpression && e.operatorToken.kind === K.EqualsToken) {
      if (x === undefined) x = yield* this.ev_(e.right, env)
      yield* this.assign(e.left, x, env)
      return
    }
    yield* this.assign(e, x, env)
  }
  *binary(n, env) {
    const op = n.operatorToken.kind
    switch (op) {
      case K.EqualsToken: {
        // the target's object is evaluated first
        let t = n.left
        while (t.kind === K.ParenthesizedExpression || t.kind === K.NonNullExpression || t.kind === K.AsExpression) t = t.expression
        if (t.kind === K.PropertyAccessExpression || t.kind === K.ElementAccessExpression) {
          const sup = t.expression.kind === K.SuperKeyword
          const o = sup ? env.fn.thisV : yield* this.ev_(t.expression, env)
          const k = t.kind === K.PropertyAccessExpression ? t.name.text : this.key(yield* this.ev_(t.argumentExpression, env))
          const v = yield* this.ev_(n.right, env, t.name?.text)
          this.cur = n
          if (sup) this.setSuper(this.homeOf(env), o, k, v)
          else this.set(o, k, v)
          return v
        }
        const v = yield* this.ev_(n.right, env, t.kind === K.Identifier ? t.text : undefined)
        this.cur = n
        yield* this.assign(t, v, env)
        return v
      }
      case K.AmpersandAmpersandToken: {
        const a = yield* this.ev_(n.left, env)
        return this.truthy(a) ? yield* this.ev_(n.right, env) : a
      }
      case K.BarBarToken: {
        const a = yield* this.ev_(n.left, env)
        return this.truthy(a) ? a : yield* this.ev_(n.right, env)
      }
      case K.QuestionQuestionToken: {
        const a = yield* this.ev_(n.left, env)
        return this.looseEq(a, null) ? yield* this.ev_(n.right, env) : a
      }
      case K.CommaToken:
        yield* this.ev_(n.left, env)
        return yield* this.ev_(n.right, env)
      case K.QuestionQuestionEqualsToken:
      case K.BarBarEqualsToken:
      case K.AmpersandAmpersandEqualsToken: {
        const t = yield* this.place(n.left, env)
        const a = t.get()
        const skip = op === K.QuestionQuestionEqualsToken ? !this.looseEq(a, null) : op === K.BarBarEqualsToken ? this.truthy(a) : !this.truthy(a)
        if (skip) return a
        const v = yield* this.ev_(n.right, env, n.left.kind === K.Identifier ? n.left.text : undefined)
        this.cur = n
        t.set(v)
        return v
      }
    }
    const compound = {
      [K.PlusEqualsToken]: K.PlusToken,
      [K.MinusEqualsToken]: K.MinusToken,
      [K.AsteriskEqualsToken]: K.AsteriskToken,
      [K.SlashEqualsToken]: K.SlashToken,
      [K.AsteriskAsteriskEqualsToken]: K.AsteriskAsteriskToken,
      [K.PercentEqualsToken]: K.PercentToken,
      [K.AmpersandEqualsToken]: K.AmpersandToken,
      [K.BarEqualsToken]: K.BarToken,
      [K.CaretEqualsToken]: K.CaretToken,
      [K.LessThanLessThanEqualsToken]: K.LessThanLessThanToken,
      [K.GreaterThanGreaterThanEqualsToken]: K.GreaterThanGreaterThanToken,
      [K.GreaterThanGreaterThanGreaterThanEqualsToken]: K.GreaterThanGreaterThanGreaterThanToken,
    }[op]
    if (compound) {
      const t = yield* this.place(n.left, env)
      const a = t.get()
      const b = yield* this.ev_(n.right, env)
      this.cur = n
      const v = this.arith(compound, a, b, n)
      t.set(v)
      return v
    }
    const a = n.left.kind === K.PrivateIdentifier ? undefined : yield* this.ev_(n.left, env)
    const b = yield* this.ev_(n.right, env)
    this.cur = n
    switch (op) {
      case K.EqualsEqualsEqualsToken:
        return this.strictEq(a, b)
      case K.ExclamationEqualsEqualsToken:
        return !this.strictEq(a, b)
      case K.EqualsEqualsToken:
        return this.looseEq(a, b)
      case K.ExclamationEqualsToken:
        return !this.looseEq(a, b)
      case K.InKeyword:
        if (n.left.kind === K.PrivateIdentifier) return !!this.find(b, n.left.text)
        return this.has(b, this.key(a))
      case K.InstanceOfKeyword:
        return this.instanceOf(a, b)
    }
    return this.arith(op, a, b, n)
  }
  instanceOf(a, b) {
    if (!(b instanceof Fn)) this.throwErr('TypeError', 'right side of instanceof is not callable')
    if (!(a instanceof Obj)) {
      if (a instanceof Sym && a.kind === 'any') return this.decide('instanceof:' + a.name + ':' + b.fname)
      return false
    }
    if (b.instanceTest) return b.instanceTest.call(this, a)
    const p = this.get(b.boundTarget ?? b, 'prototype')
    for (let x = a.proto; x; x = x.proto) if (x === p) return true
    return false
  }
  arith(op, a, b, n) {
    if (op === K.PlusToken) {
      if (a instanceof Obj) a = this.toPrim(a)
      if (b instanceof Obj) b = this.toPrim(b)
      if (this.isStr(a) || this.isStr(b)) return this.concat([this.toStr(a), this.toStr(b)])
    }
    if ([K.LessThanToken, K.GreaterThanToken, K.LessThanEqualsToken, K.GreaterThanEqualsToken].includes(op) && this.isStr(a) && this.isStr(b)) {
      if (typeof a !== 'string' || typeof b !== 'string') this.unsupported('order of unknown strings', n)
    } else {
      if (a instanceof Obj) a = this.toPrim(a)
      if (b instanceof Obj) b = this.toPrim(b)
      a = this.toNum(a)
      b = this.toNum(b)
    }
    const conc = !(a instanceof Lin) && !(b instanceof Lin)
    switch (op) {
      case K.PlusToken:
        return conc ? a + b : lin(a).add(lin(b)).norm()
      case K.MinusToken:
        return conc ? a - b : lin(a).add(lin(b), -1).norm()
      case K.AsteriskToken:
        if (conc) return a * b
        if (typeof b === 'number') return lin(a).scale(b).norm()
        if (typeof a === 'number') return lin(b).scale(a).norm()
        break
      case K.AsteriskAsteriskToken:
        if (conc) return a ** b
        break
      case K.SlashToken:
        if (conc) return a / b
        if (typeof b === 'number') return lin(a).scale(1 / b).norm()
        break
      case K.PercentToken:
        if (conc) return a % b
        if (typeof b === 'number' && b > 0) {
          const low = this.splitMod(a, b)
          if (low.lo() >= 0 && low.hi() < b) return low.norm()
        }
        break
      case K.AmpersandToken:
        return this.bitAnd(a, b)
      case K.BarToken:
        if (conc) return a | b
        {
          // disjoint bits add
          const x = this.toU32(a)
          const y = this.toU32(b)
          const gcd = (l) => {
            let g = l.c ? l.c & -l.c : Infinity
            for (const c of l.terms.values()) g = Math.min(g, Number.isInteger(c) ? 2 ** Math.floor(Math.log2(((c % 2 ** 31) & -(c % 2 ** 31)) || c)) : 0)
            return g
          }
          if (x.lo() >= 0 && y.lo() >= 0 && (x.hi() < gcd(y) || y.hi() < gcd(x))) return this.toI32(x.add(y))
        }
        break
      case K.CaretToken:
        if (conc) return a ^ b
        break
      case K.LessThanLessThanToken:
        if (conc) return a << b
        if (typeof b === 'number') {
          const r = lin(a).scale(2 ** b)
          if (r.hi() < 2 ** 32 && r.lo() >= 0) return this.toI32(r)
        }
        break
      case K.GreaterThanGreaterThanToken:
        if (conc) return a >> b
        if (typeof b === 'number' && lin(a).hi() < 2 ** 31 && lin(a).lo() >= 0) return this.floorDiv(a, 2 ** b)
        break
      case K.GreaterThanGreaterThanGreaterThanToken:
        if (conc) return a >>> b
        if (typeof b === 'number' && this.toU32(a).hi() < 2 ** 32 && this.toU32(a).lo() >= 0) return this.floorDiv(this.toU32(a), 2 ** b)
        break
      case K.LessThanToken:
        if (conc) return a < b
        return !this.ge0(lin(a).add(lin(b), -1))
      case K.GreaterThanEqualsToken:
        if (conc) return a >= b
        return this.ge0(lin(a).add(lin(b), -1))
      case K.GreaterThanToken:
        if (conc) return a > b
        return !this.ge0(lin(b).add(lin(a), -1))
      case K.LessThanEqualsToken:
        if (conc) return a <= b
        return this.ge0(lin(b).add(lin(a), -1))
    }
    this.unsupported('operator ' + K[op] + ' on ' + show(a) + ', ' + show(b), n)
  }

  // ---- modules
  module(file) {
    let m = this.modules.get(file)
    if (m) return m
    m = { file, exports: new Map(), stars: [], env: new Env(this.genv), done: false }
    m.env.fn = new Act(undefined, null)
    this.modules.set(file, m)
    const sf = this.prog.virtual?.has(file) ? parseText(file, this.prog.virtual.get(file)) : parseFile(file)
    const stmts = sf.statements
    for (const s of stmts) this.linkStmt(s, m)
    this.hoistVars(sf, m.env)
    this.hoist(stmts, m.env)
    this.runSync(this.runModule(stmts, m), path.basename(file))
    m.done = true
    return m
  }
  getExport(m, name) {
    const g = m.exports.get(name)
    if (g) return g
    for (const s of m.stars) {
      const t = this.module(s)
      const g2 = this.getExport(t, name)
      if (g2) return g2
    }
    return null
  }
  linkStmt(s, m) {
    const dir = path.dirname(m.file)
    if (s.kind === K.ImportDeclaration) {
      const c = s.importClause
      if (c?.isTypeOnly) return
      const spec = s.moduleSpecifier.text
      const target = this.prog.resolve(spec, dir)
      if (!c) return
      const bind = (local, name) => {
        m.env.vars.set(local, {
          get: () => {
            const t = this.module(target)
            const g = this.getExport(t, name)
            if (!g) this.unsupported('import of ' + name + ' from ' + spec)
            return g()
          },
        })
      }
      if (c.name) bind(c.name.text, 'default')
      if (c.namedBindings) {
        if (c.namedBindings.kind === K.NamespaceImport) {
          m.env.vars.set(c.namedBindings.name.text, { get: () => this.namespace(this.module(target)) })
        } else {
          for (const e of c.namedBindings.elements) if (!e.isTypeOnly) bind(e.name.text, (e.propertyName ?? e.name).text)
        }
      }
      return
    }
    if (s.kind === K.ExportDeclaration) {
      if (s.isTypeOnly) return
      if (s.moduleSpecifier) {
        const target = this.prog.resolve(s.moduleSpecifier.text, dir)
        if (!s.exportClause) {
          m.stars.push(target)
          return
        }
        for (const e of s.exportClause.elements) {
          const from = (e.propertyName ?? e.name).text
          m.exports.set(e.name.text, () => {
            const g = this.getExport(this.module(target), from)
            if (!g) this.unsupported('export of ' + from)
            return g()
          })
        }
        return
      }
      for (const e of s.exportClause.elements) {
        const from = (e.propertyName ?? e.name).text
        m.exports.set(e.name.text, () => this.ref(from, m.env, e))
      }
      return
    }
    if (s.kind === K.ExportAssignment) {
      m.exports.set('default', () => m.default)
      return
    }
    const mods = s.modifiers ?? []
    if (!mods.some((x) => x.kind === K.ExportKeyword)) return
    const isDef = mods.some((x) => x.kind === K.DefaultKeyword)
    const names = []
    if (s.kind === K.VariableStatement) {
      const walk = (n) => {
        if (n.kind === K.Identifier) names.push(n.text)
        else n.elements.forEach((e) => e.name && walk(e.name))
      }
      s.declarationList.declarations.forEach((d) => walk(d.name))
    } else if ([K.FunctionDeclaration, K.ClassDeclaration, K.EnumDeclaration].includes(s.kind)) names.push(s.name?.text ?? 'default')
    for (const n of names) m.exports.set(isDef ? 'default' : n, () => this.ref(n, m.env, s))
  }
  namespace(m) {
    const o = this.object({})
    o.onMissing = (k) => {
      const g = this.getExport(m, k)
      return g ? g() : undefined
    }
    return o
  }
  *runModule(stmts, m) {
    for (const s of stmts) {
      if (s.kind === K.ImportDeclaration || s.kind === K.ExportDeclaration) continue
      if (s.kind === K.ExportAssignment) {
        m.default = yield* this.ev_(s.expression, m.env)
        continue
      }
      if (s.kind === K.VariableStatement && s.modifiers?.some((x) => x.kind === K.DeclareKeyword)) continue
      yield* this.exec(s, m.env)
    }
  }
  // exported returns an export of a file of the tree.
  exported(file, name) {
    const m = this.module(this.prog.file(file))
    const g = this.getExport(m, name)
    if (!g) this.unsupported(file + ' does not export ' + name)
    return g()
  }
}
export { Env, Act, UNINIT, K }
