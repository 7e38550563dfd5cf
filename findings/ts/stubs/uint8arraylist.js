export class Uint8ArrayList {
  constructor(...parts) {
    this.buf = new Uint8Array(0)
    this.append(...parts)
  }
  get length() { return this.buf.length }
  get byteLength() { return this.buf.length }
  append(...parts) {
    for (const p of parts) {
      const b = p instanceof Uint8ArrayList ? p.buf : p
      const n = new Uint8Array(this.buf.length + b.length)
      n.set(this.buf)
      n.set(b, this.buf.length)
      this.buf = n
    }
  }
  view() { return new DataView(this.buf.buffer, this.buf.byteOffset) }
  getUint32(o, le) { return this.view().getUint32(o, le) }
  setUint32(o, v, le) { this.view().setUint32(o, v, le) }
  getUint8(o) { return this.buf[o] }
  setUint8(o, v) { this.buf[o] = v }
  get(o) { return this.buf[o] }
  subarray(a, b) { return this.buf.subarray(a, b) }
  slice(a, b) { return this.buf.slice(a, b) }
  sublist(a, b) { const l = new Uint8ArrayList(); l.buf = this.buf.slice(a, b); return l }
  consume(n) { this.buf = this.buf.slice(n) }
  *[Symbol.iterator]() { yield this.buf }
}
export const isUint8ArrayList = (v) => v instanceof Uint8ArrayList
