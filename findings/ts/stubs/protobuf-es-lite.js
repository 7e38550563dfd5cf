// Stand-in: messages are encoded as JSON.
const rep = (k, v) => (v instanceof Uint8Array ? { $u8: [...v] } : typeof v === 'bigint' ? { $big: v.toString() } : v)
const rev = (k, v) => (v && v.$u8 ? new Uint8Array(v.$u8) : v && v.$big ? BigInt(v.$big) : v)
export function createMessageType(def) {
  return {
    typeName: def.typeName,
    fields: def.fields,
    create: (v) => ({ ...v }),
    toBinary: (m) => {
      const s = JSON.stringify(m, rep)
      return s === '{}' ? new Uint8Array(0) : new TextEncoder().encode(s)
    },
    fromBinary: (b) => (b.length === 0 ? {} : JSON.parse(new TextDecoder().decode(b), rev)),
  }
}
export const ScalarType = { INT64: 3, UINT64: 4, INT32: 5, BOOL: 8, STRING: 9, BYTES: 12, UINT32: 13 }
export const MethodKind = { Unary: 0, ServerStreaming: 1, ClientStreaming: 2, BiDiStreaming: 3 }
export const MethodIdempotency = { NoSideEffects: 1, Idempotent: 2 }
export const Empty = createMessageType({ typeName: 'google.protobuf.Empty', fields: [] })
