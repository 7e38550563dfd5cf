// Model of @aptre/protobuf-es-lite: a message type encodes and decodes.
export const ScalarType = {
  DOUBLE: 1,
  FLOAT: 2,
  INT64: 3,
  UINT64: 4,
  INT32: 5,
  FIXED64: 6,
  FIXED32: 7,
  BOOL: 8,
  STRING: 9,
  BYTES: 12,
  UINT32: 13,
  SFIXED32: 15,
  SFIXED64: 16,
  SINT32: 17,
  SINT64: 18,
}
export const MethodKind = { Unary: 0, ServerStreaming: 1, ClientStreaming: 2, BiDiStreaming: 3, 0: 'Unary', 1: 'ServerStreaming', 2: 'ClientStreaming', 3: 'BiDiStreaming' }
export const MethodIdempotency = { NoSideEffects: 1, Idempotent: 2, 1: 'NoSideEffects', 2: 'Idempotent' }
export const createMessageType = __createMessageType
export const Empty = __createMessageType({ typeName: 'google.protobuf.Empty', fields: [], packedByDefault: true })
export const localName = __localName
