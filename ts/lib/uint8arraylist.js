export const Uint8ArrayList = __Uint8ArrayList
export function isUint8ArrayList(value) {
  return value instanceof Uint8ArrayList
}
