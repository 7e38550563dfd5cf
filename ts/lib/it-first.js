// Model of it-first.
export default async function first(source) {
  for await (const entry of source) {
    return entry
  }
  return undefined
}
