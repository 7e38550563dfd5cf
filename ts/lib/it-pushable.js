// Model of it-pushable (v3): a queue which is written with push and end, and
// read as an async iterable. An error discards what was not read yet.
export function pushable(options) {
  options = options ?? {}
  let buffer = []
  let onNext = null
  let ended = false
  const getNext = () => {
    const next = buffer.shift()
    if (next.error != null) {
      throw next.error
    }
    return { done: next.done === true, value: next.value }
  }
  const bufferNext = (next) => {
    if (onNext != null) {
      return onNext(next)
    }
    buffer.push(next)
    return self
  }
  const self = {
    [Symbol.asyncIterator]() {
      return this
    },
    async next() {
      if (buffer.length > 0) {
        return getNext()
      }
      if (ended) {
        return { done: true, value: undefined }
      }
      return await new Promise((resolve, reject) => {
        onNext = (next) => {
          onNext = null
          buffer.push(next)
          try {
            resolve(getNext())
          } catch (err) {
            reject(err)
          }
          return self
        }
      })
    },
    async return() {
      __ev('return', self)
      buffer = []
      self.end()
      return { done: true, value: undefined }
    },
    async throw(err) {
      self.end(err)
      return { done: true, value: undefined }
    },
    push(value) {
      __ev('push', self, value, ended)
      if (ended) {
        return self
      }
      if (options?.objectMode !== true && value?.byteLength == null) {
        throw new Error('objectMode was not true but tried to push non-Uint8Array value')
      }
      return bufferNext({ done: false, value })
    },
    end(err) {
      __ev('end', self, err, ended)
      if (ended) {
        return self
      }
      ended = true
      if (err != null) {
        buffer = []
        return bufferNext({ error: err })
      }
      return bufferNext({ done: true })
    },
    async onEmpty() {},
    get readableLength() {
      return buffer.length
    },
  }
  __ev('pushable', self)
  return self
}
