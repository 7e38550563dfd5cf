// Model of event-iterator: what the handler pushes is iterated, the function
// it returns is called when the iteration ends.
import { pushable } from 'it-pushable'
export class EventIterator {
  constructor(listen, options) {
    this.listen = listen
  }
  [Symbol.asyncIterator]() {
    const q = pushable({ objectMode: true })
    let removed = false
    let remove
    const done = () => {
      if (!removed) {
        removed = true
        remove && remove()
      }
    }
    const queue = {
      push: (v) => {
        q.push(v)
      },
      stop: () => {
        done()
        q.end()
      },
      fail: (err) => {
        done()
        q.end(err)
      },
      on: () => queue,
    }
    remove = this.listen(queue)
    return {
      next: () => q.next(),
      return: async () => {
        done()
        q.return()
        return { done: true, value: undefined }
      },
    }
  }
}
