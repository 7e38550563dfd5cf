// Model of it-pipe (v3) with it-merge.
import { pushable } from 'it-pushable'

async function* merge(a, b) {
  const output = pushable({ objectMode: true })
  const copy = async (source) => {
    for await (const item of source) {
      output.push(item)
    }
  }
  Promise.resolve().then(async () => {
    try {
      await Promise.all([copy(a), copy(b)])
      output.end()
    } catch (err) {
      output.end(err)
    }
  })
  yield* output
}

function isDuplex(obj) {
  if (obj == null) {
    return false
  }
  return obj.sink != null && obj.source != null
}

function duplexPipelineFn(duplex) {
  return (source) => {
    const p = duplex.sink(source)
    if (p?.then != null) {
      const stream = pushable({ objectMode: true })
      p.then(
        () => {
          stream.end()
        },
        (err) => {
          stream.end(err)
        },
      )
      const source = duplex.source
      const wrap = async function* () {
        yield* source
        stream.end()
      }
      return merge(stream, wrap())
    }
    return duplex.source
  }
}

export function rawPipe(...fns) {
  let res
  while (fns.length > 0) {
    res = fns.shift()(res)
  }
  return res
}

export function pipe(first, ...rest) {
  if (first == null) {
    throw new Error('Empty pipeline')
  }
  if (isDuplex(first)) {
    const duplex = first
    first = () => duplex.source
  } else if (typeof first !== 'function') {
    const source = first
    first = () => source
  }
  const fns = [first, ...rest]
  if (fns.length > 1) {
    const last = fns[fns.length - 1]
    if (isDuplex(last)) {
      fns[fns.length - 1] = (source) => last.sink(source)
    }
  }
  for (let i = 1; i < fns.length - 1; i++) {
    if (isDuplex(fns[i])) {
      fns[i] = duplexPipelineFn(fns[i])
    }
  }
  return rawPipe(...fns)
}
