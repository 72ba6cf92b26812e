// Stand-in for it-pipe 3 (with it-merge 3 behind duplexes in the middle).
import { pushable } from 'it-pushable'

const isDuplex = (o) => o != null && typeof o.sink === 'function' && o.source != null
const isIterable = (o) => o != null && (o[Symbol.asyncIterator] != null || o[Symbol.iterator] != null)

// a hand-over slot: push resolves when the value was taken
function slot() {
  let item = null
  let taken = null
  let waiting = null
  let stopped = false
  const put = (it) =>
    new Promise((resolve) => {
      if (stopped) {
        resolve()
        return
      }
      if (waiting) {
        const w = waiting
        waiting = null
        w(it)
        resolve()
        return
      }
      item = it
      taken = resolve
    })
  let tail = Promise.resolve()
  return {
    push(it) {
      const p = tail.then(() => put(it))
      tail = p
      return p
    },
    stop() {
      stopped = true
      item = null
      taken?.()
    },
    take() {
      if (item) {
        const it = item
        item = null
        taken()
        return Promise.resolve(it)
      }
      return new Promise((resolve) => {
        waiting = resolve
      })
    },
    get stopped() {
      return stopped
    },
  }
}

async function* merge(...sources) {
  const s = slot()
  const feed = async () => {
    try {
      await Promise.all(
        sources.map(async (src) => {
          for await (const value of src) {
            await s.push({ value })
            if (s.stopped) return
          }
        }),
      )
      await s.push({ done: true })
    } catch (err) {
      await s.push({ err })
    }
  }
  feed()
  try {
    while (true) {
      const it = await s.take()
      if (it.done) return
      if ('err' in it) throw it.err
      yield it.value
    }
  } finally {
    s.stop()
  }
}

function duplexFn(duplex) {
  return (source) => {
    const p = duplex.sink(source)
    if (p?.then != null) {
      const stream = pushable({ objectMode: true })
      p.then(
        () => stream.end(),
        (err) => stream.end(err),
      )
      const src = duplex.source
      const wrap = async function* () {
        yield* src
        stream.end()
      }
      return merge(stream, wrap())
    }
    return duplex.source
  }
}

export function pipe(first, ...rest) {
  if (first == null) throw new Error('Empty pipeline')
  const fns = [first, ...rest]
  if (isDuplex(first)) fns[0] = () => first.source
  else if (isIterable(first)) fns[0] = () => first
  const last = fns.length - 1
  if (fns.length > 1 && isDuplex(fns[last])) {
    const d = fns[last]
    fns[last] = (src) => d.sink(src)
  }
  for (let i = 1; i < last; i++) {
    if (isDuplex(fns[i])) fns[i] = duplexFn(fns[i])
  }
  let res
  for (const f of fns) res = f(res)
  return res
}
