// Stand-in for it-pushable 3: an async iterable with push and end.
export function pushable(options = {}) {
  let buffer = []
  let onNext = null
  let ended = false
  const deferred = () => {
    let resolve
    const promise = new Promise((r) => (resolve = r))
    return { promise, resolve }
  }
  let drain = deferred()
  const drained = () => {
    if (buffer.length === 0) {
      queueMicrotask(() => {
        drain.resolve()
        drain = deferred()
      })
    }
  }
  const getNext = () => {
    if (options.all && buffer.length > 0 && !buffer[0].done && buffer[0].error == null) {
      const values = []
      while (buffer.length > 0 && !buffer[0].done && buffer[0].error == null) values.push(buffer.shift().value)
      return { done: false, value: values }
    }
    const next = buffer.shift()
    if (next == null) return { done: true, value: undefined }
    if (next.error != null) throw next.error
    return { done: next.done === true, value: next.value }
  }
  const bufferNext = (next) => {
    if (onNext != null) {
      onNext(next)
      return self
    }
    buffer.push(next)
    return self
  }
  const self = {
    [Symbol.asyncIterator]() {
      return this
    },
    async next() {
      try {
        if (buffer.length > 0) return getNext()
        if (ended) return { done: true, value: undefined }
        return await new Promise((resolve, reject) => {
          onNext = (next) => {
            onNext = null
            buffer.push(next)
            try {
              resolve(getNext())
            } catch (err) {
              reject(err)
            }
          }
        })
      } finally {
        drained()
      }
    },
    // onEmpty resolves once everything pushed has been read.
    async onEmpty(opts) {
      const signal = opts?.signal
      signal?.throwIfAborted()
      if (buffer.length === 0) return
      let listener
      const cancel = new Promise((_, reject) => {
        listener = () => reject(signal.reason ?? new Error('aborted'))
        signal?.addEventListener('abort', listener)
      })
      try {
        await Promise.race([drain.promise, cancel])
      } finally {
        signal?.removeEventListener('abort', listener)
      }
    },
    async return() {
      buffer = []
      self.end()
      return { done: true, value: undefined }
    },
    async throw(err) {
      self.end(err)
      return { done: true, value: undefined }
    },
    push(value) {
      if (ended) return self
      if (options.objectMode !== true && value?.byteLength == null) {
        throw new Error('objectMode was not true but tried to push non-Uint8Array value')
      }
      return bufferNext({ done: false, value })
    },
    end(err) {
      if (ended) return self
      ended = true
      if (err != null) {
        buffer = []
        bufferNext({ error: err })
      } else {
        bufferNext({ done: true })
      }
      options.onEnd?.(err)
      return self
    },
    get readableLength() {
      return buffer.length
    },
  }
  return self
}
// pushableV is a pushable that is read as lists of all that is there.
export function pushableV(options = {}) {
  return pushable({ ...options, all: true })
}
