// Stand-in for event-iterator 2.
class Queue {
  pull = []
  pushed = []
  stopped = false
  push(value) {
    if (this.stopped) return
    if (this.pull.length) this.pull.shift().resolve({ value, done: false })
    else this.pushed.push(Promise.resolve({ value, done: false }))
  }
  stop() {
    if (this.stopped) return
    this.stopped = true
    this.remove()
    for (const p of this.pull) p.resolve({ value: undefined, done: true })
    this.pull.length = 0
  }
  fail(err) {
    if (this.stopped) return
    this.stopped = true
    this.remove()
    if (this.pull.length) {
      for (const p of this.pull) p.reject(err)
      this.pull.length = 0
    } else {
      const r = Promise.reject(err)
      r.catch(() => {})
      this.pushed.push(r)
    }
  }
  remove() {
    Promise.resolve().then(() => this.removeCallback?.())
  }
  iterator() {
    return {
      next: () => {
        const r = this.pushed.shift()
        if (r) return r
        if (this.stopped) return Promise.resolve({ value: undefined, done: true })
        return new Promise((resolve, reject) => this.pull.push({ resolve, reject }))
      },
      return: () => {
        this.stopped = true
        this.pushed.length = 0
        this.remove()
        return Promise.resolve({ value: undefined, done: true })
      },
      [Symbol.asyncIterator]() {
        return this
      },
    }
  }
}
export class EventIterator {
  constructor(listen) {
    const q = new Queue()
    q.removeCallback = listen({ push: (v) => q.push(v), stop: () => q.stop(), fail: (e) => q.fail(e), on: () => {} }) || (() => {})
    this[Symbol.asyncIterator] = () => q.iterator()
  }
}
export default EventIterator
