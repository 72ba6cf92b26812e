// The simulator: virtual time, one event queue, seeded choices. Every source of
// asynchrony the library can see (timers, clocks, message ports, broadcast
// channels, sockets, random numbers) is replaced by one that asks the simulator.
// Promise continuations run in the order the language prescribes: after every
// event the microtask queue is drained before the next event is taken.

const real = {
  setImmediate: globalThis.setImmediate,
  setTimeout: globalThis.setTimeout,
  clearTimeout: globalThis.clearTimeout,
  setInterval: globalThis.setInterval,
  clearInterval: globalThis.clearInterval,
  now: Date.now.bind(Date),
}
export { real }

export function hashStr(s, h = 0x811c9dc5) {
  for (let i = 0; i < s.length; i++) {
    h ^= s.charCodeAt(i)
    h = Math.imul(h, 0x01000193)
  }
  return h >>> 0
}

// RNG is sfc32 keyed by a seed and a name.
export class RNG {
  constructor(seed, name = '') {
    this.a = hashStr(name, (seed ^ 0x9e3779b9) >>> 0)
    this.b = (Math.floor(seed / 4294967296) ^ 0x243f6a88) >>> 0
    this.c = hashStr(name + '#', seed >>> 0)
    this.d = 1
    for (let i = 0; i < 12; i++) this.u32()
  }
  u32() {
    const t = (((this.a + this.b) | 0) + this.d) | 0
    this.d = (this.d + 1) | 0
    this.a = this.b ^ (this.b >>> 9)
    this.b = (this.c + (this.c << 3)) | 0
    this.c = (this.c << 21) | (this.c >>> 11)
    this.c = (this.c + t) | 0
    return t >>> 0
  }
  // n returns an integer in [0, n).
  n(n) {
    return n <= 1 ? 0 : this.u32() % n
  }
  // range returns an integer in [a, b].
  range(a, b) {
    return a + this.n(b - a + 1)
  }
  // p is true with probability p.
  p(p) {
    return this.u32() / 4294967296 < p
  }
  pick(a) {
    return a[this.n(a.length)]
  }
  bytes(n) {
    const b = new Uint8Array(n)
    for (let i = 0; i < n; i++) b[i] = this.u32()
    return b
  }
}

let cur = null
export const sim = () => cur

export class Sim {
  constructor(seed, { stepLimit = 300000, timerSlop = 0, show = false } = {}) {
    this.seed = seed
    this.now = 0 // microseconds
    this.heap = []
    this.seq = 0
    this.steps = 0
    this.decisions = 0
    this.switches = 0
    this.maxPending = 0
    this.stepLimit = stepLimit
    this.timerSlop = timerSlop
    this.h1 = 0x811c9dc5
    this.h2 = 0x1234567
    this.log = []
    this.show = show
    this.rngs = new Map()
    this.viols = []
    this.faults = {}
    this.probes = {}
    this.timers = new Map()
    this.timerID = 1
    this.lastLabel = ''
    this.background = 0 // pending events that keep nothing alive
    this.skew = 0 // added to the wall clock (microseconds)
  }
  rng(name) {
    let r = this.rngs.get(name)
    if (!r) this.rngs.set(name, (r = new RNG(this.seed, name)))
    return r
  }
  rec(s) {
    this.h1 = hashStr(s, this.h1)
    this.h2 = Math.imul(this.h2 ^ this.h1, 0x85ebca6b) >>> 0
    if (this.log.length < 4000) this.log.push(`${(this.now / 1000).toFixed(3)} ${s}`)
    if (this.show === 'live') console.error(`${(this.now / 1000).toFixed(3)} ${s}`)
  }
  fault(k) {
    this.faults[k] = (this.faults[k] || 0) + 1
    this.rec('fault ' + k)
  }
  probe(k, n = 1) {
    this.probes[k] = (this.probes[k] || 0) + n
  }
  viol(cls, msg, ...props) {
    if (this.viols.length < 20 && !this.viols.some((v) => v.class === cls && v.msg === msg)) this.viols.push({ class: cls, msg, props })
    this.rec(`VIOLATION ${cls}: ${msg}`)
  }
  // at runs fn after us microseconds; events of the same instant run in a seeded order.
  at(us, label, fn, bg = false) {
    const e = { t: this.now + Math.max(0, Math.round(us)), r: this.rng('order').u32(), n: this.seq++, label, fn, bg, dead: false, i: 0 }
    this._push(e)
    if (!bg) this.fg = (this.fg || 0) + 1
    return e
  }
  cancel(e) {
    if (!e || e.dead) return
    e.dead = true
    if (!e.bg) this.fg--
  }
  _less(a, b) {
    return a.t !== b.t ? a.t < b.t : a.r !== b.r ? a.r < b.r : a.n < b.n
  }
  _push(e) {
    const h = this.heap
    h.push(e)
    let i = h.length - 1
    while (i > 0) {
      const p = (i - 1) >> 1
      if (!this._less(h[i], h[p])) break
      ;[h[i], h[p]] = [h[p], h[i]]
      i = p
    }
    if (h.length > this.maxPending) this.maxPending = h.length
  }
  _pop() {
    const h = this.heap
    const top = h[0]
    const last = h.pop()
    if (h.length) {
      h[0] = last
      let i = 0
      while (true) {
        let m = i
        const l = 2 * i + 1
        if (l < h.length && this._less(h[l], h[m])) m = l
        if (l + 1 < h.length && this._less(h[l + 1], h[m])) m = l + 1
        if (m === i) break
        ;[h[i], h[m]] = [h[m], h[i]]
        i = m
      }
    }
    return top
  }
  sleep(us, label = 'sleep') {
    return new Promise((r) => this.at(us, label, r))
  }
  // run processes events until none is left that can do anything, or until time end.
  async run(end = Infinity) {
    await this.drain()
    while (this.fg > 0) {
      const e = this.heap[0]
      if (!e) break
      if (e.dead) {
        this._pop()
        continue
      }
      if (e.t > end) return 'time'
      this._pop()
      if (!e.bg) this.fg--
      e.dead = true
      this.now = e.t
      this.steps++
      if (this.fg > 0) this.decisions++
      if (e.label !== this.lastLabel) this.switches++
      this.lastLabel = e.label
      this.rec(e.label)
      try {
        e.fn()
      } catch (err) {
        this.viol('uncaught-exception', `${e.label}: ${err?.stack?.split('\n').slice(0, 3).join(' | ') ?? err}`, '*')
      }
      await this.drain()
      if (this.steps > this.stepLimit) {
        this.viol('livelock', `${this.steps} events without coming to rest`, '*')
        return 'limit'
      }
    }
    return 'idle'
  }
  drain() {
    return new Promise((r) => real.setImmediate(r))
  }
  hash() {
    return this.h2.toString(16).padStart(8, '0') + this.h1.toString(16).padStart(8, '0')
  }
}

export function enter(s) {
  cur = s
}
export function leave() {
  cur = null
}

// ---- replaced globals ----

function fakeSetTimeout(fn, ms = 0, ...args) {
  const s = cur
  if (!s) return real.setTimeout(fn, ms, ...args)
  const id = s.timerID++
  // timers never fire early by the monotonic clock, but may be late
  let us = Math.max(1, Math.floor(Number(ms) || 0)) * 1000
  if (s.timerSlop) us += s.rng('timer').n(s.timerSlop + 1)
  const e = s.at(us, 'timer', () => {
    s.timers.delete(id)
    fn(...args)
  })
  s.timers.set(id, e)
  return id
}
function fakeClearTimeout(id) {
  const s = cur
  if (!s) return real.clearTimeout(id)
  const e = s.timers.get(id)
  if (e) {
    s.timers.delete(id)
    s.cancel(e)
  }
}
function fakeSetInterval(fn, ms, ...args) {
  const s = cur
  if (!s) return real.setInterval(fn, ms, ...args)
  const id = s.timerID++
  const us = Math.max(1, Math.floor(Number(ms) || 0)) * 1000
  const arm = () => {
    s.timers.set(
      id,
      s.at(us, 'interval', () => {
        arm()
        fn(...args)
      }),
    )
  }
  arm()
  return id
}

class SimEvents {
  #l = new Map()
  addEventListener(t, fn, o) {
    if (!fn) return
    let a = this.#l.get(t)
    if (!a) this.#l.set(t, (a = []))
    if (o?.signal?.aborted) return
    o?.signal?.addEventListener('abort', () => this.removeEventListener(t, fn))
    if (!a.some((x) => x.fn === fn)) a.push({ fn, once: !!o?.once })
  }
  removeEventListener(t, fn) {
    const a = this.#l.get(t)
    if (a)
      this.#l.set(
        t,
        a.filter((x) => x.fn !== fn),
      )
  }
  dispatchEvent(ev) {
    for (const x of [...(this.#l.get(ev.type) ?? [])]) {
      if (x.once) this.removeEventListener(ev.type, x.fn)
      typeof x.fn === 'function' ? x.fn.call(this, ev) : x.fn.handleEvent(ev)
    }
    const on = this['on' + ev.type]
    if (typeof on === 'function') on.call(this, ev)
    return true
  }
  listenerCount(t) {
    return (this.#l.get(t) ?? []).length
  }
}
export { SimEvents }

// Lane delivers items in order with seeded delays.
export class Lane {
  constructor(name, deliver) {
    this.name = name
    this.deliver = deliver
    this.tail = 0
    this.maxUs = 3000
    this.sent = 0
  }
  send(x, extra = 0) {
    const s = cur
    const d = this.maxUs ? s.rng('lane:' + this.name).n(this.maxUs + 1) : 0
    const t = Math.max(this.tail, s.now + d + extra)
    this.tail = t + 1 // strictly ordered
    this.sent++
    return s.at(t - s.now, this.name, () => this.deliver(x))
  }
}

let portSeq = 0
export function resetNames() {
  portSeq = 0
  bcChannels.clear()
}

export class SimMessagePort extends SimEvents {
  #started = false
  #queue = []
  #onmessage = null
  constructor() {
    super()
    this.name = 'port' + portSeq++
    this.peer = null
    this.closed = false
    this.lane = new Lane(this.name, (data) => this.peer?._arrive(data))
  }
  set onmessage(fn) {
    this.#onmessage = fn
    this.start()
  }
  get onmessage() {
    return this.#onmessage
  }
  postMessage(data) {
    if (this.closed || !this.peer || this.cut) return
    this.lane.send(structuredClone(data))
  }
  start() {
    if (this.#started) return
    this.#started = true
    if (this.#queue.length) this.#next()
  }
  // what was queued is delivered one task at a time, before anything that comes later
  #next() {
    cur.at(0, this.name + ' queued', () => {
      const d = this.#queue.shift()
      if (this.#queue.length) this.#next()
      this.#dispatch(d)
    })
  }
  #dispatch(data) {
    if (!this.closed && !this.cut) this.dispatchEvent({ type: 'message', data, target: this })
  }
  _arrive(data) {
    if (this.closed || this.cut) return
    if (!this.#started || this.#queue.length) this.#queue.push(data)
    else this.#dispatch(data)
  }
  close() {
    this.closed = true
  }
}

export class SimMessageChannel {
  constructor() {
    this.port1 = new SimMessagePort()
    this.port2 = new SimMessagePort()
    this.port1.peer = this.port2
    this.port2.peer = this.port1
  }
}

const bcChannels = new Map()
export class SimBroadcastChannel extends SimEvents {
  constructor(name) {
    super()
    this.name = String(name)
    this.closed = false
    this.id = portSeq++
    this.lanes = new Map()
    let set = bcChannels.get(this.name)
    if (!set) bcChannels.set(this.name, (set = new Set()))
    set.add(this)
    this.maxUs = cur?.laneMax
  }
  postMessage(data) {
    if (this.closed) throw new DOMException('The channel is closed', 'InvalidStateError')
    if (this.cut) return
    const msg = structuredClone(data)
    for (const o of bcChannels.get(this.name)) {
      if (o === this) continue
      let lane = this.lanes.get(o)
      if (!lane) {
        lane = new Lane(`bc ${this.name} ${this.id}>${o.id}`, (d) => {
          if (!o.closed && !o.cut) o.dispatchEvent({ type: 'message', data: d, target: o })
        })
        if (this.maxUs !== undefined) lane.maxUs = this.maxUs
        this.lanes.set(o, lane)
      }
      lane.send(msg)
    }
  }
  close() {
    this.closed = true
    bcChannels.get(this.name)?.delete(this)
  }
}

class FakeDate extends Date {
  constructor(...a) {
    if (a.length) super(...a)
    else super(FakeDate.now())
  }
  static now() {
    return cur ? Math.floor((cur.now + cur.skew) / 1000) + 1_700_000_000_000 : real.now()
  }
}

export function installGlobals() {
  const def = (k, v) => Object.defineProperty(globalThis, k, { value: v, writable: true, configurable: true })
  def('setTimeout', fakeSetTimeout)
  def('clearTimeout', fakeClearTimeout)
  def('setInterval', fakeSetInterval)
  def('clearInterval', fakeClearTimeout)
  def('setImmediate', (fn, ...a) => (cur ? cur.at(0, 'immediate', () => fn(...a)) : real.setImmediate(fn, ...a)))
  def('MessagePort', SimMessagePort)
  def('MessageChannel', SimMessageChannel)
  def('BroadcastChannel', SimBroadcastChannel)
  def('Date', FakeDate)
  Math.random = () => (cur ? cur.rng('Math.random').u32() / 4294967296 : 0.5)
  def('performance', { now: () => (cur ? cur.now / 1000 : 0), timeOrigin: 1_700_000_000_000 })
  globalThis.crypto.getRandomValues = (b) => {
    const r = cur.rng('crypto')
    const v = new Uint8Array(b.buffer, b.byteOffset, b.byteLength)
    for (let i = 0; i < v.length; i++) v[i] = r.u32()
    return b
  }
  process.on('unhandledRejection', (err) => {
    if (cur) cur.viol('unhandled-rejection', String(err?.stack ?? err).split('\n').slice(0, 3).join(' | ').replace(/\(?(file:)?\/[^ )]*[/]/g, '('), '*')
  })
}
