// Stand-in for @chainsafe/libp2p-yamux: a stream multiplexer with the interface
// and the closing behaviour of the original, and a framing of its own.
import { pushable } from 'it-pushable'
import { Uint8ArrayList } from 'uint8arraylist'

const OPEN = 1
const DATA = 2
const FIN = 3
const RST = 4
const BYE = 5

function frame(type, id, data) {
  const n = data ? data.byteLength : 0
  const h = new Uint8Array(9)
  const v = new DataView(h.buffer)
  h[0] = type
  v.setUint32(1, id)
  v.setUint32(5, n)
  return data ? new Uint8ArrayList(h, data) : h
}

class Stream {
  constructor(mux, id) {
    this.mux = mux
    this.id = String(id)
    this.n = id
    this.status = 'open'
    this.readStatus = 'ready'
    this.writeStatus = 'ready'
    this._src = pushable({ objectMode: true })
    this.source = (async function* (s) {
      yield* s._src
    })(this)
    this._stop = null
    this.sink = async (source) => {
      if (this.writeStatus !== 'ready') throw new Error(`writable end state is "${this.writeStatus}" not "ready"`)
      this.writeStatus = 'writing'
      const it = source[Symbol.asyncIterator] ? source[Symbol.asyncIterator]() : source[Symbol.iterator]()
      const stop = new Promise((resolve) => (this._stop = resolve))
      try {
        while (true) {
          const r = await Promise.race([Promise.resolve(it.next()), stop])
          if (r.stop) {
            Promise.resolve(it.return?.()).catch(() => {})
            if (r.err) throw r.err
            break
          }
          if (r.done) break
          if (this.writeStatus !== 'writing') break
          this.mux._send(frame(DATA, this.n, r.value))
        }
      } catch (err) {
        this.abort(err)
        throw err
      }
      await this.closeWrite()
    }
  }
  async closeWrite() {
    if (this.writeStatus === 'closed') return
    const w = this.writeStatus
    this.writeStatus = 'closed'
    if (w === 'writing') this._stop?.({ stop: true })
    if (this.status === 'open') this.mux._send(frame(FIN, this.n))
    this._check()
  }
  async closeRead() {
    if (this.readStatus !== 'ready') return
    this.readStatus = 'closed'
    this._src.end()
    this._check()
  }
  async close() {
    await Promise.all([this.closeRead(), this.closeWrite()])
  }
  _fail(err, status) {
    if (this.status !== 'open') return false
    this.status = status
    this.readStatus = 'closed'
    this._src.end(err)
    if (this.writeStatus === 'writing') this._stop?.({ stop: true, err })
    this.writeStatus = 'closed'
    this._check()
    return true
  }
  abort(err) {
    if (this.status !== 'open') return
    this.mux._send(frame(RST, this.n))
    this._fail(err ?? new Error('aborted'), 'aborted')
  }
  _check() {
    if (this.readStatus === 'closed' && this.writeStatus === 'closed') {
      if (this.status === 'open') this.status = 'closed'
      this.mux._map.delete(this.n)
    }
  }
}

class Muxer {
  constructor(init) {
    this.protocol = '/yamux/1.0.0'
    this._init = init
    this._map = new Map()
    this._next = init.direction === 'inbound' ? 2 : 1
    this._closing = false
    this._inEnd = null
    this.source = pushable({
      objectMode: true,
      onEnd: () => {
        for (const s of [...this._map.values()]) s._fail(new Error('muxer closed'), 'closed')
      },
    })
    this.sink = async (source) => {
      let error
      try {
        const buf = new Uint8ArrayList()
        const it = source[Symbol.asyncIterator] ? source[Symbol.asyncIterator]() : source[Symbol.iterator]()
        const stop = new Promise((resolve) => (this._inEnd = resolve))
        while (true) {
          const r = await Promise.race([Promise.resolve(it.next()), stop])
          if (r.stop) {
            Promise.resolve(it.return?.()).catch(() => {})
            break
          }
          if (r.done) break
          buf.append(r.value)
          while (buf.length >= 9) {
            const h = buf.slice(0, 9)
            const v = new DataView(h.buffer)
            const n = v.getUint32(5)
            if (buf.length < 9 + n) break
            const data = n ? buf.sublist(9, 9 + n) : undefined
            buf.consume(9 + n)
            this._frame(h[0], v.getUint32(1), data)
          }
        }
      } catch (err) {
        error = err
      }
      if (error) this.abort(error)
      else await this.close()
    }
  }
  _frame(type, id, data) {
    const s = this._map.get(id)
    switch (type) {
      case OPEN: {
        const s = new Stream(this, id)
        this._map.set(id, s)
        this._init.onIncomingStream?.(s)
        return
      }
      case DATA:
        if (s && s.readStatus === 'ready') s._src.push(data)
        return
      case FIN:
        s?.closeRead()
        return
      case RST:
        s?._fail(new Error('stream reset'), 'reset')
        return
      case BYE:
        for (const s of [...this._map.values()]) s._fail(new Error('stream reset'), 'reset')
        this._end()
        return
      default:
        throw new Error('invalid frame type ' + type)
    }
  }
  _send(f) {
    if (!this._done) this.source.push(f)
  }
  _end() {
    if (this._done) return
    this._done = true
    this._closing = true
    this._inEnd?.({ stop: true })
    this.source.end()
  }
  get streams() {
    return [...this._map.values()]
  }
  newStream() {
    if (this._closing) throw new Error('Muxer closed')
    const id = this._next
    this._next += 2
    const s = new Stream(this, id)
    this._map.set(id, s)
    this._send(frame(OPEN, id))
    return s
  }
  async close() {
    if (this._closing) return
    this._closing = true
    await Promise.all([...this._map.values()].map((s) => s.close()))
    this._send(frame(BYE, 0))
    this._end()
  }
  abort(err) {
    if (this._done) return
    this._closing = true
    for (const s of [...this._map.values()]) s.abort(err)
    this._send(frame(BYE, 0))
    this._end()
  }
}

export function yamux() {
  return () => ({ protocol: '/yamux/1.0.0', createStreamMuxer: (init) => new Muxer(init ?? {}) })
}
