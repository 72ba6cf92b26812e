// Simulated transports under the library's TypeScript clients and servers.
import { pipe } from 'it-pipe'
import { sim, Lane, SimEvents, SimMessageChannel, SimBroadcastChannel } from './kernel.js'
import { StreamConn } from '@repo/srpc/conn.ts'
import { WebSocketConn } from '@repo/srpc/websocket.ts'
import { MessagePortConn } from '@repo/srpc/message-port.ts'
import { BroadcastChannelConn, BroadcastChannelDuplex } from '@repo/srpc/broadcast-channel.ts'
import { ChannelStream } from '@repo/srpc/channel.ts'

const flat = (m) => (m instanceof Uint8Array ? m.slice() : m.slice())

// Inbox is the readable end of a simulated transport.
class Inbox {
  constructor() {
    this.q = []
    this.wait = null
    this.done = null
    this.returned = false
    this.consumed = false
  }
  push(v) {
    if (this.done) return
    if (this.wait) {
      const w = this.wait
      this.wait = null
      w.resolve({ value: v, done: false })
    } else this.q.push(v)
  }
  end(err) {
    if (this.done) return
    this.done = { err }
    if (err) this.q = []
    if (this.wait) {
      const w = this.wait
      this.wait = null
      this.consumed = true
      err ? w.reject(err) : w.resolve({ value: undefined, done: true })
    }
  }
  [Symbol.asyncIterator]() {
    return this
  }
  next() {
    if (this.q.length) return Promise.resolve({ value: this.q.shift(), done: false })
    if (this.done) {
      const e = this.done.err
      this.consumed = true
      if (e) {
        this.done = {}
        return Promise.reject(e)
      }
      return Promise.resolve({ value: undefined, done: true })
    }
    return new Promise((resolve, reject) => (this.wait = { resolve, reject }))
  }
  return() {
    this.returned = true
    this.q = []
    this.end()
    return Promise.resolve({ value: undefined, done: true })
  }
  throw(e) {
    return this.return().then(() => Promise.reject(e))
  }
}

// End is one end of a simulated duplex of messages or bytes.
class End {
  constructor(name, opts) {
    this.name = name
    this.opts = opts
    this.inbox = new Inbox()
    this.source = this.inbox
    this.peer = null
    this.sinkState = 'unused'
    this.dead = null
    this.bytes = 0
    this.lane = new Lane(name, (x) => this.peer._arrive(x))
    this.lane.maxUs = opts.delayUs
    this._stop = new Promise((r) => (this._die = r))
    this.sink = (source) => this._sink(source)
  }
  async _sink(source) {
    if (this.sinkState !== 'unused') throw new Error('sink used twice')
    this.sinkState = 'busy'
    const it = source[Symbol.asyncIterator]?.() ?? source[Symbol.iterator]()
    try {
      while (true) {
        const r = await Promise.race([Promise.resolve(it.next()), this._stop])
        if (r.dead) {
          Promise.resolve(it.return?.()).catch(() => {})
          if (r.err) throw r.err
          break
        }
        if (r.done) break
        if (this.opts.stallUs && sim().rng('stall:' + this.name).p(0.2)) {
          sim().fault('ts-slow-write')
          await sim().sleep(sim().rng('stall:' + this.name).n(this.opts.stallUs), this.name + ' stalled')
        }
        this._send(flat(r.value))
      }
    } catch (err) {
      this.sinkState = 'failed'
      if (!this.dead) this.lane.send({ err: new Error('stream reset') })
      throw err
    }
    this.sinkState = 'done'
    if (!this.dead) this.lane.send({ end: true })
  }
  _send(data) {
    if (this.dead) return
    if (!this.opts.bytes) {
      this.lane.send({ data })
      return
    }
    // a byte stream: cut into fragments, to be joined again by chance on arrival
    const r = sim().rng('frag:' + this.name)
    let i = 0
    while (i < data.length) {
      const n = this.opts.frag ? Math.min(data.length - i, r.range(1, this.opts.frag)) : data.length - i
      this.lane.send({ data: data.subarray(i, i + n) })
      i += n
      if (i < data.length) sim().probe('ts-fragment')
    }
  }
  _arrive(x) {
    if (this.dead) return
    if (x.data) {
      if (this.opts.bytes && this.opts.join && this.inbox.q.length && sim().rng('join:' + this.name).p(0.5)) {
        const a = this.inbox.q[this.inbox.q.length - 1]
        const b = new Uint8Array(a.length + x.data.length)
        b.set(a)
        b.set(x.data, a.length)
        this.inbox.q[this.inbox.q.length - 1] = b
        sim().probe('ts-coalesced')
        return
      }
      this.inbox.push(x.data)
    } else if (x.err) this.inbox.end(x.err)
    else this.inbox.end()
  }
  // kill ends this end: what was under way is lost.
  kill(err) {
    if (this.dead) return
    this.dead = { err }
    this.inbox.end(err)
    this._die({ dead: true, err })
  }
  get over() {
    return this.sinkState !== 'busy' && this.sinkState !== 'unused' && (this.inbox.done != null || this.inbox.returned)
  }
}

function mkPair(name, opts) {
  const a = new End(name + '>', opts)
  const b = new End(name + '<', opts)
  a.peer = b
  b.peer = a
  return [a, b]
}

const lostErr = () => new Error('connection lost')

// PairTransport: one in-memory packet stream per call.
export class PairTransport {
  constructor(name, server, opts) {
    this.name = name
    this.server = server
    this.opts = opts
    this.pairs = []
    this.lost = null
    this.n = 0
    this.openStream = async () => {
      const s = sim()
      const r = s.rng('open:' + name)
      if (opts.openUs) await s.sleep(r.n(opts.openUs + 1), name + ' open')
      if (this.lost) throw lostErr()
      if (opts.openFail && r.p(opts.openFail)) {
        s.fault('ts-open-failure')
        this.openFailed = true
        throw new Error('open failed')
      }
      const [a, b] = mkPair(`${name}.${this.n++}`, opts)
      this.pairs.push([a, b])
      s.at(s.rng('accept:' + name).n(opts.delayUs + 1), name + ' accept', () => {
        if (b.dead) return
        b.accepted = true
        if (opts.rpcHandler) this.server.rpcStreamHandler(b).catch((e) => s.viol('handler-rejected', `rpcStreamHandler rejected: ${e}`, 'C29'))
        else this.server.handlePacketStream(b)
      })
      return a
    }
  }
  canLose() {
    return ['reset', 'end']
  }
  lose(mode, gapUs) {
    this.lost = mode
    const s = sim()
    for (const [a, b] of this.pairs) {
      const g = s.rng('lose').n(gapUs + 1)
      const first = s.rng('lose').p(0.5) ? [a, b] : [b, a]
      first[0].kill(mode === 'reset' ? lostErr() : undefined)
      s.at(g, this.name + ' loss seen', () => first[1].kill(mode === 'reset' ? lostErr() : undefined))
    }
  }
  leaks() {
    const out = []
    for (const [a, b] of this.pairs) {
      if (!a.over) out.push(`client end of stream ${a.name}: writing ${a.sinkState}, reading ${a.inbox.done ? 'ended' : 'open'}`)
      if ((b.accepted || !b.dead) && !b.over) out.push(`server end of stream ${b.name}: writing ${b.sinkState}, reading ${b.inbox.done ? 'ended' : 'open'}`)
    }
    return out
  }
}

// ConnTransport: calls multiplexed on a connection.
class ConnTransport {
  openStream = async () => {
    if (this.opts.openUs) await sim().sleep(sim().rng('open:' + this.name).n(this.opts.openUs + 1), this.name + ' open')
    return this.client.openStream()
  }
  // mode: close-client, close-server, with an error close-client-error, ...
  closeEnd(mode) {
    const [, which, err] = mode.split('-')
    const c = which === 'client' ? this.client : this.serverConn
    this.lost = mode
    c.close(err ? new Error('closed by the application') : undefined)
  }
  leaks() {
    const out = []
    for (const [n, c] of [
      ['client', this.client],
      ['server', this.serverConn],
    ])
      for (const s of c.streams) out.push(`${n} connection: stream ${s.id} still open (read ${s.readStatus}, write ${s.writeStatus})`)
    return out
  }
}

export class StreamConnTransport extends ConnTransport {
  constructor(name, server, opts) {
    super()
    this.name = name
    this.opts = opts
    const [a, b] = mkPair(name, { ...opts, bytes: true })
    this.a = a
    this.b = b
    this.serverConn = new StreamConn(server, { direction: 'inbound' })
    this.client = new StreamConn(opts.twoWay, { direction: 'outbound' })
    this.closed = []
    for (const [c, l] of [
      [this.client, a],
      [this.serverConn, b],
    ])
      pipe(l, c, l)
        .catch((err) => c.close(err))
        .then(() => c.close())
  }
  canLose() {
    return ['reset', 'end', 'close-client', 'close-server', 'close-client-error', 'close-server-error']
  }
  lose(mode, gapUs) {
    if (mode.startsWith('close-')) return this.closeEnd(mode)
    this.lost = mode
    const s = sim()
    const first = s.rng('lose').p(0.5) ? [this.a, this.b] : [this.b, this.a]
    first[0].kill(mode === 'reset' ? lostErr() : undefined)
    s.at(s.rng('lose').n(gapUs + 1), this.name + ' loss seen', () => first[1].kill(mode === 'reset' ? lostErr() : undefined))
  }
}

// SimWebSocket is one end of a simulated web socket.
class SimWebSocket extends SimEvents {
  constructor(name, opts) {
    super()
    this.name = name
    this.readyState = 0
    this.binaryType = 'nodebuffer'
    this.peer = null
    this.lane = new Lane(name, (x) => this.peer._arrive(x))
    this.lane.maxUs = opts.delayUs
  }
  open() {
    if (this.readyState !== 0) return
    this.readyState = 1
    this.dispatchEvent({ type: 'open' })
    const q = this.early ?? []
    for (const x of q) this._arrive(x)
  }
  send(data) {
    if (this.readyState === 0) throw new DOMException('still connecting', 'InvalidStateError')
    if (this.readyState !== 1) return
    if (!(data instanceof Uint8Array)) throw new TypeError('not binary data')
    this.lane.send({ data: data.slice().buffer })
  }
  _arrive(x) {
    if (this.readyState === 3) return
    if (this.readyState === 0) {
      ;(this.early ??= []).push(x)
      return
    }
    if (x.data) {
      if (this.readyState === 1) this.dispatchEvent({ type: 'message', data: x.data })
    } else if (x.close) {
      if (this.readyState === 1) this.lane.send({ close: true })
      this._closed({ code: 1000, wasClean: true })
    }
  }
  _closed(ev) {
    if (this.readyState === 3) return
    this.readyState = 3
    this.dispatchEvent({ type: 'close', ...ev })
  }
  close() {
    if (this.readyState >= 2) return
    this.readyState = 2
    this.lane.send({ close: true })
  }
  lose(withError) {
    if (this.readyState === 3) return
    if (withError) this.dispatchEvent({ type: 'error', error: lostErr() })
    this._closed({ code: 1006, wasClean: false })
  }
}

export class WSTransport extends ConnTransport {
  constructor(name, server, opts) {
    super()
    this.name = name
    this.opts = opts
    this.a = new SimWebSocket(name + '>', opts)
    this.b = new SimWebSocket(name + '<', opts)
    this.a.peer = this.b
    this.b.peer = this.a
    this.serverConn = new WebSocketConn(this.b, 'inbound', server)
    this.client = new WebSocketConn(this.a, 'outbound', opts.twoWay)
    const s = sim()
    const d = s.rng('ws').n(opts.delayUs + 1)
    s.at(d, name + ' accepted', () => this.b.open())
    s.at(d + 1 + s.rng('ws').n(opts.delayUs + 1), name + ' connected', () => this.a.open())
  }
  canLose() {
    return ['reset', 'end', 'close-client', 'close-server', 'close-client-error', 'close-server-error']
  }
  lose(mode, gapUs) {
    if (mode.startsWith('close-')) return this.closeEnd(mode)
    this.lost = mode
    const s = sim()
    const first = s.rng('lose').p(0.5) ? [this.a, this.b] : [this.b, this.a]
    first[0].lose(mode === 'reset')
    s.at(s.rng('lose').n(gapUs + 1), this.name + ' loss seen', () => first[1].lose(mode === 'reset'))
  }
}

export class PortTransport extends ConnTransport {
  constructor(name, server, opts) {
    super()
    this.name = name
    this.opts = opts
    const ch = new SimMessageChannel()
    ch.port1.lane.maxUs = ch.port2.lane.maxUs = opts.delayUs
    this.ports = [ch.port1, ch.port2]
    this.client = new MessagePortConn(ch.port1, opts.twoWay, { direction: 'outbound' })
    this.serverConn = new MessagePortConn(ch.port2, server, { direction: 'inbound' })
  }
  canLose() {
    return ['close-client', 'close-server', 'close-client-error', 'close-server-error']
  }
  lose(mode) {
    this.closeEnd(mode)
  }
}

export class BroadcastTransport extends ConnTransport {
  constructor(name, server, opts) {
    super()
    this.name = name
    this.opts = opts
    sim().laneMax = opts.delayUs
    const d = (r, w) => new BroadcastChannelDuplex(new SimBroadcastChannel(name + r), new SimBroadcastChannel(name + w))
    this.serverConn = new BroadcastChannelConn(d('c2s', 's2c'), server, { direction: 'inbound' })
    this.client = new BroadcastChannelConn(d('s2c', 'c2s'), opts.twoWay, { direction: 'outbound' })
  }
  canLose() {
    return ['close-client', 'close-server', 'close-client-error', 'close-server-error']
  }
  lose(mode) {
    this.closeEnd(mode)
  }
}

// ChannelTransport: one ChannelStream (over a message port or broadcast channels) per call.
export class ChannelTransport {
  constructor(name, server, opts) {
    this.name = name
    this.server = server
    this.opts = opts
    this.n = 0
    this.streams = []
    this.openStream = async () => {
      const s = sim()
      if (opts.openUs) await s.sleep(s.rng('open:' + name).n(opts.openUs + 1), name + ' open')
      const id = `${name}.${this.n++}`
      let cp, sp
      if (opts.kind === 'port') {
        const ch = new SimMessageChannel()
        ch.port1.lane.maxUs = ch.port2.lane.maxUs = opts.delayUs
        cp = ch.port1
        sp = () => ch.port2
      } else {
        s.laneMax = opts.delayUs
        cp = { tx: new SimBroadcastChannel(id + 'c2s'), rx: new SimBroadcastChannel(id + 's2c') }
        sp = () => ({ tx: new SimBroadcastChannel(id + 's2c'), rx: new SimBroadcastChannel(id + 'c2s') })
      }
      const o = opts.keepAlive ? { keepAliveMs: 200, idleTimeoutMs: 1000 } : undefined
      const cs = new ChannelStream('client', cp, o)
      const rec = { cs, ss: null }
      this.streams.push(rec)
      s.at(s.rng('accept:' + name).n(opts.delayUs + 1), name + ' accept', () => {
        rec.ss = new ChannelStream('server', sp(), o)
        server.handlePacketStream(rec.ss)
      })
      return cs
    }
  }
  canLose() {
    return []
  }
  lose() {}
  leaks() {
    return []
  }
}

export function mkTransport(topo, name, server, opts) {
  switch (topo) {
    case 'pair':
      return new PairTransport(name, server, opts)
    case 'conn':
      return new StreamConnTransport(name, server, opts)
    case 'ws':
      return new WSTransport(name, server, opts)
    case 'mport':
      return new PortTransport(name, server, opts)
    case 'bcast':
      return new BroadcastTransport(name, server, opts)
    case 'chport':
      return new ChannelTransport(name, server, { ...opts, kind: 'port' })
    case 'chbc':
      return new ChannelTransport(name, server, { ...opts, kind: 'bc' })
  }
  throw new Error('unknown topology ' + topo)
}

// PairPeer is the far end of a packet stream, driven by the test.
export class PairPeer {
  constructor(name, opts) {
    const [a, b] = mkPair(name, opts)
    this.sut = a
    this.b = b
    this.got = []
    this.gotEnd = false
    ;(async () => {
      try {
        for await (const p of b.inbox) this.got.push(p)
      } catch (err) {
        this.gotErr = err
      }
      this.gotEnd = true
    })()
  }
  send(p) {
    this.b.lane.send({ data: p })
  }
  end() {
    this.b.lane.send({ end: true })
  }
  reset() {
    const s = sim()
    s.at(s.rng('reset').n(3000), 'reset', () => {
      this.sut.kill(lostErr())
      this.b.kill(lostErr())
    })
  }
}
