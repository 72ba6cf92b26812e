// A client or a server of the library against a peer that sends anything.
import { RNG } from './kernel.js'
import { PairPeer } from './net.js'
import { Client } from '@repo/srpc/client.ts'
import { Server } from '@repo/srpc/server.ts'
import { createMux } from '@repo/srpc/mux.ts'
import { createHandler } from '@repo/srpc/handler.ts'
import { Packet } from '@repo/srpc/rpcproto.pb.ts'
import { EchoerClient, EchoerDefinition } from '@repo/echo/echo_srpc.pb.ts'
import { EchoMsg } from '@repo/echo/echo.pb.ts'
import { encodePacketSource } from '@repo/srpc/packet.ts'

const METHODS = { unary: 'Echo', server: 'EchoServerStream', client: 'EchoClientStream', bidi: 'EchoBidiStream' }
const hex = (b) => Buffer.from(b).toString('hex')
const unhex = (s) => new Uint8Array(Buffer.from(s, 'hex'))
const msg = (s) => EchoMsg.toBinary({ body: s })

// ---- workload ----

export function gen(prop, seed) {
  const r = new RNG(seed, 'gen:' + prop)
  const side = r.p(0.55) ? 'server' : 'client'
  const kind = r.pick(['unary', 'server', 'client', 'bidi'])
  const w = { side, kind, delayUs: r.pick([0, 1000, 5000]), pkts: [], end: r.pick(['end', 'end', 'reset', 'none']), endAt: r.range(0, 30), srv: [], ret: r.pick(['ret', 'ret', 'throw', 'hang']), read: r.pick(['all', 'one', 'none']), reqs: r.range(0, 3), pace: r.p(0.2) ? r.range(1, 8) : 0, rpcHandler: r.p(0.3) }
  const n = r.range(1, 8)
  for (let i = 0; i < n; i++) w.pkts.push({ d: r.p(0.6) ? 0 : r.range(0, 10), b: hex(genPacket(r, side, kind, i)) })
  if (side === 'server' && r.p(0.08)) w.pkts.unshift({ d: 0, b: hex(r.pick([Packet.toBinary({ body: { case: 'callCancel', value: true } }), Uint8Array.from([0x12]), data(r)])) })
  if (side === 'server' && r.p(0.08)) {
    // the application has all packets and feeds them to the call itself
    Object.assign(w, { list: true, end: 'end', endAt: 0, pkts: w.pkts.filter((p) => decodable(p.b)) })
  }
  if (side === 'server' && r.p(0.04)) w.lookup = 'throw'
  else if (side === 'server' && r.p(0.1)) w.lookup = 'slow'
  if (side === 'server' && r.p(0.04)) w.pkts = r.p(0.4) ? [] : [{ d: r.range(0, 5), b: hex(r.pick([new Uint8Array(0), Uint8Array.from([0x22, 2, 7, 7]), Packet.toBinary({ body: { case: 'callCancel', value: false } })])) }]
  for (let i = r.range(0, 3); i > 0; i--) w.srv.push(r.p(0.4) ? { sleep: r.range(1, 12) } : { send: r.range(1, 20) })
  return w
}

function decodable(b) {
  try {
    return !!Packet.fromBinary(unhex(b))
  } catch {
    return false
  }
}

function genPacket(r, side, kind, i) {
  if (side === 'server' && i === 0 && r.p(0.8)) return start(r, kind, 'svc', METHODS[kind])
  const x = r.n(100)
  let b
  if (x < 12)
    b = start(
      r,
      kind,
      r.pick(['svc', 'svc', 'nosvc', '', 'constructor', '__proto__', 'toString']),
      r.pick([METHODS[kind], 'Nope', '', 'constructor', 'toString', '__proto__', 'hasOwnProperty']),
    )
  else if (x < 72) b = data(r)
  else if (x < 80) b = Packet.toBinary({ body: { case: 'callCancel', value: r.p(0.8) } })
  else if (x < 84) b = new Uint8Array(0)
  else if (x < 88) b = Uint8Array.from([0x22, 2, 7, 7]) // an unknown field
  else if (x < 94) b = r.bytes(r.range(1, 20))
  else {
    b = data(r)
    if (b.length) b = r.p(0.5) ? b.slice(0, r.n(b.length)) : b.map((c, k) => (k === 0 ? c ^ (1 << r.n(8)) : c))
  }
  return b
}
function start(r, kind, rpcService, rpcMethod) {
  const first = kind === 'unary' || kind === 'server'
  const v = { rpcService, rpcMethod }
  if (first ? r.p(0.8) : r.p(0.1)) {
    if (r.p(0.15)) v.dataIsZero = true
    else v.data = r.p(0.1) ? r.bytes(4) : msg('m' + r.n(100))
  }
  return Packet.toBinary({ body: { case: 'callStart', value: v } })
}
function data(r) {
  const v = {}
  const x = r.n(100)
  if (x < 60) v.data = msg('m' + r.n(1000))
  else if (x < 68) v.dataIsZero = true
  else if (x < 74) v.data = r.bytes(r.range(1, 6))
  else if (x < 77) {
    v.data = msg('zero?')
    v.dataIsZero = true
  }
  if (r.p(0.25)) v.complete = true
  if (r.p(0.12)) v.error = r.pick(['remote failed', 'ERR_RPC_ABORT', 'é'])
  return Packet.toBinary({ body: { case: 'callData', value: v } })
}

// ---- reference: what the packets mean to the side that reads them ----

// meaning returns what the packets say: the messages, how that direction ends for
// whoever reads it (end, err), and whether the call is thereby broken (terminal).
function meaning(side, kind, pkts, end, lookup) {
  const m = { invoked: null, msgs: [], end: '', err: null, terminal: false }
  let started = side === 'client'
  const fail = (e) => {
    m.terminal = true
    m.broken = e
    if (m.end) return
    m.end = 'err'
    m.err = e
  }
  for (let i = 0; i < pkts.length && !m.terminal; i++) {
    if (m.end && side === 'client') break // the caller has its answer
    let p
    try {
      p = Packet.fromBinary(unhex(pkts[i].b))
    } catch {
      fail(/./)
      break
    }
    const v = p.body?.value
    const push = () => {
      if (m.end) return
      if (v.dataIsZero) m.msgs.push('')
      else if (v.data?.length) m.msgs.push(hex(v.data))
    }
    switch (p.body?.case) {
      case 'callStart':
        if (side === 'client') fail(/unexpected server to client rpc/)
        else if (started) fail(/call start must be sent only once/)
        else if (!v.rpcService || !v.rpcMethod) fail(/cannot be empty/)
        else if (lookup === 'throw') fail(/^lookup failed$/)
        else if (v.rpcService !== 'svc' || v.rpcMethod !== METHODS[kind]) fail(new RegExp(`^not found: ${v.rpcService}/${v.rpcMethod}$`))
        else {
          started = true
          m.invoked = i
          push()
        }
        break
      case 'callData':
        if (!started) fail(/call start must be sent before/)
        else {
          push()
          if (m.end) break
          if (v.error) {
            m.end = 'err'
            m.err = new RegExp('^' + v.error + '$')
            m.soft = true
          } else if (v.complete) m.end = 'end'
        }
        break
      case 'callCancel':
        if (v) {
          fail(/^ERR_RPC_ABORT$/)
          m.cancelled = true
        }
        break
    }
  }
  if (end !== 'none' && m.end !== 'end' && !m.soft) {
    fail(/./)
    m.closed = true
  }
  if (end === 'reset') m.closed = m.terminal = true
  return m
}

// ---- run ----

export async function run(S, w) {
  const peer = new PairPeer('peer', { delayUs: w.delayUs })
  const H = { invoked: 0, recv: [], read: '', state: '', sent: [], done: null, outcome: null, got: [], reqDone: false }
  if (w.side === 'server') serve(S, w, peer, H)
  else call(S, w, peer, H)
  // the peer sends its packets
  ;(async () => {
    if (w.list) {
      H.peerEnded = true
      return
    }
    for (const p of w.pkts) {
      if (p.d) await S.sleep(p.d * 1000, 'peer')
      S.rec('peer sends ' + p.b.slice(0, 40))
      S.probe('ts-raw-packet')
      peer.send(unhex(p.b))
    }
    if (w.end === 'none') return
    await S.sleep(w.endAt * 1000, 'peer')
    if (w.end === 'end') peer.end()
    else {
      S.fault('ts-reset')
      peer.reset()
    }
    H.peerEnded = true
  })()
  const why = await S.run(60_000_000)
  w.side === 'server' ? judgeServer(S, w, peer, H, why) : judgeClient(S, w, peer, H, why)
}

function serve(S, w, peer, H) {
  const enter = () => {
    H.invoked++
    S.probe('ts-handler')
    S.rec('handler invoked')
  }
  async function* script(reqs, first) {
    if (first) H.recv.push(hex(EchoMsg.toBinary(first)))
    if (reqs && w.read !== 'none') {
      const it = reqs[Symbol.asyncIterator]()
      do {
        H.state = 'read'
        let x
        try {
          x = await it.next()
        } catch (err) {
          H.state = ''
          H.read = 'err:' + (err?.message ?? err)
          H.done = { err: err?.message }
          throw err
        }
        H.state = ''
        if (x.done) {
          H.read = 'end'
          break
        }
        H.recv.push(hex(EchoMsg.toBinary(x.value)))
      } while (w.read === 'all')
    }
    for (const a of w.srv) {
      if (a.sleep) await S.sleep(a.sleep * 1000, 'handler')
      else {
        const b = 's' + H.sent.length + 'x'.repeat(a.send)
        H.sent.push(hex(msg(b)))
        yield { body: b }
      }
    }
    if (w.ret === 'throw') {
      H.done = { err: 'handler failed' }
      throw new Error('handler failed')
    }
    if (w.ret === 'hang') await new Promise(() => {})
    H.done = { ret: true }
  }
  const one = async (g) => {
    let last = { body: 'only' }
    for await (const m of g) last = m
    H.sent = [hex(EchoMsg.toBinary(last))]
    return last
  }
  const impl = {
    Echo: (m) => (enter(), one(script(null, m))),
    EchoClientStream: (q) => (enter(), one(script(q))),
    EchoServerStream: (m) => (enter(), script(null, m)),
    EchoBidiStream: (q) => (enter(), script(q)),
  }
  const mux = createMux()
  const h = createHandler(EchoerDefinition, { [METHODS[w.kind]]: impl[METHODS[w.kind]] }, 'svc')
  mux.register(h)
  const server = new Server(async (service, method) => {
    if (w.lookup) S.probe('ts-lookup-' + w.lookup)
    if (w.lookup === 'throw') throw new Error('lookup failed')
    if (w.lookup === 'slow') await S.sleep(7000, 'lookup')
    return mux.lookupMethod(service, method)
  })
  if (w.list) {
    S.probe('ts-packet-list')
    const rpc = server.startRpc()
    peer.sut.sink(encodePacketSource(rpc.source))
    rpc.sink(w.pkts.map((p) => Packet.fromBinary(unhex(p.b)))).catch((e) => S.viol('handler-rejected', `the sink of the call rejected: ${e}`, 'C29'))
  } else if (w.rpcHandler) server.rpcStreamHandler(peer.sut).catch((e) => S.viol('handler-rejected', `rpcStreamHandler rejected: ${e}`, 'C29'))
  else server.handlePacketStream(peer.sut)
}

async function call(S, w, peer, H) {
  const cl = new EchoerClient(new Client(async () => peer.sut), { service: 'svc' })
  const reqs = async function* () {
    for (let i = 0; i < w.reqs; i++) {
      await S.sleep(1500, 'client')
      H.sent.push(hex(msg('r' + i)))
      yield { body: 'r' + i }
    }
    H.reqDone = true
  }
  const m = METHODS[w.kind]
  const first = w.kind === 'unary' || w.kind === 'server'
  const arg = first ? { body: w.reqs ? 'first' : '' } : reqs()
  try {
    if (w.kind === 'unary' || w.kind === 'client') H.recv.push(hex(EchoMsg.toBinary(await cl[m](arg))))
    else
      for await (const x of cl[m](arg)) {
        H.recv.push(hex(EchoMsg.toBinary(x)))
        if (w.pace) await S.sleep(w.pace * 1000, 'reader')
      }
    H.outcome = { ok: true }
  } catch (err) {
    H.outcome = { err: err?.message ?? String(err), error: err instanceof Error }
  }
  S.rec('outcome ' + JSON.stringify(H.outcome))
}

// ---- judgement ----

// decoded returns what the handler or caller makes of raw messages: the canonical
// encoding of each, up to the first that is not an EchoMsg.
function decoded(msgs) {
  const out = []
  for (const m of msgs) {
    try {
      out.push(hex(EchoMsg.toBinary(EchoMsg.fromBinary(unhex(m)))))
    } catch {
      return { out, bad: true }
    }
  }
  return { out, bad: false }
}
const isPrefix = (a, b) => a.length <= b.length && a.every((x, i) => x === b[i])

function outgoing(S, peer) {
  // every packet decodes, nothing but the end of the call follows a completion
  const ps = []
  let complete = false
  for (const b of peer.got) {
    let p
    try {
      p = Packet.fromBinary(b)
    } catch (e) {
      S.viol('bad-packet', `the library sent a packet that does not decode: ${hex(b)}`, 'C29')
      return ps
    }
    ps.push(p)
    if (complete && p.body?.case !== 'callCancel' && !(p.body?.case === 'callData' && !p.body.value.data?.length && !p.body.value.dataIsZero)) S.viol('packet-after-end', `the library sent a ${p.body?.case} packet after it had completed the call`, 'C29')
    if (p.body?.case === 'callData' && p.body.value.complete) complete = true
  }
  return ps
}
const dataOf = (ps) => ps.filter((p) => p.body?.case === 'callData' && (p.body.value.dataIsZero || p.body.value.data?.length)).map((p) => hex(p.body.value.data ?? new Uint8Array(0)))

function judgeServer(S, w, peer, H, why) {
  const v = (c, m) => S.viol(c, m, 'C29')
  const m = meaning('server', w.kind, w.pkts, w.end, w.lookup)
  const d = decoded(m.msgs)
  const stream = w.kind === 'client' || w.kind === 'bidi'
  if (H.invoked > 1) v('invoked-twice', `the handler was invoked ${H.invoked} times`)
  if (H.invoked && m.invoked === null) v('invoked-without-start', `the handler was invoked, no packet started a call of it (${m.err})`)
  if (!isPrefix(H.recv, d.out)) v('requests-differ', `the handler received ${JSON.stringify(H.recv)}, the packets carry ${JSON.stringify(d.out)}`)
  if (H.read === 'end' && (m.end !== 'end' || d.bad || H.recv.length !== d.out.length)) v('false-end', `the handler saw a clean end after ${H.recv.length} requests; the packets carry ${d.out.length} and ${m.end ? 'end with ' + (m.err ?? 'a completion') : 'do not end'}`)
  if (m.invoked !== null && stream && !m.cancelled && w.end !== 'reset' && H.invoked === 0) v('not-invoked', 'a valid start did not invoke the handler')
  if (H.state === 'read' && m.end) v('handler-stuck', `the handler waits for requests, they ended: ${m.err ?? 'completed'}`)
  const ps = outgoing(S, peer)
  if (ps.some((p) => p.body?.case === 'callStart')) v('bad-packet', 'the server sent a call start')
  const out = dataOf(ps)
  if (!isPrefix(out, H.sent)) v('responses-differ', `the server sent ${JSON.stringify(out)}, the handler ${JSON.stringify(H.sent)}`)
  const fin = ps.find((p) => p.body?.case === 'callData' && p.body.value.complete)?.body.value
  if (fin && !fin.error && !(H.done?.ret && out.length === H.sent.length)) v('false-success', 'the server completed the call without an error, the handler did not')
  // a call that is broken, or over, is closed
  const over = m.terminal || H.done
  if (over && w.end !== 'reset') {
    if (!peer.gotEnd) v('not-closed', `the server did not end the stream (${m.terminal ? 'the packets end the call: ' + (m.err ?? 'cancel') : 'the handler is done'}) ${why}`)
    else if (!m.closed && !fin && !ps.some((p) => p.body?.case === 'callCancel')) v('no-status', 'the server ended the stream without a status')
  }
  const settled = !m.terminal && w.end !== 'reset' && !(m.soft && w.end !== 'none') // nothing interferes with the answer
  if (H.done?.ret && settled && !(fin && !fin.error && out.length === H.sent.length)) v('lost-response', `the handler returned, the server sent ${out.length} of ${H.sent.length} responses and ${fin ? 'the error ' + fin.error : 'no status'}`)
  if (H.done?.err === 'handler failed' && settled && fin?.error !== 'handler failed') v('lost-error', `the handler failed, the server sent ${fin ? `the status "${fin.error ?? ''}"` : 'no status'}`)
  const noRequest = fin?.error === 'request object was empty' && !stream && !m.msgs.length
  if (m.broken && !m.closed && !m.soft && !H.done && !d.bad && !noRequest && fin?.error && !m.broken.test(fin.error)) v('wrong-error', `the server answered "${fin.error}", expected ${m.err}`)
}

function judgeClient(S, w, peer, H, why) {
  const v = (c, m) => S.viol(c, m, 'C29')
  const m = meaning('client', w.kind, w.pkts, w.end)
  const d = decoded(m.msgs)
  const ps = outgoing(S, peer)
  const o = H.outcome
  const single = w.kind === 'unary' || w.kind === 'client'
  // what the client sends
  const st = ps[0]?.body
  if (peer.got.length && st?.case !== 'callStart') v('bad-start', `the first packet is a ${st?.case}`)
  if (st?.case === 'callStart') {
    const first = w.kind === 'unary' || w.kind === 'server'
    const want = first ? hex(msg(w.reqs ? 'first' : '')) : ''
    if (st.value.rpcService !== 'svc' || st.value.rpcMethod !== METHODS[w.kind]) v('bad-start', `the call of svc/${METHODS[w.kind]} was started as ${st.value.rpcService}/${st.value.rpcMethod}`)
    if (hex(st.value.data ?? new Uint8Array(0)) !== want || !!st.value.dataIsZero !== (first && want === '')) v('bad-start', `the first message ${JSON.stringify(want)} was sent as ${JSON.stringify(hex(st.value.data ?? new Uint8Array(0)))}, marked empty: ${!!st.value.dataIsZero}`)
  }
  if (ps.filter((p) => p.body?.case === 'callStart').length > 1) v('bad-start', 'the client started the call twice')
  if (w.kind === 'client' || w.kind === 'bidi') {
    const out = dataOf(ps)
    if (!isPrefix(out, H.sent)) v('requests-differ', `the client sent ${JSON.stringify(out)}, the caller ${JSON.stringify(H.sent)}`)
  }
  // what the caller sees
  if (single) {
    const want = d.out.length && !(m.msgs.length && decoded([m.msgs[0]]).bad) ? d.out.slice(0, 1) : []
    if (o?.ok && (want.length !== 1 || H.recv[0] !== want[0])) v('false-success', `the caller got ${JSON.stringify(H.recv)}, the packets carry ${JSON.stringify(d.out)}`)
  } else {
    if (!isPrefix(H.recv, d.out)) v('responses-differ', `the caller received ${JSON.stringify(H.recv)}, the packets carry ${JSON.stringify(d.out)}`)
    if (o?.ok && (m.end !== 'end' || d.bad || H.recv.length !== d.out.length)) v('false-success', `the caller saw a clean end after ${H.recv.length} of ${d.out.length} responses; the packets ${m.end ? 'end with ' + (m.err ?? 'a completion') : 'do not end'}`)
  }
  if (o?.err !== undefined) {
    const lost = w.end === 'reset' && o.err === 'connection lost'
    if (!o.error) v('not-an-error', `the call failed with ${o.err}, which is not an Error`)
    if (lost) {
      // packets in flight are lost with the connection
    } else if (m.end !== 'err' && !d.bad && !(single && m.end === 'end')) v('false-failure', `the call failed with "${o.err}"; the packets ${m.end ? 'complete it' : 'do not end it'}`)
    else if (m.end === 'err' && !d.bad && !single && !m.err.test(o.err)) v('wrong-error', `the call failed with "${o.err}", the packets end it with ${m.err}`)
    else if (single && m.end === 'err' && m.msgs.length === 0 && !m.err.test(o.err)) v('wrong-error', `the call failed with "${o.err}", the packets end it with ${m.err}`)
  }
  if (!o && (m.end || (single && m.msgs.length) || d.bad)) v('caller-stuck', `the call never ended (${why}); the packets ${m.end ? 'end it with ' + (m.err ?? 'a completion') : 'carry a response'}`)
  if (o && w.end !== 'reset' && !d.bad && !peer.gotEnd) v('not-closed', `the call is over (${JSON.stringify(o)}), the client did not end the stream`)
}
