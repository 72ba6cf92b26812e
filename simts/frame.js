// Framing and the stream transforms (property C30).
import { RNG } from './kernel.js'
import { Uint8ArrayList } from 'uint8arraylist'
import { pushable } from 'it-pushable'
import {
  parseLengthPrefixTransform,
  prependLengthPrefixTransform,
  lengthPrefixEncode,
  lengthPrefixDecode,
  uint32LEEncode,
  uint32LEDecode,
  encodeUint32Le,
  decodeUint32Le,
  prependPacketLen,
  decodePacketSource,
  encodePacketSource,
} from '@repo/srpc/packet.ts'
import { buildDecodeMessageTransform, buildEncodeMessageTransform } from '@repo/srpc/message.ts'
import { combineUint8ArrayListTransform } from '@repo/srpc/array-list.ts'
import { writeToPushable, buildPushableSink } from '@repo/srpc/pushable.ts'
import { streamToPacketStream } from '@repo/srpc/stream.ts'
import { Packet } from '@repo/srpc/rpcproto.pb.ts'
import { EchoMsg } from '@repo/echo/echo.pb.ts'

const P = 'C30'
const MS = 1000
const hex = (b) => Buffer.from(b instanceof Uint8Array ? b : b.slice()).toString('hex')
const cat = (bs) => Uint8Array.from(bs.flatMap((b) => [...b]))
const short = (x) => (x.length > 60 ? x.slice(0, 60) + '…' : x)

// ---- workload ----

export function gen(prop, seed) {
  const r = new RNG(seed, 'gen:' + prop)
  const x = r.n(100)
  const w = { mode: x < 20 ? 'encode' : x < 55 ? 'decode' : x < 70 ? 'stream' : x < 85 ? 'messages' : x < 93 ? 'pushable' : 'numbers', msgs: [], end: r.pick(['end', 'end', 'end', 'end', 'throw', 'open']), brk: r.p(0.12) ? r.range(1, 4) : 0, pace: r.p(0.7) ? 0 : r.range(1, 4), wide: r.p(0.15) }
  for (let i = r.range(0, 7); i > 0; i--) w.msgs.push({ d: r.p(0.6) ? 0 : r.range(1, 6), n: genLen(r), k: r.range(1, 3), s: r.n(1000) })
  if (w.mode === 'decode' || w.mode === 'stream') {
    w.cuts = []
    for (let i = r.range(0, 12); i > 0; i--) w.cuts.push({ n: r.p(0.5) ? r.n(6) : r.n(400), d: r.p(0.6) ? 0 : r.range(1, 6), k: r.range(1, 3) })
    w.trunc = r.p(0.2) ? r.range(1, 6) : 0
    w.back = r.p(0.5) ? r.range(0, 4) : 0
  }
  if (w.mode === 'messages') {
    w.group = r.p(0.4)
    w.bad = r.p(0.2) ? r.n(6) : -1
    w.type = r.pick(['packet', 'echo'])
  }
  if (w.mode === 'pushable') w.sink = r.p(0.5)
  if (w.mode === 'pushable') w.sync = r.p(0.3)
  if (w.mode === 'numbers') {
    w.nums = []
    for (let i = 0; i < 6; i++) w.nums.push(r.p(0.5) ? r.u32() : r.pick([0, 1, 255, 256, 65535, 65536, 16777216, 2147483647, 2147483648, 4294967295]))
  }
  return w
}
function genLen(r) {
  const x = r.n(100)
  return x < 15 ? 0 : x < 60 ? r.range(1, 20) : x < 90 ? r.range(1, 400) : x < 98 ? r.range(250, 260) : 70000
}

const content = (m) => {
  const b = new Uint8Array(m.n)
  for (let i = 0; i < m.n; i++) b[i] = (m.s + i * 7) & 255
  return b
}
// as one array, or as a list of k parts
function shape(b, k) {
  if (k <= 1) return b
  const l = new Uint8ArrayList()
  const step = Math.ceil(b.length / k) || 1
  for (let i = 0; i < b.length; i += step) l.append(b.subarray(i, i + step))
  return l
}
const le = (n, wide) => (wide ? Uint8Array.from([(n >>> 16) & 255, (n >>> 8) & 255, n & 255]) : Uint8Array.from([n & 255, (n >>> 8) & 255, (n >>> 16) & 255, (n >>> 24) & 255]))
// another length codec, as the transforms allow: three bytes, big endian
const enc3 = (n) => new Uint8ArrayList(le(n, true))
enc3.bytes = 3
const dec3 = (d) => (d.get(0) << 16) | (d.get(1) << 8) | d.get(2)
dec3.bytes = 3

// source yields the chunks as scripted and records what its consumer does.
function source(S, chunks, end, H) {
  return (async function* () {
    try {
      for (let i = 0; i < chunks.length; i++) {
        if (chunks[i].d) await S.sleep(chunks[i].d * MS, 'source')
        H.given = i + 1
        yield chunks[i].v
        H.asked?.(i + 1)
      }
      if (end === 'throw') throw new Error('source failed')
      if (end === 'open') await new Promise(() => {})
      H.ended = true
    } finally {
      H.released = true
    }
  })()
}

// consume reads the stream as scripted.
async function consume(S, w, it, H) {
  H.got = []
  H.at = []
  try {
    for await (const x of it) {
      H.got.push(x)
      H.given && H.at.push(H.given)
      S.rec('got ' + H.got.length + ' ' + (x.length ?? '') + (x instanceof Uint8Array && x.length ? hex(x.subarray(0, 8)) : ''))
      S.probe('ts-frame')
      if (w.brk && H.got.length === w.brk) {
        H.broke = true
        break
      }
      if (w.pace) await S.sleep(w.pace * MS, 'pace')
    }
    H.out = H.broke ? 'break' : 'end'
  } catch (e) {
    H.out = 'err:' + (e?.message ?? e)
  }
  S.rec('out ' + H.out)
}

// ---- run ----

export async function run(S, w) {
  const v = (c, m) => S.viol(c, m, P)
  const H = {}
  const bodies = w.msgs.map(content)
  const codec = w.wide ? [enc3, dec3] : [uint32LEEncode, uint32LEDecode]
  const want = bodies.map((b) => hex(b))
  const wire = cat(bodies.flatMap((b) => [le(b.length, w.wide), b]))
  // check compares what came out with what must have
  const check = (what, got, want, H) => {
    const n = w.brk && want.length >= w.brk ? w.brk : want.length
    const early = w.end === 'throw' // what is already buffered may be lost with an error
    for (let i = 0; i < got.length; i++) if (got[i] !== want[i]) return v('differs', `${what} ${i} is ${short(got[i])}, expected ${want[i] === undefined ? 'none' : short(want[i])}`)
    if (got.length < n && !(early && H.lossy)) v('lost', `${got.length} of ${n} ${what}s came out (${H.out})`)
    const out = w.brk && got.length >= w.brk ? 'break' : w.end === 'end' ? 'end' : w.end === 'throw' ? 'err:source failed' : undefined
    if (w.trunc && out === 'end' && String(H.out).startsWith('err:')) return // a cut within a packet may be an error
    if (H.out !== out) v('wrong-end', `the stream of ${what}s: ${H.out ?? 'open'}, expected ${out ?? 'open'} (the source: ${w.end})`)
  }
  const released = (H) => {
    if (H.out === 'break' && H.given && w.end !== 'open' && !H.released) v('not-released', 'the consumer left, the source was not told')
  }
  switch (w.mode) {
    case 'encode': {
      const src = source(S, w.msgs.map((m, i) => ({ d: m.d, v: shape(bodies[i], m.k) })), w.end, H)
      consume(S, w, w.wide ? lengthPrefixEncode(src, codec[0]) : prependLengthPrefixTransform()(src), H)
      await S.run(10_000 * MS)
      check('frame', H.got.map((g) => hex(g)), bodies.map((b) => hex(cat([le(b.length, w.wide), b]))), H)
      released(H)
      if (!w.wide) for (const b of bodies) if (hex(prependPacketLen(b)) !== hex(cat([le(b.length), b]))) v('differs', `prependPacketLen of ${b.length} bytes starts ${hex(prependPacketLen(b)).slice(0, 16)}`)
      break
    }
    case 'decode': {
      const { chunks, whole } = cutUp(w, wire, bodies)
      H.asked = (i) => {
        // when the source is asked for more, every message it has completed is out
        if (H.got.length < whole[i - 1] && !H.broke) v('late', `${H.got.length} messages came out, the bytes so far hold ${whole[i - 1]}`)
      }
      const src = source(S, chunks, w.end, H)
      consume(S, w, w.wide ? lengthPrefixDecode(src, codec[1]) : parseLengthPrefixTransform()(src), H)
      await S.run(10_000 * MS)
      const first = H.got.map((g) => hex(g))
      check('message', first, want.slice(0, whole.at(-1) ?? 0), H)
      released(H)
      break
    }
    case 'stream':
      await runStream(S, w, v, bodies, wire)
      break
    case 'messages': {
      const type = w.type === 'packet' ? Packet : EchoMsg
      const objs = w.msgs.map((m, i) => (w.type === 'packet' ? { body: { case: 'callData', value: { data: bodies[i], dataIsZero: m.n === 0, complete: m.k === 1, error: m.k === 2 ? 'e' + m.s : '' } } } : { body: 'm' + m.s + 'é'.repeat(m.n % 50) }))
      const bins = objs.map((o) => type.toBinary(o))
      const G = {}
      const enc = w.type === 'packet' ? encodePacketSource : buildEncodeMessageTransform(EchoMsg)
      const dec = w.type === 'packet' ? decodePacketSource : buildDecodeMessageTransform(EchoMsg)
      consume(S, w, enc(source(S, group(w, objs), w.end, H)), H)
      const raw = bins.map((b, i) => (i === w.bad ? Uint8Array.from([0x0a, 200]) : b))
      consume(S, w, dec(source(S, group(w, raw), w.end, G)), G)
      await S.run(10_000 * MS)
      check('message', H.got.map((g) => hex(g)), bins.map((b) => hex(b)), H)
      released(H)
      const back = G.got.map((g) => hex(type.toBinary(g)))
      const bad = w.bad >= 0 && w.bad < bins.length && !(w.brk && w.brk <= w.bad)
      if (!bad) check('object', back, bins.map((b) => hex(b)), G)
      else {
        S.fault('ts-bad-message')
        if (back.length !== w.bad || back.some((b, i) => b !== hex(bins[i]))) v('differs', `${back.length} objects came out before the message that does not decode, expected ${w.bad}`)
        if (!String(G.out).startsWith('err:')) v('wrong-end', `a message did not decode, the stream: ${G.out ?? 'open'}`)
        if (w.end !== 'open' && !G.released) v('not-released', 'a message did not decode, the source was not told')
      }
      break
    }
    case 'pushable': {
      const out = pushable({ objectMode: true })
      const chunks = w.msgs.map((m, i) => ({ d: w.sync ? 0 : m.d, v: bodies[i] }))
      const src = w.sync && w.sink ? bodies : source(S, chunks, w.end, H)
      H.lossy = true
      const sync = w.sync && w.sink
      let done = null
      ;(w.sink ? buildPushableSink(out)(src) : writeToPushable(src, out)).then(
        () => (done = 'ok'),
        (e) => (done = 'err:' + e?.message),
      )
      const C = { lossy: true }
      consume(S, { ...w, brk: 0 }, out, C)
      await S.run(10_000 * MS)
      const ww = sync ? 'end' : w.end
      const got = C.got.map((g) => hex(g))
      if (got.some((g, i) => g !== want[i]) || (ww !== 'throw' && got.length !== want.length)) v('differs', `${got.length} of ${want.length} values came out of the pushable`)
      const exp = ww === 'end' ? 'end' : ww === 'throw' ? 'err:source failed' : undefined
      if (C.out !== exp) v('wrong-end', `the pushable: ${C.out ?? 'open'}, expected ${exp ?? 'open'}`)
      if (ww !== 'open' && done !== 'ok') v('wrong-end', `the writer of the pushable: ${done}`)
      break
    }
    case 'numbers':
      for (const n of w.nums) {
        const b = encodeUint32Le(n)
        S.probe('ts-number')
        if (hex(b) !== hex(le(n))) v('number', `encodeUint32Le(${n}) is ${hex(b)}`)
        if (decodeUint32Le(le(n)) !== n) v('number', `decodeUint32Le of ${n} is ${decodeUint32Le(le(n))}`)
        if (hex(uint32LEEncode(n)) !== hex(le(n))) v('number', `uint32LEEncode(${n}) is ${hex(uint32LEEncode(n))}`)
        if (uint32LEDecode(new Uint8ArrayList(le(n), Uint8Array.from([1, 2]))) !== n) v('number', `uint32LEDecode of ${n} is another number`)
        S.rec('number ' + n)
      }
      await S.run(1)
  }
}

function group(w, xs) {
  if (!w.group) return xs.map((x, i) => ({ d: w.msgs[i].d, v: x }))
  const out = []
  for (let i = 0; i < xs.length; ) {
    const k = w.msgs[i].k
    out.push({ d: w.msgs[i].d, v: k === 1 ? xs[i] : xs.slice(i, i + k) })
    i += k
  }
  return out
}

// cutUp splits the bytes as scripted, and counts the messages complete with every chunk.
function cutUp(w, wire, bodies) {
  const bytes = wire.subarray(0, Math.max(0, wire.length - w.trunc))
  const chunks = []
  const whole = []
  const ends = []
  let e = 0
  for (const b of bodies) ends.push((e += (w.wide ? 3 : 4) + b.length))
  let off = 0
  const add = (n, d, k) => {
    const v = bytes.slice(off, off + n)
    off += v.length
    chunks.push({ d, v: shape(v, k) })
    whole.push(ends.filter((x) => x <= off).length)
  }
  for (const c of w.cuts) add(c.n, c.d, c.k)
  if (off < bytes.length) add(bytes.length - off, 0, 1)
  return { chunks, whole }
}

// runStream wraps a byte stream as a packet stream and uses both directions.
async function runStream(S, w, v, bodies, wire) {
  const H = {}
  const B = {}
  const { chunks, whole } = cutUp({ ...w, wide: false }, cat(bodies.flatMap((b) => [le(b.length), b])), bodies)
  const closes = []
  const out = []
  const stream = {
    source: source(S, chunks, w.end, H),
    async sink(src) {
      for await (const x of src) {
        if (w.pace) await S.sleep(w.pace * MS, 'sink')
        out.push(hex(x))
      }
    },
    async close(err) {
      closes.push(err?.message ?? '')
    },
  }
  const ps = streamToPacketStream(stream)
  consume(S, { ...w, brk: 0 }, ps.source, H)
  const back = w.msgs.map((m, i) => ({ d: m.d, v: bodies[i] }))
  let sunk = null
  ps.sink(source(S, back, w.end, B)).then(
    () => (sunk = 'ok'),
    (e) => (sunk = 'err:' + e?.message),
  )
  await S.run(10_000 * MS)
  const want = bodies.map((b) => hex(b))
  const n = whole.at(-1) ?? 0
  const got = H.got.map((g) => {
    if (!(g instanceof Uint8Array)) v('not-bytes', 'a packet came out as something else than a Uint8Array')
    return hex(g)
  })
  if (got.length !== n || got.some((g, i) => g !== want[i])) v('differs', `${got.length} packets came out of the stream, it carried ${n}`)
  const exp = w.end === 'end' ? 'end' : w.end === 'throw' ? 'err:source failed' : undefined
  const cut = w.trunc && exp === 'end' && String(H.out).startsWith('err:') // a cut within a packet may be an error
  if (H.out !== exp && !cut) v('wrong-end', `the packet stream: ${H.out ?? 'open'}, expected ${exp ?? 'open'}`)
  if (out.join('') !== hex(cat(bodies.flatMap((b) => [le(b.length), b])))) v('differs', `the stream was sent ${short(out.join(''))}`)
  if (w.end !== 'open' && !closes.length) v('not-closed', 'the writer is done, the stream was not closed')
  if (w.end !== 'open' && sunk === null) v('not-closed', 'the writer is done, the sink did not return')
  if (w.end === 'throw' && closes[0] !== 'source failed') v('wrong-close', `the writer failed, the stream was closed with "${closes[0]}"`)
  if (w.end === 'end' && closes[0] !== '') v('wrong-close', `the writer ended, the stream was closed with "${closes[0]}"`)
  if (w.end === 'open' && closes.length) v('false-close', 'the writer is not done, the stream was closed')
}
