// Streams over message ports and broadcast channels, and the watchdog that
// guards them (property C31).
import { RNG } from './kernel.js'
import { ChannelStream, newBroadcastChannelStream } from '@repo/srpc/channel.ts'
import { newMessagePortDuplex } from '@repo/srpc/message-port.ts'
import { newBroadcastChannelDuplex } from '@repo/srpc/broadcast-channel.ts'
import { Watchdog } from '@repo/srpc/watchdog.ts'

const P = 'C31'
const MS = 1000

// ---- workload ----

export function gen(prop, seed) {
  const r = new RNG(seed, 'gen:' + prop)
  const x = r.n(100)
  const mode = x < 60 ? 'chan' : x < 85 ? 'duplex' : 'watchdog'
  if (mode === 'watchdog') return genWatchdog(r)
  const w = { mode, topo: r.pick(['port', 'bc']), sides: [genSide(r, mode), genSide(r, mode)], noise: [], jumps: [], values: r.pick(['bytes', 'any']) }
  if (mode === 'chan') {
    if (r.p(0.2)) {
      // both know that the other is there
      w.remoteOpen = true
      for (const s of w.sides) {
        s.create = 0
        if (s.sink === 0) s.sink = 1
      }
    }
    if (r.p(0.35)) {
      for (const s of w.sides) {
        s.keepAlive = r.range(20, 60)
        s.idle = r.range(80, 200)
      }
      if (r.p(0.4)) w.vanish = { side: r.n(2), at: r.range(10, 120) }
      if (r.p(0.3)) for (const s of w.sides) if (r.p(0.5)) s.keepAlive = 0
    } else if (r.p(0.2)) w.sides[r.n(2)].idle = r.range(20, 120)
    if (w.topo === 'bc' && r.p(0.3)) for (let i = r.range(1, 4); i > 0; i--) w.noise.push({ at: r.range(0, 80), to: r.n(2), kind: r.pick(['null', 'text', 'nofrom', 'own']) })
    if (r.p(0.3)) for (let i = r.range(1, 3); i > 0; i--) w.jumps.push({ at: r.range(0, 150), by: r.p(0.5) ? -r.range(10, 5000) : r.range(10, 5000) })
  } else {
    for (const s of w.sides) if (w.topo === 'bc' || r.p(0.7)) s.create = 0
  }
  return w
}

function genSide(r, mode) {
  const s = { create: r.p(0.6) ? 0 : r.range(1, 40), sink: r.p(0.5) ? 0 : r.range(1, 40), sends: [], end: r.pick(['end', 'end', 'end', 'throw', 'open']), close: null, read: r.p(0.7) ? 0 : r.range(1, 30), pace: r.p(0.75) ? 0 : r.range(1, 10) }
  if (mode === 'chan' && r.p(0.06)) s.sink = -1
  for (let i = r.range(0, 6); i > 0; i--) s.sends.push({ d: r.p(0.5) ? 0 : r.range(1, 15), n: r.n(5) })
  if (r.p(mode === 'chan' ? 0.4 : 0.2)) s.close = { at: r.range(0, 100), err: mode === 'chan' && r.p(0.4), twice: r.p(0.3) }
  return s
}

function genWatchdog(r) {
  const w = { mode: 'watchdog', timeout: r.range(5, 60), acts: [], jumps: [] }
  for (let i = r.range(1, 10); i > 0; i--) w.acts.push({ d: r.p(0.2) ? 0 : r.range(1, 80), do: r.p(0.75) ? 'feed' : 'clear' })
  if (r.p(0.4)) for (let i = r.range(1, 3); i > 0; i--) w.jumps.push({ at: r.range(0, 200), by: r.p(0.5) ? -r.range(1, 4000) : r.range(1, 4000) })
  w.feedOnExpiry = r.p(0.2)
  return w
}

function value(w, side, i, n) {
  if (w.values === 'bytes') return Uint8Array.from([side, i, ...new Array(n).fill(7)])
  return [`v${i}`, '', { i, n }, i, [i]][n]
}
const str = (v) => (v instanceof Uint8Array ? 'x' + Buffer.from(v).toString('hex') : JSON.stringify(v))

// ---- run ----

export async function run(S, w) {
  for (const j of w.jumps)
    S.at(j.at * MS, 'clock', () => {
      S.fault('ts-clock-jump')
      S.skew += j.by * MS
    })
  if (w.mode === 'watchdog') return runWatchdog(S, w)
  const chans = channels(w)
  const sides = w.sides.map((c, i) => ({ i, c, sent: [], recv: [], out: null, sinkOut: null, posts: [], valid: [], closedAt: null, ack: null, open: null }))
  for (const s of sides) S.at(s.c.create * MS, 'create', () => start(S, w, s, chans[s.i], sides))
  for (const n of w.noise) S.at(n.at * MS, 'noise', () => noise(S, w, n, sides, chans))
  if (w.vanish)
    S.at(w.vanish.at * MS, 'vanish', () => {
      const s = sides[w.vanish.side]
      s.vanished = S.now
      S.fault('ts-peer-vanishes')
      for (const c of s.raw ?? []) c.cut = true
    })
  await S.run(900 * MS)
  w.mode === 'chan' ? judgeChan(S, w, sides) : judgeDuplex(S, w, sides)
  // when both are closed, nothing is left running
  for (const s of sides) if (s.st) close(S, s, false)
  await S.drain()
  for (const s of sides) if (s.raw?.some((c) => !c.closed)) S.viol('channel-left-open', `side ${s.i} was closed, its ${w.topo === 'port' ? 'port' : 'channels'} are not`, P)
  for (const s of sides) s.late = s.posts.length
  if (w.mode === 'chan') {
    if (S.timers.size) S.viol('timer-left', `${S.timers.size} timers are left after both streams were closed`, P)
    await S.run(S.now + 500 * MS)
    for (const s of sides) if (s.posts.length !== s.late) S.viol('post-after-close', `side ${s.i} posted a message after it was closed`, P)
  }
}

function channels(w) {
  if (w.topo === 'port') {
    const mc = new MessageChannel()
    return [mc.port1, mc.port2]
  }
  return [0, 1]
}

function start(S, w, s, ch, sides) {
  if (s.vanished !== undefined) return
  s.created = S.now
  s.order = sides.filter((x) => x.order !== undefined).length
  s.sentAtClose = 0
  let tx, rx
  if (w.mode === 'chan') {
    const opts = {}
    if (s.c.keepAlive) opts.keepAliveMs = s.c.keepAlive
    if (s.c.idle) opts.idleTimeoutMs = s.c.idle
    if (w.remoteOpen) opts.remoteOpen = true
    if (w.topo === 'port') {
      tx = rx = ch
      spy(S, s, tx)
      s.st = new ChannelStream('side' + s.i, ch, opts)
    } else if (s.c.create % 2) {
      tx = new BroadcastChannel('to' + (1 - s.i))
      rx = new BroadcastChannel('to' + s.i)
      spy(S, s, tx)
      s.st = new ChannelStream('side' + s.i, { tx, rx }, opts)
    } else {
      s.st = newBroadcastChannelStream('side' + s.i, 'to' + s.i, 'to' + (1 - s.i), opts)
      tx = s.st.channel.tx
      rx = s.st.channel.rx
      spy(S, s, tx)
      s.posts.push({ t: S.now, ack: true })
    }
    rx.addEventListener('message', (ev) => {
      const m = ev.data
      if (m && typeof m === 'object' && m.from && m.from !== 'side' + s.i) {
        s.valid.push(S.now)
        if ((m.ack || m.opened) && s.acked === undefined) s.acked = S.now
        if (m.opened && s.opened === undefined) s.opened = S.now
      }
    })
    s.st.waitRemoteAck.then(
      () => (s.ack = { ok: true, t: S.now }),
      (e) => (s.ack = { err: e?.message }),
    )
    s.st.waitRemoteOpen.then(
      () => (s.open = { ok: true, t: S.now }),
      (e) => (s.open = { err: e?.message }),
    )
  } else if (w.topo === 'port') {
    s.st = newMessagePortDuplex(ch)
    tx = rx = ch
    spy(S, s, tx)
  } else {
    s.st = newBroadcastChannelDuplex('to' + s.i, 'to' + (1 - s.i))
    tx = s.st.write
    rx = s.st.read
    spy(S, s, tx)
  }
  s.raw = [tx, rx]
  if (s.c.sink >= 0) S.at(w.mode === 'duplex' && w.topo === 'bc' ? 100 + s.c.sink * MS : s.c.sink * MS, 'sink', () => send(S, w, s))
  S.at(w.mode === 'duplex' && w.topo === 'bc' ? 0 : s.c.read * MS, 'read', () => read(S, w, s))
  if (s.c.close)
    S.at(s.c.close.at * MS, 'close', () => {
      close(S, s, s.c.close.err)
      if (s.c.close.twice) {
        S.probe('ts-close-twice')
        close(S, s, false)
      }
    })
}

function close(S, s, err) {
  if (s.closedAt === null) {
    s.closedAt = S.now
    s.sentAtClose = s.posts.filter((p) => p.data).length
    s.closeErr = err ? 'closed by ' + s.i : ''
  }
  try {
    err ? s.st.close(new Error('closed by ' + s.i)) : s.st.close()
  } catch (e) {
    S.viol('close-throws', `close of side ${s.i} threw ${e?.message ?? e}`, P)
  }
}

function spy(S, s, tx) {
  const post = tx.postMessage
  tx.postMessage = function (m) {
    s.posts.push({ t: S.now, ...(m !== null && typeof m === 'object' ? { ack: m.ack, opened: m.opened, closed: m.closed, error: m.error?.message, data: 'data' in m } : { null: m === null }) })
    return post.call(this, m)
  }
}

async function send(S, w, s) {
  async function* src() {
    let i = 0
    s.pulled = true
    try {
      for (const x of s.c.sends) {
        if (x.d) await S.sleep(x.d * MS, 'send')
        const v = value(w, s.i, i++, x.n)
        s.sent.push(str(v))
        yield v
      }
      if (s.c.end === 'throw') {
        s.srcEnd = 'err'
        throw new Error('source failed')
      }
      if (s.c.end === 'open') await new Promise(() => {})
      s.srcEnd = 'end'
    } finally {
      s.srcDone = true
    }
  }
  try {
    await s.st.sink(src())
    s.sinkOut = { ok: true, t: S.now }
  } catch (e) {
    s.sinkOut = { err: e?.message ?? String(e) }
  }
  S.rec(`side ${s.i} sink ${JSON.stringify(s.sinkOut)}`)
}

async function read(S, w, s) {
  try {
    for await (const v of s.st.source) {
      S.probe('ts-chan-value')
      s.recv.push(str(v))
      S.rec(`side ${s.i} got ${str(v)}`)
      if (s.c.pace) await S.sleep(s.c.pace * MS, 'pace')
    }
    s.out = { end: true, t: S.now }
  } catch (e) {
    s.out = { err: e?.message ?? String(e), t: S.now }
  }
  S.rec(`side ${s.i} ${JSON.stringify(s.out)}`)
}

function noise(S, w, n, sides, chans) {
  S.fault('ts-channel-noise')
  const bc = new BroadcastChannel('to' + n.to)
  bc.postMessage({ null: null, text: 'hello', nofrom: { data: Uint8Array.from([9]), closed: true }, own: { from: 'side' + n.to, data: Uint8Array.from([9]), closed: true, opened: true, ack: true } }[n.kind])
  bc.close()
}

// ---- judgement ----

const prefix = (a, b) => a.length <= b.length && a.every((x, i) => x === b[i])

function judgeChan(S, w, sides) {
  const v = (c, m) => S.viol(c, m, P)
  const slop = 4 * MS
  for (const s of sides) {
    const o = sides[1 - s.i]
    if (!s.st) continue
    if (!prefix(s.recv, o.sent)) v('values-differ', `side ${s.i} received ${s.recv}, the other sent ${o.sent}`)
    // idle: the stream closes itself exactly when nothing came for that long
    const idleAt = idleTime(S, w, s)
    const closedAt = Math.min(s.closedAt ?? Infinity, idleAt ?? Infinity)
    const idled = idleAt !== null && idleAt + slop < (s.closedAt ?? Infinity)
    const closes = s.posts.filter((p) => p.closed && p.error === 'ERR_STREAM_IDLE')
    if (closes.length && !s.c.idle) v('idle-close', `side ${s.i} closed as idle without an idle timeout`)
    if (closes.length && s.c.idle) {
      const t = closes[0].t
      const last = s.valid.filter((x) => x < t).at(-1)
      if (last === undefined || t - last < s.c.idle * MS) v('idle-early', `side ${s.i} closed as idle ${last === undefined ? 'before it received anything' : (t - last) / MS + ' ms after it received a message'}, the timeout is ${s.c.idle} ms`)
    }
    if (s.c.idle && idled && s.out === null && idleAt + slop < 800 * MS && !s.c.pace && s.c.read < 40 && idleAt > 50 * MS) v('idle-late', `side ${s.i} did not end: nothing came since ${(idleAt - s.c.idle * MS) / MS} ms, the timeout is ${s.c.idle} ms`)
    if (s.c.idle && idled && !closes.length && !s.vanished && idleAt + slop < 800 * MS) v('idle-late', `side ${s.i} did not close itself: nothing came since ${(idleAt - s.c.idle * MS) / MS} ms, the timeout is ${s.c.idle} ms`)
    // keep-alive: never silent for longer than promised while open
    if (s.c.keepAlive) {
      const until = Math.min(s.closedAt ?? Infinity, closes[0]?.t ?? Infinity, 800 * MS)
      let last = s.posts[0].t
      for (const p of [...s.posts.slice(1).filter((p) => p.t <= until && !p.closed), { t: until }]) {
        if (p.t - last > s.c.keepAlive * MS + slop) {
          v('no-keep-alive', `side ${s.i} was silent from ${last / MS} to ${p.t / MS} ms, it promised a message every ${s.c.keepAlive} ms`)
          break
        }
        last = p.t
      }
    }
    // nothing is sent before the other side is there
    const firstData = s.posts.find((p) => p.data)
    if (firstData && !w.remoteOpen && !(s.opened <= firstData.t)) v('data-before-open', `side ${s.i} sent data at ${firstData.t / MS} ms, the other side had not opened the stream`)
    // the handshake is reported as it is
    if (!w.remoteOpen) {
      const before = (t) => t !== undefined && t < closedAt
      if (before(s.acked) && !s.ack?.ok) v('ack-lost', `side ${s.i} got an ack, waitRemoteAck ${JSON.stringify(s.ack)}`)
      if (s.ack?.ok && s.acked === undefined) v('false-ack', `side ${s.i} got no ack, waitRemoteAck resolved`)
      if (before(s.opened) && !s.open?.ok) v('open-lost', `side ${s.i} was told that the stream is open, waitRemoteOpen ${JSON.stringify(s.open)}`)
      if (s.open?.ok && s.opened === undefined) v('false-open', `side ${s.i} was not told that the stream is open, waitRemoteOpen resolved`)
      if (closedAt < Infinity && closedAt + slop < 800 * MS && !(s.ack && s.open)) v('wait-stuck', `side ${s.i} is closed, waitRemoteAck ${JSON.stringify(s.ack)} waitRemoteOpen ${JSON.stringify(s.open)}`)
      if (s.st.isAcked !== !!s.ack?.ok || s.st.isOpen !== !!s.open?.ok) v('false-state', `side ${s.i}: isAcked ${s.st.isAcked}, isOpen ${s.st.isOpen}, waitRemoteAck ${JSON.stringify(s.ack)}, waitRemoteOpen ${JSON.stringify(s.open)}`)
    }
    // how the reading side ends
    const why = []
    if (o.posts.some((p) => p.closed && p.error === undefined)) why.push('end')
    for (const p of o.posts) if (p.closed && p.error !== undefined) why.push(p.error)
    if (s.closedAt !== null) why.push(s.closeErr || 'end')
    if (closes.length) why.push('ERR_STREAM_IDLE')
    if (s.out?.end && !why.includes('end')) v('false-end', `side ${s.i} saw a clean end, nobody ended the stream (${why})`)
    if (s.out?.err !== undefined && !why.includes(s.out.err)) v('false-error', `side ${s.i} failed with "${s.out.err}", expected one of "${why}"`)
    if (s.out === null && (s.closedAt !== null || closes.length) && s.created + s.c.read * MS < 800 * MS) v('read-stuck', `side ${s.i} is closed, its reader still waits`)
    // everything arrives, and then the end
    const undisturbed = sides.every((x) => x.st && x.closedAt === null && x.vanished === undefined && !x.posts.some((p) => p.closed && p.error === 'ERR_STREAM_IDLE')) && sides.every((x) => x.c.sink >= 0 || w.remoteOpen)
    if (undisturbed && o.c.sink >= 0) {
      const want = o.c.sends.map((x, i) => str(value(w, o.i, i, x.n)))
      if ((o.c.end !== 'throw' && s.recv.length !== want.length) || !prefix(s.recv, want)) v('values-lost', `side ${s.i} received ${s.recv}, the other sent ${want}`)
      if (o.c.end === 'end' && !s.out?.end) v('end-lost', `the other side ended its sink, side ${s.i}: ${JSON.stringify(s.out)}`)
      if (o.c.end === 'throw' && s.out?.err !== 'source failed') v('error-lost', `the source of the other side failed, side ${s.i}: ${JSON.stringify(s.out)}`)
      if (o.c.end === 'open' && s.out) v('false-end', `side ${s.i} ended (${JSON.stringify(s.out)}), nobody ended the stream`)
      if (o.c.end === 'end' && !o.sinkOut?.ok) v('sink-stuck', `the source of side ${o.i} ended, its sink did not: ${JSON.stringify(o.sinkOut)}`)
    }
    // what was sent before a close arrives
    if (o.closedAt !== null && s.closedAt === null && s.vanished === undefined && o.vanished === undefined && !closes.length && s.order === 0) {
      if (s.recv.length < o.sentAtClose && !o.posts.some((p) => p.error !== undefined)) v('values-lost', `side ${s.i} received ${s.recv.length} values, the other had sent ${o.sentAtClose} before it closed`)
      if (!s.out) v('end-lost', `the other side closed the stream, side ${s.i} still waits`)
    }
  }
}

// idleTime is when the idle timeout of the side elapses, or null.
function idleTime(S, w, s) {
  if (!s.c.idle || !s.valid.length) return null
  const end = s.closedAt ?? Infinity
  for (let i = 0; i < s.valid.length; i++) {
    const next = s.valid[i + 1] ?? Infinity
    if (s.valid[i] >= end) return null
    if (next - s.valid[i] > s.c.idle * MS + 4 * MS) return s.valid[i] + s.c.idle * MS
  }
  return null
}

function judgeDuplex(S, w, sides) {
  const v = (c, m) => S.viol(c, m, P)
  for (const s of sides) {
    const o = sides[1 - s.i]
    if (!prefix(s.recv, o.sent)) v('values-differ', `side ${s.i} received ${s.recv}, the other sent ${o.sent}`)
    const ended = o.posts.find((p) => p.null)
    if (s.out?.end && !ended) v('false-end', `side ${s.i} saw the end, the other side did not end`)
    if (s.out?.err !== undefined) v('false-error', `side ${s.i} failed with ${s.out.err}`)
    if (o.srcEnd === 'end' && !o.sinkOut?.ok) v('sink-stuck', `the source of side ${o.i} ended, its sink: ${JSON.stringify(o.sinkOut)}`)
    if (o.srcEnd === 'err' && o.sinkOut?.err !== 'source failed') v('error-lost', `the source of side ${o.i} failed, its sink: ${JSON.stringify(o.sinkOut)}`)
    if ((o.srcEnd || o.closedAt !== null) && !ended) v('not-told', `side ${o.i} ended, it did not tell the other side`)
    // the reader gets everything that was sent, unless its own side closed first
    if (ended && s.closedAt === null && s.c.end === 'open' && o.sent.length && o.closedAt === null) {
      if (s.recv.length !== o.sent.length) v('values-lost', `side ${s.i} received ${s.recv}, the other sent ${o.sent}`)
      if (!s.out?.end) v('end-lost', `the other side ended, side ${s.i} still waits`)
    }
  }
}

async function runWatchdog(S, w) {
  const slop = 4 * MS
  const T = w.timeout * MS
  let fed = null // when it was last fed, if it was not cleared and did not expire since
  let n = 0
  const overdue = () => {
    if (fed !== null && S.now > fed + T + slop) S.viol('expired-late', `the watchdog fed at ${fed / MS} ms did not expire until ${S.now / MS} ms, the timeout is ${w.timeout} ms`, P)
  }
  const w0 = new Watchdog(w.timeout, () => {
    S.rec('expired')
    if (fed === null) S.viol('expired-unfed', `the watchdog expired at ${S.now / MS} ms, it was not fed since it expired or was cleared`, P)
    else if (S.now < fed + T) S.viol('expired-early', `the watchdog fed at ${fed / MS} ms expired at ${S.now / MS} ms, the timeout is ${w.timeout} ms`, P)
    overdue()
    fed = null
    if (w.feedOnExpiry && n++ < 4) feed()
  })
  const feed = () => {
    overdue()
    fed = S.now
    w0.feed()
  }
  let t = 0
  for (const a of w.acts) {
    t += a.d * MS
    S.at(t, a.do, () => {
      S.probe('ts-watchdog-' + a.do)
      if (a.do === 'feed') feed()
      else {
        overdue()
        fed = null
        w0.clear()
      }
    })
  }
  await S.run(60_000 * MS)
  if (fed !== null) S.viol('expired-late', `the watchdog fed at ${fed / MS} ms never expired, the timeout is ${w.timeout} ms`, P)
  if (S.timers.size) S.viol('timer-left', `${S.timers.size} timers are left`, P)
}
