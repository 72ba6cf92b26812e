// One nested stream against a scripted other side (part of property C32).
import { RNG } from './kernel.js'
import { openRpcStream, buildRpcStreamOpenStream, handleRpcStream } from '@repo/rpcstream/rpcstream.ts'

const P = 'C32'
const MS = 1000
const hex = (b) => Buffer.from(b).toString('hex')

export function gen(prop, seed) {
  const r = new RNG(seed, 'gen:' + prop)
  const w = { mode: r.p(0.5) ? 'open' : 'handle', comp: r.pick(['a', 'comp/é', '', 'x'.repeat(60), ' a ', '\ta\n']), pkts: [], end: r.pick(['end', 'end', 'throw', 'open']), endAt: r.range(0, 8), out: [], outEnd: r.pick(['end', 'end', 'throw', 'open']), pace: r.p(0.7) ? 0 : r.range(1, 4) }
  const n = r.range(0, 5)
  if (w.mode === 'open') {
    w.wait = r.p(0.5)
    w.build = !w.wait && r.p(0.5)
    if (r.p(0.8)) w.pkts.push({ d: r.range(0, 5), t: 'ack', err: r.p(0.25) ? r.pick(['not implemented', 'é', ' ']) : '' })
  } else {
    if (r.p(0.88)) w.pkts.push({ d: r.range(0, 5), t: 'init', comp: w.comp })
    w.getter = r.pick(['ok', 'ok', 'ok', 'null', 'throw', 'throw-empty', 'throw-text'])
    w.slow = r.p(0.3) ? r.range(1, 10) : 0
    w.handler = r.pick(['both', 'both', 'write', 'throw', 'return'])
  }
  for (let i = 0; i < n; i++) w.pkts.push({ d: r.p(0.5) ? 0 : r.range(1, 6), t: r.pick(['data', 'data', 'data', 'data', 'none', 'ack', 'init']), n: r.range(0, 12), err: r.p(0.1) ? 'late failure' : '' })
  for (let i = r.range(0, 4); i > 0; i--) w.out.push({ d: r.p(0.5) ? 0 : r.range(1, 6), n: r.range(0, 12) })
  return w
}

const body = (p, i) => (p.t === 'data' ? { case: 'data', value: Uint8Array.from({ length: p.n }, (_, k) => i * 31 + k) } : p.t === 'ack' ? { case: 'ack', value: { error: p.err } } : p.t === 'init' ? { case: 'init', value: { componentId: p.comp ?? 'again' } } : undefined)

export async function run(S, w) {
  const v = (c, m) => S.viol(c, m, P)
  const H = { sent: [], got: [] }
  async function* remote() {
    for (let i = 0; i < w.pkts.length; i++) {
      if (w.pkts[i].d) await S.sleep(w.pkts[i].d * MS, 'remote')
      S.probe('ts-nested-packet')
      yield { body: body(w.pkts[i], i) }
    }
    if (w.endAt) await S.sleep(w.endAt * MS, 'remote')
    if (w.end === 'throw') throw new Error('remote failed')
    if (w.end === 'open') await new Promise(() => {})
  }
  async function* local() {
    for (let i = 0; i < w.out.length; i++) {
      if (w.out[i].d) await S.sleep(w.out[i].d * MS, 'local')
      yield Uint8Array.from({ length: w.out[i].n }, (_, k) => i * 17 + k)
    }
    if (w.outEnd === 'throw') throw new Error('local failed')
    if (w.outEnd === 'open') await new Promise(() => {})
  }
  const watch = async (it, what) => {
    try {
      for await (const p of it) {
        H.sent.push(p)
        S.rec(`${what} ${p.body?.case}`)
      }
      H.sentEnd = 'end'
    } catch (e) {
      H.sentEnd = 'err:' + (e?.message ?? e)
    }
    S.rec(`${what} ${H.sentEnd}`)
  }
  const read = async (it) => {
    try {
      for await (const b of it) {
        H.got.push(hex(b))
        S.rec('got ' + hex(b))
        if (w.pace) await S.sleep(w.pace * MS, 'pace')
      }
      H.out = 'end'
    } catch (e) {
      H.out = 'err:' + (e?.message ?? e)
    }
    S.rec('read ' + H.out)
  }
  // what the packets after the first i mean to the reader
  const meaning = (from) => {
    const m = { msgs: [], out: { end: 'end', throw: 'err:remote failed', open: undefined }[w.end] }
    for (let i = from; i < w.pkts.length; i++) {
      const p = w.pkts[i]
      if (p.t === 'data') m.msgs.push(hex(body(p, i).value))
      if (p.t === 'ack' && p.err) {
        m.out = 'err:' + p.err
        break
      }
    }
    return m
  }
  const outData = w.out.map((o, i) => hex(Uint8Array.from({ length: o.n }, (_, k) => i * 17 + k)))
  const sentData = () => H.sent.filter((p) => p.body?.case === 'data').map((p) => hex(p.body.value))
  const wantOut = { end: 'end', throw: 'err:local failed', open: undefined }[w.outEnd]
  const checkRead = (m) => {
    if (H.got.length !== m.msgs.length || H.got.some((g, i) => g !== m.msgs[i])) v('nested-differs', `the nested stream read ${H.got}, the packets carry ${m.msgs}`)
    if (H.out !== m.out) v('nested-end', `the nested stream read to ${H.out ?? 'nothing'}, the packets: ${m.out ?? 'open'}`)
  }
  const checkSent = (data, end, lossy) => {
    const d = sentData()
    if (lossy ? d.some((x, i) => x !== data[i]) : d.join('/') !== data.join('/') || d.length !== data.length) v('nested-differs', `the nested stream wrote ${data}, ${d} was sent`)
    if (H.sentEnd !== end) v('nested-end', `the nested stream ended its writes with ${end ?? 'nothing'}, what was sent: ${H.sentEnd ?? 'open'}`)
  }

  if (w.mode === 'open') {
    const caller = (reqs) => {
      watch(reqs, 'sent')
      return remote()
    }
    ;(w.build ? buildRpcStreamOpenStream(w.comp, caller)() : openRpcStream(w.comp, caller, w.wait)).then(
      (st) => {
        H.open = 'ok'
        S.rec('open')
        read(st.source)
        Promise.resolve(st.sink(local())).then(
          () => (H.sink = 'ok'),
          (e) => (H.sink = 'err:' + e?.message),
        )
      },
      (e) => {
        H.open = 'err:' + (e?.message ?? e)
        S.rec(H.open)
      },
    )
    await S.run(10_000 * MS)
    const init = H.sent[0]?.body
    if (init?.case !== 'init' || init.value.componentId !== w.comp) v('nested-init', `the first packet is ${JSON.stringify(init)}, expected an init of ${JSON.stringify(w.comp)}`)
    if (H.sent.slice(1).some((p) => p.body?.case !== 'data')) v('nested-init', 'the opening side sent something else than data')
    const f = w.pkts[0]
    let from = 0
    if (w.wait) {
      from = 1
      let want = 'ok'
      if (!f) want = { end: /closed before ack/, throw: /remote failed/, open: undefined }[w.end]
      else if (f.t !== 'ack') want = /expected ack/
      else if (f.err) want = new RegExp(f.err)
      if (want === 'ok' || want === undefined ? H.open !== want : !want.test(H.open ?? '') || H.open === 'ok') v('nested-open', `opening with the first packet ${f ? f.t + ' ' + (f.err ?? '') : 'missing'} (then ${w.end}): ${H.open ?? 'open'}`)
    } else if (H.open !== 'ok') v('nested-open', `opening without waiting: ${H.open ?? 'open'}`)
    if (H.open !== 'ok') return
    checkRead(meaning(from))
    checkSent(outData, wantOut, w.outEnd === 'throw')
    if (w.outEnd !== 'open' && H.sink !== 'ok') v('nested-end', `the source of the nested stream ended, its sink: ${H.sink ?? 'open'}`)
    return
  }

  let asked = []
  let invoked = 0
  const getter = async (c) => {
    asked.push(c)
    if (w.slow) await S.sleep(w.slow * MS, 'getter')
    if (w.getter === 'null') return null
    if (w.getter === 'throw') throw new Error('no such component')
    if (w.getter === 'throw-empty') throw new Error('')
    if (w.getter === 'throw-text') throw 'text'
    return async (st) => {
      invoked++
      if (w.handler === 'throw') {
        await S.sleep(2 * MS, 'handler')
        throw new Error('handler failed')
      }
      if (w.handler === 'return') return
      if (w.handler === 'both') await Promise.all([read(st.source), st.sink(local())])
      else await st.sink(local())
    }
  }
  watch(handleRpcStream(remote()[Symbol.asyncIterator](), getter), 'answered')
  await S.run(10_000 * MS)
  const f = w.pkts[0]
  if (!f || f.t !== 'init') {
    const want = !f ? { end: 'err:closed before init received', throw: 'err:remote failed', open: undefined }[w.end] : 'err:expected init packet'
    if (H.sentEnd !== want) v('nested-init', `no init packet came (${f?.t ?? w.end}): ${H.sentEnd ?? 'open'}`)
    if (asked.length || H.sent.length) v('nested-init', 'no init packet came, and the stream was answered')
    return
  }
  if (asked.length !== 1 || asked[0] !== (f.comp ?? 'again')) v('nested-component', `the component ${JSON.stringify(f.comp ?? 'again')} was looked up as ${JSON.stringify(asked)}`)
  const ack = H.sent[0]?.body
  const refused = { null: /^not implemented$/, throw: /^no such component$/, 'throw-empty': /./, 'throw-text': /./ }[w.getter]
  if (ack?.case !== 'ack' || (refused ? !refused.test(ack.value.error) : ack.value.error)) v('nested-ack', `the component is ${refused ? 'refused' : 'there'}, the answer is ${JSON.stringify(ack)}`)
  if (H.sent.slice(1).some((p) => p.body?.case !== 'data')) v('nested-ack', 'the accepting side sent something else than data after its answer')
  if (refused) {
    if (invoked || H.sent.length > 1) v('nested-ack', 'the component is refused, and the stream was served')
    if (!refused.test((H.sentEnd ?? '').replace(/^err:/, '')) || !String(H.sentEnd).startsWith('err:')) v('nested-end', `the component is refused, the call: ${H.sentEnd ?? 'open'}`)
    return
  }
  if (invoked !== 1) v('nested-invoked', `the handler was invoked ${invoked} times`)
  if (w.handler === 'throw') return checkSent([], 'err:handler failed', false)
  if (w.handler === 'return') return checkSent([], 'end', false)
  checkSent(outData, wantOut, w.outEnd === 'throw')
  if (w.handler === 'both') checkRead(meaning(1))
}
