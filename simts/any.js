// Services other than those of the repository: clients and definitions generated by the
// generator of the tree for definitions of ours (gen.mjs; part of property C27).
import { RNG } from './kernel.js'
import { mkTransport } from './net.js'
import { pushable } from 'it-pushable'
import { Client } from '@repo/srpc/client.ts'
import { Server } from '@repo/srpc/server.ts'
import { createMux } from '@repo/srpc/mux.ts'
import { createHandler } from '@repo/srpc/handler.ts'
import * as gencode from '@any'

const MS = 1000
const ANY = 'any.v1.deep.'
// service -> full name, method -> kind (0 unary, 1 server, 2 client, 3 bidirectional)
const SERVICES = {
  Alpha: { full: ANY + 'Alpha', m: { Get: 0, Push: 2, Pull: 1, Chat: 3 } },
  Beta_Two: { full: ANY + 'Beta_Two', m: { Chat: 3, get_it: 0, Get: 0, pull_2: 1, Push: 2 } },
  Delta: { full: 'any.Delta', m: { Get: 0, Push: 2, Pull: 1, Chat: 3, Back: 3, Late: 2, Soon: 1, Take: 0 } },
  Gamma: { full: 'Gamma', m: { ping: 0, Pkts: 3 } },
}
const FULL = { Nothing: ANY + 'Nothing', ...Object.fromEntries(Object.entries(SERVICES).map(([k, s]) => [k, s.full])) }
const TOPOS = ['pair', 'conn', 'ws', 'mport', 'bcast', 'chport', 'chbc']

export const present = gencode.AlphaDefinition !== undefined

export function gen(prop, seed) {
  const r = new RNG(seed, 'gen:' + prop)
  const w = { topo: r.pick(TOPOS), delayUs: r.pick([0, 1000, 5000, 20000]), calls: [], omit: r.p(0.15) ? r.pick(['Alpha/Get', 'Beta_Two/Get', 'Gamma/Pkts']) : '' }
  for (let i = r.range(1, 6); i > 0; i--) {
    const svc = r.pick(Object.keys(SERVICES))
    const c = { d: r.p(0.5) ? 0 : r.range(1, 30), svc, meth: r.pick(Object.keys(SERVICES[svc].m)), n: r.range(0, 3), gap: r.range(0, 5) }
    if (r.p(0.3)) c.id = r.pick(['other', 'any.v1.deep.Nothing', 'x/y', FULL.Beta_Two])
    if (r.p(0.2)) c.abort = r.p(0.4) ? -1 : r.range(0, 40)
    if (r.p(0.3)) c.own = true
    if (r.p(0.15)) c.fail = true
    w.calls.push(c)
  }
  return w
}

const text = (x) => (x.body?.case === 'data' ? new TextDecoder().decode(x.body.value) : x.body)
// methods whose requests and responses are rpcstream packets
const PKT_IN = ['Gamma/Pkts', 'Delta/Get', 'Delta/Pull', 'Delta/Back', 'Delta/Late']
const PKT_OUT = ['Gamma/Pkts', 'Delta/Push', 'Delta/Chat', 'Delta/Soon', 'Delta/Take']
const mk = (pkt, meth, t) => (pkt ? { body: { case: 'data', value: new TextEncoder().encode(t) } } : meth === 'ping' ? {} : { body: t })

export async function run(S, w, prop) {
  const v = (c, m) => S.viol(c, m, prop)
  for (const [name, full] of Object.entries(FULL)) {
    const def = gencode[name + 'Definition']
    if (def?.typeName !== full) v('generated-definition', `the definition of ${name} has the type name ${def?.typeName}, not ${full}`)
    if (gencode[name + 'ServiceName'] !== full) v('generated-definition', `the service name of ${name} is ${gencode[name + 'ServiceName']}`)
    const want = Object.keys(SERVICES[name]?.m ?? {})
    if (Object.keys(def?.methods ?? {}).sort().join() !== want.sort().join()) v('generated-definition', `the definition of ${name} has methods ${Object.keys(def?.methods ?? {})}, not ${want}`)
  }
  const used = [] // service and method IDs on the wire
  const mux = createMux()
  const server = new Server((svc, meth) => {
    used.push(svc + '/' + meth)
    return mux.lookupMethod(svc, meth)
  })
  // each service under its own ID and under each one that a client uses
  const hs = w.calls.map((c, i) => ({ c, i, out: null, got: [], calls: 0, seen: [] }))
  const impl = (svc, id) => {
    const o = {}
    for (const [meth, kind] of Object.entries(SERVICES[svc].m)) {
      if (w.omit === svc + '/' + meth) continue
      const tag = `${id}/${meth}`
      const one = (t) => {
        const h = hs[Number(/^c(\d+)/.exec(t)?.[1])]
        if (h) h.seen.push(tag + ':' + t)
        if (h?.c.fail) throw new Error('refused ' + t)
        return mk(PKT_OUT.includes(svc + '/' + meth), meth, tag + ':' + t)
      }
      o[meth] = [
        async (q) => (meth === 'ping' ? {} : one(text(q))),
        async function* (q) {
          const t = text(q)
          for (let i = 0; i < 3; i++) yield one(`${t}+${i}`)
        },
        async (qs) => {
          const all = []
          for await (const q of qs) all.push(text(q))
          return one(all.join() || 'none')
        },
        async function* (qs) {
          for await (const q of qs) yield one(text(q))
        },
      ][kind]
    }
    return o
  }
  const taken = new Set()
  for (const [svc, s] of Object.entries(SERVICES)) {
    mux.register(createHandler(gencode[svc + 'Definition'], impl(svc, s.full)))
    taken.add(s.full)
  }
  for (const { c } of hs)
    if (c.id && !taken.has(c.id)) {
      taken.add(c.id)
      mux.register(createHandler(gencode[c.svc + 'Definition'], impl(c.svc, c.id), c.id))
      c.first = true
    }
  const owner = {} // service ID -> service whose implementation is there
  for (const [svc, s] of Object.entries(SERVICES)) owner[s.full] = svc
  for (const { c } of hs) if (c.first) owner[c.id] = c.svc

  const tr = mkTransport(w.topo, w.topo, server, { delayUs: w.delayUs })
  const client = new Client(tr.openStream)
  for (const h of hs)
    S.at(h.c.d * MS, 'start', async () => {
      S.probe('ts-any-' + SERVICES[h.c.svc].m[h.c.meth])
      try {
        await act(S, h, client)
        h.out = 'ok'
      } catch (e) {
        h.out = 'err:' + (e?.message ?? e)
      }
      S.rec(`act ${h.i} ${h.out}`)
    })
  await S.run(120_000 * MS)
  const wires = new Set()
  for (const h of hs) {
    const { svc, meth } = h.c
    const id = h.c.id ?? SERVICES[svc].full
    const what = `call ${svc}.${meth} of ${id}`
    const kind = SERVICES[svc].m[meth]
    wires.add(id + '/' + meth)
    if (h.out === null) {
      v('stuck', `${what} never ended`)
      continue
    }
    if (h.aborted && h.c.abort < 0) {
      if (h.out !== 'err:ERR_RPC_ABORT') v('wrong-outcome', `${what} aborted before it began: ${h.out}`)
      continue
    }
    if (h.aborted && h.out === 'err:ERR_RPC_ABORT') continue
    const there = owner[id]
    const fits = there === svc || ![svc, there].includes('Delta')
    const served = fits && SERVICES[there].m[meth] === kind && w.omit !== there + '/' + meth
    if (SERVICES[there].m[meth] === undefined || w.omit === there + '/' + meth) {
      if (!/not found|unimplemented|unknown/i.test(h.out)) v('wrong-outcome', `${what} of which there is no handler: ${h.out}`)
      continue
    }
    if (!served) continue
    const q = (i) => `c${h.i}.${i}`
    const tag = `${id}/${meth}:`
    const n = kind < 2 ? 1 : h.c.n
    const want = kind === 1 ? [0, 1, 2].map((i) => `${tag}${q(0)}+${i}`) : kind === 2 ? [tag + (Array.from({ length: n }, (_, i) => q(i)).join() || 'none')] : Array.from({ length: n }, (_, i) => tag + q(i))
    if (meth === 'ping') {
      if (h.out !== 'ok' || h.got.join() !== 'object') v('wrong-outcome', `${what}: ${h.out}, ${h.got}`)
      continue
    }
    if (h.c.fail && n > 0) {
      if (!h.out.startsWith('err:refused ')) v('wrong-outcome', `${what} that was refused: ${h.out}`)
      continue
    }
    if (h.out !== 'ok') {
      v('wrong-outcome', `${what}: ${h.out}`)
      continue
    }
    if (h.got.join(' ') !== want.join(' ')) v('wrong-answer', `${what} answered ${h.got.join(' ')}, expected ${want.join(' ')}`)
    if (n > 0 && h.seen.join(' ') !== want.join(' ')) v('wrong-handler', `${what}: handlers saw ${h.seen.join(' ')}, expected ${want.join(' ')}`)
  }
  for (const u of used) if (!wires.has(u)) v('wrong-method', `a call arrived for ${u}, which nobody called`)
}

async function act(S, h, client) {
  const c = h.c
  const kind = SERVICES[c.svc].m[c.meth]
  const svc = new gencode[c.svc + 'Client'](client, c.id ? { service: c.id } : c.own ? {} : undefined)
  let signal
  if (c.abort != null) {
    const ac = new AbortController()
    signal = ac.signal
    const fire = () => {
      h.aborted = true
      S.fault('ts-abort')
      ac.abort()
    }
    if (c.abort < 0) fire()
    else S.at(S.now + c.abort * MS, 'abort', fire)
  }
  const f = svc[c.meth]
  const call = (q) => (c.own ? f(q, signal) : svc[c.meth](q, signal))
  const m = (i) => mk(PKT_IN.includes(c.svc + '/' + c.meth), c.meth, `c${h.i}.${i}`)
  const got = (x) => h.got.push(c.meth === 'ping' ? typeof x : text(x))
  if (kind < 2) {
    if (kind === 0) got(await call(m(0)))
    else for await (const x of call(m(0))) got(x)
    return
  }
  const q = pushable({ objectMode: true })
  ;(async () => {
    for (let i = 0; i < c.n; i++) {
      q.push(m(i))
      await S.sleep(c.gap * MS, 'requests')
    }
    q.end()
  })()
  if (kind === 2) got(await call(q))
  else for await (const x of call(q)) got(x)
}
