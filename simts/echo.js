// The bundled Echoer service and the test scripts of the repository, over every
// transport and under every schedule (part of properties C27 and C32).
import { RNG } from './kernel.js'
import { mkTransport } from './net.js'
import { pushable } from 'it-pushable'
import { Client } from '@repo/srpc/client.ts'
import { Server } from '@repo/srpc/server.ts'
import { createMux } from '@repo/srpc/mux.ts'
import { createHandler } from '@repo/srpc/handler.ts'
import { isAbortError, isStreamIdleError } from '@repo/srpc/errors.ts'
import { EchoerServer } from '@repo/echo/server.ts'
import { EchoerClient, EchoerDefinition } from '@repo/echo/echo_srpc.pb.ts'
import { runClientTest, runAbortControllerTest, runRpcStreamTest } from '@repo/echo/client-test.ts'
import { buildRpcStreamOpenStream, openRpcStream } from '@repo/rpcstream/rpcstream.ts'

const MS = 1000
const TOPOS = ['pair', 'conn', 'ws', 'mport', 'bcast', 'chport', 'chbc']
const SCRIPTS = { client: runClientTest, abort: runAbortControllerTest, rpc: runRpcStreamTest }

export function gen(prop, seed) {
  const r = new RNG(seed, 'gen:' + prop)
  const w = { topo: r.pick(TOPOS), delayUs: r.pick([0, 1000, 5000, 20000]), noProxy: r.p(0.15), acts: [], depth: prop === 'C32' ? r.range(1, 3) : 0 }
  for (let i = r.range(1, 5); i > 0; i--) {
    const x = r.n(100)
    const a = { d: r.p(0.5) ? 0 : r.range(1, 30), kind: x < 15 ? 'script' : r.pick(['echo', 'server', 'client', 'bidi', 'nothing']), n: r.range(0, 4), s: r.n(1000) }
    if (a.kind === 'script') a.script = r.pick(['client', 'abort', 'rpc'])
    if (a.kind !== 'script' && r.p(0.2)) a.abort = r.p(0.3) ? -1 : r.range(0, 40)
    if (r.p(0.3)) a.own = true
    w.acts.push(a)
  }
  return w
}

export async function run(S, w, prop) {
  const log = console.log
  console.log = (s) => S.rec('log ' + s)
  try {
    await run1(S, w, prop)
  } finally {
    console.log = log
  }
}

async function run1(S, w, prop) {
  const v = (c, m) => S.viol(c, m, prop)
  const mux = createMux()
  const server = new Server(mux.lookupMethod)
  mux.register(createHandler(EchoerDefinition, new EchoerServer(w.noProxy ? undefined : server)))
  const tr = mkTransport(w.topo, w.topo, server, { delayUs: w.delayUs })
  let client = new Client(tr.openStream)
  for (let i = 0; i < w.depth; i++) {
    const svc = new EchoerClient(client)
    const call = svc.RpcStream.bind(svc)
    client = new Client(i % 2 ? () => openRpcStream('layer' + i, call, true) : buildRpcStreamOpenStream('layer' + i, call))
  }
  const echo = new EchoerClient(client)
  const hs = w.acts.map((a, i) => ({ a, i, out: null, got: [] }))
  for (const h of hs)
    S.at(h.a.d * MS, 'start', async () => {
      S.probe('ts-echo-' + h.a.kind)
      try {
        await act(S, h, client, echo)
        h.out = 'ok'
      } catch (e) {
        h.out = 'err:' + (e?.message ?? e)
        h.isAbort = isAbortError(e)
        if (isStreamIdleError(e)) v('idle-error', `isStreamIdleError is true of ${h.out}`)
      }
      S.rec(`act ${h.i} ${h.out}`)
    })
  await S.run(120_000 * MS)
  const refused = w.noProxy && w.depth
  for (const h of hs) {
    const a = h.a
    const what = a.kind === 'script' ? 'script ' + a.script : 'call ' + a.kind
    if (h.out === null) {
      v('stuck', `${what} never ended`)
      continue
    }
    if (h.aborted && h.out !== 'ok') {
      if (h.out === 'err:ERR_RPC_ABORT') {
        if (!h.isAbort) v('abort-error', 'isAbortError is false of ERR_RPC_ABORT')
        continue
      }
      // the call's own error, if it was over before; judged as if not aborted
      if (a.abort < 0) {
        v('wrong-outcome', `${what} aborted before it began: ${h.out}`)
        continue
      }
    } else if (h.aborted && a.abort < 0) {
      v('wrong-outcome', `${what} aborted before it began succeeded`)
      continue
    } else if (h.isAbort) v('abort-error', `isAbortError is true of ${h.out}`)
    if (refused || (w.noProxy && a.script === 'rpc')) {
      if (!/rpc stream proxy server not set/.test(h.out)) v('wrong-outcome', `${what} without a proxy server: ${h.out}`)
      continue
    }
    if (a.kind === 'client' && a.n === 0) {
      if (h.out !== 'err:received no messages') v('wrong-outcome', `${what} without messages: ${h.out}`)
      continue
    }
    if (h.out !== 'ok') {
      v('wrong-outcome', `${what}: ${h.out}`)
      continue
    }
    const m = (i) => `m${a.s}.${i}`
    const all = Array.from({ length: a.n }, (_, i) => m(i))
    const want = { echo: [m(0)], server: Array(5).fill(m(0)), client: [m(0)], bidi: ['hello from server', ...all], nothing: ['object'] }[a.kind] ?? []
    if (h.got.join() !== want.join()) v('wrong-answer', `${what} answered ${h.got}, expected ${want}`)
  }
}

async function act(S, h, client, echo) {
  const a = h.a
  let signal
  if (a.abort != null) {
    const ac = new AbortController()
    signal = ac.signal
    const fire = () => {
      h.aborted = true
      S.fault('ts-abort')
      ac.abort()
    }
    if (a.abort < 0) fire()
    else S.at(S.now + a.abort * MS, 'abort', fire)
  }
  const call = (k, q) => {
    if (!a.own) return echo[k](q, signal)
    const f = echo[k]
    return f(q, signal)
  }
  const m = (i) => ({ body: `m${a.s}.${i}` })
  switch (a.kind) {
    case 'script':
      await SCRIPTS[a.script](client)
      break
    case 'echo':
      h.got.push((await call('Echo', m(0))).body)
      break
    case 'nothing':
      h.got.push(typeof (await call('DoNothing', {})))
      break
    case 'server':
      for await (const x of call('EchoServerStream', m(0))) h.got.push(x.body)
      break
    case 'client':
    case 'bidi': {
      const q = pushable({ objectMode: true })
      ;(async () => {
        for (let i = 0; i < a.n; i++) {
          q.push(m(i))
          await S.sleep((a.s % 7) * MS, 'requests')
        }
        q.end()
      })()
      if (a.kind === 'client') h.got.push((await call('EchoClientStream', q)).body)
      else for await (const x of call('EchoBidiStream', q)) h.got.push(x.body)
    }
  }
}
