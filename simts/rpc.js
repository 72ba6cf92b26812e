// Calls between TypeScript clients and servers over simulated transports.
import { RNG, sim } from './kernel.js'
import { mkTransport } from './net.js'
import { Client } from '@repo/srpc/client.ts'
import { Server } from '@repo/srpc/server.ts'
import { createMux } from '@repo/srpc/mux.ts'
import { createHandler } from '@repo/srpc/handler.ts'
import { ERR_RPC_ABORT, isAbortError } from '@repo/srpc/errors.ts'
import { EchoerClient, EchoerDefinition } from '@repo/echo/echo_srpc.pb.ts'
import { openRpcStream, buildRpcStreamOpenStream, handleRpcStream } from '@repo/rpcstream/rpcstream.ts'

const METHODS = { unary: 'Echo', server: 'EchoServerStream', client: 'EchoClientStream', bidi: 'EchoBidiStream' }
const TOPOS = ['pair', 'pair', 'conn', 'conn', 'ws', 'mport', 'bcast', 'chport', 'chbc']

// ---- workload ----

export function gen(prop, seed) {
  const r = new RNG(seed, 'gen:' + prop)
  const w = { topo: r.pick(TOPOS), layers: [], calls: [], faults: [], opts: {} }
  if (prop === 'C32') for (let i = r.range(1, 2); i > 0; i--) w.layers.push(genLayer(r))
  else if (r.p(0.2)) w.layers.push(genLayer(r))
  const o = w.opts
  o.delayUs = r.pick([0, 500, 3000, 20000])
  o.frag = r.p(0.6) ? r.pick([1, 3, 7, 40]) : 0
  o.join = r.p(0.5)
  o.openUs = r.p(0.5) ? r.pick([1000, 20000]) : 0
  o.stallUs = r.p(0.2) ? 30000 : 0
  o.rpcHandler = r.p(0.3)
  o.keepAlive = r.p(0.3)
  o.lateOpen = r.p(0.15) ? r.range(1, 40) : 0
  o.twoWay = r.p(0.3)
  const calm = prop === 'C27' ? r.p(0.6) : prop === 'C28' ? r.p(0.15) : r.p(0.35)
  if (!calm && prop === 'C28' && r.p(0.15)) o.openFail = 0.3
  const n = r.range(1, 4)
  for (let i = 0; i < n; i++) w.calls.push(genCall(r, calm, prop))
  if (!calm && r.p(prop === 'C28' ? 0.5 : 0.35)) w.faults.push({ kind: 'lose', at: r.range(0, 120), mode: r.n(100), gap: r.pick([0, 2, 30]) })
  return w
}

function genLayer(r) {
  return { wait: r.p(0.4), comp: r.pick(['a', 'comp/b', 'x', ' x ']), slow: r.p(0.3) ? r.range(1, 20) : 0, fail: r.p(0.12) ? r.pick(['null', 'throw']) : '' }
}

function genCall(r, calm, prop) {
  const kind = r.pick(['unary', 'server', 'client', 'bidi', 'bidi'])
  const c = { kind, at: r.p(0.5) ? 0 : r.range(0, 40), pace: r.p(0.3) ? r.range(1, 15) : 0, reqs: [], reqEnd: 'end', srv: [], end: 'ret' }
  if (r.p(0.12)) c.rev = true
  if (r.p(0.1)) c.own = true
  if (r.p(0.06)) c.unknown = r.pick(['service', 'method'])
  if (kind === 'unary' || kind === 'server') c.reqs.push({ d: 0, n: size(r) })
  else for (let i = r.pick([0, 1, 1, 2, 3, 6]); i > 0; i--) c.reqs.push({ d: r.p(0.5) ? 0 : r.range(0, 15), n: size(r) })
  // server script
  const reads = kind === 'client' || kind === 'bidi'
  const sends = kind === 'server' || kind === 'bidi'
  const steps = r.range(0, 5)
  for (let i = 0; i < steps; i++) {
    const k = r.n(4)
    if (k === 0) c.srv.push({ op: 'sleep', d: r.range(1, 20) })
    else if (k === 1 && reads) c.srv.push({ op: 'read' })
    else if (sends) c.srv.push({ op: 'send', n: size(r) })
  }
  if (reads && r.p(0.75)) c.srv.push({ op: 'readAll', echo: sends && r.p(0.5) })
  if (sends && r.p(0.4)) c.srv.push({ op: 'send', n: size(r) })
  if (r.p(0.2)) c.srv.push({ op: 'sleep', d: r.range(1, 30) })
  const x = r.n(100)
  if (x < 18) c.end = 'throw'
  else if (x < 21) c.end = 'throwSync'
  else if (x < 24) c.end = r.pick(['throwString', 'throwEmpty', 'throwUndef'])
  else if (x < 26 && (kind === 'unary' || kind === 'client')) c.end = 'void'
  c.msg = r.pick(['boom', 'not today', 'ä error with unicode', 'x'.repeat(200)])
  if (!calm) {
    const abort = r.p(prop === 'C28' ? 0.45 : 0.25)
    if (abort) {
      c.abort = r.p(0.1) ? -1 : r.range(0, 80)
      if (r.p(0.3)) c.end = 'hang'
      if (reads && r.p(0.4)) c.reqEnd = 'hang'
    }
    if (reads && c.reqEnd === 'end' && r.p(0.08)) c.reqEnd = 'throw'
    if (c.reqEnd === 'throw') c.reqThrow = r.p(0.7) ? 0 : r.range(1, 3)
    if (sends && !abort && c.reqEnd === 'end' && r.p(0.08)) c.breakAfter = r.range(1, 2)
  }
  if (kind === 'bidi' && r.p(0.3)) {
    // a conversation: each side waits for the other's message before it sends the next
    c.talk = r.pick(['client', 'server'])
    c.srv = c.talk === 'client' ? [{ op: 'readAll', echo: true }] : c.reqs.flatMap(() => [{ op: 'send', n: size(r) }, { op: 'read' }]).concat([{ op: 'readAll' }])
  }
  return c
}
const size = (r) => (r.p(0.1) ? 0 : r.p(0.1) ? r.range(100, 3000) : r.range(1, 30))

// ---- history of a call ----

class Call {
  constructor(i, c) {
    this.i = i
    this.c = c
    this.svc = 'svc.' + i
    this.sent = [] // requests handed to the client
    this.reqDone = '' // how the request iterable ended
    this.recv = [] // responses seen by the caller
    this.outcome = null // {ok} or {err}
    this.started = false
    this.invoked = 0
    this.hrecv = [] // requests seen by the handler
    this.hread = '' // how the handler's request stream ended: '', 'end' or 'err:...'
    this.hsent = [] // responses handed to the server
    this.hdone = null // {ret} or {err}
    this.hstate = ''
    this.aborted = false
  }
  name() {
    return `call ${this.i} (${this.c.kind})`
  }
}

const body = (i, dir, k, n) => {
  if (n === 0) return ''
  const s = `${i}${dir}${k}:`
  return s.length >= n ? s : s + 'é€x'.repeat(n).slice(0, n - s.length)
}

function implementation(S, h) {
  const c = h.c
  const enter = () => {
    h.invoked++
    S.probe('ts-handler')
    S.rec(`s${h.i} invoked`)
    if (c.end === 'throwSync') {
      h.hdone = { err: c.msg }
      throw new Error(c.msg)
    }
  }
  let nsent = 0
  const finish = async (unary) => {
    switch (c.end) {
      case 'throw':
      case 'throwString':
      case 'throwEmpty':
      case 'throwUndef':
        h.hdone = { err: c.end === 'throw' ? c.msg : null, str: c.end === 'throwString' }
        S.rec(`s${h.i} throws`)
        throw { throw: new Error(c.msg), throwString: 'a string', throwEmpty: new Error(), throwUndef: undefined }[c.end]
      case 'void':
        h.hdone = { err: null }
        S.rec(`s${h.i} returns nothing`)
        return undefined
      case 'hang':
        h.hstate = 'hang'
        S.rec(`s${h.i} waits forever`)
        await new Promise(() => {})
    }
    h.hdone = { ret: true }
    S.rec(`s${h.i} returns`)
    if (unary) {
      h.resp = body(h.i, 's', 0, c.respN ?? 5 + h.i)
      return { body: h.resp }
    }
  }
  const read = async (it) => {
    h.hstate = 'read'
    S.rec(`s${h.i} reads`)
    try {
      const r = await it.next()
      h.hstate = ''
      if (r.done) {
        h.hread = 'end'
        S.rec(`s${h.i} read: end`)
        return false
      }
      h.hrecv.push(r.value.body ?? '')
      S.probe('ts-request-received')
      S.rec(`s${h.i} read: message`)
      return r.value
    } catch (err) {
      h.hstate = ''
      h.hread = 'err:' + (err?.message ?? err)
      S.rec(`s${h.i} read: ${h.hread}`)
      h.hdone = { err: err?.message ?? String(err), rethrown: true }
      throw err
    }
  }
  const send = (n) => {
    const b = body(h.i, 's', nsent++, n)
    h.hsent.push(b)
    S.rec(`s${h.i} sends`)
    return { body: b }
  }
  async function* script(reqs) {
    const it = reqs?.[Symbol.asyncIterator]()
    for (const a of c.srv) {
      switch (a.op) {
        case 'sleep':
          await S.sleep(a.d * 1000, 'handler')
          break
        case 'send':
          yield send(a.n)
          break
        case 'read':
          if (!h.hread) await read(it)
          break
        case 'readAll':
          while (!h.hread) {
            const m = await read(it)
            if (!m) break
            if (a.echo) yield send((m.body ?? '').length)
          }
          break
      }
    }
  }
  return {
    Echo(req) {
      enter()
      h.hrecv.push(req.body ?? '')
      return (async () => {
        for await (const _ of script(null));
        return finish(true)
      })()
    },
    EchoClientStream(reqs) {
      enter()
      return (async () => {
        for await (const _ of script(reqs));
        return finish(true)
      })()
    },
    EchoServerStream(req) {
      enter()
      h.hrecv.push(req.body ?? '')
      return (async function* () {
        yield* script(null)
        await finish(false)
      })()
    },
    EchoBidiStream(reqs) {
      enter()
      return (async function* () {
        yield* script(reqs)
        await finish(false)
      })()
    },
  }
}

// ---- run ----

export async function run(S, w, prop) {
  const calls = w.calls.map((c, i) => new Call(i, c))
  const mux = createMux()
  for (const h of calls) mux.register(createHandler(EchoerDefinition, implementation(S, h), h.svc))
  const innermost = new Server(mux.lookupMethod)
  // layers of nested streams, from the inside out
  let server = innermost
  const layers = []
  for (let k = w.layers.length - 1; k >= 0; k--) {
    const l = w.layers[k]
    const inner = server
    const st = { l, opened: 0, asked: [] }
    layers[k] = st
    const m = createMux()
    m.register(
      createHandler(
        EchoerDefinition,
        {
          RpcStream: (reqs) =>
            handleRpcStream(reqs[Symbol.asyncIterator](), async (id) => {
              st.opened++
              st.asked.push(id)
              S.probe('ts-component-lookup')
              if (l.slow) await S.sleep(l.slow * 1000, 'getter')
              if (l.fail === 'null') return null
              if (l.fail === 'throw') throw new Error('no component ' + id)
              return inner.rpcStreamHandler
            }),
        },
        'layer.' + k,
      ),
    )
    server = new Server(m.lookupMethod)
  }
  const reverse = w.opts.twoWay ? innermost : undefined
  const tr = mkTransport(w.topo, w.topo, server, { ...w.opts, twoWay: reverse })
  const late = w.opts.lateOpen
  let client
  if (late) {
    const c = (client = new Client())
    S.at(late * 1000, 'set open function', () => c.setOpenStreamFn(tr.openStream))
  } else client = new Client(tr.openStream)
  for (let k = 0; k < w.layers.length; k++) {
    const l = w.layers[k]
    const outer = new EchoerClient(client, { service: 'layer.' + k })
    client = new Client(l.wait ? () => openRpcStream(l.comp, outer.RpcStream, true) : buildRpcStreamOpenStream(l.comp, outer.RpcStream))
  }
  const dead = { lost: null }
  for (const f of w.faults) {
    const modes = tr.canLose()
    if (!modes.length) continue
    S.at(f.at * 1000, 'fault', () => {
      const mode = modes[f.mode % modes.length]
      if (dead.lost) return
      dead.lost = mode
      S.fault('ts-' + mode)
      tr.lose(mode, f.gap * 1000)
    })
  }
  for (const h of calls) {
    if (h.c.rev && tr.serverConn) {
      // from the accepting end of the connection to the dialing one
      h.rev = true
      h.refused = !reverse
      S.probe(reverse ? 'ts-reverse-call' : 'ts-refused-call')
    }
    S.at(h.c.at * 1000, 'start', () => runCall(S, h, h.rev ? tr.serverConn.buildClient() : client))
  }
  const why = await S.run(120_000_000)
  judge(S, w, calls, layers, tr, dead, why)
}

async function runCall(S, h, client) {
  const c = h.c
  h.started = true
  S.rec(`c${h.i} start ${c.kind}`)
  S.probe('ts-call-' + c.kind)
  const svc = c.unknown === 'service' ? 'nosvc' : h.svc
  const cl = new EchoerClient(c.unknown === 'method' ? renamed(client) : client, { service: svc })
  let signal
  if (c.abort != null) {
    const ac = new AbortController()
    signal = ac.signal
    const fire = () => {
      h.aborted = true
      if (!h.outcome) S.fault('ts-abort')
      h.abortAt = S.now
      ac.abort()
    }
    if (c.abort < 0) fire()
    else S.at(c.abort * 1000, 'abort', fire)
  }
  const reqs = async function* () {
    for (let k = 0; k < c.reqs.length; k++) {
      if (c.reqs[k].d) await S.sleep(c.reqs[k].d * 1000, 'client')
      if (c.talk) {
        const need = c.talk === 'client' ? k : k + 1
        while (h.recv.length < need) await new Promise((res) => (h.wake = res))
      }
      const b = body(h.i, 'c', k, c.reqs[k].n)
      h.sent.push(b)
      S.rec(`c${h.i} sends`)
      yield { body: b }
    }
    if (c.reqEnd === 'hang') {
      h.reqDone = 'hang'
      await new Promise(() => {})
    }
    if (c.reqEnd === 'throw') {
      h.reqDone = 'throw'
      S.rec(`c${h.i} request source throws`)
      throw { 1: 'a string', 2: new Error(), 3: undefined }[c.reqThrow] ?? (c.reqThrow === 3 ? undefined : new Error('request source failed'))
    }
    h.reqDone = 'end'
    S.rec(`c${h.i} requests end`)
  }
  const done = (o) => {
    h.outcome = o
    h.outcomeAt = S.now
    S.rec(`c${h.i} outcome ${o.err !== undefined ? 'error ' + o.err : o.broke ? 'left' : 'ok'}`)
  }
  try {
    let first
    if (c.kind === 'unary' || c.kind === 'server') {
      first = { body: body(h.i, 'c', 0, c.reqs[0].n) }
      h.sent.push(first.body)
      h.reqDone = 'end'
    }
    const m = METHODS[c.kind]
    if (c.kind === 'unary' || c.kind === 'client') {
      const r = await callOf(cl, m, c)(first ?? reqs(), signal)
      h.recv.push(r.body ?? '')
      done({ ok: true })
    } else {
      let n = 0
      for await (const r of callOf(cl, m, c)(first ?? reqs(), signal)) {
        h.recv.push(r.body ?? '')
        S.probe('ts-response-received')
        h.wake?.()
        S.rec(`c${h.i} received`)
        if (c.breakAfter && ++n >= c.breakAfter) {
          done({ broke: true })
          return
        }
        if (c.pace) await S.sleep(c.pace * 1000, 'reader')
      }
      done({ ok: true })
    }
  } catch (err) {
    if (!(err instanceof Error)) S.viol('not-an-error', `${h.name()} failed with ${String(err)}, which is not an Error`, 'C27')
    else if ((err.message === ERR_RPC_ABORT) !== isAbortError(err)) S.viol('abort-error', `isAbortError is wrong about ${err.message}`, 'C28')
    done({ err: err?.message ?? String(err) })
  }
}

// callOf is the client's method, of the client or on its own.
function callOf(cl, m, c) {
  if (!c.own) return (q, s) => cl[m](q, s)
  const f = cl[m]
  return (q, s) => f(q, s)
}

// renamed calls a method the handler does not have.
function renamed(client) {
  const f = (k) => (s, m, d, a) => client[k](s, 'No' + m, d, a)
  return Object.fromEntries(['request', 'clientStreamingRequest', 'serverStreamingRequest', 'bidirectionalStreamingRequest'].map((k) => [k, f(k)]))
}

// ---- judgement ----

const isPrefix = (a, b) => a.length <= b.length && a.every((x, i) => x === b[i])
const show = (a) => JSON.stringify(a.map((s) => (s.length > 12 ? s.slice(0, 12) + '…' : s)))

function judge(S, w, calls, layers, tr, dead, why) {
  const nested = w.layers.length > 0
  const P = (p) => (nested ? [p, 'C32'] : [p])
  const v = (p, cls, msg) => S.viol(cls, msg, ...P(p))
  for (const h of calls) {
    const c = h.c
    const disturbed = dead.lost || tr.openFailed || h.refused
    const failing = h.rev ? undefined : w.layers.find((l) => l.fail)
    if (!h.started) continue
    const N = h.name()
    const o = h.outcome
    // delivery
    if (!isPrefix(h.hrecv, h.sent)) v('C27', 'requests-differ', `${N}: the handler received ${show(h.hrecv)}, the client sent ${show(h.sent)}`)
    if (h.invoked > 1) v('C27', 'invoked-twice', `${N}: the handler was invoked ${h.invoked} times`)
    const expect = c.kind === 'unary' || c.kind === 'client' ? (h.hdone?.ret ? [h.resp] : []) : h.hsent
    if (!isPrefix(h.recv, expect)) v('C27', 'responses-differ', `${N}: the caller received ${show(h.recv)}, the handler sent ${show(expect)}`)
    if (h.hread === 'end') {
      if (h.reqDone !== 'end') v('C27', 'false-end', `${N}: the handler saw a clean end of the requests, the client has not ended them (${h.reqDone || 'still sending'})`)
      else if (h.hrecv.length !== h.sent.length) v('C27', 'requests-lost', `${N}: the handler saw a clean end after ${h.hrecv.length} of ${h.sent.length} requests`)
    }
    const told = h.hread.startsWith('err:')
    if (told && !disturbed && !h.aborted && h.reqDone !== 'throw' && !failing) v('C27', 'false-error', `${N}: the handler's request stream failed with ${h.hread.slice(4)} although nothing went wrong`)
    // outcome
    if (o?.ok) {
      S.probe('ts-outcome-ok')
      if (c.unknown) v('C27', 'false-success', `${N}: a call of an unknown ${c.unknown} succeeded`)
      else if (!h.hdone?.ret) v('C27', 'false-success', `${N}: the caller saw success, the handler ${h.hdone ? 'failed' : 'has not returned'}`)
      else if (h.recv.length !== expect.length) v('C27', 'responses-lost', `${N}: the caller saw a clean end after ${h.recv.length} of ${expect.length} responses`)
      if (h.refused) v('C27', 'false-success', `${N}: succeeded at an end that serves no calls`)
      if (failing) v('C27', 'false-success', `${N}: succeeded through a component that cannot be reached`)
    } else if (o?.err !== undefined) {
      S.probe('ts-outcome-error')
      if (!disturbed && !h.aborted && h.reqDone !== 'throw') {
        if (failing) {
          const want = failing.fail === 'null' ? 'not implemented' : 'no component ' + failing.comp
          if (!o.err.includes(want)) S.viol('wrong-error', `${N}: failed with "${o.err}", the component lookup failed with "${want}"`, 'C32')
        } else if (c.unknown) {
          const want = `not found: ${c.unknown === 'service' ? 'nosvc' : h.svc}/${c.unknown === 'method' ? 'No' : ''}${METHODS[c.kind]}`
          if (o.err !== want) v('C27', 'wrong-error', `${N}: failed with "${o.err}", expected "${want}"`)
        } else if (!h.hdone || h.hdone.ret) v('C27', 'false-failure', `${N}: failed with "${o.err}" although the handler ${h.hdone ? 'returned' : 'has not returned'} and nothing went wrong`)
        else if (h.hdone.err === null && o.err === ERR_RPC_ABORT) v('C27', 'wrong-error', `${N}: failed with "${o.err}", nobody aborted it: the handler failed (${c.end})`)
        else if (h.hdone.str && !o.err.includes('a string')) v('C27', 'wrong-error', `${N}: failed with "${o.err}", the handler threw "a string"`)
        else if (h.hdone.err != null && !h.hdone.rethrown && o.err !== h.hdone.err) v('C27', 'wrong-error', `${N}: failed with "${o.err}", the handler failed with "${h.hdone.err}"`)
      } else if (!disturbed && h.aborted && h.reqDone !== 'throw' && !failing && !c.unknown) {
        // cancelled: the abort error, or the handler's own
        if (o.err !== ERR_RPC_ABORT && !(h.hdone?.err === null || o.err === h.hdone?.err)) v('C28', 'wrong-error', `${N}: was aborted and failed with "${o.err}"`)
        if (h.outcomeAt < h.abortAt && !h.hdone) v('C28', 'false-failure', `${N}: failed before it was aborted`)
      }
    }
    // endings
    if (!o) {
      const stuck = h.hstate === 'read' && c.reqEnd === 'hang' && !h.aborted && !dead.lost
      if (h.aborted) v('C28', 'stuck-after-abort', `${N}: aborted, and never ended (${why})`)
      else if (dead.lost) v('C28', 'stuck-after-loss', `${N}: the connection ended (${dead.lost}), the call never did (${why})`)
      else if (!stuck && c.end !== 'hang') S.viol('stuck', `${N}: never ended (${why}); the handler ${h.hdone ? 'is done' : h.invoked ? 'is at ' + (h.hstate || 'work') : 'was not invoked'}`, ...P('C28'), 'C27')
    } else if (h.aborted && o.err === ERR_RPC_ABORT && h.abortAt != null && h.outcomeAt >= h.abortAt) {
      // an abort takes effect at once, whatever the other side or the network does
      const slack = c.pace ? c.pace * 1000 + 1000 : 1000
      if (h.outcomeAt - h.abortAt > slack) v('C28', 'slow-abort', `${N}: ended ${(h.outcomeAt - h.abortAt) / 1000} ms after it was aborted`)
    }
    if (h.hstate === 'read' && (o || h.reqDone === 'end' || h.reqDone === 'throw' || dead.lost) && !(o?.broke && h.reqDone !== 'end'))
      v('C28', 'handler-stuck', `${N}: the handler still waits for requests although ${o ? 'the call is over' : dead.lost ? 'the connection is gone (' + dead.lost + ')' : 'the requests have ended'}`)
    if (o && !o.err && !c.unknown && h.invoked === 0) v('C27', 'not-invoked', `${N}: ended without an error, the handler was never invoked`)
  }
  for (const st of layers)
    for (const id of st?.asked ?? []) if (id !== st.l.comp) S.viol('wrong-component', `component "${id}" was looked up instead of "${st.l.comp}"`, 'C32')
  // nothing is left behind
  const over = calls.every((h) => !h.started || (h.outcome && (!h.outcome.broke || h.hdone)))
  if (over && why === 'idle') {
    for (const l of tr.leaks()) v('C28', 'leak', `all calls are over, ${l}`)
  }
}
