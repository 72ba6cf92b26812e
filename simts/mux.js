// Method lookup and the containers for values that come later (property C33).
import { RNG } from './kernel.js'
import { createMux, StaticMux } from '@repo/srpc/mux.ts'
import { StaticHandler, createHandler } from '@repo/srpc/handler.ts'
import { createInvokeFn } from '@repo/srpc/invoker.ts'
import { ValueCtr } from '@repo/srpc/value-ctr.ts'
import { OpenStreamCtr } from '@repo/srpc/open-stream-ctr.ts'
import { HandleStreamCtr } from '@repo/srpc/handle-stream-ctr.ts'
import { EchoerDefinition } from '@repo/echo/echo_srpc.pb.ts'
import { EchoMsg } from '@repo/echo/echo.pb.ts'

const P = 'C33'
const MS = 1000
const SERVICES = ['a', 'b', 'echo.Echoer', 'constructor', '__proto__', 'toString', '']
const METHODS = ['Echo', 'EchoServerStream', 'EchoClientStream', 'EchoBidiStream', 'x', 'constructor', 'toString', '__proto__', 'hasOwnProperty', '']

export function gen(prop, seed) {
  const r = new RNG(seed, 'gen:' + prop)
  const mode = r.pick(['mux', 'mux', 'value', 'open', 'handle', 'invoke'])
  const w = { mode, acts: [] }
  if (mode === 'mux') {
    w.factory = r.p(0.7)
    let id = 0
    const narrow = r.p(0.4) // few services: handlers share them
    const svcs = narrow ? ['a', 'b', 'echo.Echoer'] : SERVICES
    for (let i = r.range(3, 16); i > 0; i--) {
      const d = r.p(0.5) ? 0 : r.range(1, 5)
      const x = r.n(100)
      if (x < 25) w.acts.push({ d, do: 'static', id: id++, svc: r.pick(svcs), methods: some(r, METHODS, 4), serves: r.p(0.8) ? null : r.pick(svcs) })
      else if (x < 40) w.acts.push({ d, do: 'create', id: id++, svc: r.pick(['', 'a', 'b']), methods: some(r, METHODS.slice(0, 4), 4), cls: r.p(0.5) })
      else if (x < 50) w.acts.push({ d, do: 'lookup-fn', id: id++, svc: r.pick(svcs), method: r.pick([...METHODS, '*']), delay: r.p(0.5) ? 0 : r.range(1, 6), fail: r.p(0.1) })
      else if (x < 55) w.acts.push({ d, do: 'sub-mux', id: id++, svc: r.pick(svcs), methods: some(r, METHODS, 3) })
      else {
        const had = w.acts.filter((a) => a.methods?.length)
        const a = had.length && r.p(0.6) ? r.pick(had) : null
        w.acts.push({ d, do: 'find', svc: a ? a.svc || 'echo.Echoer' : r.pick(svcs), method: a ? r.pick(a.methods) : r.pick(METHODS) })
      }
    }
  } else if (mode === 'invoke') {
    w.kind = r.pick(METHODS.slice(0, 4))
    w.result = r.pick(['ok', 'ok', 'undefined', 'throw', 'reject', 'not-promise', 'throw-text', 'no-message'])
    w.reqs = r.range(0, 2)
    w.n = r.range(0, 3)
    w.d = r.range(0, 5)
  } else {
    w.init = r.p(0.25) ? r.pick(mode === 'value' ? [0, 1, 'v', '', false] : [1]) : null
    for (let i = r.range(2, 12); i > 0; i--) {
      const d = r.p(0.4) ? 0 : r.range(1, 5)
      const x = r.n(100)
      if (x < 35) w.acts.push({ d, do: 'set', v: r.p(0.2) ? null : mode === 'value' ? r.pick([0, 1, 2, '', 'v', false]) : r.range(1, 5) })
      else if (mode === 'value' && x < 55) w.acts.push({ d, do: 'cb', then: r.p(0.4) ? r.pick(['again', 'clear', 'set', 'wait']) : '' })
      else w.acts.push({ d, do: 'wait' })
    }
    w.fail = r.p(0.2) ? r.range(1, 5) : 0
  }
  return w
}
function some(r, xs, n) {
  const out = []
  for (let i = r.range(0, n); i > 0; i--) {
    const x = r.pick(xs)
    if (x && !out.includes(x)) out.push(x)
  }
  return out
}

export async function run(S, w) {
  await { mux: runMux, value: runValue, open: runStreams, handle: runStreams, invoke: runInvoke }[w.mode](S, w)
}

// ---- the mux against a list of what was registered ----

async function runMux(S, w) {
  const v = (c, m) => S.viol(c, m, P)
  const mux = w.factory ? createMux() : new StaticMux()
  const lookup = mux.lookupMethod
  const regs = [] // { svc, method, id } in order of registration
  const fns = [] // lookup functions, in order
  const map = (id, methods) => {
    const m = {}
    for (const x of methods) Object.defineProperty(m, x, { value: () => id, enumerable: true, configurable: true, writable: true })
    return m
  }
  let t = 0
  for (const a of w.acts) {
    t += a.d * MS
    S.at(t, a.do, () => act(a))
  }
  const act = (a) => {
    S.probe('ts-mux-' + a.do)
    if (a.do === 'static' || a.do === 'create') {
      let h
      let svc = a.svc
      if (a.do === 'static') h = new StaticHandler(a.svc, map(a.id, a.methods))
      else {
        svc = a.svc || 'echo.Echoer'
        h = createHandler(EchoerDefinition, impl(a), a.svc || undefined)
        const ids = h.getMethodIDs().slice().sort()
        if (h.getServiceID() !== svc || ids.join() !== a.methods.slice().sort().join()) v('wrong-handler', `createHandler made ${h.getServiceID()} with ${ids}, expected ${svc} with ${a.methods}`)
      }
      if (a.serves !== null && a.do === 'static') {
        // a handler that offers its methods under one name and looks them up under any
        const inner = h
        h = { getServiceID: () => a.svc, getMethodIDs: () => inner.getMethodIDs(), lookupMethod: async (s, m) => (a.methods.includes(m) ? (() => a.id) : null) }
      }
      let err = null
      try {
        mux.register(h)
      } catch (e) {
        err = e
      }
      if (!svc) {
        if (!err) v('registered-unnamed', 'a handler without a service ID was registered')
      } else if (err) v('not-registered', `registering ${svc} failed: ${err.message}`)
      else for (const m of a.methods) regs.push({ svc, method: m, id: a.id, create: a.do === 'create' })
      if (a.do === 'static') for (const m of METHODS) direct(h, a, m)
    } else if (a.do === 'lookup-fn') {
      fns.push(a)
      mux.registerLookupMethod(async (s, m) => {
        if (a.delay) await S.sleep(a.delay * MS, 'lookup')
        if (s !== a.svc || (a.method !== '*' && m !== a.method)) return null
        if (a.fail) throw new Error('lookup failed')
        return () => a.id
      })
    } else if (a.do === 'sub-mux') {
      const sub = createMux()
      fns.push(a)
      if (a.svc) sub.register(new StaticHandler(a.svc, map(a.id, a.methods)))
      mux.registerLookupMethod(sub.lookupMethod)
    } else find(a)
  }
  // direct asks a handler itself; no service ID means its own
  const direct = async (h, a, m) => {
    for (const s of [a.svc, 'other', '']) {
      const f = await h.lookupMethod(s, m)
      const hit = a.methods.includes(m) && (a.serves !== null || !s || s === a.svc)
      if (!!f !== hit) v('handler-lookup', `the handler of ${a.svc} with ${a.methods}: lookup of ${s}/${m} found ${f ? 'a method' : 'none'}`)
    }
  }
  const want = (a) => {
    if (a.svc) {
      const r = regs.filter((x) => x.svc === a.svc && x.method === a.method).at(-1)
      if (r) return r
    }
    return wantFn(a)
  }
  const wantFn = (a) => {
    for (const f of fns) {
      if (f.svc !== a.svc || (f.do === 'sub-mux' ? !f.svc || !f.methods.includes(a.method) : f.method !== '*' && f.method !== a.method)) continue
      return f
    }
    return null
  }
  const find = async (a) => {
    const w1 = want(a)
    let got, err
    try {
      got = await lookup(a.svc, a.method)
    } catch (e) {
      err = e
    }
    const w2 = want(a) // registered meanwhile
    const w3 = wantFn(a) // a lookup function and a handler registered meanwhile
    const what = `lookup of ${a.svc}/${a.method}`
    const is = async (x) => (x === null ? !got && !err : x.fail ? err?.message === 'lookup failed' : !err && got && (x.create || (x.do === 'create' ? true : (await got()) === x.id)))
    S.rec(`${what}: ${got ? 'found' : err ? err.message : 'none'}`)
    if (!(await is(w1)) && !(await is(w2)) && (regs.includes(w1) || !(await is(w3)))) {
      let g = err ? 'failed: ' + err.message : got ? 'found ' + (typeof got === 'function' && !w1?.create ? await got() : 'a method') : 'found none'
      v('wrong-lookup', `${what} ${g}, expected ${w1 === null ? 'none' : w1.fail ? 'a failure' : w1.id}`)
    }
  }
  await S.run(10_000 * MS)
}

function impl(a) {
  if (!a.cls) {
    const o = {}
    for (const m of a.methods) o[m] = async () => ({})
    return o
  }
  class Impl {}
  for (const m of a.methods) Impl.prototype[m] = async () => ({})
  return new Impl()
}

// ---- values that come later ----

async function runValue(S, w) {
  const v = (c, m) => S.viol(c, m, P)
  const ctr = new ValueCtr(w.init === null ? undefined : w.init)
  let cur = w.init === null ? undefined : w.init
  const waits = []
  if (ctr.value !== cur) v('wrong-value', `a container made with ${JSON.stringify(cur)} holds ${JSON.stringify(ctr.value)}`)
  // put sets the value. Those who are told may set another one, or wait again: of those
  // who wait since before, each is told the value of this call or of such a later one.
  let depth = 0
  const put = (val) => {
    cur = val
    if (val !== undefined)
      for (const x of waits)
        if (!x.due) x.due = [val], (x.open = true)
        else if (x.open && !x.got.length) x.due.push(val)
    depth++
    ctr.set(val)
    if (!--depth) for (const x of waits) x.open = false
  }
  const after = (what) => {
    if (what) S.probe('ts-value-then-' + what)
    if (what === 'again') {
      const y = { do: 'cb', got: [], due: null, early: cur }
      waits.push(y)
      ctr.waitWithCb((val) => y.got.push(val))
    } else if (what === 'wait') {
      const y = { do: 'wait', got: [], due: cur !== undefined ? [cur] : null }
      waits.push(y)
      ctr.wait().then((val) => y.got.push(val))
    } else if (what === 'clear') put(undefined)
    else if (what === 'set') put('then')
  }
  let t = 0
  for (const a of w.acts) {
    t += a.d * MS
    S.at(t, a.do, () => {
      S.probe('ts-value-' + a.do)
      if (a.do === 'set') {
        cur = a.v === null ? undefined : a.v
        put(cur)
        if (ctr.value !== cur) v('wrong-value', `the container set to ${JSON.stringify(cur)} holds ${JSON.stringify(ctr.value)}`)
      } else {
        const x = { do: a.do, got: [], due: null }
        const done = (val) => {
          x.got.push(val)
          S.rec(`${a.do} ${JSON.stringify(val)}`)
          if (x.got.length === 1) after(a.then)
        }
        if (a.do === 'wait') {
          if (cur !== undefined) x.due = [cur]
          waits.push(x)
          ctr.wait().then(done)
        } else if (cur === undefined) {
          waits.push(x)
          ctr.waitWithCb(done)
        }
      }
    })
  }
  await S.run(10_000 * MS)
  for (const x of waits) {
    if (x.got.length > 1) v('told-twice', `a ${x.do} was told ${x.got.length} values`)
    if (x.due && !x.got.length) v('not-told', `a ${x.do} was never told the value ${JSON.stringify(x.due)}`)
    const early = x.early !== undefined && x.got[0] === x.early // registered when there was a value
    if (!x.due && x.got.length && !early) v('told-nothing', `a ${x.do} was told ${JSON.stringify(x.got[0])}, no value was set`)
    if (x.due && x.got.length && !early && !x.due.includes(x.got[0])) v('wrong-value', `a ${x.do} was told ${JSON.stringify(x.got[0])}, the value was ${JSON.stringify(x.due)}`)
  }
}

// OpenStreamCtr and HandleStreamCtr: a call waits for the function and calls it once.
async function runStreams(S, w) {
  const v = (c, m) => S.viol(c, m, P)
  const calls = []
  const made = new Map()
  const fn = (id) => {
    if (!made.has(id))
      made.set(id, async (arg) => {
        await S.sleep(1500, 'fn')
        const c = { id, arg }
        calls.push(c)
        if (id === w.fail) throw new Error('cannot open')
        return c
      })
    return made.get(id)
  }
  const open = w.mode === 'open'
  const ctr = open ? new OpenStreamCtr(w.init === null ? undefined : fn(w.init)) : new HandleStreamCtr(w.init === null ? undefined : fn(w.init))
  let cur = w.init ?? undefined
  const waits = []
  const f = open ? ctr.openStreamFunc : ctr.handleStreamFunc
  let t = 0
  for (const a of w.acts) {
    t += a.d * MS
    S.at(t, a.do, () => {
      S.probe('ts-ctr-' + a.do)
      if (a.do === 'set') {
        cur = a.v === null ? undefined : a.v
        for (const x of waits) if (!x.due && cur !== undefined) x.due = cur
        ctr.set(cur === undefined ? undefined : fn(cur))
        return
      }
      const x = { n: waits.length, due: cur ?? null }
      waits.push(x)
      f(open ? undefined : x).then(
        (c) => {
          x.got = c
          S.rec('got ' + c?.id)
        },
        (e) => {
          x.err = e?.message
          S.rec('err ' + x.err)
        },
      )
    })
  }
  await S.run(10_000 * MS)
  for (const x of waits) {
    if (x.due === null) {
      if (x.got || x.err) v('told-nothing', 'a stream was opened, no function was set')
      continue
    }
    if (w.fail === x.due) {
      if (x.err !== 'cannot open') v('wrong-error', `the function failed, the caller got ${x.err ?? JSON.stringify(x.got) ?? 'no answer'}`)
    } else if (x.err !== undefined) v('wrong-error', `the caller failed with ${x.err}`)
    else if (!x.got) v('not-told', `the caller got no answer, the function ${x.due} was set`)
    else if (x.got.id !== x.due) v('wrong-value', `the caller was served by function ${x.got.id}, ${x.due} was set`)
    else if (!open && x.got.arg !== x) v('wrong-value', 'the function got another stream')
  }
  const n = waits.filter((x) => x.due !== null).length
  if (calls.length !== n) v('called-twice', `the functions were called ${calls.length} times for ${n} streams`)
}

// ---- one invocation of a method ----

async function runInvoke(S, w) {
  const v = (c, m) => S.viol(c, m, P)
  const info = Object.values(EchoerDefinition.methods).find((m) => m.name === w.kind)
  const streamIn = w.kind === 'EchoClientStream' || w.kind === 'EchoBidiStream'
  const streamOut = w.kind === 'EchoServerStream' || w.kind === 'EchoBidiStream'
  const reqs = Array.from({ length: w.reqs }, (_, i) => 'r' + i)
  const seen = []
  let invoked = 0
  const proto = (arg) => {
    invoked++
    S.probe('ts-invoke')
    if (w.result === 'undefined') return undefined
    if (w.result === 'throw') throw new Error('impl failed')
    if (w.result === 'throw-text') throw 'text'
    if (w.result === 'no-message') throw new Error('')
    if (w.result === 'not-promise' && !streamOut) return { body: 'x' }
    const read = async () => {
      if (streamIn) for await (const m of arg) seen.push(m.body)
      else seen.push(arg.body)
    }
    if (streamOut)
      return (async function* () {
        await read()
        for (let i = 0; i < w.n; i++) {
          if (w.d) await S.sleep(w.d * MS, 'impl')
          yield { body: 's' + i }
        }
        if (w.result === 'reject') throw new Error('impl failed')
      })()
    return (async () => {
      await read()
      if (w.d) await S.sleep(w.d * MS, 'impl')
      if (w.result === 'reject') throw new Error('impl failed')
      return { body: 's0' }
    })()
  }
  const fn = createInvokeFn(info, proto)
  const out = []
  let outEnd = null
  let res = null
  const src = (async function* () {
    for (const b of reqs) {
      if (w.d) await S.sleep(w.d * MS, 'reqs')
      yield EchoMsg.toBinary({ body: b })
    }
  })()
  fn(src, async (s) => {
    try {
      for await (const b of s) out.push(EchoMsg.fromBinary(b).body)
      outEnd = 'end'
    } catch (e) {
      outEnd = 'err:' + e?.message
    }
  }).then(
    () => (res = 'ok'),
    (e) => (res = 'err:' + e?.message),
  )
  await S.run(10_000 * MS)
  S.rec(`${res} ${outEnd} ${out} ${seen} ${invoked}`)
  const noReq = !streamIn && w.reqs === 0
  if (invoked !== (noReq ? 0 : 1)) v('invoked', `the implementation was invoked ${invoked} times`)
  if (noReq) {
    if (!String(res).startsWith('err:')) v('false-success', `no request came, the invocation: ${res}`)
    return
  }
  const bad = { undefined: 1, throw: 1, 'throw-text': 1, 'no-message': 1, ...(streamOut ? {} : { 'not-promise': 1, reject: 1 }) }[w.result]
  if (bad) {
    if (!String(res).startsWith('err:') || res === 'err:') v('false-success', `the implementation failed (${w.result}), the invocation: ${res}`)
    if ((w.result === 'throw' || w.result === 'reject') && res !== 'err:impl failed') v('wrong-error', `the implementation failed with "impl failed", the invocation: ${res}`)
    if (outEnd === null) v('wrong-end', `the implementation failed (${w.result}), its output was left open`)
    if (out.length) v('wrong-output', `the implementation failed, ${out.length} responses came out`)
    return
  }
  const want = streamOut ? Array.from({ length: w.n }, (_, i) => 's' + i) : ['s0']
  if (seen.join() !== (streamIn ? reqs : reqs.slice(0, 1)).join()) v('wrong-input', `the implementation saw ${seen}, the requests are ${reqs}`)
  if (w.result === 'reject') {
    if (outEnd !== 'err:impl failed') v('wrong-error', `the stream of the implementation failed, its output: ${outEnd}`)
    if (!want.join().startsWith(out.join())) v('wrong-output', `the output is ${out}, expected ${want}`)
    return
  }
  if (out.join() !== want.join()) v('wrong-output', `the output is ${out}, expected ${want}`)
  if (outEnd !== 'end') v('wrong-end', `the implementation succeeded, its output: ${outEnd ?? 'open'}`)
  if (res !== 'ok') v('wrong-end', `the implementation succeeded, the invocation: ${res}`)
}
