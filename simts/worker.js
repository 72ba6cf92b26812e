// The simulation worker of the TypeScript library; same command line and output
// as the worker of the Go library (sim/worker).
import fs from 'node:fs'
import { Sim, enter, leave, installGlobals, resetNames, real } from './kernel.js'
import * as rpc from './rpc.js'
import * as pkt from './pkt.js'
import * as chan from './chan.js'
import * as frame from './frame.js'
import * as mux from './mux.js'
import * as echo from './echo.js'
import * as rs from './rs.js'
import * as any from './any.js'

installGlobals()

const FAMILIES = { tsrpc: rpc, tspkt: pkt, tschan: chan, tsframe: frame, tsmux: mux, tsecho: echo, tsrs: rs, tsany: any }
const PROPS = { C27: ['tsrpc', 'tsrpc', 'tsrpc', 'tsecho'], C28: ['tsrpc'], C29: ['tspkt'], C30: ['tsframe'], C31: ['tschan'], C32: ['tsrpc', 'tsrs', 'tsrpc', 'tsecho'], C33: ['tsmux'] }

// with freshly generated code
if (any.present) PROPS.C27 = ['tsrpc', 'tsany', 'tsecho', 'tsany', 'tsrpc']

function genPlan(prop, seed) {
  const fams = PROPS[prop]
  const family = fams[seed % fams.length]
  return { prop, seed, family, sched: { timerSlop: seed % 3 === 0 ? 2000 : 0 }, w: FAMILIES[family].gen(prop, seed) }
}

async function execute(p, show) {
  resetNames()
  const S = new Sim(p.seed, { timerSlop: p.sched.timerSlop, show })
  enter(S)
  try {
    await FAMILIES[p.family].run(S, p.w, p.prop)
    await S.drain()
  } catch (err) {
    S.viol('unexpected-throw', String(err?.message ?? err) + ' at ' + String(err?.stack ?? '').split('\n').filter((l) => /^\s+at /.test(l)).slice(0, 2).map((l) => l.trim().replace(/^at | \(.*/g, '')).join(' < '), '*')
  } finally {
    leave()
  }
  return S
}

const args = {}
for (let i = 2; i < process.argv.length; i++) {
  const k = process.argv[i].replace(/^-+/, '')
  const n = process.argv[i + 1]
  if (n === undefined || (n.startsWith('-') && isNaN(Number(n)))) args[k] = true
  else {
    args[k] = n
    i++
  }
}

const hit = (v, prop) => v.props.includes(prop) || v.props.includes('*')

function loadKnown(path) {
  try {
    return fs
      .readFileSync(path, 'utf8')
      .split('\n')
      .filter((l) => l.trim().startsWith('{'))
      .map((l) => JSON.parse(l))
  } catch {
    return []
  }
}
function matchKnown(kn, prop, p, v) {
  for (const k of kn) if (k.property === prop && (!k.family || k.family === p.family) && k.class === v.class && new RegExp(k.match).test(v.msg)) return k.what
  return ''
}

const clone = (x) => JSON.parse(JSON.stringify(x))
const RUN_LIMIT_MS = 60000

async function minimise(plan, prop, cls, secs) {
  const t0 = real.now()
  let tries = 0
  const test = async (p) => {
    tries++
    try {
      const S = await execute(p, false)
      return S.viols.some((v) => v.class === cls && hit(v, prop)) ? S : null
    } catch {
      return null
    }
  }
  let best = plan
  let res = await test(best)
  if (!res) return { plan, res: null, tries }
  const left = () => real.now() - t0 < secs * 1000
  const paths = (x, pre = []) => {
    const out = []
    if (Array.isArray(x)) {
      for (let i = x.length - 1; i >= 0; i--) out.push([...pre, i])
      x.forEach((y, i) => out.push(...paths(y, [...pre, i])))
    } else if (x && typeof x === 'object') {
      for (const k of Object.keys(x)) {
        if (Array.isArray(x[k]) || (x[k] && typeof x[k] === 'object')) out.push(...paths(x[k], [...pre, k]))
        else out.push([...pre, k])
      }
    }
    return out
  }
  let changed = true
  while (changed && left()) {
    changed = false
    for (const path of paths(best.w)) {
      if (!left()) break
      const cands = []
      const at = (p) => path.slice(0, -1).reduce((o, k) => o?.[k], p.w)
      const o = at(best)
      const k = path[path.length - 1]
      if (o == null || !(k in o)) continue
      const x = o[k]
      if (Array.isArray(o)) cands.push((q) => at(q).splice(k, 1))
      else if (typeof x === 'number' && x !== 0) {
        cands.push((q) => (at(q)[k] = 0))
        if (x > 1) cands.push((q) => (at(q)[k] = Math.floor(x / 2)))
      } else if (x === true) cands.push((q) => (at(q)[k] = false))
      for (const f of cands) {
        const q = clone(best)
        f(q)
        const s = await test(q)
        if (s) {
          best = q
          res = s
          changed = true
          break
        }
      }
    }
  }
  return { plan: best, res: { viol: res.viols, hash: hashNum(res) }, tries }
}

// the hash as a decimal literal: it does not fit a JavaScript number
const hashNum = (S) => ({ big: BigInt('0x' + S.hash()).toString() })
const js = (x) => JSON.stringify(x).replace(/\{"big":"(\d+)"\}/g, '$1')

async function main() {
  const prop = args.prop
  if (args.minimise) {
    const p = JSON.parse(fs.readFileSync(args.minimise, 'utf8'))
    console.log('MIN ' + js(await minimise(p, prop, args.class, Number(args.secs) || 25)))
    return 0
  }
  if (args.plan) {
    console.log(JSON.stringify(genPlan(prop, Number(args.start))))
    return 0
  }
  if (args.replay) {
    const p = JSON.parse(fs.readFileSync(args.replay, 'utf8'))
    const S = await execute(p, false)
    if (args.show) for (const l of S.log) console.log(l)
    console.log('RESULT ' + js({ viol: S.viols, hash: hashNum(S), steps: S.steps, nanos: S.now * 1000, log: S.log, faults: S.faults }))
    return 0
  }
  const kn = args.known ? loadKnown(args.known) : []
  const st = { prop, runs: 0, families: {}, faults: {}, probes: {}, simNanos: 0, steps: 0, decisions: 0, switches: 0, maxGs: 0, maxSteps: 0, modes: {}, topos: {}, hashes: [], other: {}, known: {}, found: [], repOK: 0, repBad: [], seconds: 0, samples: [], nonTriv: 0 }
  const inc = (m, k, n = 1) => (m[k] = (m[k] || 0) + n)
  const sf = args.status ? fs.openSync(args.status, 'w') : 0
  const t0 = real.now()
  const secs = Number(args.secs) || 0
  const n = Number(args.n) || Infinity
  const stopOn = Number(args.stop) || 1
  const hs = new Set()
  let seed = Number(args.start)
  for (let i = 0; i < n; i++) {
    if (secs && real.now() - t0 > secs * 1000) break
    const p = genPlan(prop, seed)
    if (sf) fs.writeSync(sf, String(seed).padStart(20, '0') + '\n', 0)
    const S = await execute(p, args.live ? 'live' : false)
    if (args.show) {
      console.log(JSON.stringify(p))
      for (const l of S.log) console.log(l)
      console.log(`hash=${S.hash()} steps=${S.steps}`)
      for (const v of S.viols) console.log(`VIOL ${v.props} ${v.class}: ${v.msg}`)
    }
    st.runs++
    inc(st.families, p.family)
    inc(st.topos, p.w.topo ? p.w.topo + '+nested'.repeat(p.w.layers?.length ?? 0) : p.family)
    inc(st.modes, 'events')
    st.simNanos += S.now * 1000
    st.steps += S.steps
    st.decisions += S.decisions
    st.switches += S.switches
    st.maxGs = Math.max(st.maxGs, S.maxPending)
    st.maxSteps = Math.max(st.maxSteps, S.steps)
    const h = S.hash()
    if (!hs.has(h) && S.decisions >= 2 && Object.keys(S.probes).length) {
      st.nonTriv++
      if (!st.samples.length && !S.viols.length) st.samples.push(p)
    }
    hs.add(h)
    for (const [k, x] of Object.entries(S.faults)) inc(st.faults, k, x)
    for (const [k, x] of Object.entries(S.probes)) inc(st.probes, k, x)
    let found = false
    for (const v of S.viols) {
      if (!hit(v, prop)) {
        inc(st.other, `${v.class}/${v.props[0]}`)
        continue
      }
      const k = matchKnown(kn, prop, p, v)
      if (k) {
        inc(st.known, k)
        continue
      }
      found = true
    }
    if (found) {
      st.found.push({ seed, viol: S.viols, plan: p, hash: hashNum(S) })
      if (st.found.length >= stopOn) break
    } else if (i % 64 === 0) {
      const S2 = await execute(genPlan(prop, seed), false)
      if (S2.hash() === h) st.repOK++
      else st.repBad.push(seed)
    }
    seed += Number(args.stride) || 1
  }
  st.seconds = (real.now() - t0) / 1000
  if (args.out) {
    st.hashes = [...hs].map((h) => ({ big: BigInt('0x' + h).toString() }))
    st.simNanos = Math.round(st.simNanos)
    fs.writeFileSync(args.out, js(st))
  } else {
    console.log(`prop=${prop} runs=${st.runs} distinct=${hs.size} secs=${st.seconds} sim=${st.simNanos / 1e9}s max=${st.maxSteps} other=${JSON.stringify(st.other)} known=${JSON.stringify(st.known)} repbad=${st.repBad}\nfaults=${JSON.stringify(st.faults)}\nprobes=${JSON.stringify(st.probes)}`)
    for (const f of st.found) for (const v of f.viol) console.log(`seed ${f.seed}: ${v.props} ${v.class}: ${v.msg}`)
  }
  return st.found.length ? 1 : 0
}
process.exit(await main())
