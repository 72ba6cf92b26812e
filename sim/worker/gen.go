package main

import "strings"

// genPlan derives the complete plan of a run from the property and seed.
func genPlan(prop string, seed uint64) *Plan {
	r := NewRNG(hashStr(prop), seed)
	p := &Plan{Prop: prop, Seed: seed}
	genSched(r, p)
	gen, ok := propGens[prop]
	if !ok {
		panic("no generator for property " + prop)
	}
	gen(r, p)
	return p
}

func genSched(r *RNG, p *Plan) {
	s := &p.Sched
	s.Seed = r.U64()
	switch r.N(10) {
	case 0:
		s.Mode = 1
	case 1, 2, 3, 4:
		s.Mode = 0
		s.YieldP = pick(r, 0.0, 0.01, 0.05, 0.2, 0.5)
	default:
		s.Mode = 2
		s.Depth = pick(r, 1, 2, 3, 5, 10, 30)
		s.Len = uint64(pick(r, 300, 1500, 6000, 20000))
	}
	s.Limit = 16 << 20
}

var propGens = map[string]func(r *RNG, p *Plan){}

// rpcGen makes a generator of RPC workloads.
func rpcGen(b rpcBias) func(r *RNG, p *Plan) {
	return func(r *RNG, p *Plan) {
		p.Family = "rpc"
		p.RPC = genRPC(r, b)
	}
}

func mixGen(gens ...any) func(r *RNG, p *Plan) {
	tot := 0
	for i := 0; i < len(gens); i += 2 {
		tot += gens[i].(int)
	}
	return func(r *RNG, p *Plan) {
		k := r.N(tot)
		for i := 0; i < len(gens); i += 2 {
			k -= gens[i].(int)
			if k < 0 {
				gens[i+1].(func(*RNG, *Plan))(r, p)
				return
			}
		}
	}
}

var allLayers = [][]string{nil, nil, nil, nil, {"rs"}, {"rsn"}, {"proxy"}, {"rs", "rsn"}}

var base = rpcBias{
	topos:    []string{"pipe", "direct", "yamux", "yamux"},
	layers:   [][]string{nil, nil, nil, nil, nil, {"rs"}, {"rsn"}, {"proxy"}},
	faults:   []string{"reset", "fin", "trunc", "stall", "partition", "srvcancel", "cliclose", "srvclose", "wfail"},
	aborts:   []string{"cancel", "close", "precancel"},
	errP:     0.35,
	unaryP:   0.3,
	unknownP: 0.05,
	calls:    [2]int{1, 4},
	msgs:     6,
	bigP:     0.08,
	wrapP:    0.1,
	psendP:   0.1,
	badCompP: 0.05,
	protoP:   0.2,
	early:    0.2,
	sleepP:   0.2,
	serialP:  0.15,
	nocloseP: 0.3,
	longP:    0.01,
	holdP:    0.05,
	slowP:    0.1,
	crowdP:   0.002,
	idleP:    0.03,
}

func with(f func(b *rpcBias)) rpcBias {
	b := base
	f(&b)
	return b
}

func init() {
	g := func(id string, f func(b *rpcBias)) { propGens[id] = rpcGen(with(f)) }
	g("C01", func(b *rpcBias) {
		b.faultP, b.abortP, b.msgs, b.unaryP, b.longP, b.slowP = 0.25, 0.1, 12, 0.1, 0.04, 0.25
	})
	g("C02", func(b *rpcBias) { b.faultP, b.abortP, b.errP, b.early = 0.3, 0.2, 0.5, 0.35 })
	g("C03", func(b *rpcBias) { b.faultP, b.abortP, b.unaryP = 0.25, 0.15, 0.95 })
	g("C04", func(b *rpcBias) { b.faultP, b.abortP, b.unaryP = 0.1, 0.2, 0 })
	g("C05", func(b *rpcBias) { b.faultP, b.abortP, b.unaryP = 0.12, 1, 0.3 })
	g("C06", func(b *rpcBias) { b.faultP, b.abortP, b.slowP = 1, 0.1, 0.3 })
	g("C07", func(b *rpcBias) {
		b.faultP, b.abortP, b.calls, b.holdP, b.crowdP = 0.05, 0.3, [2]int{2, 8}, 0.35, 0.012
		b.topos = []string{"yamux"}
	})
	propGens["C12"] = mixGen(15, rpcGen(with(func(b *rpcBias) {
		b.faultP, b.abortP, b.unknownP, b.badCompP = 0.3, 0.4, 0.15, 0.3
	})), 2, genBytes("raw"), 1, genBytes("rwc"), 2, genProto("client"), 1, genProto("server"), 1, genPipe,
		1, func(r *RNG, p *Plan) { genListen(r, p) }, 1, func(r *RNG, p *Plan) { genWS(r, p) }, 1, genRS("rs", "raw", "proxy"))
	propGens["C14"] = mixGen(5, rpcGen(with(func(b *rpcBias) {
		b.faultP, b.abortP, b.badCompP = 0.2, 0.2, 0.15
		b.layers = [][]string{{"rs"}, {"rsn"}, {"rs", "rs"}, {"rs", "rsn"}}
	})), 1, genRS("rs"))
	propGens["C16"] = mixGen(5, rpcGen(with(func(b *rpcBias) {
		b.faultP, b.abortP, b.badCompP = 0.2, 0.2, 0.15
		b.layers = [][]string{{"proxy"}, {"proxy"}, {"proxy", "rs"}, {"rs", "proxy"}}
	})), 1, genBytesP(1, "raw"), 1, genRS("proxy"))
	c24 := rpcGen(with(func(b *rpcBias) { b.faultP, b.abortP, b.protoP, b.bigP = 0.1, 0.1, 0, 0.2 }))
	propGens["C24"] = mixGen(8, c24, 2, genPipe)
	g("C25", func(b *rpcBias) { b.faultP, b.abortP, b.sleepP = 0.35, 0.5, 0.4 })
}

// propHit reports whether a violation counts for the property of the plan.
func propHit(v Violation, prop string) bool {
	for _, p := range v.Props {
		if p == prop || p == "*" && prop != "C23" {
			return true
		}
	}
	return false
}

func init() {
	// C23: every family, with the mix of every other property
	all := []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C24", "C25", "C26"}
	propGens["C23"] = func(r *RNG, p *Plan) { propGens[all[r.N(len(all))]](r, p) }
}

func wrapsHas(w []string, s string) bool { return strings.Contains(strings.Join(w, ","), s) }

func init() {
	g := func(id string, f func(b *rpcBias)) { propGens[id] = rpcGen(with(f)) }
	g("X20", func(b *rpcBias) {
		b.faultP, b.abortP, b.clients = 0.3, 0.2, 4
		b.topos = []string{"yamuxlis", "dial"}
		b.layers = [][]string{nil}
	})
}
