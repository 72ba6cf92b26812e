package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// RNG is a small deterministic generator (splitmix64).
type RNG struct{ s uint64 }

func mix64(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func NewRNG(parts ...uint64) *RNG {
	s := uint64(0x243f6a8885a308d3)
	for _, p := range parts {
		s = mix64(s ^ p)
	}
	return &RNG{s}
}

func (r *RNG) U64() uint64 { r.s += 0x9e3779b97f4a7c15; return mix64(r.s) }
func (r *RNG) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *RNG) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }
func (r *RNG) P(p float64) bool     { return float64(r.U64()>>11)/(1<<53) < p }
func pick[T any](r *RNG, xs ...T) T { return xs[r.N(len(xs))] }

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Violation is one broken property observed in a run.
type Violation struct {
	Props []string `json:"props"` // properties it breaks ("*": any property checked with this scenario)
	Class string   `json:"class"` // stable class used for minimisation and known findings
	Msg   string   `json:"msg"`
}

// Sched is the scheduling configuration of a run.
type Sched struct {
	Mode   int      `json:"mode"`
	Seed   uint64   `json:"seed"`
	YieldP float64  `json:"yieldP,omitempty"`
	Depth  int      `json:"depth,omitempty"`
	Len    uint64   `json:"len,omitempty"`
	Limit  uint64   `json:"limit"`
	DP     []uint32 `json:"dp,omitempty"`
	Ch     []uint16 `json:"ch,omitempty"`
}

// Plan is one completely explicit simulated run.
type Plan struct {
	Prop   string      `json:"prop"`
	Family string      `json:"family"`
	Seed   uint64      `json:"seed"`
	Sched  Sched       `json:"sched"`
	RPC    *RPCPlan    `json:"rpc,omitempty"`
	Frame  *FramePlan  `json:"frame,omitempty"`
	Proto  *ProtoPlan  `json:"proto,omitempty"`
	Mux    *MuxPlan    `json:"mux,omitempty"`
	Bytes  *BytesPlan  `json:"bytes,omitempty"`
	Set    *SetPlan    `json:"set,omitempty"`
	Listen *ListenPlan `json:"listen,omitempty"`
	Pipe   *PipePlan   `json:"pipe,omitempty"`
	Stub   *StubPlan   `json:"stub,omitempty"`
	WS     *WSPlan     `json:"ws,omitempty"`
	RS     *RSPlan     `json:"rs,omitempty"`
	Any    *AnyPlan    `json:"any,omitempty"`
}

// Run is the state of the simulated run in progress.
type Run struct {
	Plan   *Plan
	Viol   []Violation
	Seq    uint64
	Faults counter
	Probes counter
	Log    []string
	Trace  bool
	ops    []*opRec // operations in progress
	opID   uint64
	T0     time.Time
}

type opRec struct {
	id   uint64
	name string
	gid  uint32
}

// counter counts named events. It is not a map: the runtime reports map
// accesses to the race detector even when the package is not instrumented.
type counter struct {
	names []string
	n     []int
}

//go:norace
func (c *counter) inc(name string) {
	for i, s := range c.names {
		if s == name {
			c.n[i]++
			return
		}
	}
	c.names = append(c.names, name)
	c.n = append(c.n, 1)
}

func (c *counter) addTo(m map[string]int) {
	for i, s := range c.names {
		m[s] += c.n[i]
	}
}

func (c *counter) get(name string) int {
	for i, s := range c.names {
		if s == name {
			return c.n[i]
		}
	}
	return 0
}

func (c *counter) toMap() map[string]int {
	m := map[string]int{}
	c.addTo(m)
	return m
}

var cur *Run

var liveLog = os.Getenv("SIM_LIVE") != "" // print the log while the run proceeds

//go:norace
func (r *Run) seq() uint64 {
	r.Seq++
	return r.Seq
}

//go:norace
func (r *Run) fault(kind string) {
	r.Faults.inc(kind)
	if r.Trace {
		r.logf("FAULT %s", kind)
	}
}

//go:norace
func (r *Run) probe(kind string) { r.Probes.inc(kind) }

//go:norace
func (r *Run) logf(f string, a ...any) {
	if !r.Trace {
		return
	}
	if liveLog {
		defer func() { fmt.Fprintln(os.Stderr, r.Log[len(r.Log)-1]) }()
	}
	r.Log = append(r.Log, fmt.Sprintf("%9.3fms step=%d g%d ", float64(time.Since(r.T0))/1e6, runtime.SimSteps(), runtime.SimGID())+fmt.Sprintf(f, a...))
}

// violate records a violation of the given properties ("C01,C02").
//
//go:norace
func (r *Run) violate(props, class, f string, a ...any) {
	m := fmt.Sprintf(f, a...)
	r.logf("VIOLATION %s %s: %s", props, class, m)
	if len(r.Viol) < 20 {
		r.Viol = append(r.Viol, Violation{Props: strings.Split(props, ","), Class: class, Msg: m})
	}
}

// begin registers an operation that must finish for the run to be live.
//
//go:norace
func (r *Run) begin(f string, a ...any) uint64 {
	r.opID++
	name := f
	if len(a) > 0 {
		name = fmt.Sprintf(f, a...)
	}
	r.ops = append(r.ops, &opRec{r.opID, name, runtime.SimGID()})
	if r.Trace {
		r.logf("> %s", name)
	}
	return r.opID
}

//go:norace
func (r *Run) end(id uint64, f string, a ...any) {
	for i, o := range r.ops {
		if o.id == id {
			if r.Trace {
				r.logf("< %s => %s", o.name, fmt.Sprintf(f, a...))
			}
			n := len(r.ops) - 1
			r.ops[i] = r.ops[n]
			r.ops = r.ops[:n]
			break
		}
	}
	runtime.SimMix(hashStr(f) ^ id)
}

//go:norace
func (r *Run) pending() []string {
	var os []*opRec
	for _, o := range r.ops {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
	var out []string
	for _, o := range os {
		out = append(out, o.name)
	}
	return out
}

// Group waits for harness goroutines with a simulated-time bound.
type Group struct {
	n    int
	done chan struct{}
}

func newGroup() *Group { return &Group{done: make(chan struct{}, 1<<12)} }

//go:norace
func (g *Group) Go(f func()) {
	g.n++
	go func() {
		defer func() { g.done <- struct{}{} }()
		f()
	}()
}

// Wait reports whether all goroutines ended within d of simulated time.
//
//go:norace
func (g *Group) Wait(d time.Duration) bool {
	t := time.NewTimer(d)
	defer t.Stop()
	for g.n > 0 {
		select {
		case <-g.done:
			g.n--
		case <-t.C:
			return false
		}
	}
	return true
}

// Outcome summarises a finished run.
type Outcome struct {
	Res   runtime.SimResult
	Run   *Run
	Viols []Violation
}

// families maps a family name to its body and its leak property.
type family struct {
	body func(r *Run)
	leak string // properties violated by goroutines that never end
}

var families = map[string]family{}

// execute performs one simulated run of the plan.
func execute(p *Plan, trace bool) *Outcome {
	r := &Run{Plan: p, Trace: trace}
	cur = r
	fam, ok := families[p.Family]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown family", p.Family)
		os.Exit(3)
	}
	cfg := &runtime.SimConfig{Mode: p.Sched.Mode, Seed: p.Sched.Seed, YieldP: p.Sched.YieldP, PCTDepth: p.Sched.Depth, PCTLen: p.Sched.Len, StepLimit: p.Sched.Limit, TraceDP: p.Sched.DP, TraceCh: p.Sched.Ch}
	if cfg.StepLimit == 0 {
		cfg.StepLimit = 3 << 20
	}
	finished := false
	races := raceErrors()
	res := runtime.SimRun(cfg, func() {
		r.T0 = time.Now()
		fam.body(r)
		finished = true
		if trace && len(r.Viol) > 0 {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			r.Log = append(r.Log, "goroutines at the end of the run:\n"+string(buf))
		}
	})
	if raceOn && raceErrors() > races {
		for _, m := range raceReports() {
			r.violate("C23", "data-race", "unsynchronised accesses: %s", m)
		}
	}
	if !finished {
		r.violate("*", "deadlock", "every goroutine is blocked for ever; operations in progress: %s", strings.Join(r.pending(), "; "))
	} else if res.Leaked > 0 && len(r.Viol) == 0 && !raceOn {
		stacks := ""
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		stacks = leakedFrames(string(buf), res.Leaked)
		r.violate(fam.leak, "goroutine-leak", "%d goroutine(s) never end after every call finished and every connection and context was closed: %s", res.Leaked, stacks)
	}
	return &Outcome{Res: res, Run: r, Viols: r.Viol}
}

// leakedFrames summarises bubble goroutines from a stack dump (newest bubble only).
func leakedFrames(s string, n int) string {
	var out []string
	gs := strings.Split(s, "\n\n")
	for i := len(gs) - 1; i >= 0 && len(out) < n && len(out) < 4; i-- {
		g := gs[i]
		if !strings.Contains(g, "synctest group") {
			continue
		}
		var fr []string
		for _, l := range strings.Split(g, "\n")[1:] {
			if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "created by") {
				continue
			}
			if k := strings.LastIndexByte(l, '('); k > 0 {
				l = l[:k]
			}
			if k := strings.LastIndexByte(l, '/'); k >= 0 {
				l = l[k+1:]
			}
			fr = append(fr, l)
			if len(fr) == 6 {
				break
			}
		}
		out = append(out, strings.Join(fr, "<"))
	}
	sort.Strings(out)
	return strings.Join(out, " | ")
}

func initRuntime() {
	runtime.MemProfileRate = 0
	debug.SetGCPercent(-1)
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}
