package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"
)

// Minimisation: every candidate is executed in a fresh subprocess, because a
// violation may be a crash of the process. A candidate is kept only if it shows
// a violation of the same property and class.

func clonePlan(p *Plan) *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

// reducers list smaller variants of a plan, per family. Every variant must be
// a plan for which the oracles are valid.
var reducers = map[string]func(p *Plan) []*Plan{}

func reduceSched(p *Plan) []*Plan {
	var out []*Plan
	add := func(f func(q *Plan)) {
		q := clonePlan(p)
		f(q)
		out = append(out, q)
	}
	s := p.Sched
	if s.Mode == 3 {
		return nil
	}
	if s.Mode != 1 {
		add(func(q *Plan) { q.Sched = Sched{Mode: 1, Seed: s.Seed, Limit: s.Limit} })
	}
	if s.Mode == 2 && s.Depth > 1 {
		add(func(q *Plan) { q.Sched.Depth = 1 })
		add(func(q *Plan) { q.Sched.Depth = s.Depth / 2 })
	}
	if s.Mode == 0 && s.YieldP > 0 {
		add(func(q *Plan) { q.Sched.YieldP = 0 })
	}
	return out
}

type minimiser struct {
	prop, class string
	self        string
	dir         string
	deadline    time.Time
	tries       int
}

// run executes a plan in a subprocess.
func (m *minimiser) run(p *Plan) (*ReplayResult, bool) {
	m.tries++
	res, err := runSub(m.self, m.dir, p)
	if err != nil {
		return nil, false
	}
	for _, v := range res.Viol {
		if v.Class == m.class && propHit(v, m.prop) {
			return res, true
		}
	}
	return res, false
}

// runSub replays the plan in a subprocess; a crash becomes a violation.
func runSub(self, dir string, p *Plan) (*ReplayResult, error) {
	b, _ := json.Marshal(p)
	f, err := os.CreateTemp(dir, "cand-*.json")
	if err != nil {
		return nil, err
	}
	defer os.Remove(f.Name())
	_, _ = f.Write(b)
	f.Close()
	cmd := exec.Command(self, "-replay", f.Name())
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GOMAXPROCS=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "GOMAXPROCS=1") // the simulator needs a single processor to be deterministic
	var so, se strings.Builder
	cmd.Stdout, cmd.Stderr = &so, &se
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(60 * time.Second):
		_ = cmd.Process.Kill()
		<-done
		return nil, fmt.Errorf("timeout")
	}
	if i := strings.Index(so.String(), "RESULT "); i >= 0 && err == nil {
		res := &ReplayResult{}
		if err := json.Unmarshal([]byte(so.String()[i+7:]), res); err != nil {
			return nil, err
		}
		return res, nil
	}
	if v, ok := crashViolation(se.String()); ok {
		return &ReplayResult{Viol: []Violation{v}}, nil
	}
	return nil, fmt.Errorf("no result: %v", err)
}

// crashViolation classifies the stderr of a worker that crashed.
func crashViolation(se string) (Violation, bool) {
	v := Violation{Props: []string{"*"}}
	first := func(pfx string) string {
		i := strings.Index(se, pfx)
		if i < 0 {
			return ""
		}
		l := se[i:]
		if k := strings.IndexByte(l, '\n'); k >= 0 {
			l = l[:k]
		}
		return l
	}
	switch {
	case strings.Contains(se, "WARNING: DATA RACE"):
		v.Class = "data-race"
		v.Props = []string{"C23"}
		v.Msg = raceSummary(se)
	case strings.Contains(se, "SIM-STEP-LIMIT"):
		v.Class, v.Msg = "livelock", "the run never quiesces: step limit exceeded without simulated time advancing"
	case first("panic: ") != "":
		v.Class, v.Msg = "panic", first("panic: ")+" at "+panicSite(se)
	case first("fatal error: ") != "":
		v.Class, v.Msg = "fatal", first("fatal error: ")+" at "+panicSite(se)
	default:
		return v, false
	}
	return v, true
}

// panicSite returns the first frame of the program under test.
func panicSite(se string) string {
	for _, l := range strings.Split(se, "\n") {
		if strings.HasPrefix(l, "github.com/aperturerobotics/") {
			if k := strings.LastIndexByte(l, '('); k > 0 {
				l = l[:k]
			}
			return l
		}
	}
	return "(no frame of the program under test)"
}

// raceSummary lists the two accesses of the first race report.
func raceSummary(se string) string {
	i := strings.Index(se, "WARNING: DATA RACE")
	se = se[i:]
	var out []string
	lines := strings.Split(se, "\n")
	for k := 0; k < len(lines) && len(out) < 2; k++ {
		l := lines[k]
		if strings.Contains(l, " at 0x") && strings.Contains(l, " by ") {
			what := strings.TrimSpace(l)
			if a := strings.Index(what, " at 0x"); a > 0 {
				what = what[:a]
			}
			// innermost frame outside package runtime
			for j := k + 1; j < len(lines) && strings.TrimSpace(lines[j]) != ""; j += 2 {
				fn := strings.TrimSpace(lines[j])
				if strings.HasPrefix(fn, "runtime.") || strings.HasPrefix(fn, "sync/atomic.") || strings.HasPrefix(fn, "internal/") {
					continue
				}
				what += " in " + fn
				if j+1 < len(lines) {
					loc := strings.Fields(lines[j+1])
					if len(loc) > 0 {
						what += " " + loc[0]
					}
				}
				break
			}
			out = append(out, what)
		}
	}
	return strings.Join(out, "; ")
}

// minimise reduces the plan and returns the smallest one that still fails.
func minimise(p *Plan, prop, class string, secs float64) (*Plan, *ReplayResult, int) {
	self, err := os.Executable()
	if err != nil {
		return p, nil, 0
	}
	dir, err := os.MkdirTemp("", "simmin")
	if err != nil {
		return p, nil, 0
	}
	defer os.RemoveAll(dir)
	m := &minimiser{prop: prop, class: class, self: self, dir: dir, deadline: time.Now().Add(time.Duration(secs * float64(time.Second)))}
	best := p
	res, ok := m.run(best)
	if !ok {
		return p, res, m.tries // does not reproduce: report as is
	}
	for progress := true; progress && time.Now().Before(m.deadline); {
		progress = false
		var cands []*Plan
		if f := reducers[p.Family]; f != nil {
			cands = f(best)
		}
		cands = append(cands, reduceSched(best)...)
		// try candidates in parallel batches, take the first success of a batch
		for i := 0; i < len(cands) && time.Now().Before(m.deadline); i += 8 {
			n := min(8, len(cands)-i)
			type r struct {
				res *ReplayResult
				ok  bool
			}
			rs := make([]chan r, n)
			for j := 0; j < n; j++ {
				rs[j] = make(chan r, 1)
				go func() {
					mm := *m
					a, b := mm.run(cands[i+j])
					rs[j] <- r{a, b}
				}()
			}
			m.tries += n
			hit := false
			for j := 0; j < n; j++ {
				x := <-rs[j]
				if x.ok && !hit {
					hit = true
					best, res = cands[i+j], x.res
				}
			}
			if hit {
				progress = true
				break
			}
		}
	}
	// make the schedule explicit, then drop context switches that do not matter
	if res != nil && !res.Overflow && len(res.DP) > 0 && best.Sched.Mode != 3 {
		q := clonePlan(best)
		q.Sched.Mode, q.Sched.DP, q.Sched.Ch = 3, res.DP, res.Ch
		if r2, ok := m.run(q); ok {
			best, res = q, r2
			step := (len(best.Sched.DP) + 1) / 2
			for step >= 1 && time.Now().Before(m.deadline) {
				removed := false
				for i := 0; i < len(best.Sched.DP) && time.Now().Before(m.deadline); {
					q := clonePlan(best)
					e := min(i+step, len(q.Sched.DP))
					q.Sched.DP = append(q.Sched.DP[:i:i], q.Sched.DP[e:]...)
					q.Sched.Ch = append(q.Sched.Ch[:i:i], q.Sched.Ch[e:]...)
					if r3, ok := m.run(q); ok {
						best, res, removed = q, r3, true
					} else {
						i += step
					}
				}
				if step == 1 && !removed {
					break
				}
				if step > 1 {
					step /= 2
				}
			}
		}
	}
	return best, res, m.tries
}

// MinResult is printed by -minimise.
type MinResult struct {
	Plan  *Plan         `json:"plan"`
	Res   *ReplayResult `json:"res"`
	Tries int           `json:"tries"`
}

func doMinimise(path, prop, class string, secs float64) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	p := &Plan{}
	if err := json.Unmarshal(b, p); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	q, res, n := minimise(p, prop, class, secs)
	js, _ := json.Marshal(MinResult{q, res, n})
	fmt.Printf("MIN %s\n", js)
}

func init() { reducers["rpc"] = reduceRPC }

func reduceRPC(p *Plan) []*Plan {
	var out []*Plan
	add := func(f func(q *RPCPlan)) {
		q := clonePlan(p)
		f(q.RPC)
		out = append(out, q)
	}
	r := p.RPC
	for i := range r.Calls {
		if len(r.Calls) == 1 {
			break
		}
		add(func(q *RPCPlan) {
			q.Calls = append(q.Calls[:i], q.Calls[i+1:]...)
			if q.Topo == "direct" {
				var fs []Fault
				for _, f := range q.Faults {
					if f.Conn < 100 {
						if f.Conn == i {
							continue
						}
						if f.Conn > i {
							f.Conn--
						}
					}
					fs = append(fs, f)
				}
				q.Faults = fs
			}
		})
	}
	for i := range r.Faults {
		add(func(q *RPCPlan) { q.Faults = append(q.Faults[:i], q.Faults[i+1:]...) })
	}
	for i := range r.Layers {
		add(func(q *RPCPlan) {
			if q.Layers[i] == "proxy" {
				var fs []Fault
				for _, f := range q.Faults {
					if f.Conn < 100 {
						fs = append(fs, f)
					}
				}
				q.Faults = fs
				q.Topo2 = ""
			}
			q.Layers = append(q.Layers[:i], q.Layers[i+1:]...)
			if len(q.Layers) == 0 {
				for k := range q.Calls {
					q.Calls[k].BadComp = ""
				}
			} else {
				for _, l := range q.Layers {
					if l == "proxy" {
						q.Topo2 = p.RPC.Topo2
					}
				}
			}
		})
	}
	if r.Comp != nil {
		add(func(q *RPCPlan) { q.Comp = nil })
	}
	for i := range r.Wrap {
		add(func(q *RPCPlan) { q.Wrap = append(q.Wrap[:i], q.Wrap[i+1:]...) })
	}
	n := r.Net
	if n.Chunk != 0 {
		add(func(q *RPCPlan) { q.Net.Chunk = 0 })
	}
	if n.DelayP != 0 {
		add(func(q *RPCPlan) { q.Net.DelayP, q.Net.MaxMs = 0, 0 })
	}
	if n.Cap != 0 {
		add(func(q *RPCPlan) { q.Net.Cap = 0 })
	}
	if n.Rendez {
		add(func(q *RPCPlan) { q.Net.Rendez = false })
	}
	if n.EOFData {
		add(func(q *RPCPlan) { q.Net.EOFData = false })
	}
	if r.Serial {
		add(func(q *RPCPlan) { q.Serial = false })
	}
	for i := range r.Calls {
		c := r.Calls[i]
		addc := func(f func(c *CallPlan)) { add(func(q *RPCPlan) { f(&q.Calls[i]) }) }
		if c.Abort != nil {
			addc(func(c *CallPlan) { c.Abort = nil })
			if c.Abort.Ms > 0 {
				addc(func(c *CallPlan) { c.Abort.Ms = 0 })
			}
		}
		if c.StartMs > 0 {
			addc(func(c *CallPlan) { c.StartMs = 0 })
		}
		if c.Proto {
			addc(func(c *CallPlan) { c.Proto = false })
		}
		if c.NoClose {
			addc(func(c *CallPlan) { c.NoClose = false })
		}
		if c.Ret != "" && c.Kind == "stream" {
			addc(func(c *CallPlan) { c.Ret = "" })
		}
		if c.First > 20 {
			addc(func(c *CallPlan) { c.First = 20 })
		}
		scripts := func(c *CallPlan) []*[]Op { return []*[]Op{&c.A, &c.B, &c.SA, &c.SB} }
		for k, s := range scripts(&c) {
			for j, o := range *s {
				del := func(c *CallPlan) {
					t := scripts(c)[k]
					*t = append((*t)[:j], (*t)[j+1:]...)
				}
				switch o.Do {
				case "sleep":
					addc(del)
				case "send":
					if o.N > 20 {
						addc(func(c *CallPlan) { (*scripts(c)[k])[j].N = 20 })
					}
					// drop the message together with its receive
					peers := [][]int{{2, 3}, {2, 3}, {0, 1}, {0, 1}}[k]
					if c.Kind == "stream" {
						for _, pk := range peers {
							for pj, po := range *scripts(&c)[pk] {
								if po.Do == "recv" && po.N == 1 {
									addc(func(c *CallPlan) {
										del(c)
										t := scripts(c)[pk]
										*t = append((*t)[:pj], (*t)[pj+1:]...)
									})
									break
								}
							}
						}
					}
				case "psend":
					if o.K > 2 {
						addc(func(c *CallPlan) {
							c0 := &(*scripts(c)[k])[j]
							old := c0.K
							c0.K = 2
							peers := [][]int{{2, 3}, {2, 3}, {0, 1}, {0, 1}}[k]
							for _, pk := range peers {
								for pj, po := range *scripts(c)[pk] {
									if po.Do == "recv" && po.N == old {
										(*scripts(c)[pk])[pj].N = 2
										return
									}
								}
							}
						})
					}
				}
			}
		}
	}
	return out
}
