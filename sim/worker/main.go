package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"strings"
	"time"
)

// Stats accumulates over the runs of a worker.
type Stats struct {
	Prop      string         `json:"prop"`
	Runs      int            `json:"runs"`
	Families  map[string]int `json:"families"`
	Faults    map[string]int `json:"faults"`
	Probes    map[string]int `json:"probes"`
	SimNanos  int64          `json:"simNanos"`
	Steps     uint64         `json:"steps"`
	Decisions uint64         `json:"decisions"`
	Switches  uint64         `json:"switches"`
	MaxGs     uint32         `json:"maxGs"`
	MaxSteps  uint64         `json:"maxSteps"`
	maxSeed   uint64
	Modes     map[string]int `json:"modes"`
	Topos     map[string]int `json:"topos"`
	Hashes    []uint64       `json:"hashes,omitempty"`
	Other     map[string]int `json:"other,omitempty"` // violations that belong to other properties
	Known     map[string]int `json:"known,omitempty"`
	Found     []Finding      `json:"found,omitempty"`
	RepOK     int            `json:"repOK"` // determinism self-checks passed
	RepBad    []uint64       `json:"repBad,omitempty"`
	Seconds   float64        `json:"seconds"`
	Samples   []*Plan        `json:"samples,omitempty"`
	NonTriv   int            `json:"nonTriv"`
}

// Finding is a violation with everything needed to replay it.
type Finding struct {
	Seed uint64      `json:"seed"`
	Viol []Violation `json:"viol"`
	Plan *Plan       `json:"plan"`
	Hash uint64      `json:"hash"`
	Log  []string    `json:"log,omitempty"`
}

func topoName(p *Plan) string {
	if p.RPC == nil {
		return p.Family
	}
	s := p.RPC.Topo
	for _, l := range p.RPC.Layers {
		s += "+" + l
	}
	if p.RPC.Topo2 != "" {
		s += "+" + p.RPC.Topo2
	}
	return s
}

func main() {
	initRuntime()
	prop := flag.String("prop", "", "property")
	start := flag.Uint64("start", 0, "first seed")
	stride := flag.Uint64("stride", 1, "seed stride")
	n := flag.Int("n", 1<<60, "number of runs")
	secs := flag.Float64("secs", 0, "wall clock budget")
	statusF := flag.String("status", "", "status file")
	outF := flag.String("out", "", "result file")
	replay := flag.String("replay", "", "replay a plan file")
	show := flag.Bool("show", false, "print plan and log")
	stopOn := flag.Int("stop", 1, "stop after this many findings")
	known := flag.String("known", "", "known findings file")
	minF := flag.String("minimise", "", "minimise the plan in this file")
	planOnly := flag.Bool("plan", false, "print the plan of -start")
	class := flag.String("class", "", "violation class to preserve (-minimise)")
	flag.Parse()
	if *minF != "" {
		doMinimise(*minF, *prop, *class, *secs)
		return
	}
	if *planOnly {
		b, _ := json.Marshal(genPlan(*prop, *start))
		fmt.Println(string(b))
		return
	}
	warmup()
	var kn []KnownFinding
	if *known != "" {
		kn = loadKnown(*known)
	}
	if *replay != "" {
		doReplay(*replay, *show)
		return
	}
	st := &Stats{Prop: *prop, Families: map[string]int{}, Faults: map[string]int{}, Probes: map[string]int{}, Modes: map[string]int{}, Topos: map[string]int{}, Other: map[string]int{}, Known: map[string]int{}}
	var sf *os.File
	if *statusF != "" {
		sf, _ = os.Create(*statusF)
	}
	t0 := time.Now()
	hs := map[uint64]struct{}{}
	seed := *start
	for i := 0; i < *n; i++ {
		if *secs > 0 && time.Since(t0).Seconds() > *secs {
			break
		}
		p := genPlan(*prop, seed)
		if sf != nil {
			_, _ = sf.WriteAt([]byte(fmt.Sprintf("%020d\n", seed)), 0)
		}
		o := execute(p, *show)
		if *show {
			printRun(p, o)
		}
		st.Runs++
		st.Families[p.Family]++
		st.Topos[topoName(p)]++
		st.Modes[fmt.Sprintf("%d", p.Sched.Mode)]++
		st.SimNanos += o.Res.Nanos
		st.Steps += o.Res.Steps
		st.Decisions += o.Res.Decisions
		st.Switches += o.Res.Switches
		if o.Res.Steps > st.MaxSteps {
			st.MaxSteps, st.maxSeed = o.Res.Steps, seed
		}
		if o.Res.Gs > st.MaxGs {
			st.MaxGs = o.Res.Gs
		}
		if _, dup := hs[o.Res.Hash]; !dup && o.Res.Decisions >= 2 && o.Res.Gs > 1 && len(o.Run.Probes.names) > 0 {
			st.NonTriv++
			if len(st.Samples) < 1 && len(o.Viols) == 0 {
				st.Samples = append(st.Samples, p)
			}
		}
		hs[o.Res.Hash] = struct{}{}
		o.Run.Faults.addTo(st.Faults)
		o.Run.Probes.addTo(st.Probes)
		hit := false
		for _, v := range o.Viols {
			if !propHit(v, *prop) {
				st.Other[v.Class+"/"+v.Props[0]]++
				continue
			}
			if k := matchKnown(kn, *prop, p, v); k != "" {
				st.Known[k]++
				continue
			}
			hit = true
		}
		if hit {
			q := *p
			st.Found = append(st.Found, Finding{Seed: seed, Viol: o.Viols, Plan: &q, Hash: o.Res.Hash})
			if len(st.Found) >= *stopOn {
				break
			}
		} else if i%64 == 0 {
			// the same seed must repeat the same execution exactly
			o2 := execute(genPlan(*prop, seed), false)
			if o2.Res.Hash == o.Res.Hash && o2.Res.Steps == o.Res.Steps {
				st.RepOK++
			} else {
				st.RepBad = append(st.RepBad, seed)
			}
		}
		if i%50 == 49 {
			runtime.GC()
		}
		seed += *stride
	}
	st.Seconds = time.Since(t0).Seconds()
	for h := range hs {
		st.Hashes = append(st.Hashes, h)
	}
	if *outF != "" {
		b, _ := json.Marshal(st)
		_ = os.WriteFile(*outF, b, 0o644)
	} else {
		fmt.Printf("prop=%s runs=%d distinct=%d secs=%.1f sim=%v steps=%d max=%d@%d other=%v repbad=%v\nfaults=%v\nprobes=%v\n", st.Prop, st.Runs, len(hs), st.Seconds, time.Duration(st.SimNanos), st.Steps, st.MaxSteps, st.maxSeed, st.Other, st.RepBad, st.Faults, st.Probes)
		for _, f := range st.Found {
			for _, v := range f.Viol {
				fmt.Printf("seed %d: %v %s: %s\n", f.Seed, v.Props, v.Class, v.Msg)
			}
		}
	}
	if len(st.Found) > 0 {
		os.Exit(1)
	}
}

func printRun(p *Plan, o *Outcome) {
	b, _ := json.Marshal(p)
	fmt.Println(string(b))
	for _, l := range o.Run.Log {
		fmt.Println(l)
	}
	fmt.Printf("hash=%x steps=%d decisions=%d leaked=%d sim=%v\n", o.Res.Hash, o.Res.Steps, o.Res.Decisions, o.Res.Leaked, time.Duration(o.Res.Nanos))
	for _, v := range o.Viols {
		fmt.Printf("VIOL %v %s: %s\n", v.Props, v.Class, v.Msg)
	}
}

func doReplay(path string, show bool) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	p := &Plan{}
	if err := json.Unmarshal(b, p); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	o := execute(p, show)
	if show {
		printRun(p, o)
	}
	res := ReplayResult{Viol: o.Viols, Hash: o.Res.Hash, Steps: o.Res.Steps, DP: o.Res.TraceDP, Ch: o.Res.TraceCh, Overflow: o.Res.Overflow, Nanos: o.Res.Nanos, Log: o.Run.Log, Faults: o.Run.Faults.toMap()}
	js, _ := json.Marshal(res)
	fmt.Printf("RESULT %s\n", js)
}

// ReplayResult is printed by -replay.
type ReplayResult struct {
	Viol     []Violation    `json:"viol"`
	Hash     uint64         `json:"hash"`
	Steps    uint64         `json:"steps"`
	DP       []uint32       `json:"dp"`
	Ch       []uint16       `json:"ch"`
	Overflow bool           `json:"overflow"`
	Nanos    int64          `json:"nanos"`
	Log      []string       `json:"log"`
	Faults   map[string]int `json:"faults"`
}

// KnownFinding identifies a recorded, unrepaired defect. It matches one
// specific failure: the class, the family and a pattern on the message.
type KnownFinding struct {
	Property string `json:"property"`
	Family   string `json:"family"`
	Class    string `json:"class"`
	Match    string `json:"match"` // regular expression on the message
	What     string `json:"what"`
	re       *regexp.Regexp
}

func loadKnown(path string) []KnownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var kn []KnownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue
		}
		k := KnownFinding{}
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			fmt.Fprintln(os.Stderr, "known findings:", err)
			os.Exit(3)
		}
		k.re = regexp.MustCompile(k.Match)
		kn = append(kn, k)
	}
	return kn
}

// matchKnown returns the description of the known finding v is, or "".
func matchKnown(kn []KnownFinding, prop string, p *Plan, v Violation) string {
	for _, k := range kn {
		if k.Property == prop && (k.Family == "" || k.Family == p.Family) && k.Class == v.Class && k.re.MatchString(v.Msg) {
			return k.What
		}
	}
	return ""
}

// warmup runs a fixed set of plans so that state initialised once per process
// (lazily built tables, registries) does not depend on the first checked seed.
func warmup() {
	for _, id := range []string{"C01", "C06", "C16", "C21"} {
		for s := uint64(1 << 40); s < 1<<40+6; s++ {
			p := genPlan(id, s)
			if p.RPC != nil {
				p.RPC.Wrap = []string{"vclient", "set", "prefix", "vmux", "fallback", "slice", "prefixinv"}
			}
			execute(p, false)
		}
	}
	runtime.GC()
	raceReports() // discard: races are not reported once per process, so they recur
}
