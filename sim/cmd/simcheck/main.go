// simcheck builds the simulation worker from the current working tree of the
// repository, searches seeds in parallel worker processes, minimises what it
// finds, and writes the evidence of the run.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"simverif/internal/build"
)

var (
	prop    = flag.String("prop", "", "property id")
	tier    = flag.String("tier", "", "quick or thorough (default $VERIF_TIER or quick)")
	secs    = flag.Float64("secs", 0, "search time per check (default by tier)")
	replay  = flag.String("replay", "", "replay file")
	verif   = flag.String("verif", "/verif", "verification directory")
	repo    = flag.String("repo", "/repo", "repository")
	buildF  = flag.Bool("build", false, "only build")
	jobs    = flag.Int("jobs", runtime.NumCPU(), "worker processes")
	goroot  = "/opt/veriftools/go1.24.13"
	scratch string
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simcheck: "+f+"\n", a...)
	os.Exit(3)
}

type stats struct {
	Runs      int               `json:"runs"`
	Families  map[string]int    `json:"families"`
	Faults    map[string]int    `json:"faults"`
	Probes    map[string]int    `json:"probes"`
	SimNanos  int64             `json:"simNanos"`
	Steps     uint64            `json:"steps"`
	Decisions uint64            `json:"decisions"`
	Switches  uint64            `json:"switches"`
	MaxGs     uint32            `json:"maxGs"`
	MaxSteps  uint64            `json:"maxSteps"`
	Modes     map[string]int    `json:"modes"`
	Topos     map[string]int    `json:"topos"`
	Hashes    []uint64          `json:"hashes"`
	Other     map[string]int    `json:"other"`
	Known     map[string]int    `json:"known"`
	Found     []finding         `json:"found"`
	RepOK     int               `json:"repOK"`
	RepBad    []uint64          `json:"repBad"`
	Seconds   float64           `json:"seconds"`
	Samples   []json.RawMessage `json:"samples"`
	NonTriv   int               `json:"nonTriv"`
}

type violation struct {
	Props []string `json:"props"`
	Class string   `json:"class"`
	Msg   string   `json:"msg"`
}

type finding struct {
	Seed uint64          `json:"seed"`
	Viol []violation     `json:"viol"`
	Plan json.RawMessage `json:"plan"`
	Hash uint64          `json:"hash"`
	kind kind
}

type replayFile struct {
	Property  string          `json:"property"`
	Seed      uint64          `json:"seed"`
	Class     string          `json:"class"`
	Message   string          `json:"message"`
	Hash      string          `json:"hash"`
	Race      bool            `json:"race,omitempty"`
	Fresh     bool            `json:"freshlyGenerated,omitempty"` // built with the output of the code generator in the tree
	Command   string          `json:"command"`
	Tries     int             `json:"minimisationRuns"`
	Original  json.RawMessage `json:"original,omitempty"`
	Plan      json.RawMessage `json:"plan"`
	Trace     []string        `json:"trace,omitempty"`
	Confirmed bool            `json:"confirmed"`
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e, '=')]
		switch k {
		case "PATH", "GOTOOLCHAIN", "GOPROXY", "GOFLAGS", "GOWORK", "GOPATH", "GOMODCACHE", "GOCACHE", "GOROOT", "GODEBUG", "GOMAXPROCS", "GORACE", "GOEXPERIMENT", "GOOS", "GOARCH", "CGO_ENABLED", "GOGC":
			continue
		}
		env = append(env, e)
	}
	cache := filepath.Join(*verif, ".build", "gocache")
	return append(env, "PATH="+goroot+"/bin:"+os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE="+cache)
}

// kind is a way to build the worker; ts is the worker of the TypeScript library.
type kind struct{ race, fresh, ts bool }

// isTS tells if a property is one of the TypeScript library.
func isTS(prop string) bool { return prop >= "C27" && prop <= "C33" }

// buildTS bundles the TypeScript worker with the sources of the repository.
func buildTS(fresh bool) (string, error) {
	node := "node"
	if _, err := exec.LookPath(node); err != nil {
		node = "/usr/bin/node"
	}
	bin := filepath.Join(scratch, "tsworker")
	args := []string{filepath.Join(*verif, "simts", "build.mjs"), *repo}
	if fresh {
		bin += "-fresh"
		args = append(args, bin+".mjs", "fresh")
	} else {
		args = append(args, bin+".mjs")
	}
	out := bin + ".mjs"
	cmd := exec.Command(node, args...)
	if b, err := cmd.CombinedOutput(); err != nil {
		code := cmd.ProcessState.ExitCode()
		err = fmt.Errorf("the TypeScript worker does not build from %s: %v\n%s", *repo, err, b)
		switch code {
		case 3:
			err = &brokenCode{err}
		case 4:
			err = &unsupported{err}
		}
		return "", err
	}
	sh := "#!/bin/sh\nexec " + node + " --stack-size=900 --max-old-space-size=1500 " + out + " \"$@\"\n"
	return bin, os.WriteFile(bin, []byte(sh), 0o755)
}

// brokenCode is the output of a failed build against freshly generated code.
type brokenCode struct{ error }

// unsupported is the reason why the generator cannot be run here.
type unsupported struct{ error }

// buildWorker builds the worker binary, with the race detector, or with freshly
// generated code instead of the generated code in the tree.
func buildWorker(k kind) (string, build.Sites) {
	out, sites, err := tryBuild(k)
	if err != nil {
		die("%v", err)
	}
	return out, sites
}

func tryBuild(k kind) (string, build.Sites, error) {
	if k.ts {
		bin, err := buildTS(k.fresh)
		return bin, nil, err
	}
	ovDir := filepath.Join(*verif, ".build", "overlay")
	var repl map[string]string
	if k.fresh {
		ovDir += "-fresh"
		var err error
		if repl, err = build.GeneratedCode(filepath.Join(goroot, "bin/go"), *repo, filepath.Join(*verif, "sim"), scratch, goEnv()); err != nil {
			if errors.Is(err, build.ErrGenerator) {
				err = &brokenCode{err}
			}
			return "", nil, err
		}
	}
	inst := map[string]bool{}
	for _, d := range []string{"srpc", "rpcstream", "echo", "mock"} {
		inst[filepath.Join(*repo, d)] = true
	}
	ov, sites, err := build.Generate(goroot, ovDir, inst, repl)
	if err != nil {
		if k.fresh {
			return "", nil, &brokenCode{err}
		}
		return "", nil, fmt.Errorf("overlay: %v", err)
	}
	out := filepath.Join(scratch, "worker")
	if k.fresh {
		out += "-fresh"
	}
	args := []string{"build", "-overlay", ov, "-o", out}
	if k.race {
		out += "-race"
		args = []string{"build", "-race", "-gcflags=simverif/worker=-race=false", "-overlay", ov, "-o", out}
	}
	if k.fresh {
		args = append(args, "-tags", "simfresh")
	}
	args = append(args, "./worker")
	cmd := exec.Command(filepath.Join(goroot, "bin/go"), args...)
	cmd.Dir = filepath.Join(*verif, "sim")
	cmd.Env = goEnv()
	b, err := cmd.CombinedOutput()
	if err != nil {
		err = fmt.Errorf("the worker does not build from %s: %v\n%s", *repo, err, b)
		if k.fresh {
			err = &brokenCode{err}
		}
		return "", nil, err
	}
	return out, sites, nil
}

func workerEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GO") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1",
		// every report, every time: what a run shows must not depend on earlier runs of the process
		"GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+filepath.Join(scratch, "race"), "GOTRACEBACK=single")
}

// crash is a worker that died on a seed.
type crash struct {
	kind   kind
	seed   uint64
	stderr string
	hung   bool
}

// runWorker searches from start with the given stride for at most secs.
func runWorker(bin string, start, stride uint64, secs float64, id int) (stats, *crash, error) {
	st := stats{}
	outF := filepath.Join(scratch, fmt.Sprintf("out-%d-%d", id, start))
	statusF := filepath.Join(scratch, fmt.Sprintf("status-%d-%d", id, start))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-prop", *prop, "-start", fmt.Sprint(start), "-stride", fmt.Sprint(stride), "-secs", fmt.Sprintf("%.2f", secs),
		"-out", outF, "-status", statusF, "-known", filepath.Join(*verif, "known-findings.txt"))
	cmd.Env = workerEnv()
	var se bytes.Buffer
	cmd.Stderr = &se
	if err := cmd.Start(); err != nil {
		return st, nil, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	readSeed := func() uint64 {
		b, _ := os.ReadFile(statusF)
		n, _ := strconv.ParseUint(strings.TrimLeft(strings.TrimSpace(string(b)), "0"), 10, 64)
		return n
	}
	var last uint64
	lastAt := time.Now()
	hung := false
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
wait:
	for {
		select {
		case <-done:
			break wait
		case <-tick.C:
			if s := readSeed(); s != last {
				last, lastAt = s, time.Now()
			} else if time.Since(lastAt) > 90*time.Second {
				hung = true
				cancel()
				<-done
				break wait
			}
		}
	}
	seed := readSeed()
	if b, err := os.ReadFile(outF); err == nil && !hung {
		if err := json.Unmarshal(b, &st); err != nil {
			return st, nil, err
		}
		return st, nil, nil
	}
	return st, &crash{seed: seed, stderr: se.String(), hung: hung}, nil
}

func add(a map[string]int, b map[string]int) {
	for k, v := range b {
		a[k] += v
	}
}

func main() {
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			die("bad VERIF_SEED %q", s)
		}
		seed = uint64(n)
	}
	var err error
	scratch, err = os.MkdirTemp("", "simcheck")
	if err != nil {
		die("%v", err)
	}
	code := run(seed)
	_ = os.RemoveAll(scratch)
	os.Exit(code)
}

func run(seed uint64) int {
	t0 := time.Now()
	if *buildF {
		buildWorker(kind{})
		buildWorker(kind{race: true})
		_, _, _ = tryBuild(kind{fresh: true})
		buildWorker(kind{ts: true})
		_, _, _ = tryBuild(kind{ts: true, fresh: true})
		return 0
	}
	if *replay != "" {
		return doReplay()
	}
	if *prop == "" {
		die("-prop or -replay required")
	}
	k0 := kind{race: *prop == "C23", ts: isTS(*prop)}
	bin0, sites := buildWorker(k0)
	bins := map[kind]string{k0: bin0}
	kinds := []kind{k0}
	if *prop == "C26" || *prop == "C27" {
		// half of the workers run freshly generated code
		k := kind{fresh: true, ts: k0.ts}
		b, _, err := tryBuild(k)
		if bc := (&brokenCode{}); errors.As(err, &bc) {
			msg := strings.TrimSpace(bc.Error())
			report("", k, 0, violation{Class: "generated-code-broken", Msg: msg}, nil, 0)
			writeEvidence(seed, stats{}, 0, sites, time.Since(t0).Seconds(), 0, time.Since(t0).Seconds(), 1)
			return 1
		} else if u := (&unsupported{}); errors.As(err, &u) {
			fmt.Fprintf(os.Stderr, "note: only the generated code in the tree is run: %v\n", err)
		} else if err != nil {
			die("%v", err)
		} else {
			bins[k] = b
			kinds = append(kinds, k)
		}
	}
	buildS := time.Since(t0).Seconds()
	budget := *secs
	if budget == 0 {
		budget = 30
		if *tier == "thorough" {
			budget = 600
		}
	}
	if b := os.Getenv("VERIF_SECS"); b != "" && *secs == 0 {
		if v, err := strconv.ParseFloat(b, 64); err == nil {
			budget = v
		}
	}
	var mu sync.Mutex
	tot := stats{Families: map[string]int{}, Faults: map[string]int{}, Probes: map[string]int{}, Modes: map[string]int{}, Topos: map[string]int{}, Other: map[string]int{}, Known: map[string]int{}}
	hashes := map[uint64]struct{}{}
	var crashes []*crash
	var errs []error
	var wg sync.WaitGroup
	base := seed * 1_000_000_007 % (1 << 40)
	t1 := time.Now()
	for i := 0; i < *jobs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			k := kinds[i%len(kinds)]
			st, cr, err := runWorker(bins[k], base+uint64(i), uint64(*jobs), budget, i)
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				errs = append(errs, err)
				return
			}
			for j := range st.Found {
				st.Found[j].kind = k
			}
			if cr != nil {
				cr.kind = k
				crashes = append(crashes, cr)
				return
			}
			tot.Runs += st.Runs
			tot.SimNanos += st.SimNanos
			tot.Steps += st.Steps
			tot.Decisions += st.Decisions
			tot.Switches += st.Switches
			tot.MaxGs = max(tot.MaxGs, st.MaxGs)
			tot.MaxSteps = max(tot.MaxSteps, st.MaxSteps)
			tot.RepOK += st.RepOK
			tot.NonTriv += st.NonTriv
			tot.RepBad = append(tot.RepBad, st.RepBad...)
			tot.Found = append(tot.Found, st.Found...)
			if len(tot.Samples) < 3 {
				tot.Samples = append(tot.Samples, st.Samples...)
			}
			add(tot.Families, st.Families)
			add(tot.Faults, st.Faults)
			add(tot.Probes, st.Probes)
			add(tot.Modes, st.Modes)
			add(tot.Topos, st.Topos)
			add(tot.Other, st.Other)
			add(tot.Known, st.Known)
			for _, h := range st.Hashes {
				hashes[h] = struct{}{}
			}
		}()
	}
	wg.Wait()
	searchS := time.Since(t1).Seconds()
	if len(errs) > 0 {
		die("worker: %v", errs[0])
	}
	sort.Slice(tot.Found, func(i, j int) bool { return tot.Found[i].Seed < tot.Found[j].Seed })
	sort.Slice(crashes, func(i, j int) bool { return crashes[i].seed < crashes[j].seed })

	nViol := 0
	code := 0
	if len(tot.Found) > 0 {
		f := tot.Found[0]
		v := pickViol(f.Viol)
		nViol = len(tot.Found)
		report(bins[f.kind], f.kind, f.Seed, v, f.Plan, f.Hash)
		code = 1
	} else if len(crashes) > 0 {
		c := crashes[0]
		nViol = len(crashes)
		plan := getPlan(bins[c.kind], c.seed)
		v := classify(c)
		if v.Class == "" {
			die("a worker ended without a result at seed %d:\n%s", c.seed, tail(c.stderr, 4000))
		}
		report(bins[c.kind], c.kind, c.seed, v, plan, 0)
		if len(c.stderr) > 0 {
			fmt.Fprintln(os.Stderr, tail(c.stderr, 3000))
		}
		code = 1
	}
	for k := range tot.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (seen in %d runs)\n", *prop, k, tot.Known[k])
	}
	if code == 0 && len(tot.RepBad) > 0 {
		fmt.Fprintf(os.Stderr, "simcheck: warning: seeds %v gave two different executions (state kept by the process between runs)\n", tot.RepBad)
	}
	if code == 0 && tot.Runs == 0 {
		die("no runs")
	}
	writeEvidence(seed, tot, len(hashes), sites, buildS, searchS, time.Since(t0).Seconds(), nViol)
	if code == 0 {
		fmt.Printf("OK property=%s tier=%s runs=%d distinct=%d simulated=%.0fh search=%.1fs build=%.1fs faults=%d\n", *prop, *tier, tot.Runs, len(hashes), float64(tot.SimNanos)/3.6e12, searchS, buildS, sum(tot.Faults))
	}
	return code
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n..."
	}
	return s
}

func pickViol(vs []violation) violation {
	for _, v := range vs {
		for _, p := range v.Props {
			if p == *prop || p == "*" {
				return v
			}
		}
	}
	return vs[0]
}

func getPlan(bin string, seed uint64) json.RawMessage {
	cmd := exec.Command(bin, "-prop", *prop, "-start", fmt.Sprint(seed), "-plan")
	cmd.Env = workerEnv()
	b, err := cmd.Output()
	if err != nil {
		return nil
	}
	return json.RawMessage(bytes.TrimSpace(b))
}

// classify names the violation of a crashed worker (see crashViolation in the worker).
func classify(c *crash) violation {
	se := c.stderr
	switch {
	case c.hung:
		return violation{Class: "hang", Msg: "the run did not finish within 90 s of wall-clock time"}
	case strings.Contains(se, "SIM-STEP-LIMIT"):
		return violation{Class: "livelock", Msg: "step limit exceeded: the run never quiesces"}
	case strings.Contains(se, "JavaScript heap out of memory"):
		return violation{Class: "out-of-memory", Msg: "the run used more than 1.5 GB of memory"}
	case strings.Contains(se, "panic: "), strings.Contains(se, "fatal error: "):
		cl := "panic"
		i := strings.Index(se, "panic: ")
		if i < 0 {
			cl, i = "fatal", strings.Index(se, "fatal error: ")
		}
		l := se[i:]
		if k := strings.IndexByte(l, '\n'); k >= 0 {
			l = l[:k]
		}
		return violation{Class: cl, Msg: l}
	}
	return violation{}
}

func report(bin string, k kind, seed uint64, v violation, plan json.RawMessage, hash uint64) {
	dir := filepath.Join(*verif, "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", *prop, seed))
	rf := replayFile{Property: *prop, Seed: seed, Class: v.Class, Message: v.Msg, Race: k.race, Fresh: k.fresh, Plan: plan, Original: plan, Command: "bash /verif/check.sh -replay " + path, Hash: fmt.Sprintf("%x", hash)}
	if plan != nil && v.Class != "hang" {
		in := filepath.Join(scratch, "min.json")
		_ = os.WriteFile(in, plan, 0o644)
		ms := 25.0
		if *tier == "thorough" {
			ms = 120
		}
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms+60)*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, bin, "-minimise", in, "-prop", *prop, "-class", v.Class, "-secs", fmt.Sprint(ms))
		cmd.Env = append(workerEnv(), "GOMAXPROCS=8")
		b, err := cmd.Output()
		if i := bytes.Index(b, []byte("MIN ")); err == nil && i >= 0 {
			var mr struct {
				Plan json.RawMessage `json:"plan"`
				Res  *struct {
					Viol []violation `json:"viol"`
					Hash uint64      `json:"hash"`
				} `json:"res"`
				Tries int `json:"tries"`
			}
			if json.Unmarshal(b[i+4:], &mr) == nil && mr.Plan != nil {
				rf.Plan, rf.Tries = mr.Plan, mr.Tries
				if mr.Res != nil {
					for _, w := range mr.Res.Viol {
						if w.Class == v.Class {
							rf.Message, rf.Confirmed = w.Msg, true
							rf.Hash = fmt.Sprintf("%x", mr.Res.Hash)
							break
						}
					}
				}
			}
		}
		// record the event trace of the minimised run
		in2 := filepath.Join(scratch, "final.json")
		_ = os.WriteFile(in2, rf.Plan, 0o644)
		ctx2, cancel2 := context.WithTimeout(context.Background(), 90*time.Second)
		defer cancel2()
		cmd = exec.CommandContext(ctx2, bin, "-replay", in2, "-show")
		cmd.Env = workerEnv()
		b, _ = cmd.Output()
		if i := bytes.Index(b, []byte("RESULT ")); i >= 0 {
			var rr struct {
				Log []string `json:"log"`
			}
			if json.Unmarshal(b[i+7:], &rr) == nil {
				rf.Trace = rr.Log
			}
		}
	}
	js, _ := json.MarshalIndent(rf, "", " ")
	_ = os.WriteFile(path, js, 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
	fmt.Printf("  seed=%d class=%s: %s\n", seed, rf.Class, rf.Message)
}

func doReplay() int {
	b, err := os.ReadFile(*replay)
	if err != nil {
		die("%v", err)
	}
	rf := replayFile{}
	if err := json.Unmarshal(b, &rf); err != nil {
		die("%v", err)
	}
	*prop = rf.Property
	bin, _, err := tryBuild(kind{race: rf.Race, fresh: rf.Fresh, ts: isTS(rf.Property)})
	if bc := (&brokenCode{}); errors.As(err, &bc) {
		fmt.Printf("VIOLATION property=%s replay=%s\n  class=generated-code-broken: %s\n", rf.Property, *replay, strings.TrimSpace(bc.Error()))
		return 1
	} else if err != nil {
		die("%v", err)
	}
	if rf.Plan == nil || string(rf.Plan) == "null" {
		fmt.Println("the generated code builds")
		return 0
	}
	in := filepath.Join(scratch, "plan.json")
	_ = os.WriteFile(in, rf.Plan, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-replay", in, "-show")
	cmd.Env = workerEnv()
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	if i := bytes.Index(so.Bytes(), []byte("RESULT ")); i >= 0 && err == nil {
		os.Stdout.Write(so.Bytes()[:i])
		var rr struct {
			Viol []violation `json:"viol"`
			Hash uint64      `json:"hash"`
		}
		_ = json.Unmarshal(so.Bytes()[i+7:], &rr)
		for _, v := range rr.Viol {
			for _, p := range v.Props {
				if p == rf.Property || p == "*" {
					fmt.Printf("VIOLATION property=%s replay=%s\n  class=%s: %s\n", rf.Property, *replay, v.Class, v.Msg)
					if h := fmt.Sprintf("%x", rr.Hash); h == rf.Hash {
						fmt.Println("  the execution is identical to the recorded one (hash " + h + ")")
					} else {
						fmt.Println("  the execution differs from the recorded one: the code has changed since (hash " + h + ", recorded " + rf.Hash + ")")
					}
					return 1
				}
			}
		}
		fmt.Println("the replay shows no violation of", rf.Property)
		return 0
	}
	v := classify(&crash{stderr: se.String(), hung: ctx.Err() != nil})
	fmt.Println(tail(se.String(), 6000))
	if v.Class == "" {
		die("the replay gave no result: %v", err)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n  class=%s: %s\n", rf.Property, *replay, v.Class, v.Msg)
	return 1
}

func writeEvidence(seed uint64, t stats, distinct int, sites build.Sites, buildS, searchS, wall float64, viol int) {
	info := evidenceInfo(*prop)
	total := 0
	for _, n := range sites {
		total += n
	}
	perHour := 0
	if searchS > 0 {
		perHour = int(float64(t.Runs) / searchS * 3600)
	}
	what, points := "goroutine", "goroutines"
	distinctBy := "distinct hashes over the sequence of (scheduled goroutine, decision point) pairs and completed operations of a run"
	schedulers := "0 uniform random with preemption probability, 1 FIFO without preemption, 2 PCT (random priorities with change points)"
	if isTS(*prop) {
		what, points = "event", "pending_events"
		distinctBy = "distinct hashes over the sequence of (event chosen by the scheduler, simulated time) pairs and observed operations of a run"
		schedulers = "events: the macrotask to run next (timer, message, network delivery, step of a script) is drawn at random among those that are due, keeping the order each channel guarantees; microtasks run in the order JavaScript defines"
	}
	cov := map[string]any{
		"evaluations":         t.Runs,
		"distinct_nontrivial": t.NonTriv,
		"rule":                "Each evaluation is one simulated run: a workload, network behaviour, fault sequence and schedule derived from one seed. Two runs are the same if their event hashes (every scheduling decision and every harness-visible event) are equal. A run counts as non-trivial if it performed at least two scheduling decisions between more than one runnable " + what + " and reached at least one of the probes of its family (a handler invoked, a message delivered, a packet handled, a lookup answered ...). " + info.rule,
		"samples":             t.Samples,
		"distinct_interleavings": map[string]any{
			"count":   distinct,
			"measure": distinctBy,
		},
		"runs_per_hour":                  perHour,
		"seeds":                          map[string]any{"first": seed * 1_000_000_007 % (1 << 40), "count": t.Runs},
		"simulated_hours":                float64(t.SimNanos) / 3.6e12,
		"scheduling_points":              t.Steps,
		"scheduling_decisions":           t.Decisions,
		"context_switches":               t.Switches,
		"max_" + points + "_in_a_run":    t.MaxGs,
		"max_scheduling_points_in_a_run": t.MaxSteps,
		"schedulers":                     map[string]any{"runs": t.Modes, "legend": schedulers},
		"faults_injected":                t.Faults,
		"probes":                         t.Probes,
		"topologies_or_families":         t.Topos,
		"determinism_rechecks_equal":     t.RepOK,
		"determinism_rechecks_unequal":   len(t.RepBad),
		"known_findings_seen":            t.Known,
		"components_real":                info.real,
		"components_stub":                info.stub,
		"worker_processes":               *jobs,
		"build_s":                        buildS,
		"search_s":                       searchS,
	}
	if !isTS(*prop) {
		cov["instrumented_statements"] = total
	}
	if len(t.Other) > 0 {
		cov["violations_of_other_properties_seen"] = t.Other
	}
	if cov["samples"] == nil || len(t.Samples) == 0 {
		cov["samples"] = []string{"no run completed"}
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": int64(seed), "level": "exploration",
		"coverage": cov, "wall_s": wall, "violations": viol,
		"assumptions": info.assume,
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(*verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, *prop+".json"), js, 0o644); err != nil {
		die("%v", err)
	}
}
