// Package build generates the source overlay (patched Go runtime, instrumented
// program under test) and builds the simulation worker from it.
package build

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// edit replaces the n-th and only occurrence of old in a file with new.
type edit struct{ old, new string }

// stdEdits lists the anchored edits to the Go standard library.
// Every anchor must occur exactly once, otherwise the build fails.
var stdEdits = map[string][]edit{
	"runtime/runtime2.go": {
		{"	syncGroup *synctestGroup\n\n	// Per-G tracer state.", "	syncGroup *synctestGroup\n	simID     uint32\n	simPrio   uint32\n\n	// Per-G tracer state."},
		{"	waitReasonCoroutine:           true,\n", "	waitReasonCoroutine:           true,\n	waitReasonSyncMutexLock:       true,\n	waitReasonSyncRWMutexRLock:    true,\n	waitReasonSyncRWMutexLock:     true,\n	waitReasonSemacquire:          true,\n	waitReasonChanReceive:         true,\n	waitReasonChanSend:            true,\n	waitReasonSelect:              true,\n"},
	},
	"runtime/proc.go": {
		{"func globrunqput(gp *g) {\n	assertLockHeld(&sched.lock)\n", "func globrunqput(gp *g) {\n	assertLockHeld(&sched.lock)\n	if sim.on && gp.syncGroup != nil {\n		simEnqueue(gp)\n		return\n	}\n"},
		{"func globrunqputhead(gp *g) {\n	assertLockHeld(&sched.lock)\n", "func globrunqputhead(gp *g) {\n	assertLockHeld(&sched.lock)\n	if sim.on && gp.syncGroup != nil {\n		simEnqueue(gp)\n		return\n	}\n"},
		{"func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n	if sim.on && gp.syncGroup != nil {\n		simEnqueue(gp)\n		return\n	}\n"},
		{"	// Poll network.\n	// This netpoll is only an optimization", "	if sim.on {\n		if gp := simPick(); gp != nil {\n			return gp, false, false\n		}\n	}\n\n	// Poll network.\n	// This netpoll is only an optimization"},
		{"func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n	if sim.on {\n		return 0\n	}\n"},
		{"		newg.syncGroup = callergp.syncGroup\n", "		newg.syncGroup = callergp.syncGroup\n		if sim.on && newg.syncGroup != nil {\n			simAdopt(newg)\n		}\n"},
	},
	"runtime/select.go": {
		{"		j := cheaprandn(uint32(norder + 1))\n", "		j := uint32(0)\n		if simInBubble() {\n			j = uint32(simDataRand() % uint64(norder+1))\n		} else {\n			j = cheaprandn(uint32(norder + 1))\n		}\n"},
		{"func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n	gp := getg()\n", "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n	if sim.on {\n		SimYield()\n	}\n	gp := getg()\n"},
	},
	"runtime/chan.go": {
		{"func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n", "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n	if sim.on && block {\n		SimYield()\n	}\n"},
		{"func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n", "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n	if sim.on && block {\n		SimYield()\n	}\n"},
		{"func closechan(c *hchan) {\n", "func closechan(c *hchan) {\n	if sim.on {\n		SimYield()\n	}\n"},
	},
	"runtime/rand.go": {
		{"func rand() uint64 {\n", "func rand() uint64 {\n	if simInBubble() {\n		return simDataRand()\n	}\n"},
		{"		for i, c := range startupRand {\n			seed[i%len(seed)] ^= c\n		}\n", "		for i := range startupRand {\n			seed[i%len(seed)] ^= byte(i + 1)\n		}\n"},
		{"		if readRandom(seed[:]) != len(seed) || allZero(seed[:]) {\n", "		seed[0] = 1\n		if allZero(seed[:]) {\n"},
	},
	"runtime/sema.go": {
		{"func internal_sync_nanotime() int64 {\n	return nanotime()\n", "func internal_sync_nanotime() int64 {\n	if gp := getg(); sim.on && gp.syncGroup != nil {\n		return gp.syncGroup.now\n	}\n	return nanotime()\n"},
	},
	"sync/mutex.go": {
		{"import (\n", "import (\n	\"runtime\"\n"},
		{"func (m *Mutex) Lock() {\n	m.mu.Lock()\n", "func (m *Mutex) Lock() {\n	runtime.SimYield()\n	m.mu.Lock()\n"},
		{"func (m *Mutex) Unlock() {\n	m.mu.Unlock()\n", "func (m *Mutex) Unlock() {\n	m.mu.Unlock()\n	runtime.SimYield()\n"},
	},
	"sync/pool.go": {
		{"	noCopy noCopy\n", "	noCopy noCopy\n\n	simEpoch uint64\n	simN     uint64\n	simItems []any\n"},
		{"	if x == nil {\n		return\n	}\n	if race.Enabled {\n		if runtime_randn(4) == 0 {", "	if x == nil {\n		return\n	}\n	if runtime.SimOn() {\n		if race.Enabled {\n			race.ReleaseMerge(poolRaceAddr(x))\n			race.Disable()\n		}\n		if e := runtime.SimEpoch(); p.simEpoch != e {\n			p.simEpoch, p.simN, p.simItems = e, 0, nil\n		}\n		p.simItems = append(p.simItems, x)\n		if race.Enabled {\n			race.Enable()\n		}\n		return\n	}\n	if race.Enabled {\n		if runtime_randn(4) == 0 {"},
		{"func (p *Pool) Get() any {\n", "func (p *Pool) Get() any {\n	if runtime.SimOn() {\n		var x any\n		if race.Enabled {\n			race.Disable()\n		}\n		if e := runtime.SimEpoch(); p.simEpoch != e {\n			p.simEpoch, p.simN, p.simItems = e, 0, nil\n		}\n		p.simN++\n		if n := len(p.simItems); n > 0 && p.simN*0x9e3779b97f4a7c15>>61 != 0 {\n			x = p.simItems[n-1]\n			p.simItems = p.simItems[:n-1]\n		}\n		if race.Enabled {\n			race.Enable()\n			if x != nil {\n				race.Acquire(poolRaceAddr(x))\n			}\n		}\n		if x == nil && p.New != nil {\n			x = p.New()\n		}\n		return x\n	}\n"},
	},
	"context/context.go": {
		{"import (\n", "import (\n	\"runtime\"\n"},
		{"	children map[canceler]struct{} //", "	children map[canceler]uint64 //"},
		{"				p.children = make(map[canceler]struct{})\n", "				p.children = make(map[canceler]uint64)\n"},
		{"			p.children[child] = struct{}{}\n", "			p.children[child] = simSeq.Add(1)\n"},
		{"	for child := range c.children {\n", "	for _, child := range simChildren(c.children) {\n"},
		{"// A cancelCtx can be canceled.", `// simSeq numbers registrations; simChildren gives them in an order that does
// not depend on memory addresses (shuffled by the simulator).
var simSeq atomic.Uint64

func simChildren(m map[canceler]uint64) []canceler {
	if len(m) == 0 {
		return nil
	}
	out := make([]canceler, 0, len(m))
	for c := range m {
		i := len(out)
		out = append(out, c)
		for i > 0 && m[out[i-1]] > m[out[i]] {
			out[i-1], out[i] = out[i], out[i-1]
			i--
		}
	}
	if runtime.SimOn() {
		for i := len(out) - 1; i > 0; i-- {
			j := int(runtime.SimRand() % uint64(i+1))
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

// A cancelCtx can be canceled.`},
	},
	"net/dial.go": {
		{"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n", "// SimDialHook and SimListenHook replace the network in simulated runs.\nvar (\n	SimDialHook   func(ctx context.Context, network, address string) (Conn, error)\n	SimListenHook func(ctx context.Context, network, address string) (Listener, error)\n)\n\nfunc (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n	if SimDialHook != nil {\n		if dl := d.deadline(ctx, time.Now()); !dl.IsZero() {\n			var cancel context.CancelFunc\n			ctx, cancel = context.WithDeadline(ctx, dl)\n			defer cancel()\n		}\n		return SimDialHook(ctx, network, address)\n	}\n"},
		{"func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n", "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n	if SimListenHook != nil {\n		return SimListenHook(ctx, network, address)\n	}\n"},
	},
}

//go:embed runtime_sim.go.txt
var runtimeSim string

// Overlay is the -overlay file content.
type Overlay struct {
	Replace map[string]string
}

// Sites counts the yield points inserted per source directory.
type Sites map[string]int

// Generate writes the overlay files below dir and returns the overlay path.
// replace gives the content of source files that differs from the tree.
func Generate(goroot, dir string, instrument map[string]bool, replace map[string]string) (string, Sites, error) {
	ov := Overlay{Replace: map[string]string{}}
	put := func(orig, content string) error {
		name := strings.NewReplacer("/", "_", "@", "_").Replace(strings.TrimPrefix(orig, "/"))
		p := filepath.Join(dir, name)
		if err := writeIfChanged(p, content); err != nil {
			return err
		}
		ov.Replace[orig] = p
		return nil
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", nil, err
	}
	var names []string
	for n := range stdEdits {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		orig := filepath.Join(goroot, "src", n)
		b, err := os.ReadFile(orig)
		if err != nil {
			return "", nil, err
		}
		s := string(b)
		for _, e := range stdEdits[n] {
			if c := strings.Count(s, e.old); c != 1 {
				return "", nil, fmt.Errorf("overlay: anchor in %s occurs %d times: %q", n, c, e.old)
			}
			s = strings.Replace(s, e.old, e.new, 1)
		}
		if err := put(orig, s); err != nil {
			return "", nil, err
		}
	}
	if err := put(filepath.Join(goroot, "src/runtime/zz_sim.go"), runtimeSim); err != nil {
		return "", nil, err
	}
	sites := Sites{}
	var dirs []string
	for d := range instrument {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	for _, d := range dirs {
		ents, err := os.ReadDir(d)
		if err != nil {
			return "", nil, err
		}
		for _, e := range ents {
			if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") || strings.HasSuffix(e.Name(), ".pb.go") && !strings.HasSuffix(e.Name(), "_srpc.pb.go") {
				continue
			}
			orig := filepath.Join(d, e.Name())
			src, err := os.ReadFile(orig)
			if err != nil {
				return "", nil, err
			}
			if r, ok := replace[orig]; ok {
				src = []byte(r)
			}
			out, n, err := instrumentFile(orig, src)
			if err != nil {
				return "", nil, err
			}
			if n == 0 {
				continue
			}
			sites[d] += n
			if err := put(orig, out); err != nil {
				return "", nil, err
			}
		}
	}
	// files the tree does not have
	var more []string
	for n := range replace {
		if ov.Replace[n] == "" {
			more = append(more, n)
		}
	}
	sort.Strings(more)
	for _, n := range more {
		out, k, err := instrumentFile(n, []byte(replace[n]))
		if err != nil {
			return "", nil, err
		}
		sites[filepath.Dir(n)] += k
		if err := put(n, out); err != nil {
			return "", nil, err
		}
	}
	js, err := json.MarshalIndent(ov, "", " ")
	if err != nil {
		return "", nil, err
	}
	p := filepath.Join(dir, "overlay.json")
	return p, sites, writeIfChanged(p, string(js))
}

func writeIfChanged(p, content string) error {
	if b, err := os.ReadFile(p); err == nil && string(b) == content {
		return nil
	}
	return os.WriteFile(p, []byte(content), 0o644)
}

// instrumentFile inserts a scheduling point before every statement. The text is
// inserted on the statement's own line, so line numbers stay unchanged.
func instrumentFile(path string, src []byte) (string, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return "", 0, err
	}
	var offs []int
	add := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			offs = append(offs, fset.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			add(x.List)
		case *ast.CaseClause:
			add(x.Body)
		case *ast.CommClause:
			add(x.Body)
		}
		return true
	})
	if len(offs) == 0 {
		return "", 0, nil
	}
	sort.Ints(offs)
	var sb strings.Builder
	nameEnd := fset.Position(f.Name.End()).Offset
	sb.Write(src[:nameEnd])
	sb.WriteString(`; import simrt__ "runtime"`)
	prev := nameEnd
	for _, o := range offs {
		sb.Write(src[prev:o])
		sb.WriteString("simrt__.SimYield(); ")
		prev = o
	}
	sb.Write(src[prev:])
	return sb.String(), len(offs), nil
}
