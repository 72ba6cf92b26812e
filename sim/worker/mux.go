package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
)

// MuxPlan drives registration, lookup, routing and dispatch.
type MuxPlan struct {
	Kind  string    `json:"kind"`            // lin, tree, client
	G     [][]MuxOp `json:"g,omitempty"`     // concurrent operations
	Init  []MuxOp   `json:"init,omitempty"`  // lin: registrations before the start
	Wrap  int       `json:"wrap,omitempty"`  // lin: 1 VMux, 2 very verbose VMux
	FB    []MuxOp   `json:"fb,omitempty"`    // lin: fallback invokers (reg: handles Svc/Ms; nil: a nil invoker)
	Nodes []MuxNode `json:"nodes,omitempty"` // tree: node 0 is the root, children have larger numbers
	Pre   []string  `json:"pre,omitempty"`   // client: prefixes
	Outs  []string  `json:"outs,omitempty"`  // client: scripted outcomes
}

// MuxOp is one operation.
type MuxOp struct {
	Do   string   `json:"do"` // reg, has, hasm, inv
	Svc  string   `json:"svc"`
	Meth string   `json:"meth,omitempty"`
	Ms   []string `json:"ms,omitempty"`
	Ret  string   `json:"ret,omitempty"`  // reg: what the handler returns ("": handled)
	Ms1  int      `json:"ms1,omitempty"`  // reg: the handler takes this long
	Nest []MuxOp  `json:"nest,omitempty"` // reg: operations the handler performs on the mux
	Wait int      `json:"wait,omitempty"` // pause before the operation (ms)
}

// MuxNode is one invoker of a tree.
type MuxNode struct {
	Kind string   `json:"kind"` // func, nilfunc, nil, mux, vmux, slice, prefix
	Ch   []int    `json:"ch,omitempty"`
	Regs []MuxOp  `json:"regs,omitempty"` // mux
	Pre  []string `json:"pre,omitempty"`
	Svc  []string `json:"svc,omitempty"` // func: services it handles
	Ret  string   `json:"ret,omitempty"` // func: error it returns for them
}

type muxExec struct {
	r    *Run
	p    *MuxPlan
	mux  srpc.Mux
	hist []*muxRec
	nh   int
	hs   []*muxHandler
}

// muxRec is one operation in the recorded history.
type muxRec struct {
	op        MuxOp
	h         int // reg: the handler; inv: the handler entered (-1: none)
	call, ret uint64
	end       uint64
	res       bool
	err       error
	entries   int
	done      bool
	strm      *muxStream
}

// muxStream identifies one invocation.
type muxStream struct {
	srpc.Stream
	rec *muxRec
	ev  []string
}

func (s *muxStream) Context() context.Context { return context.Background() }

type muxHandler struct {
	x   *muxExec
	id  int
	op  MuxOp
	fb  bool
	ctr int
}

func (h *muxHandler) GetServiceID() string   { return h.op.Svc }
func (h *muxHandler) GetMethodIDs() []string { return h.op.Ms }

//go:norace
func (h *muxHandler) InvokeMethod(svc, meth string, strm srpc.Stream) (bool, error) {
	s, ok := strm.(*muxStream)
	if !ok {
		h.x.r.violate("C13", "wrong-stream", "handler %d was given the stream %v", h.id, strm)
		return true, nil
	}
	rec := s.rec
	rec.entries++
	if rec.entries > 1 {
		h.x.r.violate("C13", "invoked-twice", "one invocation of %q %q entered %d handlers", svc, meth, rec.entries)
	}
	rec.h = h.id
	rec.ret = h.x.r.seq()
	if svc != rec.op.Svc || meth != rec.op.Meth {
		h.x.r.violate("C13", "wrong-method", "an invocation of %q %q reached handler %d as %q %q", rec.op.Svc, rec.op.Meth, h.id, svc, meth)
	}
	h.x.r.probe("handler-invoked")
	h.ctr++
	if h.op.Ms1 > 0 {
		time.Sleep(time.Duration(h.op.Ms1) * time.Millisecond)
	}
	if h.ctr == 1 {
		for _, o := range h.op.Nest {
			h.x.do(o)
		}
	}
	return muxRet(h.op.Ret)
}

func muxRet(ret string) (bool, error) {
	switch ret {
	case "":
		return true, nil
	case "unhandled":
		return false, nil
	case "failed": // an error that says nothing about the method
		return false, errors.New(ret)
	}
	return true, errors.New(ret)
}

// do performs and records one operation.
//
//go:norace
func (x *muxExec) do(o MuxOp) {
	r := x.r
	if o.Wait > 0 {
		time.Sleep(time.Duration(o.Wait) * time.Millisecond)
	}
	rec := &muxRec{op: o, h: -1}
	var h *muxHandler
	if o.Do == "reg" {
		h = x.handler(o)
		rec.h = h.id
	}
	rec.strm = &muxStream{rec: rec}
	x.hist = append(x.hist, rec)
	id := r.begin("%s(%q, %q %v) h%d", o.Do, o.Svc, o.Meth, o.Ms, rec.h)
	t := time.Now()
	rec.call = r.seq()
	switch o.Do {
	case "reg":
		rec.err = x.mux.Register(h)
	case "has":
		rec.res = x.mux.HasService(o.Svc)
	case "hasm":
		rec.res = x.mux.HasServiceMethod(o.Svc, o.Meth)
	case "inv":
		rec.res, rec.err = x.mux.InvokeMethod(o.Svc, o.Meth, rec.strm)
	}
	rec.end = r.seq()
	if rec.ret == 0 {
		rec.ret = rec.end
	}
	rec.done = true
	r.end(id, "%v %v h%d", rec.res, rec.err, rec.h)
	if d := time.Since(t); d > 0 && o.Do != "inv" {
		r.violate("C13", "blocked", "%s(%q %q) took %v: it waited for a running handler", o.Do, o.Svc, o.Meth, d)
	}
	if o.Do == "inv" {
		if rec.h < 0 {
			if rec.res || rec.err != nil {
				r.violate("C13", "wrong-result", "InvokeMethod(%q, %q) returned %v, %v without invoking a handler", o.Svc, o.Meth, rec.res, rec.err)
			}
		} else {
			ok, err := muxRet(x.hs[rec.h].op.Ret)
			if fmt.Sprint(err) != fmt.Sprint(rec.err) || err == nil && rec.res != ok {
				r.violate("C13", "wrong-result", "InvokeMethod(%q, %q) returned %v, %v; handler %d returned %v, %v", o.Svc, o.Meth, rec.res, rec.err, rec.h, ok, err)
			}
		}
	}
	if o.Do == "reg" {
		if (o.Svc == "") != (rec.err != nil) {
			r.violate("C13", "wrong-result", "Register of service %q returned %v", o.Svc, rec.err)
		}
	}
}

func (x *muxExec) handler(o MuxOp) *muxHandler {
	h := &muxHandler{x: x, id: x.nh, op: o}
	x.nh++
	x.hs = append(x.hs, h)
	return h
}

func (x *muxExec) runLin() {
	r, p := x.r, x.p
	var fbs []srpc.Invoker
	for _, f := range p.FB {
		if f.Do == "nil" {
			fbs = append(fbs, nil)
			continue
		}
		f := f
		h := x.handler(f)
		h.fb = true
		fbs = append(fbs, srpc.InvokerFunc(func(svc, meth string, strm srpc.Stream) (bool, error) {
			if !fbHandles(f, svc, meth) {
				return false, nil
			}
			return h.InvokeMethod(svc, meth, strm)
		}))
	}
	x.mux = srpc.NewMux(fbs...)
	if p.Wrap > 0 {
		x.mux = srpc.NewVMux(x.mux, discardLog, p.Wrap == 2)
	}
	for _, o := range p.Init {
		x.do(o)
	}
	g := newGroup()
	for _, ops := range p.G {
		g.Go(func() {
			for _, o := range ops {
				x.do(o)
			}
		})
	}
	if !g.Wait(callBound) {
		r.violate("C13", "stuck", "operations did not return: %s", strings.Join(r.pending(), "; "))
		return
	}
	if len(r.Viol) == 0 && len(x.hist) <= 26 {
		if !x.linearizable() {
			var b strings.Builder
			for _, h := range x.hist {
				fmt.Fprintf(&b, "%s; ", h)
			}
			r.violate("C13", "not-linearizable", "no order of the operations explains their results: %s", b.String())
		}
	}
}

func (h *muxRec) String() string {
	switch h.op.Do {
	case "reg":
		return fmt.Sprintf("[%d,%d] Register(h%d: %q %v)=%v", h.call, h.ret, h.h, h.op.Svc, h.op.Ms, h.err)
	case "has":
		return fmt.Sprintf("[%d,%d] HasService(%q)=%v", h.call, h.ret, h.op.Svc, h.res)
	case "hasm":
		return fmt.Sprintf("[%d,%d] HasServiceMethod(%q,%q)=%v", h.call, h.ret, h.op.Svc, h.op.Meth, h.res)
	}
	return fmt.Sprintf("[%d,%d] InvokeMethod(%q,%q)->h%d", h.call, h.ret, h.op.Svc, h.op.Meth, h.h)
}

func fbHandles(f MuxOp, svc, meth string) bool {
	if f.Svc != svc {
		return false
	}
	for _, m := range f.Ms {
		if m == meth {
			return true
		}
	}
	return false
}

// linearizable searches an order of the operations, consistent with real time,
// in which a sequential registry gives the results observed (Wing and Gong,
// with memoisation).
func (x *muxExec) linearizable() bool {
	ops := x.hist
	n := len(ops)
	seen := map[string]bool{}
	var try func(mask uint64, st map[string]int) bool
	try = func(mask uint64, st map[string]int) bool {
		if mask == 1<<n-1 {
			return true
		}
		key := fmt.Sprint(mask) + stKey(st)
		if seen[key] {
			return false
		}
		seen[key] = true
		// the earliest return among the remaining operations bounds the next one
		minRet := ^uint64(0)
		for i, o := range ops {
			if mask>>i&1 == 0 && o.ret < minRet {
				minRet = o.ret
			}
		}
		for i, o := range ops {
			if mask>>i&1 != 0 || o.call > minRet {
				continue
			}
			if ns, ok := x.step(st, o); ok && try(mask|1<<i, ns) {
				return true
			}
		}
		return false
	}
	return try(0, map[string]int{})
}

func stKey(st map[string]int) string {
	var ks []string
	for k, v := range st {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

// step applies one operation to the sequential model: a map from
// service and method to the handler registered last.
func (x *muxExec) step(st map[string]int, o *muxRec) (map[string]int, bool) {
	key := func(s, m string) string { return s + "\x00" + m }
	switch o.op.Do {
	case "reg":
		if o.err != nil {
			return st, true
		}
		ns := map[string]int{}
		for k, v := range st {
			ns[k] = v
		}
		for _, m := range o.op.Ms {
			if m != "" {
				ns[key(o.op.Svc, m)] = o.h
			}
		}
		return ns, true
	case "has":
		has := false
		for k := range st {
			if o.op.Svc != "" && strings.HasPrefix(k, o.op.Svc+"\x00") {
				has = true
			}
		}
		return st, has == o.res
	case "hasm":
		_, has := st[key(o.op.Svc, o.op.Meth)]
		return st, (has && o.op.Svc != "" && o.op.Meth != "") == o.res
	}
	// inv
	found := false
	if o.op.Svc != "" {
		if h, ok := st[key(o.op.Svc, o.op.Meth)]; ok {
			return st, h == o.h
		}
	} else {
		for k, h := range st {
			if strings.HasSuffix(k, "\x00"+o.op.Meth) {
				found = true
				if h == o.h {
					return st, true
				}
			}
		}
	}
	if found {
		return st, false
	}
	want := -1
	for i := 0; i < x.nh; i++ {
		if h := x.hs[i]; h.fb && fbHandles(h.op, o.op.Svc, o.op.Meth) {
			if h.op.Ret == "unhandled" {
				continue
			}
			want = i
			break
		}
	}
	return st, o.h == want
}

// ---- trees of invokers

func (x *muxExec) runTree() {
	p, r := x.p, x.r
	invs := make([]srpc.Invoker, len(p.Nodes))
	for i := len(p.Nodes) - 1; i >= 0; i-- {
		n := p.Nodes[i]
		var ch []srpc.Invoker
		for _, c := range n.Ch {
			ch = append(ch, invs[c])
		}
		switch n.Kind {
		case "nil":
		case "nilfunc":
			invs[i] = srpc.InvokerFunc(nil)
		case "func":
			invs[i] = srpc.InvokerFunc(func(svc, meth string, strm srpc.Stream) (bool, error) {
				s := strm.(*muxStream)
				s.ev = append(s.ev, fmt.Sprintf("n%d(%s,%s)", i, svc, meth))
				if len(svc)%2 == 0 {
					time.Sleep(time.Millisecond)
				}
				for _, k := range n.Svc {
					if k == svc {
						return muxRet(n.Ret)
					}
				}
				return false, nil
			})
		case "mux", "vmux":
			m := srpc.NewMux(ch...)
			if n.Kind == "vmux" {
				m = srpc.NewVMux(m, discardLog, true)
			}
			for k, o := range n.Regs {
				_ = m.Register(&treeHandler{fmt.Sprintf("n%d.%d", i, k), o})
			}
			invs[i] = m
		case "slice":
			invs[i] = srpc.InvokerSlice(ch)
		case "prefix":
			invs[i] = srpc.NewPrefixInvoker(ch[0], n.Pre)
		}
	}
	g := newGroup()
	for _, ops := range p.G {
		g.Go(func() {
			for _, o := range ops {
				if o.Wait > 0 {
					time.Sleep(time.Duration(o.Wait) * time.Millisecond)
				}
				s := &muxStream{}
				id := r.begin("InvokeMethod(%q, %q)", o.Svc, o.Meth)
				ok, err := invs[0].InvokeMethod(o.Svc, o.Meth, s)
				r.end(id, "%v %v %v", ok, err, s.ev)
				var ev []string
				ambig := false
				wok, werr := x.eval(0, o.Svc, o.Meth, &ev, &ambig)
				if ambig {
					// any of several handlers may be reached
					r.probe("handler-invoked")
				} else if strings.Join(ev, " ") != strings.Join(s.ev, " ") {
					r.violate("C13", "wrong-route", "InvokeMethod(%q, %q) reached [%s], want [%s]", o.Svc, o.Meth, strings.Join(s.ev, " "), strings.Join(ev, " "))
				} else if fmt.Sprint(err) != fmt.Sprint(werr) || err == nil && ok != wok {
					r.violate("C13", "wrong-result", "InvokeMethod(%q, %q) returned %v, %v, want %v, %v", o.Svc, o.Meth, ok, err, wok, werr)
				}
				if len(ev) > 0 {
					r.probe("handler-invoked")
				}
			}
		})
	}
	if !g.Wait(callBound) {
		r.violate("C13", "stuck", "operations did not return: %s", strings.Join(r.pending(), "; "))
	}
}

type treeHandler struct {
	name string
	op   MuxOp
}

func (h *treeHandler) GetServiceID() string   { return h.op.Svc }
func (h *treeHandler) GetMethodIDs() []string { return h.op.Ms }
func (h *treeHandler) InvokeMethod(svc, meth string, strm srpc.Stream) (bool, error) {
	s := strm.(*muxStream)
	s.ev = append(s.ev, fmt.Sprintf("%s(%s,%s)", h.name, svc, meth))
	if h.op.Ms1 > 0 {
		time.Sleep(time.Duration(h.op.Ms1) * time.Millisecond)
	}
	return muxRet(h.op.Ret)
}

// eval is the reference: which leaves are reached, in order, and the result.
// An empty service id (all of it was a prefix) matches every service: ambig is
// set if several have the method.
func (x *muxExec) eval(i int, svc, meth string, ev *[]string, ambig *bool) (bool, error) {
	n := x.p.Nodes[i]
	switch n.Kind {
	case "func":
		*ev = append(*ev, fmt.Sprintf("n%d(%s,%s)", i, svc, meth))
		for _, k := range n.Svc {
			if k == svc {
				return muxRet(n.Ret)
			}
		}
		return false, nil
	case "mux", "vmux":
		last := -1
		for k, o := range n.Regs {
			s := svc
			if s == "" {
				s = o.Svc
			}
			if fbHandles(o, s, meth) {
				if last >= 0 && n.Regs[last].Svc != o.Svc {
					*ambig = true
				}
				last = k
			}
		}
		if last >= 0 {
			*ev = append(*ev, fmt.Sprintf("n%d.%d(%s,%s)", i, last, svc, meth))
			return muxRet(n.Regs[last].Ret)
		}
		return x.evalList(n.Ch, svc, meth, ev, ambig)
	case "slice":
		return x.evalList(n.Ch, svc, meth, ev, ambig)
	case "prefix":
		if len(n.Pre) == 0 {
			return x.eval(n.Ch[0], svc, meth, ev, ambig)
		}
		for _, pre := range n.Pre {
			if strings.HasPrefix(svc, pre) {
				return x.eval(n.Ch[0], svc[len(pre):], meth, ev, ambig)
			}
		}
	}
	return false, nil
}

func (x *muxExec) evalList(ch []int, svc, meth string, ev *[]string, ambig *bool) (bool, error) {
	for _, c := range ch {
		if ok, err := x.eval(c, svc, meth, ev, ambig); ok || err != nil {
			return ok, err
		}
	}
	return false, nil
}

// ---- prefix clients

// recClient is a scripted client that records the calls made to it.
type recClient struct {
	x    *muxExec
	outs []string
	n    int
}

type recCall struct {
	ctx       context.Context
	svc, meth string
	in, out   srpc.Message
	n         int
}

type recKey struct{}

func (c *recClient) call(ctx context.Context, svc, meth string, in, out srpc.Message) error {
	rc, _ := ctx.Value(recKey{}).(*recCall)
	if rc == nil {
		c.x.r.violate("C13", "wrong-context", "the client was called with another context")
		return nil
	}
	rc.n++
	rc.svc, rc.meth, rc.in, rc.out = svc, meth, in, out
	time.Sleep(time.Millisecond)
	_, err := muxRet(c.outs[0])
	return err
}

func (c *recClient) ExecCall(ctx context.Context, svc, meth string, in, out srpc.Message) error {
	return c.call(ctx, svc, meth, in, out)
}

func (c *recClient) NewStream(ctx context.Context, svc, meth string, first srpc.Message) (srpc.Stream, error) {
	if err := c.call(ctx, svc, meth, first, nil); err != nil {
		return nil, err
	}
	return &muxStream{ev: []string{svc}}, nil
}

func (x *muxExec) runClient() {
	p, r := x.p, x.r
	rc := &recClient{x: x, outs: p.Outs}
	var cl srpc.Client = srpc.NewPrefixClient(rc, p.Pre)
	if p.Wrap > 0 {
		cl = srpc.NewVClient(cl, discardLog)
	}
	g := newGroup()
	for _, ops := range p.G {
		g.Go(func() {
			for _, o := range ops {
				call := &recCall{}
				ctx := context.WithValue(context.Background(), recKey{}, call)
				in, out := srpc.NewRawMessage([]byte(o.Svc), true), srpc.NewRawMessage(nil, true)
				var err error
				var strm srpc.Stream
				id := r.begin("%s(%q, %q)", o.Do, o.Svc, o.Meth)
				if o.Do == "inv" {
					err = cl.ExecCall(ctx, o.Svc, o.Meth, in, out)
				} else {
					strm, err = cl.NewStream(ctx, o.Svc, o.Meth, in)
				}
				r.end(id, "%v; called %d as %q", err, call.n, call.svc)
				svc, ok := o.Svc, len(p.Pre) == 0
				for _, pre := range p.Pre {
					if strings.HasPrefix(svc, pre) {
						svc, ok = svc[len(pre):], true
						break
					}
				}
				if !ok {
					if call.n != 0 || err == nil || err.Error() != srpc.ErrUnimplemented.Error() {
						r.violate("C13", "wrong-route", "a call of %q, which has none of the prefixes %q, returned %v after %d calls of the client", o.Svc, p.Pre, err, call.n)
					}
					continue
				}
				_, want := muxRet(p.Outs[0])
				switch {
				case call.n != 1 || call.svc != svc || call.meth != o.Meth || call.in != srpc.Message(in) || o.Do == "inv" && call.out != srpc.Message(out):
					r.violate("C13", "wrong-route", "a call of %q %q with prefixes %q called the client %d times, as %q %q; want %q", o.Svc, o.Meth, p.Pre, call.n, call.svc, call.meth, svc)
				case fmt.Sprint(err) != fmt.Sprint(want):
					r.violate("C13", "wrong-result", "a call of %q returned %v, the client returned %v", o.Svc, err, want)
				case o.Do != "inv" && err == nil && (strm == nil || strm.(*muxStream).ev[0] != svc):
					r.violate("C13", "wrong-result", "NewStream of %q returned another stream", o.Svc)
				}
				r.probe("handler-invoked")
			}
		})
	}
	if !g.Wait(callBound) {
		r.violate("C13", "stuck", "operations did not return: %s", strings.Join(r.pending(), "; "))
	}
}

func runMux(r *Run) {
	x := &muxExec{r: r, p: r.Plan.Mux}
	switch x.p.Kind {
	case "lin":
		x.runLin()
	case "tree":
		x.runTree()
	case "client":
		x.runClient()
	}
}

var muxSvcs = []string{"s1", "s1", "s2", "s3"}
var muxMeths = []string{"a", "a", "a", "b", "b", "c", "c", "d", "e"}

func genMuxReg(r *RNG, depth int) MuxOp {
	o := MuxOp{Do: "reg", Svc: pick(r, muxSvcs...)}
	if r.P(0.04) {
		o.Svc = ""
	}
	n := r.N(3) + 1
	switch {
	case r.P(0.05):
		n = 0
	case r.P(0.1):
		n = r.Range(4, 9)
	}
	for i := 0; i < n; i++ {
		m := pick(r, muxMeths...)
		if r.P(0.05) {
			m = ""
		}
		o.Ms = append(o.Ms, m)
	}
	if r.P(0.2) {
		o.Ret = pick(r, "boom", "unhandled")
	}
	if r.P(0.3) {
		o.Ms1 = r.Range(1, 5)
	}
	if depth > 0 && r.P(0.25) {
		k := r.Range(1, 2)
		for i := 0; i < k; i++ {
			o.Nest = append(o.Nest, genMuxOp(r, depth-1))
		}
	}
	return o
}

func genMuxOp(r *RNG, depth int) MuxOp {
	var o MuxOp
	switch r.N(8) {
	case 0, 1, 2:
		o = genMuxReg(r, depth)
	case 3:
		o = MuxOp{Do: "has", Svc: pick(r, muxSvcs...)}
	case 4, 5:
		o = MuxOp{Do: "hasm", Svc: pick(r, muxSvcs...), Meth: pick(r, muxMeths...)}
	default:
		o = MuxOp{Do: "inv", Svc: pick(r, muxSvcs...), Meth: pick(r, muxMeths...)}
	}
	if o.Do != "reg" && r.P(0.08) {
		o.Svc = ""
	}
	if r.P(0.15) {
		o.Wait = r.Range(1, 6)
	}
	return o
}

func genMux(r *RNG, p *Plan) {
	p.Family = "mux"
	m := &MuxPlan{}
	p.Mux = m
	switch k := r.N(10); {
	case k < 6:
		m.Kind = "lin"
		n := r.N(3)
		for i := 0; i < n; i++ {
			m.Init = append(m.Init, genMuxReg(r, 0))
		}
		m.Wrap = r.N(5) - 2
		if m.Wrap < 0 {
			m.Wrap = 0
		}
		if r.P(0.4) {
			k := r.Range(1, 3)
			for i := 0; i < k; i++ {
				if r.P(0.2) {
					m.FB = append(m.FB, MuxOp{Do: "nil"})
					continue
				}
				f := genMuxReg(r, 0)
				f.Ret = strings.ReplaceAll(f.Ret, "unhandled", "")
				m.FB = append(m.FB, f)
			}
		}
		g := r.Range(2, 4)
		for i := 0; i < g; i++ {
			var ops []MuxOp
			k := r.Range(1, 5)
			for j := 0; j < k; j++ {
				ops = append(ops, genMuxOp(r, 1))
			}
			m.G = append(m.G, ops)
		}
	case k < 9:
		m.Kind = "tree"
		genTree(r, m)
	default:
		m.Kind = "client"
		m.Wrap = r.N(2)
		m.Outs = []string{pick(r, "", "", "boom", "unimplemented")}
		n := r.N(4)
		for i := 0; i < n; i++ {
			m.Pre = append(m.Pre, pick(r, treePre...))
		}
		for i := 0; i < r.Range(1, 3); i++ {
			var ops []MuxOp
			for j := 0; j < 3; j++ {
				ops = append(ops, MuxOp{Do: pick(r, "inv", "strm"), Svc: pick(r, treeSvc...), Meth: pick(r, muxMeths...)})
			}
			m.G = append(m.G, ops)
		}
	}
}

var treePre = []string{"p/", "p/q/", "q/", "pp/"}
var treeSvc = []string{"x", "y", "p/x", "p/y", "q/x", "p/q/x", "p/q/y", "p/p/x", "pp/x", "q/p/x", "p", "P/x", "p/", "p/q/"}

func genTree(r *RNG, m *MuxPlan) {
	n := r.Range(2, 12)
	for i := 0; i < n; i++ {
		nd := MuxNode{}
		rest := n - 1 - i
		kids := func(lo, hi int) {
			if rest < hi {
				hi = rest
			}
			for k := r.Range(lo, max(lo, hi)); k > 0; k-- {
				nd.Ch = append(nd.Ch, i+1+r.N(rest))
			}
		}
		k := r.N(10)
		if i == 0 {
			k = 3 + r.N(5)
		}
		if rest == 0 {
			k = r.N(3)
		}
		switch {
		case k < 3 || rest == 0 && k >= 8:
			nd.Kind = pick(r, "func", "func", "func", "func", "nil", "nilfunc")
			if nd.Kind == "func" {
				for j := r.N(4); j > 0; j-- {
					nd.Svc = append(nd.Svc, pick(r, treeSvc...))
				}
				if r.P(0.3) {
					nd.Ret = pick(r, "boom", "unhandled", "unimplemented", "failed")
				}
			}
		case k < 5:
			nd.Kind = pick(r, "mux", "mux", "vmux")
			kids(0, 3)
			for j := r.N(4); j > 0; j-- {
				o := genMuxReg(r, 0)
				o.Svc = pick(r, treeSvc...)
				nd.Regs = append(nd.Regs, o)
			}
		case k < 7:
			nd.Kind = "slice"
			kids(0, 4)
		default:
			nd.Kind = "prefix"
			// a prefix invoker needs an invoker
			nd.Ch = []int{i + 1 + r.N(rest)}
			for j := r.N(4); j > 0; j-- {
				nd.Pre = append(nd.Pre, pick(r, treePre...))
			}
		}
		m.Nodes = append(m.Nodes, nd)
	}
	for i := range m.Nodes {
		if m.Nodes[i].Kind == "prefix" {
			c := &m.Nodes[m.Nodes[i].Ch[0]]
			if c.Kind == "nil" {
				*c = MuxNode{Kind: "nilfunc"}
			}
		}
	}
	if m.Nodes[0].Kind == "nil" {
		m.Nodes[0].Kind = "nilfunc"
	}
	for i := 0; i < r.Range(1, 3); i++ {
		var ops []MuxOp
		for j := r.Range(1, 4); j > 0; j-- {
			ops = append(ops, MuxOp{Do: "inv", Svc: pick(r, treeSvc...), Meth: pick(r, muxMeths...), Wait: r.N(2)})
		}
		m.G = append(m.G, ops)
	}
}

func reduceMux(p *Plan) []*Plan {
	var out []*Plan
	add := func(f func(q *MuxPlan)) {
		q := clonePlan(p)
		f(q.Mux)
		out = append(out, q)
	}
	b := p.Mux
	for i := range b.G {
		add(func(q *MuxPlan) { q.G = append(q.G[:i], q.G[i+1:]...) })
		for k := range b.G[i] {
			add(func(q *MuxPlan) { q.G[i] = append(q.G[i][:k], q.G[i][k+1:]...) })
			if len(b.G[i][k].Nest) > 0 {
				add(func(q *MuxPlan) { q.G[i][k].Nest = nil })
			}
			if b.G[i][k].Wait > 0 {
				add(func(q *MuxPlan) { q.G[i][k].Wait = 0 })
			}
			if b.G[i][k].Ms1 > 0 {
				add(func(q *MuxPlan) { q.G[i][k].Ms1 = 0 })
			}
			if len(b.G[i][k].Ms) > 1 {
				add(func(q *MuxPlan) { q.G[i][k].Ms = q.G[i][k].Ms[:1] })
			}
		}
	}
	for i := range b.Init {
		add(func(q *MuxPlan) { q.Init = append(q.Init[:i], q.Init[i+1:]...) })
	}
	for i := range b.FB {
		add(func(q *MuxPlan) { q.FB = append(q.FB[:i], q.FB[i+1:]...) })
	}
	if b.Wrap > 0 {
		add(func(q *MuxPlan) { q.Wrap = 0 })
	}
	for i := range b.Nodes {
		for k := range b.Nodes[i].Ch {
			if b.Nodes[i].Kind != "prefix" {
				add(func(q *MuxPlan) { q.Nodes[i].Ch = append(q.Nodes[i].Ch[:k], q.Nodes[i].Ch[k+1:]...) })
			}
		}
		for k := range b.Nodes[i].Regs {
			add(func(q *MuxPlan) { q.Nodes[i].Regs = append(q.Nodes[i].Regs[:k], q.Nodes[i].Regs[k+1:]...) })
		}
		for k := range b.Nodes[i].Pre {
			add(func(q *MuxPlan) { q.Nodes[i].Pre = append(q.Nodes[i].Pre[:k], q.Nodes[i].Pre[k+1:]...) })
		}
	}
	return out
}

func init() {
	families["mux"] = family{runMux, "C13,C12"}
	reducers["mux"] = reduceMux
	propGens["C13"] = mixGen(5, genMux, 1, rpcGen(with(func(b *rpcBias) {
		b.faultP, b.abortP, b.wrapP, b.unknownP = 0.1, 0.1, 1, 0.2
	})))
}
