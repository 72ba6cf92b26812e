//go:build simfresh

package main

import (
	"context"
	"errors"
	"io"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/aperturerobotics/protobuf-go-lite/types/known/emptypb"
	"github.com/aperturerobotics/starpc/echo"
	mock "github.com/aperturerobotics/starpc/mock"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"

	"simverif/anysvc"
)

type anyExec struct {
	r   *Run
	p   *AnyPlan
	ctx context.Context
}

type anyE = *echo.EchoMsg
type anyM = *mock.MockMsg
type anyP = *rpcstream.RpcStreamPacket

func mkE(s string) anyE { return &echo.EchoMsg{Body: s} }
func mkM(s string) anyM { return &mock.MockMsg{Body: s} }
func mkP(s string) anyP {
	return &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Data{Data: []byte(s)}}
}
func anyBody(m any) string {
	switch m := m.(type) {
	case anyE:
		return m.GetBody()
	case anyM:
		return m.GetBody()
	case anyP:
		return string(m.GetData())
	}
	return ""
}

// requests say what they want: "out=N err=TEXT body"
func anyWant(s string) (n int, err error, body string) {
	f := strings.SplitN(s, "|", 3)
	if len(f) != 3 {
		return 0, errors.New("malformed request " + s), ""
	}
	n, _ = strconv.Atoi(f[0])
	if f[1] != "" {
		err = errors.New(f[1])
	}
	return n, err, f[2]
}

// ---- handlers; t tells them apart ----

func anyUnary[I, O any](t string, in I, mk func(string) O) (O, error) {
	_, err, b := anyWant(anyBody(in))
	if err != nil {
		var o O
		return o, err
	}
	return mk(t + b), nil
}

func anyPush[I any, O any](t string, s interface{ Recv() (I, error) }, mk func(string) O) (O, error) {
	var fail error
	for {
		m, err := s.Recv()
		if err == io.EOF {
			var o O
			if fail != nil {
				return o, fail
			}
			return mk(t), nil
		}
		if err != nil {
			var o O
			return o, err
		}
		_, e, b := anyWant(anyBody(m))
		if e != nil {
			fail = e
		}
		t += b + ";"
	}
}

func anyPull[I any, O any](t string, in I, s interface{ Send(O) error }, mk func(string) O) error {
	n, fail, b := anyWant(anyBody(in))
	for i := 0; i < n; i++ {
		if err := s.Send(mk(t + strconv.Itoa(i) + b)); err != nil {
			return err
		}
	}
	return fail
}

func anyChat[I any, O any](t string, s interface {
	Recv() (I, error)
	Send(O) error
}, mk func(string) O) error {
	for {
		m, err := s.Recv()
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
		_, fail, b := anyWant(anyBody(m))
		if fail != nil {
			return fail
		}
		if err := s.Send(mk(t + b)); err != nil {
			return err
		}
	}
}

type anyAlpha string

func (t anyAlpha) Get(_ context.Context, m anyE) (anyM, error) {
	return anyUnary(string(t)+"Alpha.Get:", m, mkM)
}
func (t anyAlpha) Push(s anysvc.SRPCAlpha_PushStream) (anyM, error) {
	return anyPush[anyE](string(t)+"Alpha.Push:", s, mkM)
}
func (t anyAlpha) Pull(m anyM, s anysvc.SRPCAlpha_PullStream) error {
	return anyPull(string(t)+"Alpha.Pull:", m, s, mkE)
}
func (t anyAlpha) Chat(s anysvc.SRPCAlpha_ChatStream) error {
	return anyChat[anyE](string(t)+"Alpha.Chat:", s, mkM)
}

type anyBeta string

func (t anyBeta) Get(_ context.Context, m anyM) (anyM, error) {
	return anyUnary(string(t)+"Beta_Two.Get:", m, mkM)
}
func (t anyBeta) GetIt(_ context.Context, m anyM) (anyE, error) {
	return anyUnary(string(t)+"Beta_Two.get_it:", m, mkE)
}
func (t anyBeta) Push(s anysvc.SRPCBeta__Two_PushStream) (anyE, error) {
	return anyPush[anyM](string(t)+"Beta_Two.Push:", s, mkE)
}
func (t anyBeta) Pull_2(m anyM, s anysvc.SRPCBeta__Two_Pull__2Stream) error {
	return anyPull(string(t)+"Beta_Two.pull_2:", m, s, mkM)
}
func (t anyBeta) Chat(s anysvc.SRPCBeta__Two_ChatStream) error {
	return anyChat[anyM](string(t)+"Beta_Two.Chat:", s, mkE)
}

type anyLower string

func (t anyLower) Ping(context.Context, *emptypb.Empty) (*emptypb.Empty, error) {
	return &emptypb.Empty{}, nil
}

type anyA string

func (t anyA) B_C(s anysvc.SRPCA_B__CStream) error { return anyChat[anyE](string(t)+"A.B_C:", s, mkE) }

type anyAB string

func (t anyAB) C(s anysvc.SRPCA__B_CStream) error { return anyChat[anyM](string(t)+"A_B.C:", s, mkM) }

type anyGamma string

func (t anyGamma) Get(_ context.Context, m anyE) (anyE, error) {
	return anyUnary(string(t)+"Gamma.Get:", m, mkE)
}
func (t anyGamma) Pkts(s anysvc.SRPCGamma_PktsStream) error {
	return anyChat[anyP](string(t)+"Gamma.Pkts:", s, mkP)
}

// anyService is one service: its ID, its methods, how it is registered.
type anyService struct {
	id      string
	konst   string
	methods []string
	handler func(tag, id string) srpc.Handler
	reg     func(mux srpc.Mux) error
}

var anyServices = []anyService{
	{"any.v1.deep.Alpha", anysvc.SRPCAlphaServiceID, []string{"Get", "Push", "Pull", "Chat"},
		func(t, id string) srpc.Handler { return anysvc.NewSRPCAlphaHandler(anyAlpha(t), id) },
		func(m srpc.Mux) error { return anysvc.SRPCRegisterAlpha(m, anyAlpha("")) }},
	{"any.v1.deep.Beta_Two", anysvc.SRPCBeta_TwoServiceID, []string{"Chat", "get_it", "Get", "pull_2", "Push"},
		func(t, id string) srpc.Handler { return anysvc.NewSRPCBeta_TwoHandler(anyBeta(t), id) },
		func(m srpc.Mux) error { return anysvc.SRPCRegisterBeta_Two(m, anyBeta("")) }},
	{"any.v1.deep.Nothing", anysvc.SRPCNothingServiceID, nil,
		func(t, id string) srpc.Handler { return anysvc.NewSRPCNothingHandler(nil, id) },
		func(m srpc.Mux) error { return anysvc.SRPCRegisterNothing(m, nil) }},
	{"any.v1.deep.lower", anysvc.SRPCLowerServiceID, []string{"ping"},
		func(t, id string) srpc.Handler { return anysvc.NewSRPCLowerHandler(anyLower(t), id) },
		func(m srpc.Mux) error { return anysvc.SRPCRegisterLower(m, anyLower("")) }},
	{"any.v1.deep.A", anysvc.SRPCAServiceID, []string{"B_C"},
		func(t, id string) srpc.Handler { return anysvc.NewSRPCAHandler(anyA(t), id) },
		func(m srpc.Mux) error { return anysvc.SRPCRegisterA(m, anyA("")) }},
	{"any.v1.deep.A_B", anysvc.SRPCA_BServiceID, []string{"C"},
		func(t, id string) srpc.Handler { return anysvc.NewSRPCA_BHandler(anyAB(t), id) },
		func(m srpc.Mux) error { return anysvc.SRPCRegisterA_B(m, anyAB("")) }},
	{"Gamma", anysvc.SRPCGammaServiceID, []string{"Get", "Pkts"},
		func(t, id string) srpc.Handler { return anysvc.NewSRPCGammaHandler(anyGamma(t), id) },
		func(m srpc.Mux) error { return anysvc.SRPCRegisterGamma(m, anyGamma("")) }},
}

// ---- calls ----

type anyDo func(c *AnyCall, ctx context.Context, cc srpc.Client, reqs []string) ([]string, error)

func anyRecv[O any](to bool, s interface {
	Recv() (O, error)
}, recvTo func() (O, error)) (out []string, err error) {
	for {
		var m O
		if to {
			m, err = recvTo()
		} else {
			m, err = s.Recv()
		}
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		out = append(out, anyBody(m))
	}
}

func anyCallChat[I, O any](to bool, s interface {
	srpc.Stream
	Send(I) error
	Recv() (O, error)
}, err error, recvTo func() (O, error), mk func(string) I, reqs []string) ([]string, error) {
	if err != nil {
		return nil, err
	}
	defer s.Close()
	for _, q := range reqs {
		if err := s.Send(mk(q)); err != nil {
			break // the status tells
		}
	}
	if err := s.CloseSend(); err != nil && err != io.ErrClosedPipe {
		_ = err
	}
	return anyRecv(to, s, recvTo)
}

func anyCallPush[I, O any](s interface {
	srpc.Stream
	Send(I) error
	CloseAndRecv() (O, error)
}, err error, mk func(string) I, reqs []string) ([]string, error) {
	if err != nil {
		return nil, err
	}
	defer s.Close()
	for _, q := range reqs {
		if err := s.Send(mk(q)); err != nil {
			return nil, err
		}
	}
	m, err := s.CloseAndRecv()
	if err != nil {
		return nil, err
	}
	return []string{anyBody(m)}, nil
}

func anyCallPull[O any](to bool, s interface {
	srpc.Stream
	Recv() (O, error)
}, err error, recvTo func() (O, error)) ([]string, error) {
	if err != nil {
		return nil, err
	}
	defer s.Close()
	return anyRecv(to, s, recvTo)
}

func anyOne[O any](m O, err error) ([]string, error) {
	if err != nil {
		return nil, err
	}
	return []string{anyBody(m)}, nil
}

func into[O any](m O, f func(O) error) func() (O, error) {
	return func() (O, error) { return m, f(m) }
}

func anyCl[C any](c *AnyCall, cc srpc.Client, mk func(srpc.Client) C, with func(srpc.Client, string) C) C {
	if c.With {
		return with(cc, c.ID)
	}
	return mk(cc)
}

var anyKinds = map[string]string{
	"any.v1.deep.Alpha/Get": "unary", "any.v1.deep.Alpha/Push": "push", "any.v1.deep.Alpha/Pull": "pull", "any.v1.deep.Alpha/Chat": "chat",
	"any.v1.deep.Beta_Two/Get": "unary", "any.v1.deep.Beta_Two/get_it": "unary", "any.v1.deep.Beta_Two/Push": "push",
	"any.v1.deep.Beta_Two/pull_2": "pull", "any.v1.deep.Beta_Two/Chat": "chat",
	"any.v1.deep.lower/ping": "ping", "any.v1.deep.A/B_C": "chat", "any.v1.deep.A_B/C": "chat", "Gamma/Get": "unary", "Gamma/Pkts": "chat",
}

var anyCalls = map[string]anyDo{
	"any.v1.deep.Alpha/Get": func(c *AnyCall, ctx context.Context, cc srpc.Client, q []string) ([]string, error) {
		return anyOne(anyCl(c, cc, anysvc.NewSRPCAlphaClient, anysvc.NewSRPCAlphaClientWithServiceID).Get(ctx, mkE(q[0])))
	},
	"any.v1.deep.Alpha/Push": func(c *AnyCall, ctx context.Context, cc srpc.Client, q []string) ([]string, error) {
		s, err := anyCl(c, cc, anysvc.NewSRPCAlphaClient, anysvc.NewSRPCAlphaClientWithServiceID).Push(ctx)
		return anyCallPush(s, err, mkE, q)
	},
	"any.v1.deep.Alpha/Pull": func(c *AnyCall, ctx context.Context, cc srpc.Client, q []string) ([]string, error) {
		s, err := anyCl(c, cc, anysvc.NewSRPCAlphaClient, anysvc.NewSRPCAlphaClientWithServiceID).Pull(ctx, mkM(q[0]))
		if err != nil {
			return nil, err
		}
		return anyCallPull(c.RecvTo, s, err, into(mkE(""), s.RecvTo))
	},
	"any.v1.deep.Alpha/Chat": func(c *AnyCall, ctx context.Context, cc srpc.Client, q []string) ([]string, error) {
		s, err := anyCl(c, cc, anysvc.NewSRPCAlphaClient, anysvc.NewSRPCAlphaClientWithServiceID).Chat(ctx)
		if err != nil {
			return nil, err
		}
		return anyCallChat(c.RecvTo, s, err, into(mkM(""), s.RecvTo), mkE, q)
	},
	"any.v1.deep.Beta_Two/Get": func(c *AnyCall, ctx context.Context, cc srpc.Client, q []string) ([]string, error) {
		return anyOne(anyCl(c, cc, anysvc.NewSRPCBeta_TwoClient, anysvc.NewSRPCBeta_TwoClientWithServiceID).Get(ctx, mkM(q[0])))
	},
	"any.v1.deep.Beta_Two/get_it": func(c *AnyCall, ctx context.Context, cc srpc.Client, q []string) ([]string, error) {
		return anyOne(anyCl(c, cc, anysvc.NewSRPCBeta_TwoClient, anysvc.NewSRPCBeta_TwoClientWithServiceID).GetIt(ctx, mkM(q[0])))
	},
	"any.v1.deep.Beta_Two/Push": func(c *AnyCall, ctx context.Context, cc srpc.Client, q []string) ([]string, error) {
		s, err := anyCl(c, cc, anysvc.NewSRPCBeta_TwoClient, anysvc.NewSRPCBeta_TwoClientWithServiceID).Push(ctx)
		return anyCallPush(s, err, mkM, q)
	},
	"any.v1.deep.Beta_Two/pull_2": func(c *AnyCall, ctx context.Context, cc srpc.Client, q []string) ([]string, error) {
		s, err := anyCl(c, cc, anysvc.NewSRPCBeta_TwoClient, anysvc.NewSRPCBeta_TwoClientWithServiceID).Pull_2(ctx, mkM(q[0]))
		if err != nil {
			return nil, err
		}
		return anyCallPull(c.RecvTo, s, err, into(mkM(""), s.RecvTo))
	},
	"any.v1.deep.Beta_Two/Chat": func(c *AnyCall, ctx context.Context, cc srpc.Client, q []string) ([]string, error) {
		s, err := anyCl(c, cc, anysvc.NewSRPCBeta_TwoClient, anysvc.NewSRPCBeta_TwoClientWithServiceID).Chat(ctx)
		if err != nil {
			return nil, err
		}
		return anyCallChat(c.RecvTo, s, err, into(mkE(""), s.RecvTo), mkM, q)
	},
	"any.v1.deep.lower/ping": func(c *AnyCall, ctx context.Context, cc srpc.Client, q []string) ([]string, error) {
		return anyOne(anyCl(c, cc, anysvc.NewSRPCLowerClient, anysvc.NewSRPCLowerClientWithServiceID).Ping(ctx, &emptypb.Empty{}))
	},
	"any.v1.deep.A/B_C": func(c *AnyCall, ctx context.Context, cc srpc.Client, q []string) ([]string, error) {
		s, err := anyCl(c, cc, anysvc.NewSRPCAClient, anysvc.NewSRPCAClientWithServiceID).B_C(ctx)
		if err != nil {
			return nil, err
		}
		return anyCallChat(c.RecvTo, s, err, into(mkE(""), s.RecvTo), mkE, q)
	},
	"any.v1.deep.A_B/C": func(c *AnyCall, ctx context.Context, cc srpc.Client, q []string) ([]string, error) {
		s, err := anyCl(c, cc, anysvc.NewSRPCA_BClient, anysvc.NewSRPCA_BClientWithServiceID).C(ctx)
		if err != nil {
			return nil, err
		}
		return anyCallChat(c.RecvTo, s, err, into(mkM(""), s.RecvTo), mkM, q)
	},
	"Gamma/Get": func(c *AnyCall, ctx context.Context, cc srpc.Client, q []string) ([]string, error) {
		return anyOne(anyCl(c, cc, anysvc.NewSRPCGammaClient, anysvc.NewSRPCGammaClientWithServiceID).Get(ctx, mkE(q[0])))
	},
	"Gamma/Pkts": func(c *AnyCall, ctx context.Context, cc srpc.Client, q []string) ([]string, error) {
		s, err := anyCl(c, cc, anysvc.NewSRPCGammaClient, anysvc.NewSRPCGammaClientWithServiceID).Pkts(ctx)
		if err != nil {
			return nil, err
		}
		return anyCallChat(c.RecvTo, s, err, into(mkP(""), s.RecvTo), mkP, q)
	},
}

func (x *anyExec) bad(class, f string, a ...any) { x.r.violate("C26", class, f, a...) }

func runAny(r *Run) {
	x := &anyExec{r: r, p: r.Plan.Any, ctx: context.Background()}
	mux := srpc.NewMux()
	for i := range anyServices {
		s := &anyServices[i]
		if s.konst != s.id {
			x.bad("wrong-service-id", "the service ID of %s is %q", s.id, s.konst)
		}
		if err := s.reg(mux); err != nil {
			x.bad("register-failed", "registering %s failed: %v", s.id, err)
		}
		h := s.handler("2:", "id2."+s.id)
		if err := mux.Register(h); err != nil {
			x.bad("register-failed", "registering %s under another ID failed: %v", s.id, err)
		}
		for _, id := range []string{"", "own"} {
			h, want := s.handler("", id), id
			if id == "" {
				want = s.id
			}
			got, exp := append([]string(nil), h.GetMethodIDs()...), append([]string(nil), s.methods...)
			sort.Strings(got)
			sort.Strings(exp)
			if h.GetServiceID() != want || strings.Join(got, ",") != strings.Join(exp, ",") {
				x.bad("wrong-methods", "the handler of %s made with ID %q says it is %q with %v", s.id, id, h.GetServiceID(), got)
			}
			for _, q := range [][2]string{{"other", "Get"}, {want, "nope"}, {want, ""}, {"other", "Chat"}} {
				if ok, err := h.InvokeMethod(q[0], q[1], nil); ok || err != nil {
					x.bad("wrong-method-invoked", "the handler of %s invoked %q of %q: %v, %v", s.id, q[1], q[0], ok, err)
				}
			}
		}
	}
	cc := srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(mux)))
	g := newGroup()
	for i := range x.p.Calls {
		g.Go(func() { x.call(i, cc) })
	}
	if !g.Wait(callBound) {
		x.bad("stuck", "calls still not finished: %s", strings.Join(r.pending(), "; "))
	}
}

func (x *anyExec) call(i int, cc srpc.Client) {
	c := &x.p.Calls[i]
	time.Sleep(time.Duration(c.AtMs) * time.Millisecond)
	k := strings.LastIndexByte(c.Meth, '/')
	svc, meth, kind := c.Meth[:k], c.Meth[k+1:], anyKinds[c.Meth]
	short := svc[strings.LastIndexByte(svc, '.')+1:] + "." + meth + ":"
	if c.With && c.ID != "" {
		short = "2:" + short
	}
	n := len(c.Reqs)
	if kind != "push" && kind != "chat" {
		n = 1
	}
	var reqs, bodies []string
	for j := 0; j < n; j++ {
		l, e := 0, ""
		if j < len(c.Reqs) {
			l = c.Reqs[j]
		}
		if j == n-1 {
			e = c.Err
		}
		b := string(content(i, j, 0, l))
		reqs = append(reqs, strconv.Itoa(c.Out)+"|"+e+"|"+b)
		bodies = append(bodies, b)
	}
	fails := c.Err != "" && n > 0 && kind != "ping"
	var want []string
	switch {
	case kind == "ping":
		want = []string{""}
	case kind == "unary" && !fails:
		want = []string{short + bodies[0]}
	case kind == "push" && !fails:
		s := short
		for _, b := range bodies {
			s += b + ";"
		}
		want = []string{s}
	case kind == "pull":
		for j := 0; j < c.Out; j++ {
			want = append(want, short+strconv.Itoa(j)+bodies[0])
		}
	case kind == "chat":
		for j, b := range bodies {
			if !fails || j < n-1 {
				want = append(want, short+b)
			}
		}
	}
	id := x.r.begin("call %d: %s", i, c.Meth)
	got, err := anyCalls[c.Meth](c, x.ctx, cc, reqs)
	x.r.end(id, "%d messages, %v", len(got), err)
	x.r.probe("any-" + kind)
	if kind == "pull" && errors.Is(err, io.ErrClosedPipe) && len(got) == 0 {
		// a known finding, reported by the stub family: the constructor returned the
		// error of its own half-close
		x.r.probe("any-early-status")
		return
	}
	switch {
	case fails && (err == nil || err.Error() != c.Err):
		x.bad("wrong-status", "call %d of %s failed with %q, the caller was told %v", i, c.Meth, c.Err, err)
	case !fails && err != nil:
		x.bad("wrong-status", "call %d of %s succeeded, the caller was told %v", i, c.Meth, err)
	case len(got) != len(want):
		x.bad("lost-message", "call %d of %s got %d messages, expected %d", i, c.Meth, len(got), len(want))
	default:
		for j := range want {
			if got[j] != want[j] {
				x.bad("wrong-message", "message #%d of call %d of %s is %.60q, expected %.60q", j, i, c.Meth, got[j], want[j])
				return
			}
		}
	}
}

func genAnyPlan(r *RNG, p *Plan) {
	p.Family = "any"
	q := &AnyPlan{}
	p.Any = q
	var meths []string
	for m := range anyKinds {
		meths = append(meths, m)
	}
	sort.Strings(meths)
	for n := r.Range(1, 4); n > 0; n-- {
		c := AnyCall{Meth: pick(r, meths...), With: r.P(0.5), Out: r.N(5), RecvTo: r.P(0.4)}
		if c.With && r.P(0.7) {
			c.ID = "id2." + c.Meth[:strings.LastIndexByte(c.Meth, '/')]
		}
		if r.P(0.4) {
			c.AtMs = r.N(20)
		}
		for k := r.N(5); k > 0; k-- {
			c.Reqs = append(c.Reqs, genSize(r, 0.03))
		}
		if r.P(0.3) {
			c.Err = pick(r, "boom", "no such thing", "EOF")
		}
		q.Calls = append(q.Calls, c)
	}
}

func reduceAny(p *Plan) (out []*Plan) {
	add := func(f func(q *AnyPlan)) {
		q := clonePlan(p)
		f(q.Any)
		out = append(out, q)
	}
	for i := range p.Any.Calls {
		add(func(q *AnyPlan) { q.Calls = append(q.Calls[:i], q.Calls[i+1:]...) })
		c := &p.Any.Calls[i]
		if c.AtMs > 0 || c.Out > 1 {
			add(func(q *AnyPlan) { q.Calls[i].AtMs, q.Calls[i].Out = 0, min(1, c.Out) })
		}
		if len(c.Reqs) > 0 {
			add(func(q *AnyPlan) { q.Calls[i].Reqs = q.Calls[i].Reqs[1:] })
		}
		if c.RecvTo || c.With {
			add(func(q *AnyPlan) { q.Calls[i].RecvTo, q.Calls[i].With, q.Calls[i].ID = false, false, "" })
		}
	}
	return out
}

func init() {
	families["any"] = family{runAny, "C26,C12"}
	reducers["any"] = reduceAny
	genAny = genAnyPlan
}
