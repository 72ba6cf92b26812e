package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
)

// SetPlan drives a set of clients.
type SetPlan struct {
	Clients []SetClient `json:"clients"`
	Calls   []SetCall   `json:"calls"`
	VClient bool        `json:"vclient,omitempty"`
	Nested  int         `json:"nested,omitempty"` // the first n clients form a set of their own
}

// SetClient is one member of the set.
type SetClient struct {
	// nil, ok, unimpl, unimpltext, canceled, deadline, err, wrapped, eof, block,
	// or a real client: srv (handles the call), srverr, empty (nothing registered),
	// noopen (its connection cannot be opened), dead (its server is gone)
	Out []string `json:"out"` // per call, cyclic
	Ms  int      `json:"ms,omitempty"`
}

// SetCall is one call made to the set.
type SetCall struct {
	Stream  bool `json:"stream,omitempty"`
	StartMs int  `json:"startMs,omitempty"`
	Cancel  int  `json:"cancel"` // cancel the context after this many ms; -1: never; 0: before the call
	N       int  `json:"n"`      // size of the request
}

type setExec struct {
	r     *Run
	p     *SetPlan
	calls []*setCall
	real  map[string]srpc.Client
}

type setKey struct{}

// setCall is the recorded history of one call.
type setCall struct {
	i       int
	p       *SetCall
	ctx     *trackCtx
	in, out *srpc.RawMessage
	seen    []*setSeen
	handled int // times a real handler was invoked
}

type setSeen struct {
	client    int
	err       error
	done      bool
	cancelled bool // the caller's context was done when the client returned
	strm      srpc.Stream
}

type setStream struct {
	srpc.Stream
	id int
}

// setClient is a scripted or real member that records the calls made to it.
type setClient struct {
	x *setExec
	i int
	p *SetClient
}

func setErr(kind string) error {
	switch kind {
	case "ok", "block":
		return nil
	case "unimpl":
		return srpc.ErrUnimplemented
	case "unimpltext":
		return errors.New("unimplemented")
	case "canceled":
		return context.Canceled
	case "deadline":
		return context.DeadlineExceeded
	case "wrapped":
		return fmt.Errorf("wrapped: %w", context.Canceled)
	case "eof":
		return io.EOF
	case "uneof":
		return io.ErrUnexpectedEOF
	case "closedpipe":
		return io.ErrClosedPipe
	case "timeout":
		return os.ErrDeadlineExceeded
	case "reset":
		return errReset
	case "noclients":
		return srpc.ErrNoAvailableClients
	case "emptysvc":
		return srpc.ErrEmptyServiceID
	case "like":
		return errors.New("method is unimplemented")
	case "emptytext":
		return errors.New("")
	}
	return errors.New("err " + kind)
}

func (c *setClient) begin(ctx context.Context, svc, meth string, in, out srpc.Message) (*setCall, *setSeen) {
	x := c.x
	n, ok := ctx.Value(setKey{}).(int)
	if !ok {
		x.r.violate("C19", "wrong-context", "client %d was called with a context that is not derived from the caller's", c.i)
		return nil, nil
	}
	sc := x.calls[n]
	s := &setSeen{client: c.i}
	if m := len(sc.seen); m > 0 && !sc.seen[m-1].done {
		x.r.violate("C19", "overlap", "call %d was made to client %d while client %d had not answered", n, c.i, sc.seen[m-1].client)
	}
	sc.seen = append(sc.seen, s)
	if svc != "svc" || meth != fmt.Sprintf("m%d", n) || in != srpc.Message(sc.in) || out != nil && out != srpc.Message(sc.out) {
		x.r.violate("C19", "wrong-call", "client %d was called as %q %q for call %d, or with other messages", c.i, svc, meth, n)
	}
	x.r.probe("client-called")
	return sc, s
}

func (c *setClient) run(ctx context.Context, svc, meth string, in, out srpc.Message, stream bool) (srpc.Stream, error) {
	sc, s := c.begin(ctx, svc, meth, in, out)
	if sc == nil {
		return nil, nil
	}
	kind := c.p.Out[sc.i%len(c.p.Out)]
	if real := c.x.real[kind]; real != nil {
		if stream {
			s.strm, s.err = real.NewStream(ctx, svc, meth, in)
		} else {
			s.err = real.ExecCall(ctx, svc, meth, in, out)
		}
	} else {
		if c.p.Ms > 0 {
			time.Sleep(time.Duration(c.p.Ms) * time.Millisecond)
		}
		if kind == "block" {
			<-ctx.Done()
			s.err = context.Canceled
		} else {
			s.err = setErr(kind)
		}
		if s.err == nil {
			if stream {
				s.strm = &setStream{id: sc.i*100 + c.i}
			} else {
				sc.out.SetData([]byte(fmt.Sprintf("r%d.%d", sc.i, c.i)))
			}
		}
	}
	select {
	case <-sc.ctx.done:
		s.cancelled = true
	default:
	}
	s.done = true
	return s.strm, s.err
}

func (c *setClient) ExecCall(ctx context.Context, svc, meth string, in, out srpc.Message) error {
	_, err := c.run(ctx, svc, meth, in, out, false)
	return err
}

func (c *setClient) NewStream(ctx context.Context, svc, meth string, first srpc.Message) (srpc.Stream, error) {
	return c.run(ctx, svc, meth, first, nil, true)
}

// setHandler is the real service.
type setHandler struct {
	x   *setExec
	err error
}

func (h *setHandler) InvokeMethod(svc, meth string, strm srpc.Stream) (bool, error) {
	var n int
	_, _ = fmt.Sscanf(meth, "m%d", &n)
	sc := h.x.calls[n]
	sc.handled++
	m := srpc.NewRawMessage(nil, true)
	if err := strm.MsgRecv(m); err != nil {
		return true, err
	}
	if string(m.GetData()) != string(content(9, 0, n, sc.p.N)) {
		h.x.r.violate("C19,C03", "corrupt-message", "call %d: the handler received a request of %d bytes that differs from the one sent", n, len(m.GetData()))
	}
	if h.err != nil {
		return true, h.err
	}
	return true, strm.MsgSend(srpc.NewRawMessage([]byte(fmt.Sprintf("r%d.srv", n)), true))
}

func runSet(r *Run) {
	p := r.Plan.Set
	x := &setExec{r: r, p: p, real: map[string]srpc.Client{}}
	srv := func(inv srpc.Invoker) srpc.Client { return srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(inv))) }
	x.real["srv"] = srv(&setHandler{x: x})
	x.real["srverr"] = srv(&setHandler{x: x, err: errors.New("srv failed")})
	x.real["empty"] = srv(srpc.NewMux())
	x.real["noopen"] = srpc.NewClient(func(ctx context.Context, _ srpc.PacketDataHandler, _ srpc.CloseHandler) (srpc.PacketWriter, error) {
		return nil, errors.New("open failed")
	})
	x.real["dead"] = srpc.NewClient(func(ctx context.Context, mh srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
		a, b, _ := newLink(NetCfg{}, 0, nil)
		_ = b.Close()
		prw := srpc.NewPacketReadWriter(a)
		go prw.ReadPump(mh, ch)
		return prw, nil
	})
	var cls []srpc.Client
	for i := range p.Clients {
		if p.Clients[i].Out[0] == "nil" {
			cls = append(cls, nil)
			continue
		}
		cls = append(cls, &setClient{x, i, &p.Clients[i]})
	}
	var set srpc.Client
	if p.Nested > 0 {
		set = srpc.NewClientSet(append([]srpc.Client{srpc.NewClientSet(cls[:p.Nested])}, cls[p.Nested:]...))
	} else {
		set = srpc.NewClientSet(cls)
	}
	if p.VClient {
		set = srpc.NewVClient(set, discardLog)
	}
	g := newGroup()
	for i := range p.Calls {
		c := &setCall{i: i, p: &p.Calls[i], ctx: newTrackCtx(i)}
		c.in, c.out = srpc.NewRawMessage(content(9, 0, i, c.p.N), true), srpc.NewRawMessage(nil, true)
		x.calls = append(x.calls, c)
	}
	for _, c := range x.calls {
		g.Go(func() { x.call(set, c) })
	}
	if !g.Wait(callBound) {
		r.violate("C19", "stuck", "calls did not return: %s", strings.Join(r.pending(), "; "))
	}
	for _, c := range x.calls {
		c.ctx.cancel()
	}
	time.Sleep(settleTime)
}

func (x *setExec) call(set srpc.Client, c *setCall) {
	r := x.r
	if c.p.StartMs > 0 {
		time.Sleep(time.Duration(c.p.StartMs) * time.Millisecond)
	}
	if c.p.Cancel == 0 {
		c.ctx.cancel()
		r.fault("precancel")
	} else if c.p.Cancel > 0 {
		time.AfterFunc(time.Duration(c.p.Cancel)*time.Millisecond, func() {
			r.fault("cancel")
			c.ctx.cancel()
		})
	}
	ctx := context.WithValue(c.ctx, setKey{}, c.i)
	id := r.begin("call %d", c.i)
	var err error
	var strm srpc.Stream
	if c.p.Stream {
		strm, err = set.NewStream(ctx, "svc", fmt.Sprintf("m%d", c.i), c.in)
	} else {
		err = set.ExecCall(ctx, "svc", fmt.Sprintf("m%d", c.i), c.in, c.out)
	}
	var tried []int
	for _, s := range c.seen {
		tried = append(tried, s.client)
	}
	r.end(id, "%v; clients %v", err, tried)
	bad := func(cls, f string, a ...any) {
		r.violate("C19", cls, "call %d (clients tried: %v): %s", c.i, tried, fmt.Sprintf(f, a...))
	}
	// the members in order, without the nil ones
	var order []int
	for i := range x.p.Clients {
		if x.p.Clients[i].Out[0] != "nil" {
			order = append(order, i)
		}
	}
	defer func() {
		if strm != nil {
			if _, ok := strm.(*setStream); !ok {
				_ = strm.Close()
			}
		}
	}()
	if len(order) == 0 {
		want := srpc.ErrNoAvailableClients.Error()
		if len(c.seen) != 0 || err == nil || err.Error() != want {
			bad("wrong-result", "returned %v without any client", err)
		}
		return
	}
	for k, s := range c.seen {
		if k >= len(order) || s.client != order[k] {
			bad("wrong-order", "the clients must be tried once each in the order %v", order)
			return
		}
		if !s.done {
			bad("early-return", "the call returned before client %d answered", s.client)
			return
		}
		if k < len(c.seen)-1 && !skips(s.err) {
			bad("wrong-failover", "client %d answered %v, and the call was made to another client as well", s.client, s.err)
			return
		}
	}
	if len(c.seen) == 0 {
		if !(c.p.Cancel == 0 && err == context.Canceled) {
			bad("wrong-result", "returned %v without asking any client", err)
		}
		return
	}
	last := c.seen[len(c.seen)-1]
	rest := len(order) - len(c.seen)
	dead := c.ctx.err != nil
	switch {
	case last.err == nil:
		if err != nil {
			bad("wrong-result", "client %d answered successfully, the call returned %v", last.client, err)
		} else if c.p.Stream && strm != last.strm {
			bad("wrong-result", "the stream returned is not the one of client %d", last.client)
		}
	case !skips(last.err):
		if err == nil || err.Error() != last.err.Error() {
			bad("wrong-result", "client %d answered %v, the call returned %v", last.client, last.err, err)
		}
	case dead && err == context.Canceled:
	case rest > 0:
		bad("no-failover", "client %d answered %v, the call returned %v without trying the other clients %v", last.client, last.err, err, order[len(c.seen):])
	case err == nil || err.Error() != srpc.ErrUnimplemented.Error():
		bad("wrong-result", "no client implements the call, which returned %v", err)
	}
	if last.cancelled && last.err == context.Canceled && err != context.Canceled {
		bad("wrong-result", "the context was cancelled and client %d answered %v, the call returned %v", last.client, last.err, err)
	}
	// the real service is invoked at most once, and its response is the one returned
	if !c.p.Stream {
		if c.handled > 1 {
			bad("invoked-twice", "the handler was invoked %d times", c.handled)
		}
		if err == nil {
			want := fmt.Sprintf("r%d.%d", c.i, last.client)
			cl := x.p.Clients[last.client]
			if cl.Out[c.i%len(cl.Out)] == "srv" {
				want = fmt.Sprintf("r%d.srv", c.i)
			}
			if got := string(c.out.GetData()); got != want {
				bad("wrong-response", "returned the response %q, client %d gave %q", got, last.client, want)
			}
		}
	}
}

// skips: the next client is tried after this answer.
func skips(err error) bool {
	return err != nil && (err == context.Canceled || err.Error() == srpc.ErrUnimplemented.Error())
}

func genSet(r *RNG, p *Plan) {
	p.Family = "set"
	s := &SetPlan{}
	p.Set = s
	n := r.N(6)
	for i := 0; i < n; i++ {
		c := SetClient{}
		if r.P(0.12) {
			c.Out = []string{"nil"}
		} else {
			for k := r.Range(1, 3); k > 0; k-- {
				c.Out = append(c.Out, pick(r, "ok", "unimpl", "unimpl", "unimpltext", "unimpltext", "canceled", "deadline", "err", "wrapped", "eof", "block", "srv", "srverr", "empty", "empty", "empty", "noopen", "dead",
					"uneof", "closedpipe", "timeout", "reset", "noclients", "emptysvc", "like", "emptytext"))
			}
		}
		if r.P(0.4) {
			c.Ms = r.Range(1, 10)
		}
		s.Clients = append(s.Clients, c)
	}
	s.VClient = r.P(0.2)
	if r.P(0.2) && n > 1 {
		s.Nested = r.Range(1, n)
		some := false
		for _, c := range s.Clients[:s.Nested] {
			some = some || c.Out[0] != "nil"
		}
		if !some {
			s.Nested = 0 // an empty set inside a set reports that it has no clients
		}
	}
	m := r.Range(1, 4)
	for i := 0; i < m; i++ {
		c := SetCall{Cancel: -1, N: r.N(40), Stream: r.P(0.4)}
		if r.P(0.3) {
			c.Cancel = r.N(20)
		}
		if r.P(0.3) {
			c.StartMs = r.N(10)
		}
		for _, cl := range s.Clients {
			if cl.Out[i%len(cl.Out)] == "block" && c.Cancel < 0 {
				c.Cancel = r.Range(1, 30)
			}
		}
		s.Calls = append(s.Calls, c)
	}
}

func reduceSet(p *Plan) []*Plan {
	var out []*Plan
	add := func(f func(q *SetPlan)) {
		q := clonePlan(p)
		f(q.Set)
		out = append(out, q)
	}
	b := p.Set
	if len(b.Calls) > 1 {
		add(func(q *SetPlan) { q.Calls = q.Calls[:len(q.Calls)-1] })
	}
	for i := range b.Clients {
		if b.Nested == 0 {
			add(func(q *SetPlan) { q.Clients = append(q.Clients[:i], q.Clients[i+1:]...) })
		}
		if b.Clients[i].Ms > 0 {
			add(func(q *SetPlan) { q.Clients[i].Ms = 0 })
		}
	}
	for i := range b.Calls {
		if b.Calls[i].StartMs > 0 {
			add(func(q *SetPlan) { q.Calls[i].StartMs = 0 })
		}
	}
	if b.VClient {
		add(func(q *SetPlan) { q.VClient = false })
	}
	if b.Nested > 0 {
		add(func(q *SetPlan) { q.Nested = 0 })
	}
	return out
}

func init() {
	families["set"] = family{runSet, "C19,C12"}
	reducers["set"] = reduceSet
	propGens["C19"] = genSet
}
