package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/aperturerobotics/protobuf-go-lite/types/known/emptypb"
	"github.com/aperturerobotics/starpc/echo"
	mock "github.com/aperturerobotics/starpc/mock"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
)

// StubPlan drives generated clients and servers and the bundled services.
type StubPlan struct {
	Topo   string     `json:"topo"`
	Net    NetCfg     `json:"net"`
	Faults []Fault    `json:"faults,omitempty"`
	Nest   bool       `json:"nest,omitempty"` // the calls go through a nested rpcstream served by the bundled EchoServer
	Calls  []StubCall `json:"calls"`
}

// StubCall is one typed call.
type StubCall struct {
	Kind   string `json:"kind"`             // echo, server, client, bidi, nothing, mock, rpcs, plain
	Method string `json:"method,omitempty"` // plain: the method called without the generated client
	Req    string `json:"req,omitempty"`    // plain: ok, garbage, none
	Garb   bool   `json:"garb,omitempty"`   // client, bidi: the client also sends bytes that do not decode
	HGarb  bool   `json:"hgarb,omitempty"`  // server, bidi: the handler also sends bytes that do not decode
	Stay   bool   `json:"stay,omitempty"`   // the handler stays after SendAndClose until the client is gone
	Real   bool   `json:"real"`             // the bundled service, otherwise a scripted implementation under its own service id
	Svc    string `json:"svc,omitempty"`    // missing: a service id nobody registered; empty: the default id given as ""
	AtMs   int    `json:"atMs,omitempty"`
	C      []int  `json:"c,omitempty"` // sizes sent by the client (the first one is the request of echo and server)
	CMs    int    `json:"cMs,omitempty"`
	Nil    bool   `json:"nil,omitempty"`   // the client also sends nil messages
	To     bool   `json:"to,omitempty"`    // uses RecvTo and CloseAndMsgRecv
	Half   bool   `json:"half"`            // bidi: the client half-closes after its messages
	Twice  bool   `json:"twice,omitempty"` // half-closes again, explicitly
	Cancel int    `json:"cancel,omitempty"`
	R      int    `json:"r"`           // scripted handler: messages received before it ends (-1: all)
	H      []int  `json:"h,omitempty"` // sizes sent by the handler
	HMs    int    `json:"hMs,omitempty"`
	End    string `json:"end"` // ret, err, sac, sacnil: how the handler ends
	Late   int    `json:"late,omitempty"`
}

type stubExec struct {
	r  *Run
	p  *StubPlan
	tp *bytesExec
	cs []*stubCall
}

type stubCall struct {
	x    *stubExec
	i    int
	p    *StubCall
	ctx  *trackCtx
	hctx context.Context
	inv  int
	// client to server
	sent     []string
	sentOK   []bool
	hgot     []string
	hterm    error
	hlive    bool // the handler's context was live then
	half     bool
	closed   bool
	hsent    []string
	hsentOK  []bool
	hret     bool
	hclosed  bool // the handler half-closed
	herr     error
	got      []string
	gotAt    []time.Duration
	term     error
	done     bool
	canceled bool
	csErr    string // the half-close of a generated client method failed
}

func (c *stubCall) body(dir, idx, size int) string { return string(content(c.i, 10+dir, idx, size)) }

func (c *stubCall) dist() bool {
	if c.canceled || c.x.tp.scx.err != nil {
		return true
	}
	for _, l := range c.x.tp.lks {
		if l.cut {
			return true
		}
	}
	return false
}

func (c *stubCall) bad(class, f string, a ...any) {
	c.x.r.violate("C26", class, "call %d (%s): "+f, append([]any{c.i, c.p.Kind}, a...)...)
}

var errScripted = errors.New("scripted failure")

// the scripted implementation of one call

func (c *stubCall) enter(ctx context.Context) {
	c.inv++
	c.hctx = ctx
	c.x.r.probe("handler-invoked")
}

func (c *stubCall) leave(err error) error {
	if c.p.Late > 0 {
		time.Sleep(time.Duration(c.p.Late) * time.Millisecond)
	}
	if c.p.Stay && c.hclosed && err == nil {
		id := c.x.r.begin("call %d: handler stays until the client is gone", c.i)
		select {
		case <-c.hctx.Done():
		case <-time.After(time.Minute):
			if !c.dist() && !c.x.tp.silent() {
				c.bad("end-not-seen", "the handler ended its direction a minute ago and the client has not seen the end")
			}
		}
		c.x.r.end(id, "")
	}
	c.herr = err
	c.hret = true
	return err
}

func (c *stubCall) err() error {
	if c.p.End == "err" {
		return errScripted
	}
	return nil
}

func (c *stubCall) reply() *echo.EchoMsg {
	if len(c.p.H) == 0 {
		c.hsent, c.hsentOK = append(c.hsent, ""), append(c.hsentOK, true)
		return nil
	}
	b := c.body(1, 0, c.p.H[0])
	c.hsent, c.hsentOK = append(c.hsent, b), append(c.hsentOK, true)
	return &echo.EchoMsg{Body: b}
}

func (c *stubCall) Echo(ctx context.Context, msg *echo.EchoMsg) (*echo.EchoMsg, error) {
	c.enter(ctx)
	c.hgot = append(c.hgot, msg.GetBody())
	if err := c.err(); err != nil {
		return nil, c.leave(err)
	}
	return c.reply(), c.leave(nil)
}

func (c *stubCall) DoNothing(ctx context.Context, _ *emptypb.Empty) (*emptypb.Empty, error) {
	c.enter(ctx)
	if err := c.err(); err != nil {
		return nil, c.leave(err)
	}
	c.hsent, c.hsentOK = append(c.hsent, ""), append(c.hsentOK, true)
	return nil, c.leave(nil)
}

// stubGarbage is no protobuf message.
func stubGarbage() []byte { return []byte{0xff} }

type stubSender interface {
	srpc.Stream
	Send(*echo.EchoMsg) error
	SendAndClose(*echo.EchoMsg) error
}

func (c *stubCall) hsend(s stubSender) error {
	for k, n := range c.p.H {
		if c.p.HMs > 0 {
			time.Sleep(time.Duration(c.p.HMs) * time.Millisecond)
		}
		b := c.body(1, k, n)
		c.hsent, c.hsentOK = append(c.hsent, b), append(c.hsentOK, false)
		last := k == len(c.p.H)-1 && c.p.End == "sac"
		id := c.x.r.begin("call %d: handler send #%d", c.i, k)
		var err error
		if last {
			c.hclosed = true
			err = s.SendAndClose(&echo.EchoMsg{Body: b})
		} else {
			err = s.Send(&echo.EchoMsg{Body: b})
		}
		c.x.r.end(id, "%v", err)
		if err != nil {
			if !c.dist() && !c.closed {
				c.bad("handler-send-failed", "a send of the handler failed with %q although nothing interrupted the call", err)
			}
			return err
		}
		c.hsentOK[k] = true
	}
	if c.p.HGarb {
		_ = s.MsgSend(srpc.NewRawMessage(stubGarbage(), false))
		return nil
	}
	if c.p.End == "sacnil" || c.p.End == "sac" && len(c.p.H) == 0 {
		c.hclosed = true
		return s.SendAndClose(nil)
	}
	return nil
}

type stubReceiver interface {
	Recv() (*echo.EchoMsg, error)
	RecvTo(*echo.EchoMsg) error
}

func (c *stubCall) hrecv(s stubReceiver) {
	for k := 0; c.p.R < 0 || k < c.p.R; k++ {
		id := c.x.r.begin("call %d: handler recv", c.i)
		m, err := &echo.EchoMsg{}, error(nil)
		if c.p.To {
			err = s.RecvTo(m)
		} else {
			m, err = s.Recv()
		}
		c.x.r.end(id, "%v", err)
		if err != nil {
			c.hterm, c.hlive = err, c.hctx.Err() == nil
			return
		}
		c.hgot = append(c.hgot, m.GetBody())
	}
}

func (c *stubCall) EchoServerStream(msg *echo.EchoMsg, strm echo.SRPCEchoer_EchoServerStreamStream) error {
	c.enter(strm.Context())
	c.hgot = append(c.hgot, msg.GetBody())
	if err := c.hsend(strm); err != nil {
		return c.leave(err)
	}
	return c.leave(c.err())
}

func (c *stubCall) EchoClientStream(strm echo.SRPCEchoer_EchoClientStreamStream) (*echo.EchoMsg, error) {
	c.enter(strm.Context())
	c.hrecv(strm)
	if err := c.err(); err != nil {
		return nil, c.leave(err)
	}
	return c.reply(), c.leave(nil)
}

func (c *stubCall) EchoBidiStream(strm echo.SRPCEchoer_EchoBidiStreamStream) error {
	c.enter(strm.Context())
	g := newGroup()
	var err error
	g.Go(func() { err = c.hsend(strm) })
	c.hrecv(strm)
	g.Wait(2 * callBound)
	if err == nil {
		err = c.err()
	}
	return c.leave(err)
}

func (c *stubCall) RpcStream(strm echo.SRPCEchoer_RpcStreamStream) error {
	c.enter(strm.Context())
	return c.leave(errScripted)
}

// stubClient notes the outcome of half-closes made by generated methods.
type stubClient struct {
	srpc.Client
	c *stubCall
}

type stubStream struct {
	srpc.Stream
	c *stubCall
}

func (k *stubClient) NewStream(ctx context.Context, service, method string, first srpc.Message) (srpc.Stream, error) {
	s, err := k.Client.NewStream(ctx, service, method, first)
	if err != nil {
		return s, err
	}
	return &stubStream{s, k.c}, nil
}

func (s *stubStream) CloseSend() error {
	err := s.Stream.CloseSend()
	if err != nil {
		s.c.csErr = err.Error()
	}
	return err
}

func (s *stubStream) MsgSend(m srpc.Message) error {
	err := s.Stream.MsgSend(m)
	if err != nil && s.c.p.Kind == "rpcs" {
		s.c.csErr = err.Error()
	}
	return err
}

// the client side

func (c *stubCall) clientSend(s interface{ Send(*echo.EchoMsg) error }, k int) bool {
	if c.p.CMs > 0 {
		time.Sleep(time.Duration(c.p.CMs) * time.Millisecond)
	}
	if c.p.Nil {
		if err := s.Send(nil); err != nil {
			c.bad("nil-send", "sending no message failed with %q", err)
		}
	}
	b := c.body(0, k, c.p.C[k])
	c.sent, c.sentOK = append(c.sent, b), append(c.sentOK, false)
	id := c.x.r.begin("call %d: client send #%d", c.i, k)
	err := s.Send(&echo.EchoMsg{Body: b})
	c.x.r.end(id, "%v", err)
	c.sentOK[k] = err == nil
	if err != nil && !c.dist() && !c.over() {
		c.bad("send-failed", "a send failed with %q although nothing interrupted the call", err)
	}
	return err == nil
}

// over: the handler has returned, or may have.
func (c *stubCall) over() bool {
	if c.p.Svc == "missing" {
		return true
	}
	if c.p.Real {
		return c.p.Garb || c.p.Kind == "client" && len(c.sent) > 0 || c.p.Kind == "bidi" && c.sentEmpty() || c.term != nil
	}
	return c.hret
}

// plain calls a method of the generated server without the generated client.
func (c *stubCall) plain(cc srpc.Client) {
	p := c.p
	var first srpc.Message
	switch p.Req {
	case "ok":
		n := 0
		if len(p.C) > 0 {
			n = p.C[0]
		}
		c.sent, c.sentOK = []string{c.body(0, 0, n)}, []bool{true}
		if p.Method == "DoNothing" {
			c.sent[0] = ""
			first = &emptypb.Empty{}
		} else {
			first = &echo.EchoMsg{Body: c.sent[0]}
		}
	case "garbage":
		first = srpc.NewRawMessage(stubGarbage(), false)
	}
	strm, err := cc.NewStream(c.ctx, fmt.Sprintf("svc%d", c.i), p.Method, first)
	if err != nil {
		c.term = err
		if !c.dist() {
			c.bad("open-failed", "opening the stream failed with %q although nothing interrupted the call", err)
		}
		return
	}
	if p.Req == "none" {
		_ = strm.CloseSend()
	}
	c.half = true
	for {
		m := &echo.EchoMsg{}
		if err := strm.MsgRecv(m); err != nil {
			c.term = err
			break
		}
		c.got = append(c.got, m.GetBody())
		c.gotAt = append(c.gotAt, 0)
	}
	c.closed = true
	_ = strm.Close()
}

// direct calls the generated handler with ids that are not its own.
func (c *stubCall) direct() {
	a, b := srpc.NewPipeStream(context.Background())
	_ = b.Close()
	defer a.Close()
	svc := fmt.Sprintf("svc%d", c.i)
	h := echo.NewSRPCEchoerHandler(c, svc)
	m := mock.NewSRPCMockHandler(&mock.MockServer{}, svc)
	for _, k := range []struct {
		h         srpc.Handler
		svc, meth string
	}{{h, "svc", "Echo"}, {h, "echo.Echoer", "RpcStream"}, {h, svc, "echo"}, {h, svc, ""}, {h, svc, "MockRequest"}, {m, "e2e.mock.Mock", "MockRequest"}, {m, svc, "Echo"}} {
		if ok, err := k.h.InvokeMethod(k.svc, k.meth, a); ok || err != nil {
			c.bad("misroute", "the generated handler of service %q answered %v, %v for method %q of service %q", svc, ok, err, k.meth, k.svc)
		}
	}
	if c.inv > 0 {
		c.bad("misroute", "the generated handler invoked its implementation for a foreign service or an unknown method")
		c.inv = 0
	}
	if h.GetServiceID() != svc || m.GetServiceID() != svc {
		c.bad("misroute", "the generated handlers report the service ids %q and %q instead of %q", h.GetServiceID(), m.GetServiceID(), svc)
	}
}

func (c *stubCall) sentEmpty() bool {
	for _, s := range c.sent {
		if s == "" {
			return true
		}
	}
	return false
}

func (c *stubCall) clientRecv(s stubReceiver) {
	for {
		id := c.x.r.begin("call %d: client recv", c.i)
		m, err := &echo.EchoMsg{Body: "old"}, error(nil)
		if c.p.To {
			m.Reset()
			err = s.RecvTo(m)
		} else {
			m, err = s.Recv()
		}
		c.x.r.end(id, "%v", err)
		if err != nil && c.p.HGarb && err == io.EOF && c.hret && !c.dist() {
			c.bad("undecodable-accepted", "the client saw a clean end of the stream although a message did not decode")
		}
		if err != nil && c.p.HGarb {
			c.canceled = true // the client goes away before the end
		}
		if err != nil {
			if m != nil && !c.p.To {
				c.bad("message-with-error", "Recv returned a message together with %q", err)
			}
			c.term = err
			return
		}
		c.got = append(c.got, m.GetBody())
		c.gotAt = append(c.gotAt, time.Since(c.x.r.T0))
	}
}

func (c *stubCall) run(cc srpc.Client) {
	x, p := c.x, c.p
	defer func() { c.done = true }()
	time.Sleep(time.Duration(p.AtMs) * time.Millisecond)
	if p.Cancel > 0 {
		time.AfterFunc(time.Duration(p.Cancel)*time.Millisecond, func() {
			if !c.done {
				x.r.fault("cancel")
				c.canceled = true
				c.ctx.cancel()
			}
		})
	}
	var cl echo.SRPCEchoerClient
	switch {
	case p.Svc == "missing":
		cl = echo.NewSRPCEchoerClientWithServiceID(cc, "missing.Echoer")
	case !p.Real:
		cl = echo.NewSRPCEchoerClientWithServiceID(cc, fmt.Sprintf("svc%d", c.i))
	case p.Svc == "empty":
		cl = echo.NewSRPCEchoerClientWithServiceID(cc, "")
	default:
		cl = echo.NewSRPCEchoerClient(cc)
	}
	first := func() *echo.EchoMsg {
		n := 0
		if len(p.C) > 0 {
			n = p.C[0]
		}
		c.sent, c.sentOK = []string{c.body(0, 0, n)}, []bool{true}
		return &echo.EchoMsg{Body: c.sent[0]}
	}
	one := func(m *echo.EchoMsg, err error) {
		c.term = err
		if err != nil {
			if m != nil {
				c.bad("message-with-error", "the call returned a message together with %q", err)
			}
			return
		}
		if m == nil {
			c.bad("no-message", "the call returned neither a message nor an error")
			return
		}
		c.got = append(c.got, m.GetBody())
		c.gotAt = append(c.gotAt, time.Since(x.r.T0))
		c.term = io.EOF
	}
	id := x.r.begin("call %d: %s", c.i, p.Kind)
	defer func() { x.r.end(id, "%v", c.term) }()
	opened := func(err error) bool {
		if err != nil {
			c.term = err
			if !c.dist() && !c.over() {
				c.bad("open-failed", "opening the stream failed with %q although nothing interrupted the call", err)
			}
		}
		return err == nil
	}
	switch p.Kind {
	case "plain":
		c.plain(cc)
	case "echo":
		one(cl.Echo(c.ctx, first()))
	case "nothing":
		m, err := cl.DoNothing(c.ctx, &emptypb.Empty{})
		c.term = err
		if err == nil {
			if m == nil {
				c.bad("no-message", "DoNothing returned neither a message nor an error")
			}
			c.term = io.EOF
			c.got = append(c.got, "")
		}
	case "mock":
		sid := ""
		if !p.Real {
			sid = fmt.Sprintf("mock%d", c.i)
		}
		if p.Svc == "missing" {
			sid = "missing.Mock"
		}
		m, err := mock.NewSRPCMockClientWithServiceID(cc, sid).MockRequest(c.ctx, &mock.MockMsg{Body: first().GetBody()})
		if m == nil {
			one(nil, err)
		} else {
			one(&echo.EchoMsg{Body: m.GetBody()}, err)
		}
	case "server":
		strm, err := cl.EchoServerStream(c.ctx, first())
		if !opened(err) {
			return
		}
		c.half = true
		if p.Twice {
			_ = strm.CloseSend()
		}
		c.clientRecv(strm)
		c.closed = true
		_ = strm.Close()
	case "client":
		strm, err := cl.EchoClientStream(c.ctx)
		if !opened(err) {
			return
		}
		for k := range p.C {
			if !c.clientSend(strm, k) {
				break
			}
		}
		if p.Garb {
			_ = strm.MsgSend(srpc.NewRawMessage(stubGarbage(), false))
		}
		c.half = true
		if p.Twice {
			_ = strm.CloseSend()
		}
		cid := x.r.begin("call %d: CloseAndRecv", c.i)
		if mr, ok := strm.(interface{ CloseAndMsgRecv(*echo.EchoMsg) error }); ok && p.To {
			m := &echo.EchoMsg{}
			if err = mr.CloseAndMsgRecv(m); err != nil {
				m = nil
			}
			one(m, err)
		} else {
			one(strm.CloseAndRecv())
		}
		x.r.end(cid, "%v", c.term)
		c.closed = true
		_ = strm.Close()
	case "bidi":
		strm, err := cl.EchoBidiStream(c.ctx)
		if !opened(err) {
			return
		}
		g := newGroup()
		g.Go(func() {
			for k := range p.C {
				if !c.clientSend(strm, k) {
					break
				}
			}
			if p.Garb {
				_ = strm.MsgSend(srpc.NewRawMessage(stubGarbage(), false))
			}
			if p.Half {
				c.half = true
				cid := x.r.begin("call %d: CloseSend", c.i)
				err := strm.CloseSend()
				x.r.end(cid, "%v", err)
				if err != nil && !c.dist() && !c.over() {
					c.bad("close-send-failed", "CloseSend failed with %q although nothing interrupted the call", err)
				}
				if p.Twice {
					time.Sleep(time.Duration(p.CMs) * time.Millisecond)
					_ = strm.CloseSend()
				}
			}
		})
		g.Go(func() {
			if !p.Half {
				// ends by closing the stream
				time.Sleep(5 * time.Second)
				c.closed, c.canceled = true, true
				_ = strm.Close()
			}
		})
		c.clientRecv(strm)
		g.Wait(2 * callBound)
		c.closed = true
		_ = strm.Close()
	case "rpcs":
		if p.Real && p.Svc != "missing" {
			if s, err := cl.RpcStream(c.ctx); err == nil {
				if err := s.Send(nil); err != nil {
					c.bad("nil-send", "sending no packet failed with %q", err)
				}
				_ = s.Close()
			}
		}
		ps, err := rpcstream.OpenRpcStream(c.ctx, cl.RpcStream, "any", true)
		c.term = err
		if err != nil {
			return
		}
		_ = ps.Close()
		c.closed = true
		if p.Real && x.p.Nest {
			// the bundled server serves its own mux
			n := echo.NewSRPCEchoerClient(rpcstream.NewRpcStreamClient(cl.RpcStream, "other", true))
			one(n.Echo(c.ctx, first()))
		}
	}
}

// check judges a finished call.
func (c *stubCall) check() {
	p := c.p
	if !c.done {
		return // reported as stuck
	}
	dist := c.dist()
	if c.inv > 1 {
		c.bad("invoked-twice", "the handler was invoked %d times", c.inv)
	}
	// what the client may have received
	want := c.hsent
	end := io.EOF
	switch {
	case p.Svc == "missing":
		want, end = nil, srpc.ErrUnimplemented
		if p.Kind == "rpcs" {
			end = srpc.ErrUnimplemented
		}
		if c.inv > 0 {
			c.bad("misroute", "a call of an unregistered service reached a handler")
		}
	case p.Real:
		switch p.Kind {
		case "echo":
			want = c.sent
		case "nothing":
			want = []string{""}
		case "mock":
			want, end = nil, srpc.ErrUnimplemented
		case "server":
			want = []string{c.sent[0], c.sent[0], c.sent[0], c.sent[0], c.sent[0]}
			for k := range c.gotAt {
				if k > 0 && c.gotAt[k] < time.Duration(200*k)*time.Millisecond {
					c.bad("too-early", "message #%d arrived %v after the start", k, c.gotAt[k])
				}
			}
		case "client":
			if len(c.sent) == 0 {
				want, end = nil, errors.New("EOF")
			} else {
				want = c.sent[:1]
			}
		case "bidi":
			want = []string{"hello from server"}
			for _, s := range c.sent {
				if s == "" {
					end = errors.New("got message with empty body")
					break
				}
				want = append(want, s)
			}
		case "rpcs":
			if c.x.p.Nest {
				want = c.sent
			} else {
				want, end = nil, errors.New("remote: not implemented")
			}
		}
	default:
		switch p.Kind {
		case "plain":
			if p.Req != "ok" {
				want = nil
				if c.inv > 0 {
					c.bad("undecodable-accepted", "the implementation of %s was invoked without a proper request (%s)", p.Method, p.Req)
				}
				if !dist && (c.term == nil || c.term == io.EOF) {
					c.bad("undecodable-accepted", "a call of %s without a proper request (%s) ended with %v", p.Method, p.Req, c.term)
				}
				if len(c.got) > 0 {
					c.bad("invented-message", "a call of %s without a proper request (%s) returned a message", p.Method, p.Req)
				}
				return
			}
			if p.End == "err" {
				end = errScripted
				if c.hclosed {
					end = io.EOF
				}
				if p.Method != "EchoServerStream" {
					want = nil
				}
			}
		case "rpcs":
			want, end = nil, errScripted
		default:
			if p.End == "err" {
				end = errScripted
				if c.hclosed {
					end = io.EOF
				}
			}
			if p.Kind == "client" || p.Kind == "echo" || p.Kind == "nothing" || p.Kind == "mock" {
				if p.End == "err" {
					want = nil
				}
			}
		}
	}
	for k, b := range c.got {
		if k >= len(want) {
			c.bad("invented-message", "the client received %d messages, the server sent %d", len(c.got), len(want))
			return
		}
		if b != want[k] {
			c.bad("wrong-message", "message #%d received by the client is %s, want %s", k, short([]byte(b)), short([]byte(want[k])))
			return
		}
	}
	for k, b := range c.hgot {
		if k >= len(c.sent) || b != c.sent[k] {
			c.bad("wrong-request", "message #%d received by the handler is %s, which is not what the client sent", k, short([]byte(b)))
			return
		}
	}
	if p.Garb && !p.Real && c.inv > 0 && !dist && c.hlive && c.hterm == io.EOF {
		c.bad("undecodable-accepted", "the handler saw a clean end of the request stream although a message did not decode")
	}
	if c.hterm == io.EOF && len(c.hgot) != len(c.sent) && !dist {
		c.bad("lost-request", "the handler saw the end of the request stream after %d of %d messages", len(c.hgot), len(c.sent))
	}
	if c.hterm == io.EOF && !c.half && c.hctx.Err() == nil && !dist {
		c.bad("false-eof", "the handler saw the end of the request stream although the client did not half-close")
	}
	if dist || c.term == nil || p.HGarb || p.Garb && p.Real {
		return
	}
	if c.term.Error() != end.Error() || (c.term == io.EOF) != (end == io.EOF) {
		if c.csErr != "" && (p.Kind == "client" || p.Kind == "server" || p.Kind == "rpcs") && c.over() && strings.Contains(c.term.Error(), c.csErr) {
			c.bad("early-status-lost", "the server ended the call with %q before the client had half-closed, the client returned its own error %q", end, c.term)
			return
		}
		c.bad("wrong-status", "the call ended with %q for the client, want %q", c.term, end)
		return
	}
	if len(c.got) != len(want) && (end == io.EOF || !c.p.Real) && p.Kind != "mock" {
		c.bad("lost-message", "the call ended after %d of %d messages", len(c.got), len(want))
	}
}

func runStub(r *Run) {
	p := r.Plan.Stub
	x := &stubExec{r: r, p: p}
	x.tp = &bytesExec{r: r, p: &BytesPlan{Net: p.Net, Topo: p.Topo, Faults: p.Faults}, ctx: newTrackCtx(0), scx: newTrackCtx(-1), prop: "C26"}
	mux := srpc.NewMux()
	must := func(err error) {
		if err != nil {
			r.violate("C26,C13", "register-failed", "registering a service failed: %v", err)
		}
	}
	var es *echo.EchoServer
	if p.Nest {
		es = echo.NewEchoServer(mux)
	} else {
		es = echo.NewEchoServer(nil)
	}
	must(es.Register(mux))
	must((&mock.MockServer{}).Register(mux))
	for i := range p.Calls {
		c := &stubCall{x: x, i: i, p: &p.Calls[i], ctx: newTrackCtx(i + 1)}
		x.cs = append(x.cs, c)
		if c.p.Real || c.p.Svc == "missing" {
			continue
		}
		if c.p.Kind == "mock" {
			must(mux.Register(mock.NewSRPCMockHandler(&mock.MockServer{MockRequestCb: func(ctx context.Context, m *mock.MockMsg) (*mock.MockMsg, error) {
				o, err := c.Echo(ctx, &echo.EchoMsg{Body: m.GetBody()})
				if err != nil || o == nil {
					return nil, err
				}
				return &mock.MockMsg{Body: o.GetBody()}, nil
			}}, fmt.Sprintf("mock%d", i))))
			continue
		}
		must(mux.Register(echo.NewSRPCEchoerHandler(c, fmt.Sprintf("svc%d", i))))
	}
	cc, closeT, err := x.tp.streamTransport(mux)
	if err != nil {
		r.probe("setup-failed")
		return
	}
	g := newGroup()
	for _, c := range x.cs {
		cl := cc
		if p.Nest {
			cl = rpcstream.NewRpcStreamClient(echo.NewSRPCEchoerClient(cc).RpcStream, fmt.Sprintf("comp%d", c.i), c.i%2 == 0)
		}
		if !c.p.Real {
			c.direct()
		}
		g.Go(func() { c.run(&stubClient{cl, c}) })
	}
	if !g.Wait(callBound) {
		if !x.tp.silent() {
			r.violate("C26", "stuck", "calls still not finished after %v: %s", callBound, strings.Join(r.pending(), "; "))
		}
	} else {
		time.Sleep(settleTime)
		for _, c := range x.cs {
			if c.inv > 0 && !x.tp.silent() && !p.Nest {
				if !c.hret {
					c.bad("handler-stuck", "the client is done with the call and the handler is still running")
				} else if c.hctx.Err() == nil {
					c.bad("context-leak", "the handler returned and its context is live")
				}
			}
		}
	}
	for _, c := range x.cs {
		c.check()
	}
	x.tp.dist = true
	closeT()
	for _, k := range x.tp.lks {
		_ = (&simConn{k, 0}).Close()
	}
	x.tp.scx.cancel()
	for _, c := range x.cs {
		c.ctx.cancel()
	}
	if !g.Wait(callBound) && len(r.Viol) == 0 {
		r.violate("C26", "stuck", "calls still not finished %v after everything was closed: %s", callBound, strings.Join(r.pending(), "; "))
	}
	time.Sleep(settleTime)
}

func genStub(r *RNG, p *Plan) {
	p.Family = "stub"
	b := &StubPlan{Topo: pick(r, "pipe", "direct", "yamux", "yamux"), Net: genNet(r, "")}
	p.Stub = b
	b.Nest = r.P(0.2)
	n := r.Range(1, 4)
	for i := 0; i < n; i++ {
		c := StubCall{Kind: pick(r, "echo", "server", "client", "client", "bidi", "bidi", "nothing", "mock", "rpcs"), R: -1, Half: true}
		c.Real = r.P(0.4)
		if r.P(0.06) {
			c.Svc = "missing"
		} else if c.Real && r.P(0.3) {
			c.Svc = "empty"
		}
		if r.P(0.4) {
			c.AtMs = r.N(20)
		}
		for k := r.N(5); k > 0; k-- {
			c.C = append(c.C, genSize(r, 0.03))
		}
		for k := r.N(5); k > 0; k-- {
			c.H = append(c.H, genSize(r, 0.03))
		}
		if r.P(0.3) {
			c.CMs = r.Range(1, 20)
		}
		if r.P(0.3) {
			c.HMs = r.Range(1, 20)
		}
		c.Nil = r.P(0.2)
		c.To = r.P(0.4)
		c.Half = r.P(0.85)
		c.Twice = r.P(0.15)
		if r.P(0.1) {
			c.Cancel = 1 + r.N(pick(r, 30, 1200))
		}
		if r.P(0.25) {
			c.R = r.N(4)
		}
		c.End = pick(r, "ret", "ret", "err", "sac", "sacnil")
		c.Stay = r.P(0.3)
		if r.P(0.08) {
			c.Kind, c.Real, c.Svc = "plain", false, ""
			c.Method = pick(r, "Echo", "DoNothing", "EchoServerStream")
			c.Req = pick(r, "ok", "garbage", "none")
		}
		if r.P(0.06) {
			c.Garb = c.Kind == "client" || c.Kind == "bidi"
			c.HGarb = !c.Garb && !c.Real && c.Kind == "server" || c.Kind == "bidi" && !c.Real && r.P(0.5)
			if c.HGarb {
				c.End = "ret"
			}
		}
		if r.P(0.2) {
			c.Late = r.Range(1, 30)
		}
		b.Calls = append(b.Calls, c)
	}
	if r.P(0.15) && b.Topo != "pipe" {
		f := Fault{Kind: pick(r, "reset", "fin", "trunc", "stall", "partition"), Dir: r.N(2)}
		if r.P(0.5) {
			f.Bytes = r.N(3000)
		} else {
			f.Bytes = -1
			f.AtMs = r.N(60)
		}
		if f.Kind == "stall" || f.Kind == "partition" {
			f.DurMs = pick(r, 1, 100, 3000)
		}
		b.Faults = append(b.Faults, f)
	}
}

func reduceStub(p *Plan) []*Plan {
	var out []*Plan
	add := func(f func(q *StubPlan)) {
		q := clonePlan(p)
		f(q.Stub)
		out = append(out, q)
	}
	b := p.Stub
	if len(b.Calls) > 1 {
		for i := range b.Calls {
			add(func(q *StubPlan) { q.Calls = append(q.Calls[:i], q.Calls[i+1:]...) })
		}
	}
	if len(b.Faults) > 0 {
		add(func(q *StubPlan) { q.Faults = nil })
	}
	if b.Nest {
		add(func(q *StubPlan) { q.Nest = false })
	}
	for i := range b.Calls {
		c := &b.Calls[i]
		for k := range c.C {
			add(func(q *StubPlan) { d := &q.Calls[i]; d.C = append(d.C[:k], d.C[k+1:]...) })
			if c.C[k] > 20 {
				add(func(q *StubPlan) { q.Calls[i].C[k] = 20 })
			}
		}
		for k := range c.H {
			add(func(q *StubPlan) { d := &q.Calls[i]; d.H = append(d.H[:k], d.H[k+1:]...) })
			if c.H[k] > 20 {
				add(func(q *StubPlan) { q.Calls[i].H[k] = 20 })
			}
		}
		if c.AtMs > 0 || c.CMs > 0 || c.HMs > 0 || c.Late > 0 {
			add(func(q *StubPlan) { d := &q.Calls[i]; d.AtMs, d.CMs, d.HMs, d.Late = 0, 0, 0, 0 })
		}
		if c.Cancel > 0 {
			add(func(q *StubPlan) { q.Calls[i].Cancel = 0 })
		}
		if c.Nil || c.To {
			add(func(q *StubPlan) { q.Calls[i].Nil, q.Calls[i].To = false, false })
		}
	}
	for _, n := range reduceNet(b.Net) {
		add(func(q *StubPlan) { q.Net = n })
	}
	return out
}

func init() {
	families["stub"] = family{runStub, "C26,C12"}
	reducers["stub"] = reduceStub
	propGens["C26"] = genStub
	if genAny != nil {
		propGens["C26"] = mixGen(4, genStub, 1, genAny)
	}
}
