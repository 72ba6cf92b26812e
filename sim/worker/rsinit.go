package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/aperturerobotics/starpc/echo"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
)

// RSPlan lets a hand-written caller speak the rpcstream protocol to one of the
// handlers of package rpcstream.
type RSPlan struct {
	Kind   string  `json:"kind"` // rs, raw, proxy, rw
	Topo   string  `json:"topo"` // pipe, direct
	Net    NetCfg  `json:"net"`
	First  string  `json:"first"`            // the first packet: init, ack, ackerr, data, empty, none
	ID     string  `json:"id,omitempty"`     // the component asked for
	Getter string  `json:"getter,omitempty"` // block, callblock (proxy), nil, err: what the component lookup does
	Pkts   []RSPkt `json:"pkts,omitempty"`
	End    string  `json:"end"` // half, close, cancel
	EndMs  int     `json:"endMs,omitempty"`
}

// RSPkt is one packet after the first.
type RSPkt struct {
	Body string `json:"body"` // data, empty (data of no bytes), nobody
	N    int    `json:"n,omitempty"`
	Ms   int    `json:"ms,omitempty"`
}

type rsExec struct {
	r    *Run
	p    *RSPlan
	ctx  *trackCtx
	scx  *trackCtx
	prop string

	getter   int
	gctxDone bool // the lookup saw its context end
	rel      int
	hret     bool
	herr     error
	hbeg     bool
	inner    int // invocations of the component's handler
	got      []byte
	gave     int
	back     []byte // data that came back
	acks     []string
	bodies   int
	term     error
	ended    time.Time
}

func (x *rsExec) bad(class, f string, a ...any) { x.r.violate(x.prop, class, f, a...) }

func (x *rsExec) look(ctx context.Context, id string) (stop bool, err error) {
	x.getter++
	if id != x.p.ID {
		x.bad("wrong-component", "the component getter was asked for %q instead of %q", id, x.p.ID)
	}
	switch x.p.Getter {
	case "block":
		i := x.r.begin("component lookup waits for its context")
		<-ctx.Done()
		x.r.end(i, "")
		x.gctxDone = true
		return true, ctx.Err()
	case "nil":
		return true, nil
	case "err":
		return true, errors.New(badCompText)
	}
	x.gave++
	return false, nil
}

func (x *rsExec) release() { x.rel++ }

// component is an in-memory byte stream whose other end sends everything back
// once it has seen the end.
func (x *rsExec) component() io.ReadWriteCloser {
	a, b, _ := newLink(NetCfg{}, 10, nil)
	go func() {
		buf := make([]byte, 4096)
		for {
			n, err := b.Read(buf)
			x.got = append(x.got, buf[:n]...)
			if err != nil {
				break
			}
		}
		_, _ = b.Write(x.got)
		_ = b.Close()
	}()
	return a
}

func (x *rsExec) rawHandler(strm echo.SRPCEchoer_RpcStreamStream, behindProxy bool) error {
	return rpcstream.HandleRawRpcStream(strm, func(ctx context.Context, id string) (io.ReadWriteCloser, func(), error) {
		if behindProxy {
			return x.component(), nil, nil
		}
		if stop, err := x.look(ctx, id); stop {
			return nil, nil, err
		}
		return x.component(), x.release, nil
	})
}

func (x *rsExec) handle(strm echo.SRPCEchoer_RpcStreamStream) error {
	switch x.p.Kind {
	case "raw":
		return x.rawHandler(strm, false)
	case "proxy":
		remote := echo.NewSRPCEchoerClient(srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(echoMuxFn(func(strm echo.SRPCEchoer_RpcStreamStream) error {
			return x.rawHandler(strm, true)
		})))))
		return rpcstream.HandleProxyRpcStream(strm, func(ctx context.Context, id string) (rpcstream.RpcStreamCaller[echo.SRPCEchoer_RpcStreamClient], string, func(), error) {
			if stop, err := x.look(ctx, id); stop {
				return nil, "", nil, err
			}
			if x.p.Getter == "callblock" {
				return func(ctx context.Context) (echo.SRPCEchoer_RpcStreamClient, error) {
					i := x.r.begin("remote call waits for its context")
					<-ctx.Done()
					x.r.end(i, "")
					x.gctxDone = true
					return nil, ctx.Err()
				}, "remote", x.release, nil
			}
			return remote.RpcStream, "remote", x.release, nil
		})
	case "rw":
		rw := rpcstream.NewRpcStreamReadWriter(strm)
		b, err := io.ReadAll(rw)
		x.got = b
		if err != nil {
			return err
		}
		_, err = rw.Write(b)
		return err
	}
	inv := srpc.InvokerFunc(func(svc, meth string, s srpc.Stream) (bool, error) {
		x.inner++
		for {
			m := srpc.NewRawMessage(nil, true)
			if err := s.MsgRecv(m); err != nil {
				break
			}
			x.got = append(x.got, m.GetData()...)
		}
		if err := s.MsgSend(srpc.NewRawMessage(x.got, false)); err != nil {
			return true, err
		}
		return true, nil
	})
	return rpcstream.HandleRpcStream(strm, func(ctx context.Context, id string) (srpc.Invoker, func(), error) {
		if stop, err := x.look(ctx, id); stop {
			return nil, nil, err
		}
		return inv, x.release, nil
	})
}

func (p *RSPlan) data(i int) []byte { return content(7, 0, i, p.Pkts[i].N) }

// peer is the caller.
func (x *rsExec) peer(cl srpc.Client) {
	p, r := x.p, x.r
	strm, err := echo.NewSRPCEchoerClient(cl).RpcStream(x.ctx)
	if err != nil {
		x.bad("open-failed", "opening the outer call failed with %q", err)
		return
	}
	rd := newGroup()
	rd.Go(func() {
		for {
			id := r.begin("caller receives")
			pkt, err := strm.Recv()
			r.end(id, "%v", err)
			if err != nil {
				x.term = err
				return
			}
			switch b := pkt.GetBody().(type) {
			case *rpcstream.RpcStreamPacket_Ack:
				x.acks = append(x.acks, b.Ack.GetError())
			case *rpcstream.RpcStreamPacket_Data:
				if p.Kind != "rs" {
					x.back = append(x.back, b.Data...)
					break
				}
				q := &srpc.Packet{}
				if err := q.UnmarshalVT(b.Data); err != nil {
					x.bad("bad-packet", "a nested packet does not decode: %v", err)
					break
				}
				x.back = append(x.back, q.GetCallData().GetData()...)
			}
		}
	})
	send := func(k *rpcstream.RpcStreamPacket) error { return strm.Send(k) }
	data := func(b []byte) *rpcstream.RpcStreamPacket {
		return &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Data{Data: b}}
	}
	ack := func(e string) *rpcstream.RpcStreamPacket {
		return &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Ack{Ack: &rpcstream.RpcAck{Error: e}}}
	}
	switch p.First {
	case "init":
		_ = send(&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Init{Init: &rpcstream.RpcStreamInit{ComponentId: p.ID}}})
	case "ack":
		_ = send(ack(""))
	case "ackerr":
		_ = send(ack("failed"))
	case "data":
		_ = send(data([]byte("data before init")))
	case "empty":
		_ = send(&rpcstream.RpcStreamPacket{})
	}
	started := false
	for i, k := range p.Pkts {
		if k.Ms > 0 {
			time.Sleep(time.Duration(k.Ms) * time.Millisecond)
		}
		var err error
		switch k.Body {
		case "empty":
			err = send(data(nil))
		case "nobody":
			err = send(&rpcstream.RpcStreamPacket{})
		case "data":
			b := p.data(i)
			if p.Kind == "rs" {
				q := srpc.NewCallDataPacket(b, len(b) == 0, false, nil)
				if !started {
					q = srpc.NewCallStartPacket("svc", "meth", b, len(b) == 0)
				}
				started = true
				b, _ = q.MarshalVT()
			}
			err = send(data(b))
		}
		if err != nil {
			break
		}
	}
	if p.Kind == "rs" && started && p.End == "half" {
		b, _ := srpc.NewCallDataPacket(nil, false, true, nil).MarshalVT()
		_ = send(data(b))
	}
	if p.EndMs > 0 {
		time.Sleep(time.Duration(p.EndMs) * time.Millisecond)
	}
	switch p.End {
	case "half":
		if p.Kind != "rs" || p.First != "init" {
			_ = strm.CloseSend()
		}
		if !rd.Wait(callBound) {
			x.bad("stuck", "the outer call did not end within %v of its half-close; blocked: %s", callBound, strings.Join(r.pending(), "; "))
		}
		_ = strm.Close()
	case "close":
		_ = strm.Close()
	case "cancel":
		x.ctx.cancel()
	}
	x.ended = time.Now()
}

func runRS(r *Run) {
	p := r.Plan.RS
	x := &rsExec{r: r, p: p, ctx: newTrackCtx(0), scx: newTrackCtx(-1)}
	x.prop = map[string]string{"rs": "C14", "raw": "C15", "proxy": "C16", "rw": "C15,C18"}[p.Kind]
	srv := srpc.NewServer(echoMuxFn(func(strm echo.SRPCEchoer_RpcStreamStream) error {
		x.hbeg = true
		err := x.handle(strm)
		x.hret, x.herr = true, err
		r.probe("handler-returned")
		return err
	}))
	var ends []*simConn
	cl := srpc.NewClient(srpc.NewServerPipe(srv))
	if p.Topo == "direct" {
		cl = srpc.NewClient(func(ctx context.Context, mh srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
			a, b, _ := newLink(p.Net, 0, nil)
			ends = append(ends, a)
			go srv.HandleStream(x.scx, b)
			prw := srpc.NewPacketReadWriter(a)
			go prw.ReadPump(mh, ch)
			return prw, nil
		})
	}
	g := newGroup()
	g.Go(func() { x.peer(cl) })
	if !g.Wait(2 * callBound) {
		x.bad("stuck", "the caller is still blocked: %s", strings.Join(r.pending(), "; "))
	}
	time.Sleep(settleTime)
	x.check()
	for _, a := range ends {
		_ = a.Close()
	}
	x.scx.cancel()
	x.ctx.cancel()
	time.Sleep(time.Second)
	if x.hbeg && !x.hret && len(r.Viol) == 0 {
		x.bad("stuck", "the handler is still running after everything was closed: %s", strings.Join(r.pending(), "; "))
	}
}

func (x *rsExec) check() {
	p := x.p
	if len(x.r.Viol) > 0 {
		return
	}
	if x.hbeg && !x.hret {
		x.r.violate(x.prop+",C12,C25", "handler-stuck", "the caller ended the outer call (%s) %v ago and the handler is still running; blocked: %s", p.End, settleTime, strings.Join(x.r.pending(), "; "))
		return
	}
	if p.First != "init" && p.Kind != "rw" {
		if x.getter > 0 {
			x.bad("lookup-without-init", "a component was looked up although the first packet was not an init packet (%s)", p.First)
		}
		if x.hret && x.herr == nil {
			x.bad("no-init-accepted", "the handler returned success although the first packet was not an init packet (%s)", p.First)
		}
		if p.End == "half" && (x.term == nil || x.term == io.EOF) {
			x.bad("no-init-accepted", "the outer call ended with %v although the first packet was not an init packet (%s)", x.term, p.First)
		}
		return
	}
	if x.getter > 1 {
		x.bad("lookup-twice", "the component was looked up %d times", x.getter)
	}
	if x.rel != x.gave {
		x.r.violate(x.prop+",C12", "component-release", "the component was released %d times (looked up %d times)", x.rel, x.gave)
	}
	if p.End != "half" {
		return
	}
	switch p.Getter {
	case "nil", "err":
		want := badCompText
		if p.Getter == "nil" {
			want = rpcstream.ErrNoServerForComponent.Error()
		}
		if len(x.acks) != 1 || x.acks[0] != want {
			x.bad("component-status", "the lookup of the component failed with %q and the caller received the acknowledgements %q", want, x.acks)
		}
		if x.term == nil || x.term == io.EOF {
			x.bad("component-status", "the lookup of the component failed and the outer call ended with %v", x.term)
		}
		if x.hret && (x.herr == nil || !strings.Contains(x.herr.Error(), want)) {
			x.bad("component-status", "the lookup of the component failed with %q and the handler of the outer call was told %v", want, x.herr)
		}
		return
	}
	if p.Kind != "rw" && (len(x.acks) != 1 || x.acks[0] != "") {
		x.bad("component-status", "the component exists and the caller received the acknowledgements %q", x.acks)
	}
	var want []byte
	any := false
	for i, k := range p.Pkts {
		if k.Body == "data" {
			want = append(want, p.data(i)...)
			any = true
		}
	}
	if p.Kind == "rs" && !any {
		return
	}
	if x.term != io.EOF && p.Kind != "rs" {
		x.bad("wrong-status", "the outer call ended with %v although the component ended without an error", x.term)
		return
	}
	if string(x.got) != string(want) {
		x.bad("component-data", "the component received %s instead of %s", short(x.got), short(want))
	}
	if string(x.back) != string(want) {
		x.bad("component-data", "the caller received %s instead of %s", short(x.back), short(want))
	}
}

func genRS(kinds ...string) func(r *RNG, p *Plan) {
	return func(r *RNG, p *Plan) {
		p.Family = "rs"
		s := &RSPlan{Kind: pick(r, kinds...), Topo: pick(r, "pipe", "direct"), First: "init", End: "half"}
		p.RS = s
		s.Net = genNet(r, s.Topo)
		s.ID = pick(r, "", "comp", "a/b", fmt.Sprintf("id%d", r.N(9)))
		switch r.N(4) {
		case 0:
			s.First = pick(r, "ack", "ackerr", "data", "empty", "none")
			s.End = pick(r, "half", "half", "close", "cancel")
		case 1:
			s.Getter = pick(r, "block", "block", "nil", "err")
			if s.Kind == "proxy" && r.P(0.5) {
				s.Getter = "callblock"
			}
			if s.Getter != "nil" && s.Getter != "err" {
				s.End = pick(r, "close", "cancel")
			}
		case 2:
			s.End = pick(r, "half", "half", "half", "close", "cancel")
		}
		if s.Kind == "rw" {
			s.First, s.Getter = "none", ""
		}
		n := r.N(6)
		for i := 0; i < n; i++ {
			k := RSPkt{Body: pick(r, "data", "data", "empty", "nobody"), N: genSize(r, 0.1)}
			if r.P(0.2) {
				k.Ms = r.N(20)
			}
			s.Pkts = append(s.Pkts, k)
		}
		if s.Kind == "rs" && s.First == "init" && s.End == "half" && s.Getter == "" {
			// the nested call begins with a call
			s.Pkts = append([]RSPkt{{Body: "data", N: 1 + r.N(30)}}, s.Pkts...)
			if r.P(0.3) {
				s.Pkts = append([]RSPkt{{Body: "empty"}}, s.Pkts...)
			}
		}
		if r.P(0.3) {
			s.EndMs = r.N(40)
		}
	}
}

func init() {
	families["rs"] = family{runRS, "C12"}
	reducers["rs"] = func(p *Plan) []*Plan {
		var out []*Plan
		for i := range p.RS.Pkts {
			q := clonePlan(p)
			q.RS.Pkts = append(q.RS.Pkts[:i:i], q.RS.Pkts[i+1:]...)
			if p.RS.Kind == "rs" && p.RS.First == "init" && i == 0 {
				continue
			}
			out = append(out, q)
		}
		if p.RS.Net != (NetCfg{}) {
			q := clonePlan(p)
			q.RS.Net = NetCfg{}
			out = append(out, q)
		}
		return out
	}
}
