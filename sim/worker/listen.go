package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/libp2p/go-yamux/v4"
)

// ListenPlan drives a server that listens on the simulated network, with well
// and badly behaved clients, until it is stopped.
type ListenPlan struct {
	Kind    string         `json:"kind"` // listen: srpc.Listen and srpc.Dial; accept: AcceptMuxedListener on a listener
	Net     NetCfg         `json:"net"`
	Clients []ListenClient `json:"clients"`
	Stop    string         `json:"stop,omitempty"` // ctx, errch, errclose, accept, close (accept only)
	StopMs  int            `json:"stopMs,omitempty"`
	AcceptN int            `json:"acceptN,omitempty"` // stop accept: the n-th Accept fails
	Pre     bool           `json:"pre,omitempty"`     // the context is cancelled before
	Meet    bool           `json:"meet,omitempty"`    // the first calls of the clients wait for each other
	Busy    bool           `json:"busy,omitempty"`    // a second server tries the same address
	Again   bool           `json:"again,omitempty"`   // listen again on the address afterwards
	BadConf bool           `json:"badConf,omitempty"` // accept: the multiplexer configuration is invalid
}

// ListenClient is one client connection.
type ListenClient struct {
	Do     string   `json:"do"` // calls, garbage, idle, instant, partial, stream (opens a stream and sends garbage), half
	AtMs   int      `json:"atMs,omitempty"`
	N      int      `json:"n,omitempty"`    // number of calls
	Par    bool     `json:"par,omitempty"`  // calls run concurrently
	Size   int      `json:"size,omitempty"` // size of the requests
	GapMs  int      `json:"gapMs,omitempty"`
	Slow   int      `json:"slow,omitempty"`   // time the handler takes (ms)
	Query  bool     `json:"query,omitempty"`  // websocket: the URL has a query
	Origin string   `json:"origin,omitempty"` // websocket: the origin of the client
	Protos []string `json:"protos,omitempty"` // websocket: the subprotocols the client asks for
	Peer   bool     `json:"peer,omitempty"`   // the connection is set up by another implementation of the multiplexing protocol
}

const lisAddr = "sim:7100"

type lisExec struct {
	r        *Run
	p        *ListenPlan
	ctx      *trackCtx
	nw       *simNetwork
	ends     []*simConn // client ends of the connections, in the order they were opened
	lks      []*link
	invoked  map[string]int
	stopped  bool // the stop was triggered (or may have been)
	returned bool
	retErr   error
	phase    int
	met      map[string]bool // calls that reached the meeting
}

// lisHandler echoes requests, after the delay asked for.
type lisHandler struct{ x *lisExec }

func (h *lisHandler) InvokeMethod(svc, meth string, strm srpc.Stream) (bool, error) {
	x := h.x
	if svc != "s" {
		return false, nil
	}
	x.invoked[meth]++
	var phase, c, k, slow int
	_, _ = fmt.Sscanf(meth, "m%d.%d.%d.%d", &phase, &c, &k, &slow)
	m := srpc.NewRawMessage(nil, true)
	if err := strm.MsgRecv(m); err != nil {
		return true, err
	}
	if x.p != nil && x.p.Meet && k == 0 && !x.p.BadConf {
		// every client must be served at the same time
		x.met[meth] = true
		id := x.r.begin("handler of %s: meet the other clients", meth)
		for strm.Context().Err() == nil && !x.stopped && x.missing() {
			time.Sleep(10*time.Millisecond + 170*time.Microsecond)
		}
		x.r.end(id, "")
	}
	if slow > 0 {
		t := time.NewTimer(time.Duration(slow) * time.Millisecond)
		select {
		case <-strm.Context().Done():
			t.Stop()
			return true, strm.Context().Err()
		case <-t.C:
		}
	}
	return true, strm.MsgSend(srpc.NewRawMessage(append([]byte("re:"), m.GetData()...), true))
}

// missing reports whether a client did not come to the meeting yet.
func (x *lisExec) missing() bool {
	n := 0
	for i := range x.p.Clients {
		if x.p.Clients[i].Do == "calls" {
			n++
		}
	}
	for m := range x.met {
		if strings.HasPrefix(m, fmt.Sprintf("m%d.", x.phase)) {
			n--
		}
	}
	return n > 0
}

func runListen(r *Run) {
	p := r.Plan.Listen
	x := &lisExec{r: r, p: p, ctx: newTrackCtx(-1), invoked: map[string]int{}, met: map[string]bool{}}
	x.nw = &simNetwork{cfg: p.Net, lis: map[string]*simListener{}}
	x.nw.onConn = func(a, b *simConn, l *link) { x.ends, x.lks = append(x.ends, a), append(x.lks, l) }
	x.nw.install()
	defer uninstallNet()
	srv := srpc.NewServer(&lisHandler{x})

	// nobody listens yet
	if cl, err := srpc.Dial(lisAddr); err == nil || cl != nil {
		r.violate("C20", "dial-succeeded", "Dial to an address nobody listens on returned %v, %v", cl != nil, err)
	} else if !errors.Is(err, errRefused) {
		r.violate("C20", "dial-error", "Dial to an address nobody listens on failed with %q", err)
	}
	defer func() {
		x.ctx.cancel()
		for _, e := range x.ends {
			_ = e.Close()
		}
		time.Sleep(settleTime)
	}()
	x.serve(srv, p.Stop)
	if len(r.Viol) > 0 {
		return
	}
	if p.Again && p.Kind == "listen" {
		// the address can be used again; the new server works
		x.phase = 1
		x.ctx = newTrackCtx(-1)
		x.stopped, x.returned = false, false
		r.probe("listen-again")
		x.serve(srv, "ctx")
	}
	_ = yamux.DefaultConfig
}

var errStop = errors.New("stop listening")
var errAccept = &net.OpError{Op: "accept", Net: "sim", Err: errors.New("too many open files")}

func (x *lisExec) serve(srv *srpc.Server, stop string) {
	r, p := x.r, x.p
	errCh := make(chan error, 1)
	if p.Pre && x.phase == 0 {
		x.stopped = true
		x.ctx.cancel()
		r.fault("precancel")
	}
	var lis *simListener
	delete(x.nw.lis, lisAddr)
	done := newGroup()
	if p.Kind == "accept" {
		l, _ := x.nw.listen(lisAddr)
		lis = l.(*simListener)
		if stop == "accept" {
			lis.acceptErr = map[int]error{p.AcceptN: errAccept}
		}
	} else if stop == "accept" {
		x.nw.onListen = func(l *simListener) { l.acceptErr = map[int]error{p.AcceptN: errAccept} }
	}
	done.Go(func() {
		id := r.begin("%s", p.Kind)
		var err error
		if p.Kind == "listen" {
			err = srpc.Listen(x.ctx, lisAddr, srv, errCh)
		} else {
			var conf *yamux.Config
			if p.BadConf {
				conf = srpc.NewYamuxConfig()
				conf.AcceptBacklog = 0
			}
			err = srpc.AcceptMuxedListener(x.ctx, lis, srv, conf)
			_ = lis.Close() // as its caller does
		}
		x.returned, x.retErr = true, err
		r.end(id, "%v", err)
	})
	// until the listener is there
	for i := 0; x.nw.lis[lisAddr] == nil && i < 200 && !x.returned; i++ {
		time.Sleep(time.Millisecond)
	}
	x.nw.onListen = nil
	if !x.stopped && x.nw.lis[lisAddr] == nil {
		r.violate("C20", "not-listening", "the server does not listen on its address")
		return
	}
	lis = x.nw.lis[lisAddr]
	if p.Busy && p.Kind == "listen" && !x.stopped && stop != "accept" {
		r.fault("address-in-use")
		if err := srpc.Listen(context.Background(), lisAddr, srv, nil); !errors.Is(err, errInUse) {
			r.violate("C20", "listen-error", "Listen on an address in use returned %v", err)
		}
	}
	first := len(x.ends)
	cg := newGroup()
	for i := range p.Clients {
		cg.Go(func() { x.client(i) })
	}
	var stopTimer *time.Timer
	stopAt := time.Duration(max(p.StopMs, 1)) * time.Millisecond
	switch stop {
	case "ctx":
		stopTimer = time.AfterFunc(stopAt, func() {
			r.fault("server-cancel")
			x.stopped = true
			x.ctx.cancel()
		})
	case "errch":
		stopTimer = time.AfterFunc(stopAt, func() {
			r.fault("server-error")
			x.stopped = true
			errCh <- errStop
		})
	case "errclose":
		stopTimer = time.AfterFunc(stopAt, func() {
			r.fault("server-error")
			x.stopped = true
			close(errCh)
		})
	case "close":
		stopTimer = time.AfterFunc(stopAt, func() {
			r.fault("listener-closed")
			x.stopped = true
			_ = lis.Close()
		})
	case "accept":
		x.stopped = true // at an unknown time
	}
	if !cg.Wait(4 * callBound) {
		r.violate("C20", "stuck", "clients did not finish: %s", strings.Join(r.pending(), "; "))
		return
	}
	_ = stopTimer
	time.Sleep(stopAt + settleTime)
	// the result of the server
	ended := stop == "ctx" || stop == "errch" || stop == "errclose" || stop == "close" || p.Pre && x.phase == 0
	failed := stop == "accept" && lis != nil && lis.n >= p.AcceptN
	ended = ended || failed
	if p.Kind == "accept" && stop != "close" && !failed {
		// only the listener ends the loop; a cancelled server takes no more calls
		if x.returned {
			r.violate("C20", "accept-ended", "AcceptMuxedListener returned %v although the listener works", x.retErr)
			return
		}
		if x.ctx.err != nil && !p.BadConf {
			x.deadConn()
		}
		_ = lis.Close()
		ended = true
		time.Sleep(settleTime)
		if stop != "accept" || lis.n < p.AcceptN {
			stop = "close"
		}
	}
	switch {
	case ended && !x.returned:
		r.violate("C20", "not-stopped", "%s did not return after it was stopped (%s)", p.Kind, stop)
		return
	case !ended && x.returned:
		r.violate("C20", "stopped", "%s returned %v although nothing stopped it", p.Kind, x.retErr)
		return
	case ended:
		var want []error
		if p.Kind == "listen" && (p.Pre && x.phase == 0 || stop == "ctx") {
			want = append(want, context.Canceled)
		}
		switch stop {
		case "errch":
			want = append(want, errStop)
		case "errclose":
			want = append(want, nil)
		case "accept":
			want = append(want, errAccept)
		case "close":
			want = append(want, net.ErrClosed)
		}
		ok := false
		for _, w := range want {
			ok = ok || x.retErr == w
		}
		if !ok {
			r.violate("C20", "wrong-error", "%s returned %v after it was stopped by %s, want %v", p.Kind, x.retErr, stop, want)
		}
		if lis != nil && !lis.closed && p.Kind == "listen" {
			r.violate("C20", "still-listening", "the listener is open after Listen returned")
		}
		if cl, err := srpc.Dial(lisAddr); p.Kind == "listen" && (err == nil || cl != nil) {
			r.violate("C20", "still-listening", "a connection is accepted after Listen returned")
		}
	default:
		// stop it now
		r.probe("stopped-at-end")
		x.stopped = true
		x.ctx.cancel()
		if !done.Wait(callBound) {
			r.violate("C20", "not-stopped", "Listen did not return after its context was cancelled")
			return
		}
		if x.retErr != context.Canceled {
			r.violate("C20", "wrong-error", "Listen returned %v after its context was cancelled", x.retErr)
		}
	}
	// the connections end when the clients close them
	for _, e := range x.ends[first:] {
		_ = e.Close()
	}
	time.Sleep(settleTime)
	for _, l := range x.lks[first:] {
		if !l.closed[1] {
			r.violate("C20,C12", "connection-leak", "the server did not close connection %d after the client had closed it", l.id)
		}
	}
	x.ctx.cancel()
	time.Sleep(settleTime)
	if n := x.ctx.live(); n != 0 {
		r.violate("C20,C12", "context-leak", "%d registration(s) remain on the context of the server", n)
	}
}

// deadConn checks that a server whose context is cancelled does not keep a new connection.
func (x *lisExec) deadConn() {
	c, err := x.nw.dial(lisAddr)
	if err != nil {
		return
	}
	time.Sleep(settleTime)
	if !c.(*simConn).l.closed[1] {
		x.r.violate("C20", "connection-kept", "a connection accepted after the context was cancelled is not closed")
	}
}

func (x *lisExec) client(i int) {
	r, p := x.r, &x.p.Clients[i]
	time.Sleep(time.Duration(p.AtMs) * time.Millisecond)
	if p.Do != "calls" {
		c, err := x.nw.dial(lisAddr)
		if err != nil {
			return
		}
		r.fault("client-" + p.Do)
		l := c.(*simConn).l
		switch p.Do {
		case "garbage":
			_, _ = c.Write(content(i, 1, 0, 40+p.Size))
		case "partial":
			_, _ = c.Write([]byte{0, 0, 0, 1, 0, 0})
		case "instant":
			_ = c.Close()
		case "half":
			_, _ = c.Write([]byte{0, 0, 0, 1})
			_ = c.(*simConn).CloseWrite()
		case "stream":
			m, err := muxedConn(c, true, nil, p.Size%2 == 0)
			if err != nil {
				return
			}
			if s, err := m.OpenStream(context.Background()); err == nil {
				_, _ = s.Write(content(i, 1, 0, 20+p.Size))
				time.Sleep(time.Duration(p.GapMs) * time.Millisecond)
			}
			_ = m.Close()
		}
		if p.Do == "garbage" || p.Do == "instant" || p.Do == "half" {
			time.Sleep(settleTime + callBound)
			if !l.closed[1] && x.retErr != net.ErrClosed && !x.stopped {
				r.violate("C20", "connection-kept", "a connection on which the client sent garbage or which it closed (%s) is still open", p.Do)
			}
		}
		return
	}
	if x.p.BadConf {
		// the connection cannot be set up
		c, err := x.nw.dial(lisAddr)
		if err != nil {
			return
		}
		_, err = io.ReadFull(c, make([]byte, 1))
		if err == nil {
			r.violate("C20", "connection-kept", "a connection that cannot be set up is in use")
		}
		return
	}
	var cl srpc.Client
	var err error
	refusable := x.stopped
	if x.p.Kind == "listen" && !p.Peer {
		cl, err = srpc.Dial(lisAddr)
	} else {
		var c net.Conn
		if c, err = x.nw.dial(lisAddr); err == nil {
			if p.Peer {
				cl, err = peerClient(c)
			} else {
				cl, err = srpc.NewClientWithConn(c, true, nil)
			}
		}
	}
	if err != nil {
		if !refusable && !x.stopped {
			r.violate("C20", "dial-failed", "client %d cannot connect to the server: %v", i, err)
		}
		return
	}
	x.calls(i, p, cl, "C20")
}

// calls makes the calls of client i and checks their results.
func (x *lisExec) calls(i int, p *ListenClient, cl srpc.Client, prop string) {
	r := x.r
	g := newGroup()
	for k := 0; k < p.N; k++ {
		f := func() {
			meth := fmt.Sprintf("m%d.%d.%d.%d", x.phase, i, k, p.Slow)
			in, out := srpc.NewRawMessage(content(i, 0, k, p.Size), true), srpc.NewRawMessage(nil, true)
			id := r.begin("client %d: call %d", i, k)
			err := cl.ExecCall(context.Background(), "s", meth, in, out)
			r.end(id, "%v", err)
			if err != nil {
				if !x.stopped {
					r.violate(prop, "call-failed", "call %d of client %d failed although nothing disturbed its connection: %v", k, i, err)
				}
				r.probe("call-failed")
				return
			}
			r.probe("call-ok")
			if string(out.GetData()) != "re:"+string(content(i, 0, k, p.Size)) {
				r.violate(prop+",C03", "wrong-response", "call %d of client %d: the response is not the one to its request", k, i)
			}
			if n := x.invoked[meth]; n != 1 {
				r.violate(prop+",C03", "invocations", "call %d of client %d: the handler was invoked %d times", k, i, n)
			}
		}
		if p.Par {
			g.Go(f)
		} else {
			f()
		}
		time.Sleep(time.Duration(p.GapMs) * time.Millisecond)
	}
	g.Wait(4 * callBound)
}

func genListen(r *RNG, p *Plan) {
	p.Family = "listen"
	b := &ListenPlan{Kind: pick(r, "listen", "listen", "accept"), Net: genNet(r, "yamux")}
	p.Listen = b
	stops := []string{"", "ctx", "ctx", "errch", "errclose", "accept"}
	if b.Kind == "accept" {
		stops = []string{"", "ctx", "accept", "close"}
		b.BadConf = r.P(0.1)
	}
	if r.P(0.2) {
		b.Net.DialMs = pick(r, 3, 40, 400, 4000)
	}
	b.Stop = pick(r, stops...)
	b.StopMs = pick(r, 1, 3, 10, 30, 100)
	if b.Stop == "accept" {
		b.AcceptN = r.Range(1, 5)
	}
	b.Pre = r.P(0.05)
	b.Busy = r.P(0.2)
	b.Meet = r.P(0.3)
	b.Again = r.P(0.25)
	for k := r.Range(1, 5); k > 0; k-- {
		c := ListenClient{Do: pick(r, "calls", "calls", "calls", "calls", "garbage", "idle", "instant", "partial", "stream", "half")}
		if r.P(0.5) {
			c.AtMs = r.N(30)
		}
		if c.Do == "calls" {
			c.Peer = r.P(0.15)
			c.N = r.Range(1, 4)
			c.Par = r.P(0.5)
			if r.P(0.3) {
				c.Slow = r.Range(1, 40)
			}
		}
		c.Size = min(genSize(r, 0.1), 9000)
		if b.Net.Cap > 0 && b.Net.Cap < 1000 {
			c.Size = min(c.Size, 2048)
		}
		c.GapMs = pick(r, 0, 0, 1, 5)
		if r.P(0.04) {
			c.GapMs = pick(r, 11000, 31000, 61000)
		}
		b.Clients = append(b.Clients, c)
	}
}

func reduceListen(p *Plan) []*Plan {
	var out []*Plan
	add := func(f func(q *ListenPlan)) {
		q := clonePlan(p)
		f(q.Listen)
		out = append(out, q)
	}
	b := p.Listen
	for i := range b.Clients {
		add(func(q *ListenPlan) { q.Clients = append(q.Clients[:i], q.Clients[i+1:]...) })
		c := &b.Clients[i]
		if c.N > 1 {
			add(func(q *ListenPlan) { q.Clients[i].N = 1 })
		}
		if c.AtMs > 0 {
			add(func(q *ListenPlan) { q.Clients[i].AtMs = 0 })
		}
		if c.Slow > 0 {
			add(func(q *ListenPlan) { q.Clients[i].Slow = 0 })
		}
		if c.Par {
			add(func(q *ListenPlan) { q.Clients[i].Par = false })
		}
		if c.GapMs > 0 {
			add(func(q *ListenPlan) { q.Clients[i].GapMs = 0 })
		}
	}
	if b.Again {
		add(func(q *ListenPlan) { q.Again = false })
	}
	if b.Meet {
		add(func(q *ListenPlan) { q.Meet = false })
	}
	if b.Busy {
		add(func(q *ListenPlan) { q.Busy = false })
	}
	if b.Stop != "" && b.Stop != "accept" {
		add(func(q *ListenPlan) { q.Stop = "" })
	}
	add(func(q *ListenPlan) { q.Net = NetCfg{Seed: b.Net.Seed} })
	return out
}

func init() {
	families["listen"] = family{runListen, "C20,C12"}
	reducers["listen"] = reduceListen
	propGens["XLI"] = genListen
	propGens["C20"] = mixGen(3, func(r *RNG, p *Plan) { genListen(r, p) }, 2, propGens["X20"])
}
