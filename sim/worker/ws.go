package main

import (
	"context"
	"crypto/rand"
	"errors"
	"fmt"
	"io"
	"log"
	"maps"
	"net"
	"net/http"
	"slices"
	"strings"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/coder/websocket"
)

// detReader stands in for the system's random numbers.
type detReader struct{ r *RNG }

//go:norace
func (d *detReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(d.r.U64())
	}
	return len(p), nil
}

// wsServer serves h over the simulated network until it is stopped.
func wsServer(nw *simNetwork, addr string, base context.Context, h http.Handler) (stop func(), err error) {
	lis, err := nw.listen(addr)
	if err != nil {
		return nil, err
	}
	hs := &http.Server{Handler: h, BaseContext: func(net.Listener) context.Context { return base }, ErrorLog: log.New(io.Discard, "", 0)}
	go func() { _ = hs.Serve(lis) }()
	return func() { _ = hs.Close() }, nil
}

// wsDial opens a websocket.
func wsDial(ctx context.Context, nw *simNetwork, url string, opts ...func(*websocket.DialOptions)) (*websocket.Conn, *http.Response, error) {
	tr := &http.Transport{DisableKeepAlives: true, DialContext: func(ctx context.Context, network, addr string) (net.Conn, error) { return nw.dial(addr) }}
	do := &websocket.DialOptions{HTTPClient: &http.Client{Transport: tr}}
	for _, f := range opts {
		f(do)
	}
	c, resp, err := websocket.Dial(ctx, url, do)
	if err != nil {
		tr.CloseIdleConnections()
	}
	return c, resp, err
}

// wsOrigins are the origins clients come from, with the options that admit them.
var wsOrigins = map[string]func(opts string) bool{
	"http://sim.host":             func(string) bool { return true },
	"https://SIM.host":            func(string) bool { return true },
	"http://app.allowed.example":  func(o string) bool { return o != "" },
	"http://allowed.example.evil": func(o string) bool { return o == "any" },
	"http://evil.example":         func(o string) bool { return o == "any" },
	"http://sim.host.evil":        func(o string) bool { return o == "any" },
}

// acceptOptions are the options of the server.
func (p *WSPlan) acceptOptions() *websocket.AcceptOptions {
	if p.Opts == "" && p.Protos == nil && !p.Compr {
		return nil
	}
	o := &websocket.AcceptOptions{Subprotocols: p.Protos}
	switch p.Opts {
	case "patterns":
		o.OriginPatterns = []string{"*.allowed.example"}
	case "any":
		o.InsecureSkipVerify = true
	}
	if p.Compr {
		o.CompressionMode = websocket.CompressionContextTakeover
	}
	return o
}

// wsTransport is the HTTP server and websocket clients.
func (x *rpcExec) wsTransport(inv srpc.Invoker, n int) ([]srpc.Client, error) {
	rand.Reader = &detReader{NewRNG(x.p.Net.Seed, 5)}
	x.nw = &simNetwork{cfg: x.p.Net, lis: map[string]*simListener{}, faults: x.p.Faults}
	x.nw.onConn = func(a, b *simConn, l *link) {
		k := &rpcConn{l: l, a: a, b: b}
		x.conns = append(x.conns, k)
		x.armConn(k)
	}
	h, err := srpc.NewHTTPServer(srpc.NewMux(inv), "/rpc", nil)
	if err != nil {
		return nil, err
	}
	stop, err := wsServer(x.nw, "sim.host:80", x.srvCtx, h)
	if err != nil {
		return nil, err
	}
	x.stop = append(x.stop, stop)
	var out []srpc.Client
	for i := 0; i < n; i++ {
		dctx, cancel := context.WithTimeout(context.Background(), callBound)
		ws, _, err := wsDial(dctx, x.nw, "ws://sim.host/rpc")
		cancel()
		if err != nil {
			return nil, err
		}
		k := x.conns[len(x.conns)-1]
		k.ws = ws
		k.cctx = newTrackCtx(-1)
		k.cm, err = srpc.NewWebSocketConn(k.cctx, ws, false, nil)
		if err != nil {
			return nil, err
		}
		out = append(out, srpc.NewClientWithMuxedConn(k.cm))
	}
	return out, nil
}

// WSPlan drives the HTTP server with good and bad clients.
type WSPlan struct {
	Net     NetCfg         `json:"net"`
	Path    string         `json:"path,omitempty"`   // the server's path; empty: any
	Opts    string         `json:"opts,omitempty"`   // accept options: "", patterns (*.allowed.example), any (no origin check)
	Protos  []string       `json:"protos,omitempty"` // subprotocols of the server
	Compr   bool           `json:"compr,omitempty"`  // the server and its clients compress messages
	Clients []ListenClient `json:"clients"`          // Do: calls, wrongpath, get, post, garbage, idle, instant, text, wsgarbage, wsclose, wsdrop, hang
	Cancel  int            `json:"cancel,omitempty"` // cancel the server's base context at this time (ms)
}

type wsExec struct {
	lisExec
	p        *WSPlan
	serving  int // ServeHTTP invocations in progress
	served   int
	handlers int // handlers in progress
}

// wsCount counts the requests in progress.
type wsCount struct {
	x *wsExec
	h http.Handler
}

func (c *wsCount) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	c.x.serving++
	c.x.served++
	defer func() { c.x.serving-- }()
	c.h.ServeHTTP(w, r)
}

func runWS(r *Run) {
	p := r.Plan.WS
	rand.Reader = &detReader{NewRNG(p.Net.Seed, 6)}
	x := &wsExec{p: p}
	x.lisExec = lisExec{r: r, ctx: newTrackCtx(-1), invoked: map[string]int{}}
	x.nw = &simNetwork{cfg: p.Net, lis: map[string]*simListener{}}
	x.nw.onConn = func(a, b *simConn, l *link) { x.ends, x.lks = append(x.ends, a), append(x.lks, l) }
	mux := srpc.NewMux(srpc.InvokerFunc(func(svc, meth string, strm srpc.Stream) (bool, error) {
		x.handlers++
		defer func() { x.handlers-- }()
		return (&lisHandler{&x.lisExec}).InvokeMethod(svc, meth, strm)
	}))
	h, err := srpc.NewHTTPServer(mux, p.Path, p.acceptOptions())
	if err != nil {
		r.violate("C21", "setup-failed", "NewHTTPServer failed: %v", err)
		return
	}
	stop, err := wsServer(x.nw, "sim.host:80", x.ctx, &wsCount{x, h})
	if err != nil {
		panic(err)
	}
	defer func() {
		stop()
		x.ctx.cancel()
		for _, e := range x.ends {
			_ = e.Close()
		}
		time.Sleep(4 * settleTime)
	}()
	if p.Cancel > 0 {
		time.AfterFunc(time.Duration(p.Cancel)*time.Millisecond, func() {
			r.fault("server-cancel")
			x.stopped = true
			x.ctx.cancel()
			time.AfterFunc(10*time.Second, func() {
				if x.serving != 0 || x.handlers != 0 {
					r.violate("C21,C25", "not-stopped", "%d request(s) and %d handler(s) are still being served 10s after the context of the server was canceled", x.serving, x.handlers)
				}
			})
		})
	}
	g := newGroup()
	for i := range p.Clients {
		g.Go(func() { x.wsClient(i) })
	}
	if !g.Wait(4 * callBound) {
		r.violate("C21", "stuck", "clients did not finish: %s", strings.Join(r.pending(), "; "))
		return
	}
	// every connection is closed by its client now
	for _, e := range x.ends {
		_ = e.Close()
	}
	time.Sleep(4 * settleTime)
	if x.handlers != 0 {
		r.violate("C21,C06", "handler-stuck", "%d handler(s) are still running although their connections were closed", x.handlers)
	}
	if x.serving != 0 {
		r.violate("C21,C12", "connection-stuck", "%d request(s) are still being served although their connections were closed", x.serving)
	}
	for _, l := range x.lks {
		if !l.closed[1] {
			r.violate("C21,C12", "connection-leak", "the server did not close connection %d after the client had closed it", l.id)
			break
		}
	}
	stop()
	time.Sleep(settleTime)
	if n := x.ctx.live(); n != 0 {
		r.violate("C21,C12", "context-leak", "%d registration(s) remain on the context of the server", n)
	}
}

func (x *wsExec) wsClient(i int) {
	r, p := x.r, &x.p.Clients[i]
	time.Sleep(time.Duration(p.AtMs) * time.Millisecond)
	path := x.p.Path
	if path == "" {
		path = "/any" + fmt.Sprint(i)
	}
	ctx, cancel := context.WithTimeout(context.Background(), callBound)
	defer cancel()
	if p.Do != "calls" {
		r.fault("client-" + p.Do)
	}
	raw := func() *simConn {
		c, err := x.nw.dial("sim.host:80")
		if err != nil {
			return nil
		}
		return c.(*simConn)
	}
	switch p.Do {
	case "idle":
		raw()
		return
	case "garbage":
		if c := raw(); c != nil {
			_, _ = c.Write(append([]byte("\x00\x01\x02"), content(i, 1, 0, 40+p.Size)...))
			_, _ = c.Write([]byte("\r\n\r\n"))
		}
		return
	case "instant":
		if c := raw(); c != nil {
			_ = c.Close()
		}
		return
	case "hang":
		if c := raw(); c != nil {
			_, _ = c.Write([]byte("GET " + path + " HTTP/1.1\r\nHost: sim"))
		}
		return
	case "get", "post":
		// no upgrade asked for
		c := raw()
		if c == nil {
			return
		}
		m := map[string]string{"get": "GET", "post": "POST"}[p.Do]
		_, _ = fmt.Fprintf(c, "%s %s HTTP/1.1\r\nHost: sim.host\r\nConnection: close\r\nContent-Length: 0\r\n\r\n", m, path)
		b, _ := io.ReadAll(c)
		l, _, _ := strings.Cut(string(b), "\r\n")
		if !strings.HasPrefix(l, "HTTP/1.1 4") && !x.stopped {
			r.violate("C21", "plain-request", "a %s request without an upgrade was answered %q", m, l)
		}
		return
	case "wrongpath":
		n := len(x.invoked)
		wrong := path + "x"
		switch p.Size % 5 {
		case 1:
			wrong = path + "/"
		case 2:
			wrong = strings.ToUpper(path)
		case 3:
			wrong = path + "/sub"
		case 4:
			wrong = path[:len(path)-1]
		}
		ws, _, err := wsDial(ctx, x.nw, "ws://sim.host"+wrong)
		if err == nil {
			if x.p.Path != "" {
				r.violate("C21", "wrong-path", "a websocket was accepted on a path the server does not serve")
			}
			_ = ws.CloseNow()
		}
		_ = n
		return
	}
	id := r.begin("client %d: dial", i)
	url := "ws://sim.host" + path
	if p.Query {
		url += "?token=a%2Fb&x=/rpc"
	}
	ws, resp, err := wsDial(ctx, x.nw, url, func(o *websocket.DialOptions) {
		if p.Origin != "" {
			o.HTTPHeader = http.Header{"Origin": {p.Origin}}
		}
		o.Subprotocols = p.Protos
		if x.p.Compr {
			o.CompressionMode = websocket.CompressionContextTakeover
		}
	})
	r.end(id, "%v", err)
	if p.Origin != "" && !wsOrigins[p.Origin](x.p.Opts) {
		r.fault("foreign-origin")
		if err == nil {
			r.violate("C21", "origin", "a websocket from the origin %q was accepted, which the options of the server do not allow", p.Origin)
			_ = ws.CloseNow()
		} else if !x.stopped && (resp == nil || resp.StatusCode != http.StatusForbidden) {
			r.violate("C21", "origin", "a websocket from the origin %q, which the server does not allow, was not refused with a status: %v", p.Origin, err)
		}
		return
	}
	if err != nil {
		if !x.stopped {
			r.violate("C21", "dial-failed", "client %d cannot connect to the server: %v", i, err)
		}
		return
	}
	defer ws.CloseNow()
	want := ""
	for _, s := range x.p.Protos {
		if want == "" && slices.Contains(p.Protos, s) {
			want = s
		}
	}
	if got := ws.Subprotocol(); got != want {
		r.violate("C21", "subprotocol", "the server offers the subprotocols %q, client %d asked for %q and got %q", x.p.Protos, i, p.Protos, got)
	}
	switch p.Do {
	case "text":
		_ = ws.Write(ctx, websocket.MessageText, []byte("hello"))
		for {
			_, _, err := ws.Read(ctx)
			if err == nil {
				continue // the server may send frames of its own first
			}
			if errors.Is(err, context.DeadlineExceeded) {
				r.violate("C21", "text-accepted", "a text message did not end the connection")
			}
			return
		}
	case "wsgarbage":
		_ = ws.Write(ctx, websocket.MessageBinary, content(i, 1, 0, 20+p.Size))
		for {
			_, _, err := ws.Read(ctx)
			if err == nil {
				continue
			}
			if errors.Is(err, context.DeadlineExceeded) {
				r.violate("C21", "garbage-accepted", "garbage in a binary message did not end the connection")
			}
			return
		}
	case "wsclose":
		_ = ws.Close(websocket.StatusNormalClosure, "")
		return
	case "wsdrop":
		return
	}
	mc, err := srpc.NewWebSocketConn(context.Background(), ws, false, nil)
	if err != nil {
		r.violate("C21", "setup-failed", "NewWebSocketConn failed: %v", err)
		return
	}
	x.calls(i, p, srpc.NewClientWithMuxedConn(mc), "C21")
	id = r.begin("client %d: close", i)
	_ = mc.Close()
	r.end(id, "")
}

func genWS(r *RNG, p *Plan) {
	p.Family = "ws"
	b := &WSPlan{Net: genNet(r, "yamux"), Path: pick(r, "/rpc", "/rpc", "/a/b", "")}
	p.WS = b
	if b.Net.Chunk > 0 && b.Net.Chunk < 16 {
		b.Net.Chunk = 16
	}
	if r.P(0.25) {
		b.Cancel = pick(r, 1, 5, 20, 60)
	}
	b.Opts = pick(r, "", "", "patterns", "any")
	if r.P(0.3) {
		b.Protos = pick(r, []string{"p1"}, []string{"p1", "p2"}, []string{"p2"})
	}
	b.Compr = r.P(0.15)
	for k := r.Range(1, 4); k > 0; k-- {
		c := ListenClient{Do: pick(r, "calls", "calls", "calls", "calls", "calls", "calls", "wrongpath", "get", "post", "garbage", "idle", "instant", "text", "wsgarbage", "wsclose", "wsdrop", "hang")}
		if r.P(0.5) {
			c.AtMs = r.N(30)
		}
		if c.Do == "calls" {
			c.N = r.Range(1, 4)
			c.Par = r.P(0.5)
			if r.P(0.3) {
				c.Slow = r.Range(1, 40)
			}
		}
		c.Size = min(genSize(r, 0.1), 9000)
		if c.Do == "calls" && r.P(0.06) && b.Net.Cap == 0 {
			c.Size = pick(r, 33000, 66000, 140000)
		}
		if b.Net.Cap > 0 && b.Net.Cap < 1000 {
			c.Size = min(c.Size, 2048)
		}
		c.GapMs = pick(r, 0, 0, 1, 5)
		if r.P(0.04) {
			c.GapMs = pick(r, 11000, 31000, 61000)
		}
		c.Query = r.P(0.2)
		if r.P(0.3) {
			c.Origin = pick(r, slices.Sorted(maps.Keys(wsOrigins))...)
		}
		if r.P(0.2) {
			c.Protos = pick(r, []string{"p1"}, []string{"p2", "p1"}, []string{"none"})
		}
		b.Clients = append(b.Clients, c)
	}
}

func reduceWS(p *Plan) []*Plan {
	var out []*Plan
	add := func(f func(q *WSPlan)) {
		q := clonePlan(p)
		f(q.WS)
		out = append(out, q)
	}
	b := p.WS
	for i := range b.Clients {
		add(func(q *WSPlan) { q.Clients = append(q.Clients[:i], q.Clients[i+1:]...) })
		c := &b.Clients[i]
		if c.N > 1 {
			add(func(q *WSPlan) { q.Clients[i].N = 1 })
		}
		if c.AtMs > 0 {
			add(func(q *WSPlan) { q.Clients[i].AtMs = 0 })
		}
		if c.Slow > 0 {
			add(func(q *WSPlan) { q.Clients[i].Slow = 0 })
		}
		if c.Par {
			add(func(q *WSPlan) { q.Clients[i].Par = false })
		}
	}
	if b.Cancel > 0 {
		add(func(q *WSPlan) { q.Cancel = 0 })
	}
	if b.Compr {
		add(func(q *WSPlan) { q.Compr = false })
	}
	if b.Protos != nil {
		add(func(q *WSPlan) { q.Protos = nil })
	}
	add(func(q *WSPlan) { q.Net = NetCfg{Seed: b.Net.Seed} })
	return out
}

func init() {
	families["ws"] = family{runWS, "C21,C12"}
	reducers["ws"] = reduceWS
	propGens["XWS"] = genWS
	propGens["X21"] = rpcGen(with(func(b *rpcBias) {
		b.faultP, b.abortP, b.clients = 0.3, 0.2, 3
		b.topos = []string{"ws"}
		b.layers = [][]string{nil}
	}))
	propGens["C21"] = mixGen(2, func(r *RNG, p *Plan) { genWS(r, p) }, 3, propGens["X21"])
}
