package main

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"syscall"
	"time"
)

// NetCfg describes the behaviour of the simulated stream transport.
type NetCfg struct {
	Seed    uint64  `json:"seed"`
	DelayP  float64 `json:"delayP,omitempty"`  // probability that a chunk is delayed
	MaxMs   int     `json:"maxMs,omitempty"`   // largest delay
	Chunk   int     `json:"chunk,omitempty"`   // 0: whole writes, else largest fragment delivered by one Read
	Cap     int     `json:"cap,omitempty"`     // bytes in flight before Write blocks
	Rendez  bool    `json:"rendez,omitempty"`  // Write returns only when the peer has read everything (like net.Pipe)
	EOFData bool    `json:"eofData,omitempty"` // the last Read may return data together with io.EOF
	ShortW  float64 `json:"shortW,omitempty"`  // probability of an accepted short write without error
	DialMs  int     `json:"dialMs,omitempty"`  // time it takes to establish a connection
	ZeroR   float64 `json:"zeroR,omitempty"`   // probability of a Read that returns no data and no error
}

// Fault is one injected transport fault.
type Fault struct {
	Kind  string `json:"kind"` // reset, fin, trunc, stall, partition
	Conn  int    `json:"conn"`
	Dir   int    `json:"dir"`             // direction whose byte counter triggers the fault
	Bytes int    `json:"bytes"`           // trigger once this many bytes were accepted in Dir
	AtMs  int    `json:"atMs,omitempty"`  // or at this simulated time (if Bytes < 0)
	DurMs int    `json:"durMs,omitempty"` // stall, partition
}

// half is one direction of a simulated connection.
type half struct {
	l        *link
	dir      int
	buf      []seg
	inflight int
	accepted int // bytes accepted from the writer
	consumed int // bytes handed to the reader
	nseg     uint64
	nfrag    int
	ndelay   int
	werr     error
	fin      bool // writer closed; EOF after the buffer
	dropping bool // bytes after a truncation point are discarded
	lastAt   time.Time
	waiters  []chan struct{}
	stalled  time.Time // no delivery before this time
	rdead    time.Time
	wdead    time.Time
	readAt   time.Time // last delivery
	zeroed   bool
}

// settled: everything accepted so far was delivered, and the reader has had
// the time to deal with it.
//
//go:norace
func (h *half) settled() bool {
	return len(h.buf) == 0 && h.readAt.Before(time.Now())
}

const (
	maxFrag   = 600
	maxDelays = 60
)

type seg struct {
	b  []byte
	at time.Time
}

type link struct {
	cfg    NetCfg
	id     int
	h      [2]*half
	err    error // reset
	closed [2]bool
	faults []Fault
	faultN int // faults that fired
	faultT uint64
	cut    bool          // a reset/fin/trunc fired
	onCut  func(f Fault) // a fault that ends the connection is about to take effect
	wmax   [2]int
}

// simConn is one end of a link. End 0 writes direction 0 and reads direction 1.
type simConn struct {
	l   *link
	end int
}

var errReset = &net.OpError{Op: "read", Net: "sim", Err: os.NewSyscallError("read", syscall.ECONNRESET)}

// resetErrs are the errors a failed transport reports.
// (errTimedOut calls itself a timeout and
// temporary; the connection is lost all the same)
var resetErrs = []error{errReset, errReset, errReset, errTimedOut, errTimedOut, sysErr(syscall.EHOSTUNREACH), sysErr(syscall.EPIPE),
	io.ErrUnexpectedEOF, io.ErrClosedPipe, net.ErrClosed, errors.New("transport failed")}

var errTimedOut = sysErr(syscall.ETIMEDOUT)

func sysErr(e syscall.Errno) error {
	return &net.OpError{Op: "read", Net: "sim", Err: os.NewSyscallError("read", e)}
}

type simAddr string

func (a simAddr) Network() string { return "sim" }
func (a simAddr) String() string  { return string(a) }

//go:norace
func newLink(cfg NetCfg, id int, faults []Fault) (*simConn, *simConn, *link) {
	if cfg.Cap == 0 {
		cfg.Cap = 1 << 20
	}
	l := &link{cfg: cfg, id: id}
	for d := range l.h {
		l.h[d] = &half{l: l, dir: d}
	}
	for _, f := range faults {
		if f.Conn == id || f.Conn < 0 {
			l.faults = append(l.faults, f)
			if f.Bytes < 0 {
				f := f
				time.AfterFunc(time.Duration(f.AtMs)*time.Millisecond, func() { l.fire(f) })
			}
		}
	}
	return &simConn{l, 0}, &simConn{l, 1}, l
}

//go:norace
func (h *half) wake() {
	ws := h.waiters
	h.waiters = nil
	for _, w := range ws {
		close(w) // a scheduling point
	}
}

//go:norace
func (h *half) waitCh() chan struct{} {
	c := make(chan struct{})
	h.waiters = append(h.waiters, c)
	return c
}

// dead reports whether both ends are gone already.
func (l *link) dead() bool { return l.err != nil || (l.closed[0] && l.closed[1]) }

// fire applies a fault.
//
//go:norace
func (l *link) fire(f Fault) {
	if l.dead() || l.closed[0] || l.closed[1] {
		return
	}
	l.faultN++
	switch f.Kind {
	case "cliclose", "srvclose", "srvcancel", "clictx", "srvctx":
		l.faultN--
		return
	case "stall", "partition":
		if f.DurMs > 8000 {
			// longer than the connection's own write timeout
			l.cut = true
			l.faultT = cur.seq()
		}
		until := time.Now().Add(time.Duration(f.DurMs) * time.Millisecond)
		for d, h := range l.h {
			if f.Kind == "partition" || d == f.Dir {
				h.stalled = until
				h.wake()
			}
		}
		cur.fault(f.Kind)
		return
	}
	l.faultT = cur.seq()
	l.cut = true
	cur.fault(f.Kind)
	if l.onCut != nil {
		l.onCut(f)
	}
	switch f.Kind {
	case "wfail":
		// writes of this direction fail from now on, the other direction works
		// (for a while)
		if f.DurMs > 0 {
			time.AfterFunc(time.Duration(f.DurMs)*time.Millisecond, func() { l.fire(Fault{Kind: "reset"}) })
		}
		l.h[f.Dir].werr = resetErrs[mix64(l.cfg.Seed^uint64(l.id))%uint64(len(resetErrs))]
	case "reset":
		l.err = resetErrs[mix64(l.cfg.Seed^uint64(l.id))%uint64(len(resetErrs))]
		for _, h := range l.h {
			h.buf = nil
		}
	case "fin":
		// both directions end cleanly after what was accepted so far
		for _, h := range l.h {
			h.fin = true
		}
	case "trunc":
		// everything from the trigger on is lost, then the stream ends
		for _, h := range l.h {
			h.fin = true
			h.dropping = true
		}
	}
	for _, h := range l.h {
		h.wake()
	}
}

//go:norace
func (c *simConn) Write(p []byte) (n int, err error) {
	h := c.l.h[c.end]
	l := c.l
	total := 0
	for {
		if len(p) == total && (!l.cfg.Rendez || h.inflight == 0) {
			return total, nil
		}
		if l.closed[c.end] {
			return total, net.ErrClosed
		}
		if l.err != nil {
			return total, l.err
		}
		if h.werr != nil {
			return total, h.werr
		}
		if h.fin || l.closed[1-c.end] {
			return total, &net.OpError{Op: "write", Net: "sim", Err: os.NewSyscallError("write", syscall.EPIPE)}
		}
		if !h.wdead.IsZero() && !time.Now().Before(h.wdead) {
			return total, os.ErrDeadlineExceeded
		}
		if len(p) == total {
			// rendezvous: wait until the peer consumed it
			if err := h.block(h.wdead); err != nil {
				return total, err
			}
			continue
		}
		space := l.cfg.Cap - h.inflight
		if space <= 0 || h.nfrag >= maxFrag && space < min(len(p)-total, (l.cfg.Cap+1)/2) {
			// (no silly windows once a connection has been fragmented enough)
			cur.probe("write-blocked")
			if err := h.block(h.wdead); err != nil {
				return total, err
			}
			continue
		}
		k := len(p) - total
		if k > space {
			k = space
		}
		short := false
		if l.cfg.ShortW > 0 && k > 1 {
			r := NewRNG(l.cfg.Seed, uint64(c.end), h.nseg, 77)
			if r.P(l.cfg.ShortW) {
				k = 1 + r.N(k-1)
				short = true
				cur.fault("short-write")
			}
		}
		// a byte-triggered fault may fall inside this write
		var ff *Fault
		for i := range l.faults {
			f := &l.faults[i]
			if f.Bytes >= 0 && f.Dir == c.end && h.accepted <= f.Bytes && h.accepted+k > f.Bytes {
				k = f.Bytes - h.accepted
				ff = f
				break
			}
		}
		if k > 0 {
			h.push(p[total : total+k])
			total += k
		}
		if ff != nil {
			f := *ff
			ff.Bytes = 1 << 60
			l.fire(f)
			continue
		}
		if short {
			return total, nil
		}
	}
}

//go:norace
func (h *half) push(b []byte) {
	cfg := &h.l.cfg
	h.accepted += len(b)
	h.inflight += len(b)
	cp := append([]byte(nil), b...)
	at := time.Now()
	for len(cp) > 0 {
		k := len(cp)
		r := NewRNG(cfg.Seed, uint64(h.dir), h.nseg)
		h.nseg++
		if cfg.Chunk > 0 && h.nfrag < maxFrag {
			h.nfrag++
			m := 1 + r.N(cfg.Chunk)
			if m < k {
				k = m
				cur.probe("fragmented")
			}
		}
		if cfg.DelayP > 0 && h.ndelay < maxDelays && r.P(cfg.DelayP) {
			// bounded, so that delays alone never exceed the transport's own timeouts
			h.ndelay++
			at = at.Add(time.Duration(1+r.N(cfg.MaxMs*1000)) * time.Microsecond)
			cur.fault("delay")
		}
		if at.Before(h.lastAt) {
			at = h.lastAt
		}
		h.lastAt = at
		h.buf = append(h.buf, seg{cp[:k:k], at})
		cp = cp[k:]
	}
	h.wake()
}

// block waits for a state change of h.
//
//go:norace
func (h *half) block(deadline time.Time) error {
	w := h.waitCh()
	if deadline.IsZero() {
		<-w
		return nil
	}
	t := time.NewTimer(time.Until(deadline))
	select {
	case <-w:
	case <-t.C:
	}
	t.Stop()
	return nil
}

//go:norace
func (c *simConn) Read(p []byte) (int, error) {
	h := c.l.h[1-c.end]
	l := c.l
	for {
		if l.closed[c.end] {
			return 0, net.ErrClosed
		}
		if l.err != nil {
			return 0, l.err
		}
		now := time.Now()
		if !h.rdead.IsZero() && !now.Before(h.rdead) {
			return 0, os.ErrDeadlineExceeded
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(h.buf) > 0 {
			at := h.buf[0].at
			if h.stalled.After(at) {
				at = h.stalled
			}
			if !at.After(now) {
				if l.cfg.ZeroR > 0 && !h.zeroed && NewRNG(l.cfg.Seed, uint64(h.dir), uint64(h.consumed), 78).P(l.cfg.ZeroR) {
					h.zeroed = true
					cur.fault("empty-read")
					return 0, nil
				}
				h.zeroed, h.readAt = false, now
				s := &h.buf[0]
				k := copy(p, s.b)
				h.inflight -= k
				h.consumed += k
				if k == len(s.b) {
					h.buf = h.buf[1:]
				} else {
					s.b = s.b[k:]
				}
				h.wake()
				if len(h.buf) == 0 && h.fin && l.cfg.EOFData {
					cur.probe("data-with-eof")
					return k, io.EOF
				}
				return k, nil
			}
			if !h.rdead.IsZero() && h.rdead.Before(at) {
				at = h.rdead
			}
			w := h.waitCh()
			t := time.NewTimer(at.Sub(now))
			select {
			case <-w:
			case <-t.C:
			}
			t.Stop()
			continue
		}
		if h.fin {
			return 0, io.EOF
		}
		if err := h.block(h.rdead); err != nil {
			return 0, err
		}
	}
}

// Close closes this end: pending operations fail, the peer reads EOF after the
// data accepted so far and its writes fail.
//
//go:norace
func (c *simConn) Close() error {
	if c.l.closed[c.end] {
		return nil
	}
	c.l.closed[c.end] = true
	c.l.h[c.end].fin = true
	for _, h := range c.l.h {
		h.wake()
	}
	return nil
}

// CloseWrite ends the stream this end writes.
//
//go:norace
func (c *simConn) CloseWrite() error {
	h := c.l.h[c.end]
	h.fin = true
	h.wake()
	return nil
}

func (c *simConn) LocalAddr() net.Addr  { return simAddr("sim:local") }
func (c *simConn) RemoteAddr() net.Addr { return simAddr("sim:remote") }

//go:norace
func (c *simConn) SetDeadline(t time.Time) error {
	_ = c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

//go:norace
func (c *simConn) SetReadDeadline(t time.Time) error {
	h := c.l.h[1-c.end]
	h.rdead = t
	h.wake()
	return nil
}

//go:norace
func (c *simConn) SetWriteDeadline(t time.Time) error {
	h := c.l.h[c.end]
	h.wdead = t
	h.wake()
	return nil
}

var _ net.Conn = (*simConn)(nil)

// rwcOnly hides everything but io.ReadWriteCloser.
type rwcOnly struct{ c *simConn }

func (r rwcOnly) Read(p []byte) (int, error)  { return r.c.Read(p) }
func (r rwcOnly) Write(p []byte) (int, error) { return r.c.Write(p) }
func (r rwcOnly) Close() error                { return r.c.Close() }

// simListener is a listener on the simulated network.
type simListener struct {
	addr   string
	ch     chan net.Conn
	done   chan struct{}
	closed bool
	nw     *simNetwork
	// accept errors to inject before the n-th connection
	acceptErr map[int]error
	n         int
}

// simNetwork connects Dial and Listen by address.
type simNetwork struct {
	cfg      NetCfg
	faults   []Fault
	lis      map[string]*simListener
	links    []*link
	nextID   int
	refuse   map[int]bool
	onConn   func(a, b *simConn, l *link)
	onListen func(l *simListener)
}

var errRefused = &net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
var errInUse = &net.OpError{Op: "listen", Net: "tcp", Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}

//go:norace
func (n *simNetwork) listen(addr string) (net.Listener, error) {
	if l := n.lis[addr]; l != nil && !l.closed {
		return nil, errInUse
	}
	l := &simListener{addr: addr, ch: make(chan net.Conn, 64), done: make(chan struct{}), nw: n}
	n.lis[addr] = l
	if n.onListen != nil {
		n.onListen(l)
	}
	return l, nil
}

//go:norace
func (n *simNetwork) dial(addr string) (net.Conn, error) {
	l := n.lis[addr]
	if l == nil || l.closed {
		return nil, errRefused
	}
	id := n.nextID
	n.nextID++
	a, b, lk := newLink(n.cfg, id, n.faults)
	n.links = append(n.links, lk)
	if n.onConn != nil {
		n.onConn(a, b, lk)
	}
	l.ch <- b
	if l.closed {
		l.drain()
	}
	return a, nil
}

//go:norace
func (l *simListener) Accept() (net.Conn, error) {
	l.n++
	if e := l.acceptErr[l.n]; e != nil {
		cur.fault("accept-error")
		return nil, e
	}
	select {
	case <-l.done:
		return nil, net.ErrClosed
	case c := <-l.ch:
		return c, nil
	}
}

//go:norace
func (l *simListener) Close() error {
	if l.closed {
		return net.ErrClosed
	}
	l.closed = true
	close(l.done)
	l.drain()
	return nil
}

// drain closes the connections that were never accepted.
//
//go:norace
func (l *simListener) drain() {
	for {
		select {
		case c := <-l.ch:
			_ = c.Close()
			continue
		default:
		}
		return
	}
}

func (l *simListener) Addr() net.Addr { return simAddr(l.addr) }

//go:norace
func (n *simNetwork) install() {
	net.SimDialHook = func(ctx context.Context, network, address string) (net.Conn, error) {
		if n.cfg.DialMs > 0 {
			cur.fault("slow-connect")
			select {
			case <-ctx.Done():
				return nil, &net.OpError{Op: "dial", Net: "tcp", Err: os.ErrDeadlineExceeded}
			case <-time.After(time.Duration(n.cfg.DialMs) * time.Millisecond):
			}
		}
		return n.dial(address)
	}
	net.SimListenHook = func(ctx context.Context, network, address string) (net.Listener, error) { return n.listen(address) }
}

func uninstallNet() {
	net.SimDialHook = nil
	net.SimListenHook = nil
}

var errInjected = errors.New("injected fault")
