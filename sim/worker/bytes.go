package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"time"

	"github.com/aperturerobotics/starpc/echo"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
)

// BytesPlan drives a byte stream built by the library in both directions.
type BytesPlan struct {
	Kind   string    `json:"kind"` // rwc, streamrwc, rsrw, raw
	Topo   string    `json:"topo,omitempty"`
	Net    NetCfg    `json:"net"`
	Net2   NetCfg    `json:"net2,omitempty"` // raw: the component's connection
	Faults []Fault   `json:"faults,omitempty"`
	E      [2]ByteEP `json:"e"`
	Proxy  string    `json:"proxy,omitempty"`  // raw: the call passes a proxy; the transport behind it
	Getter string    `json:"getter,omitempty"` // raw: nil, err, errrel, norel
	NoCW   bool      `json:"noCW,omitempty"`   // raw: the component's connection cannot half-close
	NoAck  bool      `json:"noAck,omitempty"`  // raw: do not wait for the acknowledgement
	Cancel int       `json:"cancel,omitempty"` // cancel the caller's context at this time (ms, 0 never)
	BufN   int       `json:"bufN,omitempty"`   // rwc: packets buffered
	WDead  bool      `json:"wdead,omitempty"`  // rwc: check the write deadline
	Deaf   bool      `json:"deaf,omitempty"`   // rwc: closing the connection of end 0 does not end its pending read for a long time
	CtxMs  int       `json:"ctxMs,omitempty"`  // rwc: cancel the context of end 0 at this time
}

// ByteEP is one end of the byte stream.
type ByteEP struct {
	W      []int  `json:"w,omitempty"`      // sizes written
	WMs    int    `json:"wMs,omitempty"`    // pause between writes
	R      []int  `json:"r"`                // read buffer sizes, cyclic
	RMs    int    `json:"rMs,omitempty"`    // pause between reads
	End    string `json:"end"`              // half, close, wait, ret, err
	DMs    []int  `json:"dMs,omitempty"`    // rwc: read deadlines (ms from the read; -1: cleared) cyclic
	DPre   int    `json:"dPre,omitempty"`   // rwc, dPend: the deadline in force before (ms)
	DAll   bool   `json:"dAll,omitempty"`   // rwc: uses SetDeadline
	DPend  bool   `json:"dPend,omitempty"`  // rwc: set the deadline from another goroutine while the read is pending
	WExt   bool   `json:"wExt,omitempty"`   // rwc: extends the (far) write deadline before every operation, from both goroutines
	Ignore bool   `json:"ignore,omitempty"` // does not read at all
	Zero   bool   `json:"zero,omitempty"`   // also performs empty writes
	Idle   int    `json:"idle,omitempty"`   // a long silence (ms) before write IdleAt, or before the end
	IdleAt int    `json:"idleAt,omitempty"`
	R2     bool   `json:"r2,omitempty"`   // rwc: two goroutines read
	Step   bool   `json:"step,omitempty"` // waits until the peer has read everything before each further write
}

type bytesExec struct {
	r    *Run
	p    *BytesPlan
	ep   [2]*byteEnd
	lks  []*link
	ctx  *trackCtx
	scx  *trackCtx
	acq  []int
	hret bool
	herr error
	hctx context.Context
	prop string
	dist bool
	// the stream returned together with an error by the component lookup
	failedRwc *simConn
}

// byteEnd is one end under test.
type byteEnd struct {
	x      *bytesExec
	i      int
	p      *ByteEP
	rw     io.ReadWriter
	half   func() error // ends the written direction (nil: not possible)
	close  func() error
	conn   net.Conn // rwc only
	all    []byte   // everything it will write
	wrote  int      // bytes whose write succeeded
	tried  int      // bytes handed to Write
	wdone  bool     // all writes succeeded
	ended  bool     // it ended its direction cleanly (half, close after writes, return)
	closed bool     // it closed both directions
	got    int      // bytes read
	rterm  error
	rend   bool
	done   chan struct{} // closed when it closed or its reader ended
}

func (x *bytesExec) disturbed() bool {
	if x.dist || x.ctx.err != nil || x.scx.err != nil {
		return true
	}
	for _, l := range x.lks {
		if l.cut {
			return true
		}
	}
	return false
}

func (e *byteEnd) name() string { return fmt.Sprintf("end %d", e.i) }

// writer writes everything and then ends its side as planned.
// extend moves the write deadline far into the future, as an idle timeout does.
func (e *byteEnd) extend() {
	if e.conn != nil && e.p.WExt {
		_ = e.conn.SetWriteDeadline(time.Now().Add(24 * time.Hour))
		if e.conn.LocalAddr() == nil || e.conn.RemoteAddr() == nil {
			e.x.r.violate(e.x.prop, "address", "%s: a connection lost its address", e.name())
		}
	}
}

func (e *byteEnd) writer() {
	x, r := e.x, e.x.r
	off := 0
	ok := true
	for k, n := range e.p.W {
		if e.p.Idle > 0 && k == e.p.IdleAt {
			r.fault("idle")
			time.Sleep(time.Duration(e.p.Idle) * time.Millisecond)
		}
		if e.p.WMs > 0 {
			time.Sleep(time.Duration(e.p.WMs) * time.Millisecond)
		}
		if e.p.Step && k > 0 {
			e.awaitPeer()
		}
		if e.p.Zero && k%2 == 1 {
			if m, err := e.rw.Write(nil); m != 0 || err != nil && !x.disturbed() && !e.peer().closed && !e.closed && !x.hret {
				x.r.violate(x.prop, "empty-write", "%s: Write of no bytes returned %d, %v", e.name(), m, err)
			}
		}
		e.extend()
		buf := append([]byte(nil), e.all[off:off+n]...)
		e.tried = off + n
		before := 0
		if e.conn != nil {
			before = x.lks[0].h[e.i].accepted
		}
		id := r.begin("%s: write %d bytes at %d", e.name(), n, off)
		m, err := e.rw.Write(buf)
		r.end(id, "%d %v", m, err)
		if e.conn != nil {
			if acc := x.lks[0].h[e.i].accepted - before; acc != m {
				r.violate(x.prop, "write-count", "%s: Write of %d bytes returned %d, %v, but the connection accepted %d", e.name(), n, m, err, acc)
			}
		}
		for i := range buf {
			buf[i] = 0xdb
		}
		if m < 0 || m > n || err == nil && m != n {
			r.violate(x.prop, "short-write", "%s: Write of %d bytes returned %d, %v", e.name(), n, m, err)
		}
		off += m
		e.wrote = off
		if err != nil {
			ok = false
			if !x.disturbed() && !e.closed && !e.peer().gone() {
				r.violate(x.prop, "write-failed", "%s: Write failed with %q although nothing interrupted the stream", e.name(), err)
			}
			break
		}
		e.tried = off
	}
	if e.p.Step && ok {
		e.awaitPeer()
	}
	if e.p.Idle > 0 && e.p.IdleAt >= len(e.p.W) {
		r.fault("idle")
		time.Sleep(time.Duration(e.p.Idle) * time.Millisecond)
	}
	e.wdone = ok
	switch e.p.End {
	case "half":
		if ok {
			e.ended = true
		}
		if e.half != nil {
			id := r.begin("%s: half-close", e.name())
			err := e.half()
			r.end(id, "%v", err)
			if err != nil && ok && !x.disturbed() && !e.closed && !e.peer().gone() {
				r.violate(x.prop, "half-close-failed", "%s: closing the written direction failed with %q", e.name(), err)
			}
			return
		}
		fallthrough
	case "close":
		// closing a call without a half-close aborts it
		if ok && (x.p.Kind == "rwc" || x.p.Kind == "raw" && e.i == 1) {
			e.ended = true
		}
		e.doClose()
	case "wait", "ret", "err":
	}
}

// awaitPeer waits until the peer has read everything written so far: a reader
// must return what has arrived without waiting for more.
func (e *byteEnd) awaitPeer() {
	x, p := e.x, e.peer()
	last, since := p.got, time.Now()
	for p.got < e.wrote {
		if x.disturbed() || p.rend || p.closed || e.closed || e.gone() || p.p.Ignore || x.p.Getter != "" {
			return
		}
		if p.got != last {
			last, since = p.got, time.Now()
		} else if time.Since(since) > 2*time.Minute {
			x.r.violate(x.prop, "read-stalled", "%s: the peer wrote %d bytes and waits for them to be read, but reads have returned only %d", p.name(), e.wrote, p.got)
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// gone: the peer may legitimately refuse more data.
func (e *byteEnd) gone() bool {
	return e.closed || e.x.hret || e.p.Ignore || e.x.p.Kind == "raw" && (e.i == 1 && e.ended || e.i == 0 && e.ended && e.x.halfNoCW())
}

func (e *byteEnd) peer() *byteEnd { return e.x.ep[1-e.i] }

func (e *byteEnd) doClose() {
	if e.closed {
		return
	}
	e.closed = true
	id := e.x.r.begin("%s: close", e.name())
	err := e.close()
	e.x.r.end(id, "%v", err)
	if e.x.p.Deaf && e.i == 0 {
		time.Sleep(10 * time.Second)
		if !e.rend {
			e.x.r.violate(e.x.prop, "read-after-close", "%s: a read is still blocked 10s after Close", e.name())
		}
	}
}

// deafConn is a connection whose Close does not end the pending read at once,
// like a file or a terminal.
type deafConn struct{ c *simConn }

func (d deafConn) Read(p []byte) (int, error)  { return d.c.Read(p) }
func (d deafConn) Write(p []byte) (int, error) { return d.c.Write(p) }
func (d deafConn) Close() error {
	cur.fault("deaf-close")
	time.AfterFunc(20*time.Second, func() { _ = d.c.Close() })
	return d.c.CloseWrite()
}

// reader reads to the end of the stream.
func (e *byteEnd) reader() {
	x, r, p := e.x, e.x.r, e.peer()
	defer func() { e.rend = true }()
	for k := 0; ; k++ {
		if e.p.RMs > 0 && k < 200 {
			time.Sleep(time.Duration(e.p.RMs) * time.Millisecond)
		}
		buf := make([]byte, e.p.R[k%len(e.p.R)])
		for i := range buf {
			buf[i] = 0xee
		}
		var dl time.Time
		var pend *time.Timer
		pendDone := make(chan struct{})
		if e.conn != nil && len(e.p.DMs) > 0 && k < 40 {
			if d := e.p.DMs[k%len(e.p.DMs)]; d >= 0 {
				dl = time.Now().Add(time.Duration(d) * time.Millisecond)
			}
			if e.p.DPend {
				d := dl
				var pre time.Time
				if e.p.DPre > 1 {
					pre = time.Now().Add(time.Duration(e.p.DPre) * time.Millisecond)
				}
				_ = e.conn.SetReadDeadline(pre)
				pend = time.AfterFunc(time.Millisecond, func() {
					defer close(pendDone)
					if !d.IsZero() {
						r.fault("deadline-pending")
					}
					_ = e.conn.SetReadDeadline(d)
				})
				if !dl.IsZero() && dl.Before(time.Now().Add(time.Millisecond)) {
					dl = time.Now().Add(time.Millisecond)
				}
			} else {
				if !dl.IsZero() {
					r.fault("deadline")
				}
				if e.p.DAll {
					_ = e.conn.SetDeadline(dl)
				} else {
					_ = e.conn.SetReadDeadline(dl)
				}
			}
		}
		if e.conn != nil && k == 40 && len(e.p.DMs) > 0 {
			time.Sleep(2 * time.Millisecond)
			_ = e.conn.SetReadDeadline(time.Time{})
		}
		e.extend()
		id := r.begin("%s: read up to %d bytes at %d", e.name(), len(buf), e.got)
		n, err := e.rw.Read(buf)
		r.end(id, "%d %v", n, err)
		at := time.Now()
		if pend != nil && !pend.Stop() {
			<-pendDone // no change of the deadline may be left over for the next read
		}
		if !dl.IsZero() && time.Since(dl) > time.Second {
			r.violate(x.prop, "deadline-ignored", "%s: a read with deadline %v returned only %v after it (%d, %v)", e.name(), dl.Sub(r.T0), time.Since(dl), n, err)
		}
		if n < 0 || n > len(buf) {
			r.violate(x.prop, "bad-count", "%s: Read into %d bytes returned %d", e.name(), len(buf), n)
			return
		}
		for i := n; i < len(buf); i++ {
			if buf[i] != 0xee {
				break // scratch use of the buffer is allowed
			}
		}
		if n > 0 {
			r.probe("bytes-read")
			if e.got+n > p.tried || string(buf[:n]) != string(p.all[e.got:e.got+n]) {
				k := 0
				for k < n && e.got+k < len(p.all) && buf[k] == p.all[e.got+k] {
					k++
				}
				r.violate(x.prop, "corrupt-bytes", "%s: bytes %d..%d read differ from the bytes written (first difference at %d; the peer wrote %d so far): %s", e.name(), e.got, e.got+n, e.got+k, p.tried, short(buf[k:n]))
				return
			}
			e.got += n
		}
		if err == nil {
			continue
		}
		if e.conn != nil && errors.Is(err, os.ErrDeadlineExceeded) {
			if e.p.DPend {
				_ = e.conn.SetReadDeadline(time.Time{})
				time.Sleep(2 * time.Millisecond)
			}
			if dl.IsZero() || at.Before(dl) {
				r.violate(x.prop, "early-deadline", "%s: a read reported an exceeded deadline before its deadline", e.name())
				return
			}
			r.probe("deadline-exceeded")
			continue
		}
		e.rterm = err
		dist := x.disturbed()
		switch {
		case err == io.EOF && e.conn != nil && x.lks[0].err != nil && !x.lks[0].h[1-e.i].fin:
			r.violate(x.prop+",C06", "false-eof", "%s: the connection failed with %q, and the stream ended cleanly after %d bytes", e.name(), x.lks[0].err, e.got)
		case err == io.EOF && dist:
			// a clean end seen by the caller of a call always comes from the handler
			if e.i == 0 && x.p.Kind != "rwc" && !e.closed {
				if !x.hret || x.herr != nil {
					r.violate(x.prop, "false-eof", "%s: the stream ended cleanly after %d bytes, but the call did not complete (returned=%v err=%v)", e.name(), e.got, x.hret, x.herr)
				} else if e.got != p.wrote && x.p.Kind != "raw" {
					r.violate(x.prop, "lost-tail", "%s: the stream ended cleanly after %d bytes, the peer wrote %d", e.name(), e.got, p.wrote)
				}
			}
		case err == io.EOF:
			if e.closed || x.p.Kind == "raw" && e.i == 1 && e.ended {
				break // the call ends when the component ends its direction
			}
			if e.i == 1 && p.closed && !p.ended && !x.hret && (x.p.Kind == "streamrwc" || x.p.Kind == "rsrw") {
				r.violate(x.prop+",C04", "close-as-eof", "%s: the peer closed (aborted) the stream without half-closing it, and it ended cleanly after %d bytes", e.name(), e.got)
			} else if !p.ended && !p.closed {
				r.violate(x.prop, "false-eof", "%s: the stream ended cleanly after %d bytes, but the peer did not end it", e.name(), e.got)
			} else if p.ended && e.got != p.wrote {
				r.violate(x.prop, "lost-tail", "%s: the stream ended cleanly after %d bytes, the peer wrote %d", e.name(), e.got, p.wrote)
			}
		default:
			if dist || e.closed || x.hret && e.i == 1 {
				break
			}
			if p.ended && p.wdone && !(p.closed && x.p.Kind != "rwc" && x.p.Kind != "raw") && !(x.p.Kind == "raw" && e.i == 0 && x.halfNoCW()) {
				if x.p.Kind == "raw" && e.i == 1 && p.closed {
					break
				}
				if x.herr != nil && e.i == 0 && err.Error() == x.herr.Error() {
					break
				}
				r.violate(x.prop, "unclean-end", "%s: the peer wrote %d bytes and ended the stream cleanly, read failed after %d with %q", e.name(), p.wrote, e.got, err)
			} else if !p.ended && !p.closed && x.p.Getter == "" && !(x.hret && e.i == 0) && !(x.p.Kind == "raw" && e.peer().p.End == "half" && x.halfNoCW()) {
				r.violate(x.prop, "read-failed", "%s: read failed with %q although nothing interrupted the stream", e.name(), err)
			}
		}
		return
	}
}

// readers2 reads to the end of the stream from two goroutines: nothing may be
// lost or delivered twice, whoever gets it.
func (e *byteEnd) readers2() {
	x, r, p := e.x, e.x.r, e.peer()
	var hist [256]int
	eofs := 0
	g := newGroup()
	for i := 0; i < 2; i++ {
		g.Go(func() {
			for k := i; ; k++ {
				buf := make([]byte, e.p.R[k%len(e.p.R)])
				id := r.begin("%s: reader %d reads up to %d bytes", e.name(), i, len(buf))
				n, err := e.rw.Read(buf)
				r.end(id, "%d %v", n, err)
				for _, b := range buf[:n] {
					hist[b]++
				}
				e.got += n
				if n > 0 {
					r.probe("bytes-read-by-two")
				}
				if err != nil {
					if err == io.EOF {
						eofs++
					}
					return
				}
			}
		})
	}
	g.Wait(2 * callBound)
	e.rend = true
	if e.got > p.tried {
		r.violate(x.prop, "corrupt-bytes", "%s: two readers got %d bytes, the peer wrote %d", e.name(), e.got, p.tried)
	} else if eofs == 2 && p.ended && !x.disturbed() && !e.closed {
		if e.got != p.wrote {
			r.violate(x.prop, "lost-tail", "%s: the stream ended cleanly after two readers got %d bytes, the peer wrote %d", e.name(), e.got, p.wrote)
			return
		}
		for _, b := range p.all[:p.wrote] {
			hist[b]--
		}
		for b, n := range hist {
			if n != 0 {
				r.violate(x.prop, "corrupt-bytes", "%s: two readers got byte %q %d times more often than it was written", e.name(), b, n)
				return
			}
		}
	}
}

// halfNoCW: the caller half-closed towards a component that cannot half-close.
func (x *bytesExec) halfNoCW() bool {
	return x.p.NoCW && x.ep[0].p.End == "half"
}

// run drives one end: writer and reader, then close.
func (e *byteEnd) run() {
	g := newGroup()
	if e.p.Ignore {
		e.rend = true
	} else if e.p.R2 && e.conn != nil {
		g.Go(e.readers2)
	} else {
		g.Go(e.reader)
	}
	g.Go(e.writer)
	g.Wait(2 * callBound)
}

func (x *bytesExec) newEnd(i int) *byteEnd {
	e := &byteEnd{x: x, i: i, p: &x.p.E[i], done: make(chan struct{})}
	n := 0
	for _, k := range e.p.W {
		n += k
	}
	e.all = content(7, i, n%1000, n)
	// make every position distinguishable
	for k := 0; k+8 <= n; k += 64 {
		copy(e.all[k:], fmt.Sprintf("%d%06x.", i, k))
	}
	x.ep[i] = e
	return e
}

func (x *bytesExec) link(cfg NetCfg, id int) (*simConn, *simConn) {
	a, b, l := newLink(cfg, id, x.p.Faults)
	x.lks = append(x.lks, l)
	return a, b
}

// streamTransport opens one srpc client to an invoker over the planned topology.
func (x *bytesExec) streamTransport(inv srpc.Invoker) (srpc.Client, func(), error) {
	return x.streamTransportOn(inv, x.p.Topo, 0)
}

func (x *bytesExec) streamTransportOn(inv srpc.Invoker, topo string, id int) (srpc.Client, func(), error) {
	srv := srpc.NewServer(inv)
	switch topo {
	case "pipe":
		return srpc.NewClient(srpc.NewServerPipe(srv)), func() {}, nil
	case "direct":
		var a, b *simConn
		cl := srpc.NewClient(func(ctx context.Context, mh srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
			a, b = x.link(x.p.Net, id)
			go srv.HandleStream(x.scx, b)
			prw := srpc.NewPacketReadWriter(a)
			go prw.ReadPump(mh, ch)
			return prw, nil
		})
		return cl, func() {
			if a != nil {
				_ = a.Close()
			}
		}, nil
	default:
		a, b := x.link(x.p.Net, id)
		cm, err := srpc.NewMuxedConn(a, true, nil)
		if err != nil {
			return nil, nil, err
		}
		sm, err := srpc.NewMuxedConn(b, false, nil)
		if err != nil {
			return nil, nil, err
		}
		go func() {
			_ = srv.AcceptMuxedConn(x.scx, sm)
			_ = sm.Close()
		}()
		return srpc.NewClientWithMuxedConn(cm), func() { _ = cm.Close() }, nil
	}
}

func runBytes(r *Run) {
	p := r.Plan.Bytes
	x := &bytesExec{r: r, p: p, ctx: newTrackCtx(0), scx: newTrackCtx(-1)}
	x.prop = map[string]string{"rwc": "C17", "streamrwc": "C18", "rsrw": "C18", "raw": "C15"}[p.Kind]
	if p.Proxy != "" {
		x.prop = "C15,C16"
	}
	e0, e1 := x.newEnd(0), x.newEnd(1)
	if p.Cancel > 0 {
		time.AfterFunc(time.Duration(p.Cancel)*time.Millisecond, func() {
			if x.ctx.err == nil {
				r.fault("cancel")
				x.ctx.cancel()
			}
		})
	}
	g := newGroup()
	switch p.Kind {
	case "rwc":
		x.runRwc(g, e0, e1)
	case "streamrwc", "rsrw":
		x.runStreamRw(g, e0, e1)
	case "raw":
		x.runRaw(g, e0, e1)
	}
	runtime.SimMix(uint64(e0.got)<<20 | uint64(e1.got))
}

// finish waits for both ends and tears the connections down.
func (x *bytesExec) finish(g *Group, closeAll func()) {
	if !g.Wait(callBound) {
		x.r.violate(x.prop, "stuck", "still blocked after %v: %s", callBound, strings.Join(x.r.pending(), "; "))
	}
	x.dist = true
	closeAll()
	x.scx.cancel()
	x.ctx.cancel()
	if !g.Wait(callBound) && len(x.r.Viol) == 0 {
		x.r.violate(x.prop, "stuck", "still blocked %v after everything was closed: %s", callBound, strings.Join(x.r.pending(), "; "))
	}
}

func (x *bytesExec) runRwc(g *Group, e0, e1 *byteEnd) {
	p, r := x.p, x.r
	a, b := x.link(p.Net, 0)
	var t0 io.ReadWriteCloser = rwcOnly{a}
	if p.Deaf {
		t0 = deafConn{a}
	}
	c0 := srpc.NewRwcConn(x.ctx, t0, simAddr("a"), simAddr("b"), p.BufN)
	e0.rw, e0.conn, e0.close = c0, c0, c0.Close
	e1.rw, e1.close, e1.half = b, b.Close, b.CloseWrite
	if p.BufN%2 == 0 {
		c1 := srpc.NewRwcConn(context.Background(), rwcOnly{b}, simAddr("b"), simAddr("a"), p.BufN)
		e1.rw, e1.conn, e1.close = c1, c1, c1.Close
	}
	if c0.LocalAddr().String() != "a" || c0.RemoteAddr().String() != "b" {
		r.violate("C17", "addr", "the addresses of the connection are %v and %v", c0.LocalAddr(), c0.RemoteAddr())
	}
	for _, e := range []*byteEnd{e0, e1} {
		g.Go(func() {
			e.run()
			if e.p.Ignore {
				time.Sleep(50 * time.Millisecond)
			}
			if p.Deaf && e.i == 1 {
				time.Sleep(15 * time.Second)
			}
			// whoever is done closes
			e.doClose()
			id := r.begin("%s: operations after close", e.name())
			one := make([]byte, 1)
			var err error
			for i := 0; i < 100000 && err == nil; i++ {
				_, err = e.rw.Read(one) // data received before may still be there
			}
			if err == nil {
				r.violate("C17", "read-after-close", "%s: reads keep succeeding after Close", e.name())
			}
			if _, err := e.rw.Write(one); err == nil {
				r.violate("C17", "write-after-close", "%s: a write succeeded after Close", e.name())
			}
			r.end(id, "")
		})
	}
	if p.WDead {
		x.writeDeadline()
	}
	x.finish(g, func() { e0.doClose(); e1.doClose() })
	if n := x.ctx.live(); n != 0 {
		r.violate("C17,C12", "context-leak", "%d registration(s) remain on the context after Close", n)
	}
}

// writeDeadline: a write to a peer that does not read must end at its deadline.
func (x *bytesExec) writeDeadline() {
	r := x.r
	a, b, _ := newLink(NetCfg{Cap: 32}, 50, nil)
	c := srpc.NewRwcConn(context.Background(), rwcOnly{a}, nil, nil, 0)
	_ = c.SetWriteDeadline(time.Now().Add(time.Second))
	g := newGroup()
	var err error
	g.Go(func() { _, err = c.Write(make([]byte, 4096)) })
	if !g.Wait(10 * time.Second) {
		r.violate("C17", "write-deadline-ignored", "a write that was blocked when its write deadline passed did not return")
	} else if !errors.Is(err, os.ErrDeadlineExceeded) {
		r.violate("C17", "write-deadline-ignored", "a write blocked past its deadline returned %v", err)
	}
	_ = c.Close()
	_ = b.Close()
	g.Wait(time.Minute)
}

// runStreamRw: a StreamRwc or RpcStreamReadWriter on both ends of a call.
func (x *bytesExec) runStreamRw(g *Group, e0, e1 *byteEnd) {
	p, r := x.p, x.r
	serve := func(rw io.ReadWriteCloser, half func() error, ctx context.Context) error {
		e1.rw, e1.half, e1.close = rw, half, func() error { return nil }
		x.hctx = ctx
		r.probe("handler-invoked")
		if p.E[1].End == "ret" || p.E[1].End == "err" {
			// return once everything is written, whatever was read
			gr := newGroup()
			if !e1.p.Ignore {
				gr.Go(e1.reader)
			}
			gw := newGroup()
			gw.Go(e1.writer)
			gw.Wait(2 * callBound)
		} else {
			e1.run()
		}
		var err error
		if p.E[1].End == "err" {
			err = errors.New("component error")
		}
		x.herr = err
		if err == nil && e1.wdone {
			e1.ended = true
		}
		e1.closed = true
		x.hret = true
		return err
	}
	var inv srpc.Invoker
	if p.Kind == "streamrwc" {
		inv = srpc.InvokerFunc(func(svc, m string, strm srpc.Stream) (bool, error) {
			rw := srpc.NewStreamRwc(strm)
			return true, serve(rw, nil, strm.Context())
		})
	} else {
		inv = echoMuxFn(func(strm echo.SRPCEchoer_RpcStreamStream) error {
			rw := rpcstream.NewRpcStreamReadWriter(strm)
			return serve(rw, nil, strm.Context())
		})
	}
	cl, closeT, err := x.streamTransport(inv)
	if err != nil {
		r.probe("setup-failed")
		return
	}
	g.Go(func() {
		var rw io.ReadWriteCloser
		var half func() error
		if p.Kind == "streamrwc" {
			strm, err := cl.NewStream(x.ctx, "bytes", "bytes", nil)
			if err != nil {
				if !x.disturbed() {
					r.violate(x.prop, "open-failed", "opening the stream failed with %q", err)
				}
				return
			}
			srw := srpc.NewStreamRwc(strm)
			rw, half = srw, srw.CloseSend
		} else {
			strm, err := echo.NewSRPCEchoerClient(cl).RpcStream(x.ctx)
			if err != nil {
				if !x.disturbed() {
					r.violate(x.prop, "open-failed", "opening the stream failed with %q", err)
				}
				return
			}
			rw, half = rpcstream.NewRpcStreamReadWriter(strm), strm.CloseSend
		}
		e0.rw, e0.half, e0.close = rw, half, rw.Close
		e0.run()
		e0.doClose()
	})
	if !g.Wait(callBound) {
		r.violate(x.prop, "stuck", "still blocked after %v: %s", callBound, strings.Join(r.pending(), "; "))
	}
	// the call is over although the connection lives
	if len(r.Viol) == 0 && x.hctx != nil {
		time.Sleep(settleTime + time.Duration(x.p.E[0].Idle+x.p.E[1].Idle)*time.Millisecond)
		if !x.silent() {
			if !x.hret {
				r.violate(x.prop+",C12", "handler-stuck", "the caller closed the stream and the handler is still running")
			}
			if x.hctx.Err() == nil {
				r.violate(x.prop+",C25", "context-leak", "the caller closed the stream and the context of the handler is live")
			}
		}
	}
	x.finish(g, closeT)
}

// runRaw: a raw rpcstream between the caller (end 0) and a component (end 1).
func (x *bytesExec) runRaw(g *Group, e0, e1 *byteEnd) {
	p, r := x.p, x.r
	acquire := func() func() {
		i := len(x.acq)
		x.acq = append(x.acq, 0)
		return func() { x.acq[i]++ }
	}
	var inner, outer *simConn
	inv := echoMuxFn(func(strm echo.SRPCEchoer_RpcStreamStream) error {
		r.probe("handler-invoked")
		x.hctx = strm.Context()
		err := rpcstream.HandleRawRpcStream(strm, func(ctx context.Context, id string) (io.ReadWriteCloser, func(), error) {
			if id != "raw-comp" {
				r.violate(x.prop, "wrong-component", "the getter was asked for %q", id)
			}
			switch p.Getter {
			case "nil":
				return nil, nil, nil
			case "err":
				return nil, nil, errors.New("injected component failure")
			case "errrel":
				return nil, acquire(), errors.New("injected component failure")
			case "nilrel":
				return nil, acquire(), nil
			}
			inner, outer = x.link(p.Net2, 100)
			if p.Getter == "rwcerr" { // a failure next to a stream
				x.failedRwc = inner
				_, _ = outer.Write([]byte("unavailable"))
				return inner, acquire(), errors.New("injected component failure")
			}
			e1.rw, e1.half, e1.close = outer, outer.CloseWrite, outer.Close
			g.Go(func() {
				e1.run()
				if e1.p.Ignore {
					time.Sleep(50 * time.Millisecond)
				}
				e1.doClose()
			})
			rel := acquire()
			if p.Getter == "norel" {
				x.acq[len(x.acq)-1] = 1
				rel = nil
			}
			if p.NoCW {
				return rwcOnly{inner}, rel, nil
			}
			return inner, rel, nil
		})
		x.herr = err
		if (p.Getter == "" || p.Getter == "norel") && outer != nil && !x.disturbed() && !e0.closed && !e1.closed && !e1.ended && !(e0.ended && x.halfNoCW()) {
			r.violate(x.prop, "ended-early", "the raw rpcstream handler returned %v although neither the caller nor the component had ended the stream", err)
		}
		x.hret = true
		return err
	})
	remoteID := "raw-comp"
	var closeP func()
	if p.Proxy != "" {
		pcl, pclose, err := x.streamTransportOn(inv, p.Proxy, 50)
		if err != nil {
			r.probe("setup-failed")
			return
		}
		closeP = pclose
		remoteID = "proxied"
		inv = echoMuxFn(func(strm echo.SRPCEchoer_RpcStreamStream) error {
			return rpcstream.HandleProxyRpcStream(strm, func(ctx context.Context, id string) (rpcstream.RpcStreamCaller[echo.SRPCEchoer_RpcStreamClient], string, func(), error) {
				if id != "proxied" {
					r.violate("C16", "wrong-component", "the proxy getter was asked for %q", id)
				}
				return echo.NewSRPCEchoerClient(pcl).RpcStream, "raw-comp", acquire(), nil
			})
		})
	}
	cl, closeT, err := x.streamTransport(inv)
	if err != nil {
		r.probe("setup-failed")
		return
	}
	if closeP != nil {
		closeC := closeT
		closeT = func() {
			closeC()
			closeP()
		}
	}
	g.Go(func() {
		caller := echo.NewSRPCEchoerClient(cl)
		id := r.begin("OpenRpcStream")
		strm, err := rpcstream.OpenRpcStream(x.ctx, caller.RpcStream, remoteID, !p.NoAck)
		r.end(id, "%v", err)
		want := ""
		switch p.Getter {
		case "nil", "nilrel":
			want = rpcstream.ErrNoServerForComponent.Error()
		case "err", "errrel", "rwcerr":
			want = "injected component failure"
		}
		if err != nil {
			if want != "" && !strings.Contains(err.Error(), want) && !x.disturbed() {
				r.violate(x.prop, "component-status", "opening a stream to an unavailable component failed with %q, want %q", err, want)
			}
			if want == "" && !x.disturbed() {
				r.violate(x.prop, "open-failed", "opening the raw stream failed with %q", err)
			}
			return
		}
		if want != "" && !p.NoAck {
			r.violate(x.prop, "component-status", "opening a stream to an unavailable component succeeded, want %q", want)
		}
		rw := rpcstream.NewRpcStreamReadWriter(strm)
		e0.rw, e0.half, e0.close = rw, strm.CloseSend, rw.Close
		e0.run()
		if want != "" && e0.rterm != nil && !x.disturbed() && !e0.closed && !strings.Contains(e0.rterm.Error(), want) {
			r.violate(x.prop, "component-status", "a stream to an unavailable component reported %q, want %q", e0.rterm, want)
		}
		e0.doClose()
	})
	if !g.Wait(callBound) {
		r.violate(x.prop, "stuck", "still blocked after %v: %s", callBound, strings.Join(r.pending(), "; "))
	}
	// everything belonging to the call is released although the connection lives
	if len(r.Viol) == 0 && x.hctx != nil {
		time.Sleep(settleTime + time.Duration(x.p.E[0].Idle+x.p.E[1].Idle)*time.Millisecond)
		if !x.silent() {
			if !x.hret {
				r.violate(x.prop+",C12", "handler-stuck", "both ends are closed and the raw rpcstream handler is still running")
			}
			if x.hctx.Err() == nil {
				r.violate(x.prop+",C25", "context-leak", "both ends are closed and the context of the handler is live")
			}
		}
	}
	x.finish(g, closeT)
	time.Sleep(callBound)
	for i, n := range x.acq {
		if n != 1 {
			r.violate(x.prop+",C12", "component-release", "component reference %d was released %d times", i, n)
		}
	}
	if f := x.failedRwc; f != nil {
		if n := f.l.h[f.end].accepted + f.l.h[1-f.end].consumed; n != 0 {
			r.violate(x.prop, "failed-component", "%d bytes were exchanged with a component whose lookup had failed", n)
		}
		_ = outer.Close()
	}
	if inner != nil && !inner.l.closed[inner.end] {
		r.violate(x.prop+",C12", "conn-leak", "the component's stream was never closed")
	}
}

func (x *bytesExec) silent() bool {
	for _, l := range x.lks {
		for _, h := range l.h {
			if h.stalled.After(time.Now().Add(-settleTime)) {
				return true
			}
		}
	}
	return false
}

type rsHandler struct {
	*echo.EchoServer
	fn func(strm echo.SRPCEchoer_RpcStreamStream) error
}

func (h *rsHandler) RpcStream(strm echo.SRPCEchoer_RpcStreamStream) error { return h.fn(strm) }

func echoMuxFn(fn func(strm echo.SRPCEchoer_RpcStreamStream) error) srpc.Mux {
	m := srpc.NewMux()
	_ = echo.SRPCRegisterEchoer(m, &rsHandler{echo.NewEchoServer(nil), fn})
	return m
}

func genBytes(kinds ...string) func(r *RNG, p *Plan) {
	return genBytesP(0.15, kinds...)
}

func genBytesP(proxyP float64, kinds ...string) func(r *RNG, p *Plan) {
	return func(r *RNG, p *Plan) {
		p.Family = "bytes"
		b := &BytesPlan{Kind: pick(r, kinds...)}
		p.Bytes = b
		b.Topo = pick(r, "pipe", "direct", "yamux")
		b.Net = genNet(r, "")
		b.Net2 = genNet(r, "")
		if r.P(0.1) {
			b.Net.ZeroR = pick(r, 0.1, 0.5)
		}
		for i := range b.E {
			e := &b.E[i]
			n := r.N(8)
			for k := 0; k < n; k++ {
				e.W = append(e.W, byteSize(r))
			}
			if r.P(0.3) {
				e.WMs = r.Range(1, 10)
			}
			if r.P(0.2) {
				e.RMs = r.Range(1, 5)
			}
			m := r.Range(1, 3)
			for k := 0; k < m; k++ {
				e.R = append(e.R, pick(r, 1, 2, 5, 12, 100, 1000, 2047, 2048, 2049, 4096, 10000, 70000))
			}
			e.Zero = r.P(0.15)
			e.Ignore = r.P(0.05)
			e.Step = r.P(0.2)
			e.End = pick(r, "half", "half", "close", "wait")
		}
		small := func(cap int) {
			if cap > 0 && cap < 5000 {
				for i := range b.E {
					for k := range b.E[i].W {
						if b.E[i].W[k] > 3000 {
							b.E[i].W[k] = 3000
						}
					}
				}
			}
		}
		small(b.Net.Cap)
		for i := range b.E {
			mn := 1 << 30
			for _, k := range b.E[i].R {
				mn = min(mn, k)
			}
			if mn < 100 {
				// the run must stay short
				for k := range b.E[1-i].W {
					if b.E[1-i].W[k] > 2600 {
						b.E[1-i].W[k] = 2000 + b.E[1-i].W[k]%600
					}
				}
			}
			if b.E[i].RMs > 0 {
				for k := range b.E[i].R {
					b.E[i].R[k] += 500
				}
			}
			if r.P(0.06) {
				// reads of no bytes as well
				b.E[i].R = append(b.E[i].R, 0)
			}
		}
		switch b.Kind {
		case "rwc":
			b.Topo = ""
			b.BufN = r.N(5)
			if r.P(0.3) {
				b.BufN = 10
			}
			if r.P(0.4) {
				for i := range b.E {
					if r.P(0.6) {
						n := r.Range(1, 4)
						for k := 0; k < n; k++ {
							b.E[i].DMs = append(b.E[i].DMs, pick(r, -1, 0, 1, 5, 50, 1000))
						}
						b.E[i].DPend = r.P(0.4)
						if b.E[i].DPend {
							b.E[i].DPre = pick(r, 0, 0, 2, 5, 20)
						}
						b.E[i].DAll = r.P(0.3)
					}
				}
			}
			b.WDead = r.P(0.05)
			for i := range b.E {
				b.E[i].R2 = len(b.E[i].DMs) == 0 && r.P(0.12)
			}
			for i := range b.E {
				b.E[i].WExt = r.P(0.2)
			}
			b.Deaf = r.P(0.1)
			if b.BufN%2 == 0 && r.P(0.2) {
				b.Net.ShortW = 0.3
			}
			for i := range b.E {
				// a RwcConn cannot half-close
				if b.E[i].End == "half" && (i == 0 || b.BufN%2 == 0) {
					b.E[i].End = "wait"
				}
			}
		case "streamrwc", "rsrw":
			b.E[1].End = pick(r, "half", "ret", "ret", "err", "wait")
			if b.E[1].End == "half" {
				b.E[1].End = "wait"
			}
		case "raw":
			small(b.Net2.Cap)
			b.NoCW = r.P(0.3)
			b.NoAck = r.P(0.3)
			if r.P(proxyP) {
				b.Proxy = pick(r, "pipe", "direct", "yamux")
			}
			if r.P(0.2) {
				b.Getter = pick(r, "nil", "err", "errrel", "norel", "nilrel", "rwcerr")
			}
		}
		if b.E[0].End == "wait" && b.E[1].End == "wait" {
			b.E[r.N(2)].End = "close"
			if b.E[1].End == "close" && b.Kind != "rwc" && b.Kind != "raw" {
				b.E[1].End = "ret"
			}
		}
		// an end that does not read must end the stream itself
		for i := range b.E {
			if b.E[i].Ignore {
				b.E[i].W = nil
				b.E[i].End = "close"
				if i == 1 && b.Kind != "rwc" && b.Kind != "raw" {
					b.E[i].End = "ret"
				}
			}
		}
		if e := &b.E[r.N(2)]; r.P(0.06) {
			e.Idle, e.IdleAt = pick(r, 11000, 31000, 61000, 100000), r.N(len(e.W)+1)
			if r.P(0.4) && !b.E[0].Ignore && !b.E[1].Ignore {
				// the answer to an ended request takes long
				b.E[0].End, b.E[0].Idle, b.E[1].Step = "half", 0, false
				e = &b.E[1]
				if len(e.W) == 0 {
					e.W = []int{20}
				}
				e.Idle, e.IdleAt = pick(r, 31000, 61000, 100000), len(e.W)-1
			}
		}
		if r.P(0.1) && b.Kind != "rwc" {
			b.Cancel = r.Range(1, 30)
		}
		if b.Kind == "rwc" && r.P(0.1) {
			b.Cancel = r.Range(1, 30)
		}
		if r.P(0.2) && (b.Topo != "pipe" || b.Kind == "raw") {
			f := Fault{Kind: pick(r, "reset", "fin", "trunc", "stall", "partition"), Dir: r.N(2)}
			if b.Kind == "raw" && (b.Topo == "pipe" || r.P(0.5)) {
				f.Conn = 100
			}
			if b.Proxy != "" && b.Proxy != "pipe" && r.P(0.4) {
				f.Conn = 50
			}
			switch r.N(3) {
			case 0:
				f.Bytes = r.N(200)
			case 1:
				f.Bytes = r.N(5000)
			default:
				f.Bytes = -1
				f.AtMs = r.N(30)
			}
			if f.Kind == "stall" || f.Kind == "partition" {
				f.DurMs = pick(r, 1, 100, 3000)
			}
			b.Faults = append(b.Faults, f)
		}
	}
}

func byteSize(r *RNG) int {
	switch r.N(8) {
	case 0:
		return r.Range(1, 3)
	case 1:
		return 2048 + r.Range(-2, 2)
	case 2:
		return 8192 + r.Range(-2, 2)
	case 3:
		if r.P(0.1) {
			return r.Range(60000, 200000)
		}
		return r.Range(3000, 30000)
	default:
		return r.Range(1, 400)
	}
}

func reduceBytes(p *Plan) []*Plan {
	var out []*Plan
	add := func(f func(q *BytesPlan)) {
		q := clonePlan(p)
		f(q.Bytes)
		out = append(out, q)
	}
	b := p.Bytes
	for i := range b.Faults {
		add(func(q *BytesPlan) { q.Faults = append(q.Faults[:i], q.Faults[i+1:]...) })
	}
	for i := range b.E {
		e := &b.E[i]
		for k := range e.W {
			add(func(q *BytesPlan) { q.E[i].W = append(q.E[i].W[:k], q.E[i].W[k+1:]...) })
			if e.W[k] > 20 {
				add(func(q *BytesPlan) { q.E[i].W[k] = 20 })
			}
		}
		for k := range e.R {
			if len(e.R) > 1 {
				add(func(q *BytesPlan) { q.E[i].R = append(q.E[i].R[:k], q.E[i].R[k+1:]...) })
			}
		}
		for k := range e.DMs {
			add(func(q *BytesPlan) { q.E[i].DMs = append(q.E[i].DMs[:k], q.E[i].DMs[k+1:]...) })
		}
		if e.DPre > 0 {
			add(func(q *BytesPlan) { q.E[i].DPre = 0 })
		}
		if e.WMs > 0 {
			add(func(q *BytesPlan) { q.E[i].WMs = 0 })
		}
		if e.RMs > 0 {
			add(func(q *BytesPlan) { q.E[i].RMs = 0 })
		}
		if e.Step {
			add(func(q *BytesPlan) { q.E[i].Step = false })
		}
		if e.Zero {
			add(func(q *BytesPlan) { q.E[i].Zero = false })
		}
	}
	if b.Deaf {
		add(func(q *BytesPlan) { q.Deaf = false })
	}
	if b.WDead {
		add(func(q *BytesPlan) { q.WDead = false })
	}
	if b.Cancel > 0 {
		add(func(q *BytesPlan) { q.Cancel = 0 })
	}
	if b.NoCW {
		add(func(q *BytesPlan) { q.NoCW = false })
	}
	if b.Proxy != "" && (len(b.Faults) == 0 || b.Faults[0].Conn != 50) {
		add(func(q *BytesPlan) { q.Proxy = "" })
	}
	if b.NoAck {
		add(func(q *BytesPlan) { q.NoAck = false })
	}
	for _, n := range reduceNet(b.Net) {
		add(func(q *BytesPlan) { q.Net = n })
	}
	for _, n := range reduceNet(b.Net2) {
		add(func(q *BytesPlan) { q.Net2 = n })
	}
	return out
}

func init() {
	families["bytes"] = family{runBytes, "C12,C15,C17,C18"}
	reducers["bytes"] = reduceBytes
	propGens["C15"] = mixGen(4, genBytes("raw"), 1, genRS("raw"))
	propGens["C18"] = mixGen(9, genBytes("streamrwc", "rsrw"), 1, genRS("rw"))
	propGens["C17"] = mixGen(4, genBytes("rwc"), 1, rpcGen(with(func(b *rpcBias) {
		b.faultP, b.abortP = 0.2, 0.2
		b.topos = []string{"rwc"}
	})))
}
