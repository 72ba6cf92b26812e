package main

import (
	"context"
	"io"
	"strings"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
)

// PipePlan drives the two ends of an in-memory stream pair.
type PipePlan struct {
	E      [2]PipeEnd `json:"e"`
	Cancel int        `json:"cancel,omitempty"` // cancel the parent context at this time (ms)
}

// PipeEnd is the script of one end.
type PipeEnd struct {
	S     []Op `json:"s"`               // sender: send, psend, sleep, closesend, close, waitrecv
	R     []Op `json:"r"`               // receiver: recv, drain, sleep, close
	Proto bool `json:"proto,omitempty"` // protobuf messages
}

type pipeExec struct {
	r   *Run
	p   *PipePlan
	ctx *trackCtx
	e   [2]*pipeEnd
}

type pipeEnd struct {
	x     *pipeExec
	i     int
	p     *PipeEnd
	s     srpc.Stream
	sends []*sendRec // in the order the sends began
	got   [][]byte
	term  error
	// times at which this end started and finished to close
	csBeg, csEnd, clBeg, clEnd bool
}

func (e *pipeEnd) peer() *pipeEnd { return e.x.e[1-e.i] }

// send sends one message and checks the outcome.
//
//go:norace
func (e *pipeEnd) send(size int) {
	x, r, p := e.x, e.x.r, e.peer()
	s := &sendRec{idx: len(e.sends), data: content(3, e.i, len(e.sends), size)}
	e.sends = append(e.sends, s)
	selfClosed, peerClosed, dead := e.csEnd || e.clEnd, p.clEnd, e.s.Context().Err() != nil
	id := r.begin("end %d: send #%d (%d bytes)", e.i, s.idx, size)
	buf := append([]byte(nil), s.data...)
	err := e.s.MsgSend(srpc.NewRawMessage(buf, true))
	r.end(id, "%v", err)
	for i := range buf {
		buf[i] = 0xdb
	}
	s.done, s.ok = true, err == nil
	s.late = !selfClosed && (e.csBeg || e.clBeg)
	switch {
	case err == nil && selfClosed:
		r.violate("C22", "send-after-close", "end %d: a send succeeded after the end had closed its direction", e.i)
	case err == nil && peerClosed:
		r.violate("C22", "send-to-closed", "end %d: a send succeeded after the peer had closed the stream", e.i)
	case err == nil && dead:
		r.violate("C22", "send-after-cancel", "end %d: a send succeeded after the context was cancelled", e.i)
	case err != nil && !e.csBeg && !e.clBeg && !p.clBeg && x.ctx.err == nil:
		r.violate("C22", "send-failed", "end %d: a send failed with %q although neither end was closed", e.i, err)
	case err == io.EOF:
		r.violate("C22", "send-failed", "end %d: a send failed with io.EOF", e.i)
	}
}

//go:norace
func (e *pipeEnd) recv() bool {
	x, r, p := e.x, e.x.r, e.peer()
	id := r.begin("end %d: receive #%d", e.i, len(e.got))
	m := srpc.NewRawMessage([]byte("previous content"), true)
	err := e.s.MsgRecv(m)
	r.end(id, "%v", err)
	if err == nil {
		b := m.GetData()
		if e.term == io.EOF && !p.sendsAtClose() {
			r.violate("C22", "status-changed", "end %d: a message was received after the end of the stream", e.i)
		}
		e.got = append(e.got, b)
		r.probe("message-received")
		return true
	}
	if e.term == nil {
		e.term = err
	}
	if err == io.EOF {
		if !p.csBeg && !p.clBeg && x.ctx.err == nil {
			r.violate("C22", "false-eof", "end %d: received the end of the stream, but the peer did not end it", e.i)
		}
		if e.term == io.EOF && !p.clBeg {
			for _, s := range p.sends {
				if s.ok && !s.late && !e.has(s) {
					r.violate("C22", "lost-tail", "end %d: received the end of the stream before message #%d, whose send had succeeded", e.i, s.idx)
					break
				}
			}
		}
	} else if !e.clBeg && x.ctx.err == nil {
		r.violate("C22", "receive-failed", "end %d: receive failed with %q although the stream was not closed", e.i, err)
	}
	return false
}

// sendsAtClose reports whether a send was in progress when this end closed its
// direction (or is still): whether its message precedes the end is open.
//
//go:norace
func (e *pipeEnd) sendsAtClose() bool {
	for _, s := range e.sends {
		if s.late || !s.done {
			return true
		}
	}
	return false
}

func (e *pipeEnd) has(s *sendRec) bool {
	for _, b := range e.got {
		if string(b) == string(s.data) {
			return true
		}
	}
	return false
}

func (e *pipeEnd) closeAll() {
	fresh := !e.clBeg && !e.peer().clBeg && e.s.Context().Err() == nil
	e.clBeg = true
	id := e.x.r.begin("end %d: close", e.i)
	err := e.s.Close()
	e.x.r.end(id, "%v", err)
	if fresh && err != nil && e.x.ctx.err == nil {
		e.x.r.violate("C22", "close-failed", "end %d: closing the open stream failed with %q", e.i, err)
	}
	e.clEnd = true
	if e.s.Context().Err() == nil {
		e.x.r.violate("C22", "context-live", "end %d: the context of the stream is live after Close", e.i)
	}
}

func (e *pipeEnd) script(ops []Op) {
	for _, o := range ops {
		switch o.Do {
		case "send":
			e.send(o.N)
		case "psend":
			g := newGroup()
			for k := 0; k < o.K; k++ {
				g.Go(func() { e.send(o.N) })
			}
			g.Wait(2 * callBound)
		case "sleep":
			time.Sleep(time.Duration(o.N) * time.Millisecond)
		case "closesend":
			fresh := !e.csBeg && !e.clBeg && !e.peer().clBeg
			e.csBeg = true
			id := e.x.r.begin("end %d: close-send", e.i)
			err := e.s.CloseSend()
			e.x.r.end(id, "%v", err)
			if fresh && err != nil && !e.clBeg && !e.peer().clBeg && e.x.ctx.err == nil {
				e.x.r.violate("C22", "close-failed", "end %d: half-closing the open stream failed with %q", e.i, err)
			}
			e.csEnd = true
		case "close":
			e.closeAll()
		case "recv":
			for k := 0; k < o.N && e.recv(); k++ {
			}
		case "drain":
			for e.recv() {
			}
		}
	}
}

func runPipe(r *Run) {
	x := &pipeExec{r: r, p: r.Plan.Pipe, ctx: newTrackCtx(-1)}
	s1, s2 := srpc.NewPipeStream(x.ctx)
	// an unrelated pair must not be disturbed
	o1, o2 := srpc.NewPipeStream(context.Background())
	g := newGroup()
	for i, s := range []srpc.Stream{s1, s2} {
		x.e[i] = &pipeEnd{x: x, i: i, p: &x.p.E[i], s: s}
	}
	if x.p.Cancel > 0 {
		time.AfterFunc(time.Duration(x.p.Cancel)*time.Millisecond, func() {
			r.fault("cancel")
			x.ctx.cancel()
		})
	}
	for _, e := range x.e {
		g.Go(func() { e.script(e.p.S) })
		g.Go(func() { e.script(e.p.R) })
	}
	// everything that can go on does so; then both ends are closed
	settle := 5 * time.Second
	for _, e := range x.e {
		for _, o := range append(append([]Op(nil), e.p.S...), e.p.R...) {
			if o.Do == "sleep" {
				settle += time.Duration(o.N) * time.Millisecond
			}
		}
	}
	time.Sleep(settle)
	x.check(false)
	for _, e := range x.e {
		e.closeAll()
	}
	if !g.Wait(callBound) {
		r.violate("C22", "stuck", "operations did not return after both ends were closed: %s", strings.Join(r.pending(), "; "))
	}
	x.check(true)
	for _, e := range x.e {
		_ = e.s.Close() // again
	}
	if n := x.ctx.live(); n != 0 {
		r.violate("C22,C12", "context-leak", "%d registration(s) remain on the context after both ends were closed", n)
	}
	if err := o1.MsgSend(srpc.NewRawMessage([]byte("x"), true)); err != nil {
		r.violate("C22", "other-pair", "a send on another pair failed with %q", err)
	}
	m := srpc.NewRawMessage(nil, true)
	if err := o2.MsgRecv(m); err != nil || string(m.GetData()) != "x" {
		r.violate("C22", "other-pair", "a receive on another pair returned %q, %v", m.GetData(), err)
	}
	_, _ = o1.Close(), o2.Close()
	x.ctx.cancel()
}

// check compares what each end received with what its peer sent.
func (x *pipeExec) check(final bool) {
	r := x.r
	for _, e := range x.e {
		p := e.peer()
		serial := true
		for _, o := range append(append([]Op(nil), p.p.S...), p.p.R...) {
			serial = serial && o.Do != "psend"
		}
		used := map[int]bool{}
		last := -1
		for k, b := range e.got {
			f := -1
			for _, s := range p.sends {
				if !used[s.idx] && string(s.data) == string(b) {
					f = s.idx
					break
				}
			}
			if f < 0 {
				r.violate("C22,C24", "corrupt-message", "end %d: message %d received (%d bytes) was never sent or was received twice", e.i, k, len(b))
				return
			}
			used[f] = true
			if serial && f < last {
				r.violate("C22", "out-of-order", "end %d: message #%d was received after #%d", e.i, f, last)
				return
			}
			last = f
		}
		if final {
			continue
		}
		// settled state
		waiting := false
		for _, n := range r.pending() {
			if strings.HasPrefix(n, "end "+string('0'+rune(e.i))+": receive") {
				waiting = true
			}
		}
		if waiting {
			for _, s := range p.sends {
				if s.ok && !used[s.idx] && !p.clBeg && !e.clBeg && x.ctx.err == nil {
					r.violate("C22", "lost-message", "end %d: still waiting for a message although #%d was sent", e.i, s.idx)
					return
				}
			}
			if p.csEnd || p.clEnd || e.clEnd || x.ctx.err != nil {
				r.violate("C22", "receive-stuck", "end %d: a receive is still blocked although the stream has ended", e.i)
				return
			}
		}
		for _, n := range r.pending() {
			if strings.HasPrefix(n, "end "+string('0'+rune(e.i))+": send") && (p.clEnd || e.clEnd || e.csEnd || x.ctx.err != nil) {
				r.violate("C22", "send-stuck", "end %d: a send is still blocked although the stream was closed", e.i)
				return
			}
			if strings.HasPrefix(n, "end "+string('0'+rune(e.i))+": send") && waitingOf(r, 1-e.i) {
				r.violate("C22", "send-stuck", "end %d: a send is blocked although the peer is waiting for a message", e.i)
				return
			}
		}
	}
}

func waitingOf(r *Run, i int) bool {
	for _, n := range r.pending() {
		if strings.HasPrefix(n, "end "+string('0'+rune(i))+": receive") {
			return true
		}
	}
	return false
}

func genPipe(r *RNG, p *Plan) {
	p.Family = "pipe"
	b := &PipePlan{}
	p.Pipe = b
	for i := range b.E {
		e := &b.E[i]
		for k := r.N(10); k > 0; k-- {
			switch r.N(8) {
			case 0:
				ms := r.Range(1, 10)
				if r.P(0.05) {
					ms = pick(r, 11000, 61000)
				}
				e.S = append(e.S, Op{Do: "sleep", N: ms})
			case 1:
				e.S = append(e.S, Op{Do: "psend", N: 20 + r.N(10), K: r.Range(2, 4)})
			default:
				e.S = append(e.S, Op{Do: "send", N: genSize(r, 0.02)})
			}
		}
		if r.P(0.6) {
			e.S = append(e.S, Op{Do: pick(r, "closesend", "closesend", "close")})
			if r.P(0.3) {
				e.S = append(e.S, Op{Do: pick(r, "send", "closesend", "close"), N: 20})
			}
		}
		for k := r.N(4); k > 0; k-- {
			switch r.N(4) {
			case 0:
				ms := r.Range(1, 10)
				if r.P(0.1) {
					ms = pick(r, 11000, 61000)
				}
				e.R = append(e.R, Op{Do: "sleep", N: ms})
			default:
				e.R = append(e.R, Op{Do: "recv", N: r.Range(1, 4)})
			}
		}
		if r.P(0.15) {
			e.R = append(e.R, Op{Do: "close"})
		}
		if r.P(0.7) {
			e.R = append(e.R, Op{Do: "drain"})
			if r.P(0.2) {
				e.R = append(e.R, Op{Do: "recv", N: 1})
			}
		}
	}
	if r.P(0.2) {
		b.Cancel = r.Range(1, 20)
	}
}

func reducePipe(p *Plan) []*Plan {
	var out []*Plan
	add := func(f func(q *PipePlan)) {
		q := clonePlan(p)
		f(q.Pipe)
		out = append(out, q)
	}
	b := p.Pipe
	if b.Cancel > 0 {
		add(func(q *PipePlan) { q.Cancel = 0 })
	}
	for i := range b.E {
		for k := range b.E[i].S {
			add(func(q *PipePlan) { q.E[i].S = append(q.E[i].S[:k], q.E[i].S[k+1:]...) })
		}
		for k := range b.E[i].R {
			add(func(q *PipePlan) { q.E[i].R = append(q.E[i].R[:k], q.E[i].R[k+1:]...) })
		}
	}
	return out
}

func init() {
	families["pipe"] = family{runPipe, "C22,C12"}
	reducers["pipe"] = reducePipe
	propGens["C22"] = genPipe
}
