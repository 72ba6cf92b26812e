package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"strings"
	"time"
	"unsafe"

	"github.com/aperturerobotics/starpc/echo"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/coder/websocket"
	"github.com/libp2p/go-libp2p/core/network"
	ymuxer "github.com/libp2p/go-libp2p/p2p/muxer/yamux"
	yamux "github.com/libp2p/go-yamux/v4"
	"github.com/sirupsen/logrus"
)

const (
	callBound   = 5 * time.Minute                         // simulated time within which every operation must end
	settleTime  = 10*time.Second + 9300*time.Microsecond  // simulated time after which resources must be released
	ctxBound    = 15 * time.Second                        // simulated time within which a cancellation must reach the handler
	abortLatest = 20*time.Second + 13700*time.Microsecond // not in step with the timers of the transports
)

// sendRec is one message handed to MsgSend.
type sendRec struct {
	late      bool // still in progress when the sender closed its direction
	idx       int
	data      []byte
	st, en    uint64
	done, ok  bool
	delivered bool
	at        time.Time // when the send returned
	arrived   bool      // it was received before the connection ended
}

// dirState records one direction of a call.
type dirState struct {
	name  string
	recs  []*sendRec
	nrecv int
	term  error // first terminal error seen by the receiver
	termN int
	eof   bool
}

type keptBuf struct {
	b   []byte
	sum uint64
	at  string
}

type callState struct {
	x        *rpcExec
	id       int
	p        *CallPlan
	ctx      *trackCtx
	c2s, s2c dirState
	ops      int
	trig     chan struct{}
	trigged  bool
	done     bool
	strm     srpc.Stream

	openErr      error
	opened       bool
	closeSendBeg bool
	closeSendOK  bool
	cancelled    bool
	closed       bool // Stream.Close was called
	clientDone   bool
	abortAt      time.Time
	abortSeq     uint64 // when the call was first cancelled or closed by the client

	cancelDone time.Time // when the abort had returned
	srvRecv    bool      // the handler received after the server was told to stop

	invoked    int
	hctx       context.Context
	hstrm      srpc.Stream
	hret       bool
	hretErr    error
	hdoneAt    time.Time
	returnedMs bool
}

// rpcExec is one run of an RPC plan.
type rpcExec struct {
	r       *Run
	p       *RPCPlan
	calls   []*callState
	conns   []*rpcConn
	srvCtx  *trackCtx
	srvDown bool
	kept    []keptBuf
	acq     []*compRef // looked-up components
	wrongc  int
	clients [][]srpc.Client
	layersC []func(srpc.Client, string) srpc.Client
	nw      *simNetwork
	stop    []func()
	next100 int
	torn    bool
	free    bool
	held    chan struct{} // closed once only held calls remain
	maxIn   uint32
}

type rpcConn struct {
	ws       *websocket.Conn // topo ws: the client end
	l        *link
	a, b     *simConn
	cm, sm   network.MuxedConn
	explicit bool
	wrapped  bool // the client's packet writer has a close function
	wclosed  int
	cctx     *trackCtx // contexts of the two ends
	sctx     *trackCtx
	ended    [2]bool
}

// content builds the deterministic payload of a message.
func content(call int, dir int, idx int, size int) []byte {
	const abc = "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-_"
	b := make([]byte, size)
	s := mix64(uint64(call)<<40 ^ uint64(dir)<<36 ^ uint64(idx)<<8 ^ 0x77)
	if size > 4096 {
		// cheap fill for large messages
		for i := range b {
			if i&63 == 0 {
				s = mix64(s)
			}
			b[i] = abc[(s>>(uint(i)&31))&63]
		}
	} else {
		for i := range b {
			s = s*6364136223846793005 + 1442695040888963407
			b[i] = abc[s>>58]
		}
	}
	if size >= 12 {
		copy(b, fmt.Sprintf("%03d%d%05d.", call%1000, dir, idx%100000))
	}
	return b
}

func sum64(b []byte) uint64 {
	h := uint64(len(b)) + 14695981039346656037
	for len(b) >= 8 {
		h = (h ^ binary.LittleEndian.Uint64(b)) * 1099511628211
		b = b[8:]
	}
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%q..(%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// scope adds the properties that own the topology of a wrong outcome.
func (x *rpcExec) scope(c *callState, props string) string {
	for _, l := range x.p.Layers {
		if l == "proxy" {
			props += ",C16"
		} else {
			props += ",C14"
		}
	}
	switch x.p.Topo {
	case "rwc":
		props += ",C17"
	case "dial", "yamuxlis":
		props += ",C20"
	case "ws":
		props += ",C21"
	}
	if len(x.p.Wrap) > 0 {
		props += ",C13"
		for _, w := range x.p.Wrap {
			if w == "set" {
				props += ",C19"
			}
		}
	}
	if c != nil {
		if len(x.calls) > 1 && !x.disturbed(c) {
			props += ",C07"
		}
		if c.p.Kind == "unary" {
			props += ",C03"
		}
		if c.closeSendBeg {
			props += ",C04"
		}
		if c.cancelled || c.closed {
			props += ",C05"
		}
		if x.cut(c) {
			props += ",C06"
		}
	}
	return uniqProps(props)
}

func (c *callState) violate(props, class, f string, a ...any) {
	c.x.r.violate(c.x.scope(c, props), class, "call%d (%s): "+f, append([]any{c.id, c.p.Kind}, a...)...)
}

func uniqProps(s string) string {
	seen := map[string]bool{}
	var out []string
	for _, p := range strings.Split(s, ",") {
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	return strings.Join(out, ",")
}

// cut reports whether a transport used by the call was disturbed.
func (x *rpcExec) cut(c *callState) bool {
	if x.srvDown {
		return true
	}
	for _, k := range x.conns {
		if !k.l.cut && !k.explicit {
			continue
		}
		switch {
		case k.l.id >= 100:
			return true
		case x.p.Topo == "direct":
			if k.l.id == c.id {
				return true
			}
		case k.l.id == c.p.Client:
			return true
		}
	}
	return false
}

// disturbed reports whether anything happened that may legitimately change the
// outcome of the call.
func (x *rpcExec) disturbed(c *callState) bool {
	return c.cancelled || c.closed || x.cut(c)
}

func (c *callState) unknown() bool { return c.p.Svc < 0 || c.p.Svc >= 100 }

func (x *rpcExec) hasLayer(n string) bool {
	for _, l := range x.p.Layers {
		if l == n {
			return true
		}
	}
	return false
}

// over: the client side has, or may have, everything it wanted.
func (c *callState) over() bool {
	return c.clientDone || c.p.Kind == "unary" && len(c.s2c.recs) > 0
}

// tick counts operations of a call for abort triggers.
func (c *callState) tick() {
	c.ops++
	if c.p.Abort != nil && c.ops >= c.p.Abort.AtOp && !c.trigged {
		c.trigged = true
		close(c.trig)
	}
}

// expected terminal status

// checkClientTerm checks an error returned to the client by a receive.
func (c *callState) checkClientTerm(err error, where string) {
	x := c.x
	props := "C02"
	if c.p.Kind == "unary" {
		props = "C02,C03"
	}
	dist := x.disturbed(c)
	if err == io.EOF {
		if c.hret && c.hretErr == nil {
			return
		}
		if where == "NewStream" && dist {
			return // an error of the open, not an end of stream
		}
		c.violate(props, "false-success", "%s reported a clean end of stream, but the handler did not return success (returned=%v err=%v)", where, c.hret, c.hretErr)
		return
	}
	if c.p.BadComp != "" {
		want := badText(c.p.BadComp)
		// without the acknowledgement the first write may fail before the reason arrives
		if !strings.Contains(err.Error(), want) && !dist && !x.hasLayer("rsn") {
			c.violate(props, "component-status", "%s via an unavailable component returned %q, want %q", where, err, want)
		}
		return
	}
	if c.unknown() {
		if err.Error() != srpc.ErrUnimplemented.Error() && !dist {
			c.violate(props+",C13", "unknown-method-status", "%s of an unregistered method returned %q instead of unimplemented", where, err)
		}
		return
	}
	if c.hret && c.hretErr != nil && (err.Error() == c.hretErr.Error() || c.hretErr.Error() == "") {
		return
	}
	if dist && c.hret && x.srvStopOnly(c) {
		c.violate(props, "status-lost-on-shutdown", "%s returned %q; the handler returned %v after only the server's context had ended", where, err, c.hretErr)
		return
	}
	if dist {
		return
	}
	if c.hret && c.hretErr == nil {
		c.violate(props, "lost-success", "%s returned %q although the handler returned success and nothing interrupted the call", where, err)
		return
	}
	c.violate(props, "wrong-status", "%s returned %q; handler returned=%v err=%v and nothing interrupted the call", where, err, c.hret, c.hretErr)
}

// received records a message seen by the receiver of d.
func (c *callState) received(d *dirState, b []byte, from int, where string) {
	x := c.x
	d.nrecv++
	if d.term != nil && !x.disturbed(c) {
		c.violate("C01,C02", "message-after-end", "%s delivered a message after the stream had reported its end (%v)", where, d.term)
	}
	var hit *sendRec
	for _, s := range d.recs {
		if !s.delivered && len(s.data) == len(b) && string(s.data) == string(b) {
			hit = s
			break
		}
	}
	if hit == nil {
		for _, s := range d.recs {
			if s.delivered && string(s.data) == string(b) {
				c.violate("C01,C24", "duplicate", "%s delivered message #%d %s of %s twice", where, s.idx, short(b), d.name)
				return
			}
		}
		if len(b) >= 12 {
			for _, o := range x.calls {
				for _, od := range []*dirState{&o.c2s, &o.s2c} {
					for _, s := range od.recs {
						if od != d && string(s.data) == string(b) {
							x.r.violate(x.scope(c, "C01,C07,C24"), "crosstalk", "call%d %s delivered message #%d of call%d %s", c.id, where, s.idx, o.id, od.name)
							return
						}
					}
				}
			}
		}
		n := 0
		for _, s := range d.recs {
			if s.delivered {
				n++
			}
		}
		c.violate("C01,C24", "corrupt", "%s delivered %s, which nobody sent on %s (after %d messages)", where, short(b), d.name, n)
		return
	}
	hit.delivered = true
	for _, s := range d.recs {
		if !s.delivered && s.done && s.ok && s.en < hit.st {
			c.violate("C01", "reorder-or-loss", "%s delivered message #%d of %s while the earlier message #%d is missing", where, hit.idx, d.name, s.idx)
			return
		}
	}
	if len(b) > 0 {
		x.r.probe("msg-delivered")
	}
}

// complete checks that a cleanly ended direction lost nothing.
func (c *callState) complete(d *dirState, props, where string) {
	for _, s := range d.recs {
		if c.abortSeq != 0 && s.en > c.abortSeq && d == &c.c2s {
			continue // the send raced with the end of the call
		}
		if s.done && s.ok && !s.delivered {
			c.violate(props, "lost-tail", "%s reported the end of %s, but message #%d (%d bytes), whose send had succeeded, was never delivered", where, d.name, s.idx, len(s.data))
			return
		}
	}
}

// rawIn is a receive buffer that keeps the delivered slice without copying.
type codec struct{ proto, copy bool }

func (k codec) enc(b []byte) srpc.Message {
	if k.proto {
		return &echo.EchoMsg{Body: string(b)}
	}
	if k.copy {
		// the message copies what it is given: the buffer is free at once
		m := srpc.NewRawMessage(make([]byte, 0, len(b)/2), true)
		m.SetData(b)
		for i := range b {
			b[i] = 0xdb
		}
		return m
	}
	return srpc.NewRawMessage(b, false)
}

func (k codec) newIn() srpc.Message {
	if k.proto {
		return &echo.EchoMsg{}
	}
	if k.copy {
		return srpc.NewRawMessage(append(make([]byte, 0, 64), "previous content of the message"...), true)
	}
	return srpc.NewRawMessage(nil, false)
}

func (k codec) dec(m srpc.Message) []byte {
	if k.proto {
		return []byte(m.(*echo.EchoMsg).GetBody())
	}
	return m.(*srpc.RawMessage).GetData()
}

// badMsg is a message that can be neither encoded nor decoded.
type badMsg struct {
	got  bool
	data []byte
}

var errBadMsg = errors.New("injected message failure")

func (m *badMsg) SizeVT() int                                { return 8 }
func (m *badMsg) MarshalToSizedBufferVT([]byte) (int, error) { return 0, errBadMsg }
func (m *badMsg) MarshalVT() ([]byte, error)                 { return []byte("unusable"), errBadMsg }
func (m *badMsg) UnmarshalVT(b []byte) error {
	m.got, m.data = true, append([]byte(nil), b...)
	return errBadMsg
}
func (m *badMsg) Reset() {}

// sendBad sends a message that cannot be encoded.
func (c *callState) sendBad(strm srpc.Stream, name string) {
	c.tick()
	id := c.x.r.begin("call%d %s send of a message that cannot be encoded", c.id, name)
	err := strm.MsgSend(&badMsg{})
	c.x.r.end(id, "%v", err)
	if err == nil {
		c.violate("C01,C03", "unencodable-sent", "a send on %s reported success although its message cannot be encoded", name)
	} else if !c.hret && c.s2c.term == nil && c.hctx != nil && c.hctx.Err() == nil {
		c.badMsgError(err, "a send on "+name)
	}
}

// badMsgError: a message that cannot be encoded fails for that reason.
func (c *callState) badMsgError(err error, where string) {
	if !strings.Contains(err.Error(), errBadMsg.Error()) && !c.x.disturbed(c) {
		c.violate("C01,C03", "bad-message-error", "%s failed with %q, not for the reason that its message cannot be encoded", where, err)
	}
}

// recvBad receives into a message that does not decode: the receive must fail.
// It reports whether a message was taken from the stream.
func (c *callState) recvBad(strm srpc.Stream, d *dirState, from int) bool {
	c.tick()
	m := &badMsg{}
	id := c.x.r.begin("call%d receive of %s into a message that does not decode", c.id, d.name)
	err := strm.MsgRecv(m)
	c.x.r.end(id, "%v", err)
	if m.got {
		k := codec{c.p.Proto, false}
		b := m.data
		if c.p.Proto {
			e := k.newIn()
			_ = e.UnmarshalVT(b)
			b = k.dec(e)
		}
		c.received(d, b, from, "receive into a message that does not decode")
	}
	if err == nil {
		c.violate("C01,C03", "undecodable-received", "a receive of %s reported success although its message does not decode (decoding tried: %v)", d.name, m.got)
		return true
	}
	return m.got
}

// failClose is a stream whose Close reports an error.
type failClose struct {
	srpc.Stream
	fails bool
}

func (s *failClose) Close() error {
	if err := s.Stream.Close(); err != nil || !s.fails {
		return err
	}
	return errBadMsg
}

// failWriter is a packet writer whose Close reports an error.
type failWriter struct {
	srpc.PacketWriter
	fails bool
}

func (s *failWriter) Close() error {
	if err := s.PacketWriter.Close(); err != nil || !s.fails {
		return err
	}
	return errBadMsg
}

// writerCheck is a packet writer wrapped with a close function.
type writerCheck struct {
	srpc.PacketWriter
	x     *rpcExec
	fails bool
}

func (s *writerCheck) Close() error {
	err := s.PacketWriter.Close()
	if s.fails && err == nil {
		s.x.r.violate(s.x.scope(nil, "C12"), "close-function", "closing a wrapped packet writer reported success although it failed")
	}
	return err
}

// closeCheck is a stream wrapped with a close function.
type closeCheck struct {
	srpc.Stream
	c     *callState
	n     *int // calls of the close function
	fin   int  // calls of Close that returned
	fails bool
}

func (s *closeCheck) Close() error {
	err := s.Stream.Close()
	s.fin++
	if *s.n < s.fin {
		s.c.violate("C12", "close-function", "the close function of a wrapped stream ran %d times for %d calls of Close", *s.n, s.fin)
	}
	if s.fails && err == nil {
		s.c.violate("C12", "close-function", "closing a wrapped stream reported success although it failed")
	}
	return err
}

func (x *rpcExec) keep(b []byte, at string) {
	if len(b) > 0 && len(x.kept) < 400 {
		x.kept = append(x.kept, keptBuf{b, sum64(b), at})
	}
}

// doSend sends one message and records it.
func (c *callState) doSend(strm srpc.Stream, d *dirState, dir, size int) error {
	x := c.x
	idx := len(d.recs)
	s := &sendRec{idx: idx, data: content(c.id, dir, idx, size), st: x.r.seq()}
	d.recs = append(d.recs, s)
	buf := append(make([]byte, 0, len(s.data)+1), s.data...)
	id := x.r.begin("call%d %s send #%d (%d bytes)", c.id, d.name, idx, size)
	err := strm.MsgSend(codec{c.p.Proto, c.p.Copy}.enc(buf))
	// the caller owns its buffer again
	for i := range buf {
		buf[i] = 0xdb
	}
	s.en = x.r.seq()
	s.done = true
	s.ok = err == nil
	s.at = time.Now()
	x.r.end(id, "%v", err)
	return err
}

// clientSend performs a client send and judges its outcome.
func (c *callState) clientSend(strm srpc.Stream, size int) error {
	c.tick()
	late := !c.cancelDone.IsZero() && time.Since(c.cancelDone) >= time.Millisecond
	err := c.doSend(strm, &c.c2s, 0, size)
	if err == nil && late && (c.cancelled || len(c.x.p.Layers) == 0) {
		c.violate("C05", "send-after-cancel", "a send that began after the call had been cancelled or closed reported success")
	}
	if err != nil && !c.x.disturbed(c) && !c.hret && !c.unknown() && c.p.BadComp == "" && c.s2c.term == nil {
		c.violate("C01,C02", "send-failed", "client send failed with %q although nothing interrupted the call and the handler is running", err)
	}
	return err
}

func (c *callState) handlerSend(size int) error {
	c.tick()
	err := c.doSend(c.hstrm, &c.s2c, 1, size)
	if err != nil && !c.x.disturbed(c) && !c.over() {
		c.violate("C01,C02", "handler-send-failed", "handler send failed with %q although nothing interrupted the call", err)
	}
	return err
}

// clientRecv receives at the client; returns false at the end of the stream.
func (c *callState) clientRecv(strm srpc.Stream) bool {
	c.tick()
	x := c.x
	k := codec{c.p.Proto, c.p.Copy}
	m := k.newIn()
	id := x.r.begin("call%d client recv", c.id)
	err := strm.MsgRecv(m)
	x.r.end(id, "%v", err)
	if err == nil {
		b := k.dec(m)
		c.received(&c.s2c, b, 1, "client receive")
		if !c.p.Proto {
			x.keep(b, fmt.Sprintf("call%d client", c.id))
		}
		return true
	}
	d := &c.s2c
	if d.term == nil {
		d.term = err
		c.checkClientTerm(err, "client receive")
		c.checkArrived(d, "the client")
		if !x.disturbed(c) && c.hret {
			c.complete(d, "C01,C02", "the client")
		} else if err == io.EOF && c.hret && c.hretErr == nil && !c.closed && !c.cancelled {
			c.complete(d, "C01,C02", "the client (clean end after a fault)")
		}
	} else {
		c.checkStable(d, err)
	}
	return false
}

// checkArrived: what had arrived before the connection ended can still be received.
func (c *callState) checkArrived(d *dirState, who string) {
	if c.cancelled || c.closed || c.x.srvDown {
		return
	}
	for _, s := range d.recs {
		if s.arrived && !s.delivered {
			c.violate("C06", "arrived-lost", "message #%d of %s had arrived before the connection was lost, %s was told of the end (%v) without receiving it", s.idx, d.name, who, d.term)
			return
		}
	}
}

// markArrived notes which messages of the calls on a connection have arrived
// at the end of the connection.
func (x *rpcExec) markArrived(k *rpcConn) {
	if len(x.p.Layers) > 0 || k.l.id >= 100 {
		return
	}
	for _, c := range x.calls {
		if x.p.Topo == "direct" && k.l.id != c.id || x.p.Topo != "direct" && k.l.id != c.p.Client {
			continue
		}
		for i, d := range []*dirState{&c.c2s, &c.s2c} {
			if !k.l.h[i].settled() {
				continue
			}
			for _, s := range d.recs {
				if s.done && s.ok && s.at.Before(time.Now()) {
					s.arrived = true
					x.r.probe("arrived-before-loss")
				}
			}
		}
	}
}

// checkStable checks that a stream keeps reporting the status it ended with.
func (c *callState) checkStable(d *dirState, err error) {
	first := d.term
	d.termN++
	if first == io.EOF && err != io.EOF || first != io.EOF && (err == io.EOF || err.Error() != first.Error()) {
		// only a clean final status has to be sticky: one that came from the handler
		if first == io.EOF && c.hret && c.hretErr == nil || c.hretErr != nil && first.Error() == c.hretErr.Error() {
			c.violate("C02", "status-changed", "the stream ended with %v, a later receive reports %v", first, err)
		}
	}
}

// runClient performs the client side of a call.
func (x *rpcExec) runClient(c *callState) {
	defer func() {
		c.clientDone = true
		c.done = true
		x.releaseHeld()
		if c.p.Abort != nil && !c.trigged {
			c.trigged = true
			close(c.trig)
		}
	}()
	p := c.p
	if p.StartMs > 0 && !x.p.Serial {
		time.Sleep(time.Duration(p.StartMs) * time.Millisecond)
	}
	svc := fmt.Sprintf("svc%d", p.Svc%100)
	method := fmt.Sprintf("call%d", c.id)
	if p.Svc < 0 {
		svc = "nosvc"
	}
	if p.Svc >= 100 {
		method = fmt.Sprintf("nope%d", c.id)
	}
	for _, w := range x.p.Wrap {
		switch w {
		case "prefixinv":
			svc = "sv/" + svc
		}
	}
	for _, w := range x.p.Wrap {
		if w == "prefix" {
			svc = "px/" + svc
		}
	}
	comp := x.compID(0)
	if p.BadComp != "" {
		comp = "bad-" + p.BadComp
	}
	client := x.clientFor(p.Client, comp)

	if p.Abort != nil {
		if p.Abort.Kind == "precancel" {
			c.cancelled = true
			c.abortAt, c.abortSeq = time.Now(), c.x.r.seq()
			x.r.fault("precancel")
			c.ctx.cancel()
		} else {
			go x.runAbort(c)
		}
	}
	if p.Kind == "unary" {
		x.runUnary(c, client, svc, method)
		return
	}
	var first srpc.Message
	if p.First >= 0 && p.BadMsg == "" {
		s := &sendRec{idx: 0, data: content(c.id, 0, 0, p.First), st: x.r.seq()}
		c.c2s.recs = append(c.c2s.recs, s)
		first = codec{p.Proto, p.Copy}.enc(append([]byte(nil), s.data...))
	}
	if p.BadMsg != "" {
		first = &badMsg{}
	}
	c.tick()
	id := x.r.begin("call%d NewStream", c.id)
	strm, err := client.NewStream(c.ctx, svc, method, first)
	x.r.end(id, "%v", err)
	if p.BadMsg != "" {
		if err == nil {
			c.violate("C03,C01", "unencodable-sent", "NewStream reported success although its first message cannot be encoded")
			_ = strm.Close()
		} else {
			c.badMsgError(err, "NewStream")
		}
		return
	}
	if first != nil {
		s := c.c2s.recs[0]
		s.en, s.done, s.ok, s.at = x.r.seq(), true, err == nil, time.Now()
	}
	if err != nil {
		c.openErr = err
		if strm != nil {
			if v, ok := strm.(*srpc.MsgStream); !ok || v != nil {
				c.violate("C02", "stream-with-error", "NewStream returned both a stream and the error %q", err)
			}
		}
		if p.BadComp != "" {
			c.checkClientTerm(err, "NewStream")
		} else if !x.disturbed(c) {
			c.violate("C02", "open-failed", "NewStream failed with %q although nothing interrupted the call", err)
		}
		return
	}
	if p.Abort != nil && p.Abort.Kind == "precancel" {
		c.violate("C05", "started-cancelled", "NewStream started a call although its context was cancelled before")
	}
	if x.p.CloseFn {
		n, fails := new(int), c.id&1 == 1
		strm = &closeCheck{srpc.NewStreamWithClose(&failClose{strm, c.id&3 == 2}, func() error {
			*n++
			if fails {
				return errBadMsg
			}
			return nil
		}), c, n, 0, fails || c.id&3 == 2}
	}
	hbRel(unsafe.Pointer(c))
	c.strm = strm
	c.opened = true
	if c.closed {
		// the abort wanted to close before the stream existed
		_ = strm.Close()
	}
	g := newGroup()
	if len(p.B) > 0 {
		g.Go(func() { x.clientScript(c, strm, p.B) })
	}
	x.clientScript(c, strm, p.A)
	g.Wait(2 * callBound)
	if c.s2c.term != nil {
		// the final status must be sticky
		c.clientRecv(strm)
	}
	if !p.NoClose || c.s2c.term == nil {
		had := c.s2c.term != nil
		if !had {
			c.closed = true
			if c.abortAt.IsZero() {
				c.abortAt, c.abortSeq = time.Now(), c.x.r.seq()
			}
		}
		id := x.r.begin("call%d Close", c.id)
		err := strm.Close()
		x.r.end(id, "%v", err)
		if had {
			c.clientRecv(strm)
		}
	}
}

func (x *rpcExec) runAbort(c *callState) {
	t := time.NewTimer(abortLatest)
	select {
	case <-c.trig:
	case <-t.C:
	}
	t.Stop()
	if c.p.Abort.Ms > 0 {
		time.Sleep(time.Duration(c.p.Abort.Ms) * time.Millisecond)
	}
	if c.done {
		return
	}
	x.r.fault("abort-" + c.p.Abort.Kind)
	c.abortAt, c.abortSeq = time.Now(), c.x.r.seq()
	if c.p.Abort.Kind == "close" && c.p.Kind != "unary" {
		c.closed = true
		if c.strm != nil {
			hbAcq(unsafe.Pointer(c))
			id := x.r.begin("call%d Close (abort)", c.id)
			err := c.strm.Close()
			x.r.end(id, "%v", err)
			c.cancelDone = time.Now()
		} else {
			c.cancelled = true
			c.ctx.cancel()
		}
		return
	}
	c.cancelled = true
	if x.r.Trace {
		x.r.logf("call%d cancel caller context", c.id)
	}
	c.ctx.cancel()
	c.cancelDone = time.Now()
}

func (x *rpcExec) runUnary(c *callState, client srpc.Client, svc, method string) {
	p := c.p
	k := codec{p.Proto, p.Copy}
	s := &sendRec{idx: 0, data: content(c.id, 0, 0, max(p.First, 0)), st: x.r.seq()}
	c.c2s.recs = append(c.c2s.recs, s)
	out := k.newIn()
	c.tick()
	buf := append([]byte(nil), s.data...)
	in := k.enc(buf)
	switch p.BadMsg {
	case "req":
		in = &badMsg{}
		c.c2s.recs = nil
	case "out":
		out = &badMsg{}
	}
	id := x.r.begin("call%d ExecCall", c.id)
	err := client.ExecCall(c.ctx, svc, method, in, out)
	x.r.end(id, "%v", err)
	if p.BadMsg != "" {
		if err == nil {
			c.violate("C03", "bad-message-ignored", "ExecCall reported success although its %s", map[string]string{"req": "request cannot be encoded", "out": "response does not decode"}[p.BadMsg])
		} else if p.BadMsg == "req" {
			c.badMsgError(err, "ExecCall")
		}
		s.en, s.done, s.ok = x.r.seq(), true, true
		return
	}
	for i := range buf {
		buf[i] = 0xdb
	}
	s.en, s.done, s.ok = x.r.seq(), true, true
	if err == nil {
		b := k.dec(out)
		if len(c.s2c.recs) == 0 {
			c.violate("C03,C02", "unary-invented", "ExecCall succeeded with %s but the handler sent no response", short(b))
			return
		}
		c.received(&c.s2c, b, 1, "ExecCall")
		if string(b) != string(c.s2c.recs[0].data) {
			c.violate("C03", "unary-wrong-response", "ExecCall returned %s instead of the first response %s", short(b), short(c.s2c.recs[0].data))
		}
		x.keep(b, fmt.Sprintf("call%d unary", c.id))
		return
	}
	c.s2c.term = err
	dist := x.disturbed(c)
	if err == io.EOF && !(c.hret && c.hretErr == nil && len(c.s2c.recs) == 0) && !dist {
		c.violate("C03,C02", "unary-eof", "ExecCall returned io.EOF; handler returned=%v err=%v responses=%d", c.hret, c.hretErr, len(c.s2c.recs))
		return
	}
	if !dist {
		for _, q := range c.s2c.recs {
			if q.done && q.ok {
				c.violate("C03,C02", "unary-lost-response", "ExecCall failed with %q although the handler's response was sent successfully and nothing interrupted the call", err)
				return
			}
		}
	}
	if err != io.EOF {
		c.checkClientTerm(err, "ExecCall")
	}
}

func (x *rpcExec) clientScript(c *callState, strm srpc.Stream, ops []Op) {
	for _, o := range ops {
		switch o.Do {
		case "sleep":
			time.Sleep(time.Duration(o.N) * time.Millisecond)
		case "send":
			_ = c.clientSend(strm, o.N)
		case "sendn":
			for i := 0; i < o.K; i++ {
				if c.clientSend(strm, o.N) != nil {
					break
				}
			}
		case "psend":
			g := newGroup()
			for i := 0; i < o.K; i++ {
				n := o.N + i
				g.Go(func() { _ = c.clientSend(strm, n) })
			}
			g.Wait(2 * callBound)
		case "badsend":
			c.sendBad(strm, c.c2s.name)
		case "badrecv":
			if c.s2c.term == nil && !c.recvBad(strm, &c.s2c, 1) {
				c.clientRecv(strm)
			}
		case "recv":
			for i := 0; i < max(o.N, 1); i++ {
				if !c.clientRecv(strm) {
					break
				}
			}
		case "closesend":
			c.tick()
			c.closeSendBeg = true
			id := x.r.begin("call%d CloseSend", c.id)
			err := strm.CloseSend()
			x.r.end(id, "%v", err)
			c.closeSendOK = c.closeSendOK || err == nil
			if err != nil && !x.disturbed(c) && !c.hret && !c.unknown() && c.p.BadComp == "" && c.s2c.term == nil {
				c.violate("C04", "closesend-failed", "CloseSend failed with %q although nothing interrupted the call", err)
			}
		case "drain":
			for c.clientRecv(strm) {
			}
		case "close":
			c.closed = true
			c.abortAt, c.abortSeq = time.Now(), c.x.r.seq()
			_ = strm.Close()
		}
	}
}

// handler side

type callHandler struct {
	x   *rpcExec
	svc string
	ids []string
}

func (h *callHandler) GetServiceID() string   { return h.svc }
func (h *callHandler) GetMethodIDs() []string { return h.ids }

func (h *callHandler) InvokeMethod(serviceID, methodID string, strm srpc.Stream) (bool, error) {
	x := h.x
	var id int
	if _, err := fmt.Sscanf(methodID, "call%d", &id); err != nil || id < 0 || id >= len(x.calls) {
		x.r.violate(x.scope(nil, "C13,C02"), "misroute", "a handler was invoked for unknown method %q of service %q", methodID, serviceID)
		return false, nil
	}
	c := x.calls[id]
	if want := fmt.Sprintf("svc%d", c.p.Svc%100); serviceID != want || h.svc != want {
		c.violate("C13,C02", "misroute", "request for service %q was dispatched as service %q to the handler of %q", want, serviceID, h.svc)
	}
	c.invoked++
	if c.invoked > 1 {
		c.violate("C02,C03,C10", "invoked-twice", "the handler was invoked %d times for one call", c.invoked)
		return true, errors.New("invoked twice")
	}
	x.r.probe("handler-invoked")
	c.hctx = strm.Context()
	c.hstrm = strm
	x.checkHandlerCtx(c, "when the handler started")
	if c.hctx.Value(callKey{}) == nil {
		c.violate("C25", "context-values-lost", "the handler's context does not carry the values of the context its server runs with")
	}
	if c.p.Abort != nil && c.p.Abort.Kind == "precancel" {
		c.violate("C05", "started-cancelled", "the handler was invoked although the caller's context was cancelled before the call")
	}
	g := newGroup()
	if len(c.p.SB) > 0 {
		g.Go(func() { x.handlerScript(c, c.p.SB) })
	}
	x.handlerScript(c, c.p.SA)
	g.Wait(2 * callBound)
	x.checkHandlerCtx(c, "before the handler returned")
	var err error
	if c.p.Ret != "" {
		err = retError(c.p.Ret)
	}
	c.hretErr = err
	c.hret = true
	c.hdoneAt = time.Now()
	if x.r.Trace {
		x.r.logf("call%d handler returns %v", c.id, err)
	}
	// an invoker may also report its error together with "not found"
	return err == nil || !c.p.NotFnd, err
}

// checkHandlerCtx: the handler's context must not be cancelled without a cause.
func (x *rpcExec) checkHandlerCtx(c *callState, when string) {
	if c.hctx.Err() != nil && !x.disturbed(c) && !c.over() {
		c.violate("C25,C02", "context-cancelled-early", "the handler's context is cancelled %s although the call is in progress and nothing interrupted it", when)
	}
}

func (x *rpcExec) handlerScript(c *callState, ops []Op) {
	for _, o := range ops {
		x.checkHandlerCtx(c, "during the call")
		switch o.Do {
		case "sleep":
			if o.N < 5000 {
				time.Sleep(time.Duration(o.N) * time.Millisecond)
				break
			}
			select {
			case <-time.After(time.Duration(o.N) * time.Millisecond):
			case <-c.hctx.Done():
			}
		case "send":
			_ = c.handlerSend(o.N)
		case "sendn":
			for i := 0; i < o.K; i++ {
				if c.handlerSend(o.N) != nil {
					break
				}
			}
		case "hold":
			id := x.r.begin("call%d handler waits for the other calls", c.id)
			select {
			case <-x.held:
			case <-c.hctx.Done():
			}
			x.r.end(id, "")
		case "psend":
			g := newGroup()
			for i := 0; i < o.K; i++ {
				n := o.N + i
				g.Go(func() { _ = c.handlerSend(n) })
			}
			g.Wait(2 * callBound)
		case "badsend":
			c.sendBad(c.hstrm, c.s2c.name)
		case "badrecv":
			if c.c2s.term == nil && !c.recvBad(c.hstrm, &c.c2s, 0) {
				x.handlerRecv(c)
			}
		case "recv":
			for i := 0; i < max(o.N, 1); i++ {
				if !x.handlerRecv(c) {
					break
				}
			}
		case "drain":
			for x.handlerRecv(c) {
			}
		case "waitctx":
			id := x.r.begin("call%d handler waits for its context", c.id)
			<-c.hctx.Done()
			x.r.end(id, "")
			x.checkHandlerCtx(c, "while it waited")
		}
	}
}

func (x *rpcExec) handlerRecv(c *callState) bool {
	c.tick()
	k := codec{c.p.Proto, c.p.Copy}
	m := k.newIn()
	id := x.r.begin("call%d handler recv", c.id)
	err := c.hstrm.MsgRecv(m)
	x.r.end(id, "%v", err)
	if x.srvDown {
		c.srvRecv = true
	}
	d := &c.c2s
	if err == nil {
		b := k.dec(m)
		c.received(d, b, 0, "handler receive")
		if !c.p.Proto {
			x.keep(b, fmt.Sprintf("call%d handler", c.id))
		}
		return true
	}
	dist := x.disturbed(c) || c.over()
	if d.term != nil {
		if d.term == io.EOF && err != io.EOF && !dist {
			c.violate("C04,C02", "status-changed", "the handler saw the end of the request stream, a later receive reports %v", err)
		}
		return false
	}
	d.term = err
	c.checkArrived(d, "the handler")
	switch {
	case err == io.EOF:
		if !c.closeSendBeg && c.hctx.Err() == nil {
			c.violate("C04", "false-eof", "the handler saw a clean end of the request stream, but the client did not half-close and the handler's context is live")
		} else if c.closeSendBeg && (c.hctx.Err() == nil || !x.cleanCut(c)) {
			c.complete(d, "C01,C04", "the handler")
		} else if !c.closeSendBeg && !x.cut(c) && c.closed && !c.cancelled && c.p.Kind == "stream" && !x.hasLayer("proxy") {
			c.violate("C04,C05", "close-as-eof", "the client closed (aborted) the stream without half-closing it and the handler saw a clean end of the request stream")
		}
	default:
		if !dist {
			c.violate("C02,C04", "handler-recv-failed", "handler receive failed with %q although nothing interrupted the call", err)
		}
	}
	return false
}

// component services

type echoSrv struct {
	*echo.EchoServer
	x     *rpcExec
	inv   srpc.Invoker
	comp  string
	proxy rpcstream.RpcProxyGetter[echo.SRPCEchoer_RpcStreamClient]
}

func (s *echoSrv) RpcStream(strm echo.SRPCEchoer_RpcStreamStream) error {
	x := s.x
	if s.proxy != nil {
		return rpcstream.HandleProxyRpcStream(strm, s.proxy)
	}
	return rpcstream.HandleRpcStream(strm, func(ctx context.Context, id string) (srpc.Invoker, func(), error) {
		switch id {
		case "bad-nil":
			return nil, nil, nil
		case "bad-err":
			return nil, nil, errors.New("injected component failure")
		case "bad-errempty", "bad-err1", "bad-errlong":
			return nil, nil, errors.New(badText(id[4:]))
		case "bad-errrel": // an error next to a component
			k := x.acquire()
			return k.invoker(s.inv), k.relFunc(), errors.New(badCompText)
		case "bad-openerr", "bad-relnil":
			return nil, nil, errors.New(badText(id[4:]))
		}
		if id != s.comp {
			x.wrongc++
			x.r.violate("C14,C16", "wrong-component", "the component getter was asked for %q instead of %q", id, s.comp)
		}
		k := x.acquire()
		return k.invoker(s.inv), k.relFunc(), nil
	})
}

// compRef is one looked-up component: its release function must be called
// exactly once, and only when nothing uses the component any more.
type compRef struct {
	x      *rpcExec
	rel    int
	never  bool              // there is no release function
	active []context.Context // contexts of the calls in progress on it
}

//go:norace
func (x *rpcExec) acquire() *compRef {
	k := &compRef{x: x, never: x.p.NoRel}
	x.acq = append(x.acq, k)
	return k
}

//go:norace
func (k *compRef) relFunc() func() {
	if k.never {
		k.rel = 1
		return nil
	}
	return k.release
}

//go:norace
func (k *compRef) release() {
	k.rel++
	k.later()
}

// later checks that the calls in progress at the release of their component
// are being cancelled.
//
//go:norace
func (k *compRef) later() {
	if len(k.active) > 0 {
		time.AfterFunc(3*time.Millisecond, k.check)
	}
}

//go:norace
func (k *compRef) check() {
	for _, ctx := range k.active {
		if ctx.Err() == nil {
			k.x.r.violate(k.x.scope(nil, "C12"), "released-in-use", "a component was released while a call on it is in progress")
			return
		}
	}
}

// invoker gives the component's services, until it is released.
func (k *compRef) invoker(inv srpc.Invoker) srpc.Invoker {
	return srpc.InvokerFunc(func(svc, meth string, strm srpc.Stream) (bool, error) {
		ctx := strm.Context()
		if k.begin(ctx) {
			k.later()
		}
		defer k.end(ctx)
		return inv.InvokeMethod(svc, meth, strm)
	})
}

//go:norace
func (k *compRef) begin(ctx context.Context) bool {
	k.active = append(k.active, ctx)
	return k.rel > 0 && !k.never
}

//go:norace
func (k *compRef) end(ctx context.Context) {
	for i, c := range k.active {
		if c == ctx {
			k.active = append(k.active[:i], k.active[i+1:]...)
			return
		}
	}
}

// refStream is the stream to a proxied component; it must not be read after
// the component was released.
type refStream struct {
	echo.SRPCEchoer_RpcStreamClient
	k *compRef
}

func (s *refStream) MsgRecv(m srpc.Message) error {
	if s.k.rel > 0 && !s.k.never {
		s.k.x.r.violate(s.k.x.scope(nil, "C12"), "used-after-release", "the proxy reads from a component that had been released")
	}
	return s.SRPCEchoer_RpcStreamClient.MsgRecv(m)
}

func (k *compRef) caller(f rpcstream.RpcStreamCaller[echo.SRPCEchoer_RpcStreamClient]) rpcstream.RpcStreamCaller[echo.SRPCEchoer_RpcStreamClient] {
	return func(ctx context.Context) (echo.SRPCEchoer_RpcStreamClient, error) {
		s, err := f(ctx)
		if err != nil {
			return s, err
		}
		return &refStream{s, k}, nil
	}
}

const badCompText = "injected component failure"

// badText is what the lookup of an unavailable component reports.
func badText(kind string) string {
	switch kind {
	case "nil", "relnil":
		return rpcstream.ErrNoServerForComponent.Error()
	case "errempty":
		return "" // there is no reason to report
	case "err1":
		return "x"
	case "errlong":
		return strings.Repeat("long failure; ", 400)
	}
	return badCompText
}

// compID is the id of the component that exists.
func (x *rpcExec) compID(i int) string {
	if i < len(x.p.Comp) {
		return x.p.Comp[i]
	}
	return []string{"comp", "remote-comp"}[i]
}

func echoMux(s *echoSrv) srpc.Mux {
	m := srpc.NewMux()
	_ = echo.SRPCRegisterEchoer(m, s)
	return m
}

// build sets up the whole topology.
func (x *rpcExec) build(inv srpc.Invoker) error {
	last := len(x.p.Layers) - 1
	for i := last; i >= 0; i-- {
		l := x.p.Layers[i]
		innermost := i == last
		es := &echoSrv{EchoServer: echo.NewEchoServer(nil), x: x, inv: inv, comp: x.compID(0)}
		ack := l != "rsn"
		if l == "proxy" {
			es.comp = x.compID(1)
			m2 := echoMux(es)
			cl2, err := x.transport(m2, x.p.Topo2, 100, 1)
			if err != nil {
				return err
			}
			caller := echo.NewSRPCEchoerClient(cl2[0])
			es = &echoSrv{EchoServer: echo.NewEchoServer(nil), x: x}
			es.proxy = func(ctx context.Context, id string) (rpcstream.RpcStreamCaller[echo.SRPCEchoer_RpcStreamClient], string, func(), error) {
				switch id {
				case "bad-nil":
					return nil, "", nil, nil
				case "bad-err":
					return nil, "", nil, errors.New("injected component failure")
				case "bad-errempty", "bad-err1", "bad-errlong":
					return nil, "", nil, errors.New(badText(id[4:]))
				case "bad-relnil":
					return nil, "", x.acquire().relFunc(), nil
				case "bad-errrel":
					return nil, "", x.acquire().relFunc(), errors.New(badCompText)
				case "bad-openerr":
					return func(context.Context) (echo.SRPCEchoer_RpcStreamClient, error) {
						return nil, errors.New(badCompText)
					}, x.compID(1), x.acquire().relFunc(), nil
				}
				if id != x.compID(0) {
					x.r.violate("C16", "wrong-component", "the proxy getter was asked for %q instead of %q", id, x.compID(0))
				}
				k := x.acquire()
				return k.caller(caller.RpcStream), x.compID(1), k.relFunc(), nil
			}
			inv = echoMux(es)
		} else {
			inv = echoMux(es)
		}
		x.layersC = append([]func(srpc.Client, string) srpc.Client{func(c srpc.Client, comp string) srpc.Client {
			if !innermost {
				comp = x.compID(0)
			}
			ec := echo.NewSRPCEchoerClient(c)
			return rpcstream.NewRpcStreamClient(ec.RpcStream, comp, ack)
		}}, x.layersC...)
	}
	cl, err := x.transport(inv, x.p.Topo, 0, max(x.p.Clients, 1))
	if err != nil {
		return err
	}
	x.clients = append(x.clients, cl)
	return nil
}

var discardLog = func() *logrus.Entry {
	l := logrus.New()
	l.SetOutput(io.Discard)
	l.SetLevel(logrus.DebugLevel)
	return logrus.NewEntry(l)
}()

func (x *rpcExec) clientFor(i int, comp string) srpc.Client {
	cl := x.clients[0][i%len(x.clients[0])]
	for _, f := range x.layersC {
		cl = f(cl, comp)
	}
	for _, w := range x.p.Wrap {
		switch w {
		case "vclient":
			cl = srpc.NewVClient(cl, discardLog)
		case "set":
			cl = srpc.NewClientSet([]srpc.Client{nil, cl})
		}
	}
	for _, w := range x.p.Wrap {
		if w == "prefix" {
			cl = srpc.NewPrefixClient(cl, []string{"zz/", "px/"})
		}
	}
	return cl
}

func (x *rpcExec) serverInvoker() srpc.Invoker {
	mux := srpc.NewMux()
	for s := 0; s < 3; s++ {
		h := &callHandler{x: x, svc: fmt.Sprintf("svc%d", s)}
		for i, c := range x.calls {
			if c.p.Svc == s {
				h.ids = append(h.ids, fmt.Sprintf("call%d", i))
			}
		}
		h.ids = append(h.ids, "other")
		_ = mux.Register(h)
	}
	var inv srpc.Invoker = mux
	for _, w := range x.p.Wrap {
		switch w {
		case "vmux":
			if m, ok := inv.(srpc.Mux); ok {
				inv = srpc.NewVMux(m, discardLog, true)
			}
		case "fallback":
			inv = srpc.NewMux(nil, srpc.InvokerFunc(nil), inv)
		case "slice":
			inv = srpc.InvokerSlice{nil, srpc.NewMux(), inv}
		case "prefixinv":
			inv = srpc.NewPrefixInvoker(inv, []string{"yy/", "sv/"})
		}
	}
	return inv
}

// link creates a simulated connection.
func (x *rpcExec) link(id int) *rpcConn {
	a, b, l := newLink(x.p.Net, id, x.p.Faults)
	k := &rpcConn{l: l, a: a, b: b}
	x.conns = append(x.conns, k)
	l.onCut = func(f Fault) {
		if f.Kind != "wfail" {
			x.markArrived(k)
		}
	}
	x.armConn(k)
	return k
}

// armConn schedules the endpoint faults of a connection.
func (x *rpcExec) armConn(k *rpcConn) {
	for _, f := range x.p.Faults {
		if f.Conn != k.l.id {
			continue
		}
		switch f.Kind {
		case "clictx", "srvctx":
			time.AfterFunc(time.Duration(max(f.AtMs, 0))*time.Millisecond, func() {
				e, ctx := 0, k.cctx
				if f.Kind == "srvctx" {
					e, ctx = 1, k.sctx
				}
				if ctx == nil || x.torn || k.l.dead() || k.l.closed[0] || k.l.closed[1] {
					return
				}
				x.r.fault(f.Kind)
				k.explicit = true
				k.ended[e] = true
				ctx.cancel()
			})
		case "cliclose", "srvclose":
			time.AfterFunc(time.Duration(max(f.AtMs, 0))*time.Millisecond, func() {
				if k.l.dead() || k.l.closed[0] || k.l.closed[1] {
					return
				}
				x.r.fault(f.Kind)
				k.explicit = true
				x.markArrived(k)
				end, m := k.a, k.cm
				if f.Kind == "srvclose" {
					end, m = k.b, k.sm
				}
				if m != nil {
					_ = m.Close()
				} else {
					_ = end.Close()
				}
			})
		}
	}
}

func (x *rpcExec) yconf() *yamux.Config {
	if x.maxIn == 0 {
		return nil
	}
	cfg := srpc.NewYamuxConfig()
	cfg.MaxIncomingStreams = x.maxIn
	return cfg
}

// muxedConn sets up one end of a muxed connection, with the library or (peer)
// like another implementation of the protocol would.
func muxedConn(c net.Conn, outbound bool, conf *yamux.Config, peer bool) (network.MuxedConn, error) {
	if !peer {
		return srpc.NewMuxedConn(c, outbound, conf)
	}
	if conf == nil {
		d := *ymuxer.DefaultTransport.Config()
		d.EnableKeepAlive = false
		conf = &d
	}
	f := yamux.Server
	if outbound {
		f = yamux.Client
	}
	sess, err := f(c, conf, nil)
	if err != nil {
		return nil, err
	}
	return ymuxer.NewMuxedConn(sess), nil
}

// peerClient returns a client over a connection that the library did not set up.
func peerClient(c net.Conn) (srpc.Client, error) {
	mc, err := muxedConn(c, true, nil, true)
	if err != nil {
		return nil, err
	}
	return srpc.NewClientWithMuxedConn(mc), nil
}

// serveStream serves one stream, through the server or with a ServerRPC that
// the application pumps itself.
func serveStream(ctx context.Context, srv *srpc.Server, rwc io.ReadWriteCloser, ownPump, parsed bool) {
	if !ownPump {
		srv.HandleStream(ctx, rwc)
		return
	}
	prw := srpc.NewPacketReadWriter(rwc)
	rpc := srpc.NewServerRPC(ctx, srv.GetInvoker(), prw)
	h := rpc.HandlePacketData
	if parsed {
		h = srpc.NewPacketDataHandler(rpc.HandlePacket)
	}
	prw.ReadPump(h, rpc.HandleStreamClose)
}

func (x *rpcExec) transport(inv srpc.Invoker, topo string, base, n int) ([]srpc.Client, error) {
	srv := srpc.NewServer(inv)
	switch topo {
	case "pipe":
		return []srpc.Client{srpc.NewClient(srpc.NewServerPipe(srv))}, nil
	case "direct":
		return []srpc.Client{srpc.NewClient(func(ctx context.Context, mh srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
			id := 100 + x.next100
			if base == 0 {
				id, _ = ctx.Value(callKey{}).(int)
			} else {
				x.next100++
			}
			k := x.link(id)
			go serveStream(x.srvCtx, srv, k.b, x.p.OwnPump, id&1 == 1)
			prw := srpc.NewPacketReadWriter(k.a)
			go prw.ReadPump(mh, ch)
			if x.p.CloseFn {
				k.wrapped = true
				inner, fn := id%4 == 2, id%4 == 1
				return &writerCheck{srpc.NewPacketWriterWithClose(&failWriter{prw, inner}, func() error {
					k.wclosed++
					if fn {
						return errBadMsg
					}
					return nil
				}), x, inner || fn}, nil
			}
			return prw, nil
		})}, nil
	case "yamux", "rwc":
		k := x.link(base)
		var err error
		if topo == "rwc" {
			k.cctx, k.sctx = newTrackCtx(-1), newTrackCtx(-1)
			k.cm, err = srpc.NewMuxedConnWithRwc(k.cctx, rwcOnly{k.a}, true, x.yconf())
			if err == nil {
				k.sm, err = srpc.NewMuxedConnWithRwc(k.sctx, rwcOnly{k.b}, false, x.yconf())
			}
		} else {
			k.cm, err = muxedConn(k.a, true, x.yconf(), x.p.Peer == "client")
			if err == nil {
				k.sm, err = muxedConn(k.b, false, x.yconf(), x.p.Peer == "server")
			}
		}
		if err != nil {
			return nil, err
		}
		sm := k.sm
		go func() {
			_ = srv.AcceptMuxedConn(x.srvCtx, sm)
			k.explicit = true
			_ = sm.Close()
		}()
		return []srpc.Client{srpc.NewClientWithMuxedConn(k.cm)}, nil
	case "yamuxlis", "dial":
		x.nw = &simNetwork{cfg: x.p.Net, lis: map[string]*simListener{}, faults: x.p.Faults}
		x.nw.onConn = func(a, b *simConn, l *link) {
			k := &rpcConn{l: l, a: a, b: b}
			x.conns = append(x.conns, k)
			x.armConn(k)
		}
		const addr = "sim:7000"
		if topo == "dial" {
			x.nw.install()
			go func() {
				id := x.r.begin("srpc.Listen")
				err := srpc.Listen(x.srvCtx, addr, srv, nil)
				x.r.end(id, "%v", err)
			}()
			// wait for the listener
			for i := 0; x.nw.lis[addr] == nil && i < 100; i++ {
				time.Sleep(time.Millisecond)
			}
			var out []srpc.Client
			for i := 0; i < n; i++ {
				cl, err := srpc.Dial(addr)
				if err != nil {
					return nil, err
				}
				out = append(out, cl)
			}
			return out, nil
		}
		lis, err := x.nw.listen(addr)
		if err != nil {
			return nil, err
		}
		go func() { _ = srpc.AcceptMuxedListener(x.srvCtx, lis, srv, x.yconf()) }()
		x.stop = append(x.stop, func() { _ = lis.Close() })
		var out []srpc.Client
		for i := 0; i < n; i++ {
			nc, err := x.nw.dial(addr)
			if err != nil {
				return nil, err
			}
			var cl srpc.Client
			if x.p.Peer == "client" {
				cl, err = peerClient(nc)
			} else {
				cl, err = srpc.NewClientWithConn(nc, true, nil)
			}
			if err != nil {
				return nil, err
			}
			out = append(out, cl)
		}
		return out, nil
	case "ws":
		return x.wsTransport(inv, n)
	}
	return nil, fmt.Errorf("unknown topology %q", topo)
}

// cleanCut: the connection may have ended without an error before everything
// sent on it arrived.
func (x *rpcExec) cleanCut(c *callState) bool {
	if x.srvDown || len(x.p.Layers) > 0 {
		return true
	}
	for _, k := range x.conns {
		if k.explicit {
			return true
		}
	}
	for _, f := range x.p.Faults {
		if f.Kind == "fin" {
			return true
		}
	}
	return false
}

// srvStopOnly: nothing but the end of the server's context happened to the
// call, and its handler received nothing after it.
func (x *rpcExec) srvStopOnly(c *callState) bool {
	if !x.srvDown || x.torn || c.cancelled || c.closed || c.srvRecv || len(x.p.Layers) > 0 {
		return false
	}
	switch x.p.Topo {
	case "pipe", "direct", "yamux", "rwc":
	default:
		return false
	}
	for _, k := range x.conns {
		if k.l.cut || k.explicit {
			return false
		}
	}
	return true
}

// releaseHeld lets the held handlers go once no other call is in progress.
func (x *rpcExec) releaseHeld() {
	for _, c := range x.calls {
		if !c.done && !c.p.Hold {
			return
		}
	}
	if !x.free {
		x.free = true
		close(x.held)
	}
}

func runRPC(r *Run) {
	p := r.Plan.RPC
	x := &rpcExec{r: r, p: p, srvCtx: newTrackCtx(-1), held: make(chan struct{})}
	for i := range p.Calls {
		c := &callState{x: x, id: i, p: &p.Calls[i], ctx: newTrackCtx(i), trig: make(chan struct{})}
		c.c2s.name, c.s2c.name = "the request stream", "the response stream"
		x.calls = append(x.calls, c)
	}
	defer uninstallNet()
	if p.MaxIn > 0 {
		x.maxIn = uint32(p.MaxIn)
	}
	if err := x.build(x.serverInvoker()); err != nil {
		// the connection may legitimately fail while it is set up under faults
		if len(p.Faults) == 0 {
			r.violate(x.scope(nil, "C20"), "setup-failed", "connection setup failed: %v", err)
		}
		r.probe("setup-failed")
		x.teardown()
		return
	}
	for _, f := range p.Faults {
		if f.Kind == "srvcancel" {
			time.AfterFunc(time.Duration(max(f.AtMs, 0))*time.Millisecond, func() {
				if x.srvCtx.Err() == nil {
					r.fault("srvcancel")
					x.srvDown = true
					x.srvCtx.cancel()
				}
			})
		}
	}
	// let the connections settle, then count what is alive without any call
	base := -1
	if x.countable() {
		time.Sleep(time.Second)
		base = runtime.SimLive()
	}
	t1 := time.Now()
	live := true
	x.releaseHeld()
	if p.Serial {
		for _, c := range x.calls {
			g := newGroup()
			g.Go(func() { x.runClient(c) })
			if !g.Wait(callBound) {
				live = false
				break
			}
			if p.MaxIn > 0 {
				time.Sleep(time.Second)
			}
		}
	} else {
		g := newGroup()
		for _, c := range x.calls {
			g.Go(func() { x.runClient(c) })
		}
		live = g.Wait(callBound)
	}
	if !live {
		x.stuck("client", t1)
		x.teardown()
		return
	}
	// once every call is over, the handlers must learn about it and everything
	// that belonged to the calls must be released
	time.Sleep(settleTime)
	if len(r.Viol) == 0 {
		x.afterCalls(base)
	}
	x.teardown()
	time.Sleep(callBound)
	for _, c := range x.calls {
		if c.invoked > 0 && !c.hret && len(r.Viol) == 0 {
			c.violate("C06,C12,C25", "handler-stuck-after-teardown", "the handler is still blocked %v after all connections were closed: %s", callBound, strings.Join(r.pending(), "; "))
		}
	}
	if len(r.Viol) == 0 {
		x.afterTeardown()
	}
}

// countable: topologies without background machinery of their own.
func (x *rpcExec) countable() bool {
	if len(x.p.Faults) > 0 {
		return false
	}
	switch x.p.Topo {
	case "pipe", "direct", "yamux", "rwc":
		return true
	}
	return false
}

// stuck reports operations that did not finish.
func (x *rpcExec) stuck(who string, t1 time.Time) {
	props := map[string]bool{}
	var names []string
	for _, c := range x.calls {
		if c.clientDone {
			continue
		}
		names = append(names, fmt.Sprintf("call%d", c.id))
		switch {
		case c.cancelled || c.closed:
			props["C05"] = true
		case x.cut(c):
			props["C06"] = true
		default:
			props["C02"] = true
			props["C01"] = true
			if c.p.Kind == "unary" {
				props["C03"] = true
			}
			if c.closeSendBeg {
				props["C04"] = true
			}
			if len(x.calls) > 1 {
				props["C07"] = true
			}
		}
	}
	var ps []string
	for _, k := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07"} {
		if props[k] {
			ps = append(ps, k)
		}
	}
	x.r.violate(x.scope(nil, strings.Join(ps, ",")), "stuck", "%s still not finished after %v of simulated time; blocked: %s", strings.Join(names, ","), time.Since(t1), strings.Join(x.r.pending(), "; "))
}

// afterCalls checks the state after all client calls ended and settled.
func (x *rpcExec) afterCalls(base int) {
	for _, c := range x.calls {
		gone := c.cancelled || c.closed || x.cut(c) || c.clientDone
		if c.invoked > 0 && !c.hret && gone && c.hctx != nil {
			if c.hctx.Err() == nil && !x.silentCut(c) {
				props := "C25"
				if c.cancelled || c.closed {
					props += ",C05"
				}
				if x.cut(c) {
					props += ",C06"
				}
				c.violate(props, "handler-not-cancelled", "the client gave the call up more than %v ago and the handler's context is still live; blocked: %s", settleTime, strings.Join(x.r.pending(), "; "))
			}
		}
		if c.invoked > 0 && c.hret && c.hctx.Err() == nil && !x.silentCut(c) {
			c.violate("C25,C12", "context-leak", "the handler returned more than %v ago and its context is still not cancelled", settleTime)
		}
		if n := c.ctx.live(); n != 0 && !x.silentCut(c) {
			c.violate("C12", "caller-context-leak", "the call is over but %d registration(s) remain on the caller's context", n)
		}
		if c.p.BadMsg == "req" && c.invoked > 0 {
			c.violate("C03,C01", "unencodable-sent", "the handler was invoked although the request cannot be encoded")
		}
		if c.invoked == 0 && !c.unknown() && c.p.BadComp == "" && !x.disturbed(c) && c.p.Kind == "stream" && c.opened {
			c.violate("C02", "never-invoked", "the call ended without its handler ever being invoked")
		}
	}
	for _, k := range x.conns {
		if k.wrapped && k.wclosed == 0 && !x.silentCut(nil) {
			x.r.violate(x.scope(nil, "C12"), "close-function", "the call is over and the close function of its packet writer was not called")
		}
		for e, b := range k.ended {
			if b && !k.l.closed[e] && !k.l.cut {
				x.r.violate(x.scope(nil, "C12,C06"), "context-ignored", "the context that end %d of connection %d was set up with ended more than %v ago and the connection is still open", e, k.l.id, settleTime)
			}
		}
	}
	if base >= 0 && len(x.r.Viol) == 0 {
		pend := x.r.pending()
		if n := runtime.SimLive(); n > base && len(pend) == 0 {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			x.r.violate(x.scope(nil, "C12"), "call-goroutine-leak", "%d goroutine(s) remain of finished calls while the connection stays open: %s", n-base, leakedFrames(string(buf), n-1))
		}
		for i, k := range x.acq {
			if k.rel != 1 {
				x.r.violate(x.scope(nil, "C12"), "component-release", "component reference %d was released %d times after its call ended", i, k.rel)
				break
			}
		}
	}
	x.checkKept()
}

// silentCut: the transport is cut or stalled without the endpoint being told.
func (x *rpcExec) silentCut(c *callState) bool {
	for _, k := range x.conns {
		for _, h := range k.l.h {
			if h.stalled.After(time.Now().Add(-settleTime)) {
				return true
			}
		}
	}
	return false
}

func (x *rpcExec) checkKept() {
	for _, k := range x.kept {
		if sum64(k.b) != k.sum {
			x.r.violate(x.scope(nil, "C24,C01"), "buffer-reused", "%s: the contents of a delivered message changed after it was returned", k.at)
			return
		}
	}
}

func (x *rpcExec) teardown() {
	x.torn = true
	x.srvDown = true
	for _, k := range x.conns {
		k.explicit = true
		if k.cm != nil {
			_ = k.cm.Close()
		}
	}
	for _, f := range x.stop {
		f()
	}
	x.srvCtx.cancel()
	time.Sleep(time.Second)
	for _, k := range x.conns {
		if k.cm == nil {
			_ = k.a.Close()
		}
	}
	time.Sleep(time.Second)
	for _, c := range x.calls {
		hbAcq(unsafe.Pointer(c))
		if c.strm != nil && !c.clientDone {
			_ = c.strm.Close()
		}
		c.ctx.cancel()
	}
}

func (x *rpcExec) afterTeardown() {
	for _, c := range x.calls {
		// a final status that was reported must survive the end of the connection
		if c.strm != nil && c.s2c.term != nil && !c.cancelled {
			c.clientRecv(c.strm)
		}
	}
	for i, k := range x.acq {
		if k.rel != 1 {
			x.r.violate(x.scope(nil, "C12"), "component-release", "component reference %d was released %d times by the end of the run", i, k.rel)
			break
		}
	}
	if n := x.srvCtx.live(); n != 0 {
		x.r.violate("C12", "server-context-leak", "%d registration(s) remain on the server's context", n)
	}
	for _, k := range x.conns {
		if !k.l.closed[1] && k.l.err == nil {
			x.r.violate(x.scope(nil, "C12"), "conn-leak", "connection %d was never closed by the server side although the client closed it", k.l.id)
			break
		}
	}
	x.checkKept()
}

var _ net.Conn = (*simConn)(nil)

func init() {
	families["rpc"] = family{runRPC, "C12"}
}
