package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"time"

	"github.com/aperturerobotics/starpc/echo"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
)

// ProtoPlan drives one side of the wire protocol with a scripted peer that
// speaks (or violates) the packet protocol byte by byte. The packets are
// encoded and decoded by the harness itself.
type ProtoPlan struct {
	Side   string    `json:"side"` // server: the server is under test, client: the client is
	Nest   bool      `json:"nest,omitempty"`
	Net    NetCfg    `json:"net"`
	Pkts   []WirePkt `json:"pkts"`
	End    string    `json:"end"` // what the peer does after its packets: close, half, wait
	EndMs  int       `json:"endMs,omitempty"`
	Lim    int       `json:"lim,omitempty"` // close the connection within the n-th byte written (truncation)
	H      []Op      `json:"h,omitempty"`   // server: handler script
	H2     []Op      `json:"h2,omitempty"`  // server: concurrent handler script
	Ret    string    `json:"ret,omitempty"`
	Wait   bool      `json:"wait,omitempty"` // server: the handler waits for its context before it returns
	Unary  bool      `json:"unary,omitempty"`
	First  int       `json:"first"`           // client: size of the first message, -1: none
	C      []Op      `json:"c,omitempty"`     // client script
	C2     []Op      `json:"c2,omitempty"`    // concurrent client script
	Msg    bool      `json:"msg,omitempty"`   // client: receives into a protobuf message
	NoRead bool      `json:"noRd,omitempty"`  // the peer reads nothing
	WFail  int       `json:"wFail,omitempty"` // the writes of the side under test fail from the n-th byte on (0: never)
	NoAck  bool      `json:"noAck,omitempty"` // nested client: does not wait for the acknowledgement

	OwnPump bool `json:"ownPump,omitempty"` // server: the application pumps a ServerRPC itself
	OwnRPC  bool `json:"ownRPC,omitempty"`  // client: the application drives a ClientRPC itself, and waits for its end
}

// WirePkt is one step of the scripted peer.
type WirePkt struct {
	Do    string `json:"do"` // start, data, cancel, uncancel, none, garbage, two, initrs, ackrs, emptyrs
	Svc   string `json:"svc,omitempty"`
	Meth  string `json:"meth,omitempty"`
	N     int    `json:"n"` // size of data, -1: no data
	Zero  bool   `json:"zero,omitempty"`
	Comp  bool   `json:"comp,omitempty"`
	Err   string `json:"err,omitempty"`
	Ms    int    `json:"ms,omitempty"`    // pause before
	After int    `json:"after,omitempty"` // wait until this many packets arrived from the side under test
	Unk   bool   `json:"unk,omitempty"`   // append an unknown field
	RsBad bool   `json:"rsBad,omitempty"` // initrs: not an init packet
}

// minimal protobuf encoding

func pbTag(b []byte, f, w int) []byte { return binary.AppendUvarint(b, uint64(f<<3|w)) }
func pbBytes(b []byte, f int, v []byte) []byte {
	b = pbTag(b, f, 2)
	b = binary.AppendUvarint(b, uint64(len(v)))
	return append(b, v...)
}
func pbBool(b []byte, f int, v bool) []byte {
	if !v {
		return b
	}
	return append(pbTag(b, f, 0), 1)
}

type pbField struct {
	num, wt int
	v       uint64
	b       []byte
}

func pbParse(b []byte) ([]pbField, error) {
	var out []pbField
	for len(b) > 0 {
		k, n := binary.Uvarint(b)
		if n <= 0 {
			return nil, errors.New("bad tag")
		}
		b = b[n:]
		f := pbField{num: int(k >> 3), wt: int(k & 7)}
		switch f.wt {
		case 0:
			f.v, n = binary.Uvarint(b)
			if n <= 0 {
				return nil, errors.New("bad varint")
			}
			b = b[n:]
		case 2:
			l, n := binary.Uvarint(b)
			if n <= 0 || l > uint64(len(b)-n) {
				return nil, errors.New("bad length")
			}
			f.b = b[n : n+int(l)]
			b = b[n+int(l):]
		default:
			return nil, fmt.Errorf("unexpected wire type %d", f.wt)
		}
		out = append(out, f)
	}
	return out, nil
}

// wirePacket is a decoded srpc packet.
type wirePacket struct {
	kind       string // start, data, cancel, other
	svc, meth  string
	data       []byte
	zero, comp bool
	err        string
	cancel     bool
}

func (p wirePacket) String() string {
	switch p.kind {
	case "start":
		return fmt.Sprintf("CallStart{%q %q data=%s zero=%v}", p.svc, p.meth, short(p.data), p.zero)
	case "data":
		return fmt.Sprintf("CallData{data=%s zero=%v complete=%v error=%q}", short(p.data), p.zero, p.comp, p.err)
	case "cancel":
		return fmt.Sprintf("CallCancel{%v}", p.cancel)
	}
	return p.kind
}

func decodeSrpc(b []byte) (wirePacket, error) {
	p := wirePacket{kind: "none"}
	fs, err := pbParse(b)
	if err != nil {
		return p, err
	}
	for _, f := range fs {
		switch f.num {
		case 1, 2:
			in, err := pbParse(f.b)
			if err != nil {
				return p, err
			}
			p = wirePacket{kind: "data"}
			if f.num == 1 {
				p.kind = "start"
			}
			for _, g := range in {
				switch {
				case f.num == 1 && g.num == 1:
					p.svc = string(g.b)
				case f.num == 1 && g.num == 2:
					p.meth = string(g.b)
				case f.num == 1 && g.num == 3, f.num == 2 && g.num == 1:
					p.data = g.b
				case f.num == 1 && g.num == 4, f.num == 2 && g.num == 2:
					p.zero = g.v != 0
				case f.num == 2 && g.num == 3:
					p.comp = g.v != 0
				case f.num == 2 && g.num == 4:
					p.err = string(g.b)
				default:
					return p, fmt.Errorf("unknown field %d", g.num)
				}
			}
		case 3:
			p = wirePacket{kind: "cancel", cancel: f.v != 0}
		default:
			return p, fmt.Errorf("unknown packet body %d", f.num)
		}
	}
	return p, nil
}

type protoExec struct {
	r    *Run
	p    *ProtoPlan
	lk   *link
	peer *simConn
	// what the peer wrote: the decoded meaning of its packets, in order, with
	// the number of bytes after which each is complete
	sent    [][]byte
	nwrote  int // packets completely written
	wdone   bool
	wdoneAt time.Time
	wcut    bool // the peer gave up writing (connection gone)
	ended   bool // the peer ended its direction
	got     []wirePacket
	gotBad  string
	gotEnd  error
	gotDone bool
	raw     [][]byte // frames received

	// server under test
	invoked int
	isvc    string
	imeth   string
	hctx    context.Context
	hret    bool
	getterN int
	getter  string
	recvd   [][]byte
	term    error
	resp    []*sendRec
	hsrvEnd bool

	// client under test
	own      *ownClient
	ctx      *trackCtx
	reqs     []*sendRec
	opened   bool
	openErr  error
	halfDone bool
	cclosed  bool
	ccancel  bool
	uerr     error
	uok      bool
	uout     []byte
	cdone    bool
}

// meaning of the packets written by the peer, as the reference model sees them
type protoModel struct {
	started    bool
	startAt    int
	svc, meth  string
	deliver    [][]byte
	completed  bool
	status     string // error text of the completion
	completeAt int
	terminated bool   // the connection must be closed by the side under test
	why        string // protocol error or "cancel"
	at         int
	getter     bool // nested: the component was looked up
	rsErr      bool
}

func (x *protoExec) model(n int) *protoModel {
	m := &protoModel{startAt: -1, completeAt: -1, at: -1}
	server := x.p.Side == "server"
	term := func(i int, why string) {
		if !m.terminated {
			m.terminated, m.why, m.at = true, why, i
		}
	}
	for i := 0; i < n && !m.terminated && !m.rsErr; i++ {
		k := x.p.Pkts[i]
		if x.p.Nest && !server {
			if i == 0 && !x.p.NoAck {
				m.getter = true
				if k.Do != "ackrs" || k.RsBad || k.Err != "" {
					m.rsErr = true
				}
				continue
			}
			switch k.Do {
			case "initrs", "ackrs", "emptyrs":
				continue
			}
		} else if x.p.Nest {
			if i == 0 {
				if k.Do != "initrs" || k.RsBad {
					m.rsErr = true
				} else {
					m.getter = true
				}
				continue
			}
			switch k.Do {
			case "initrs", "ackrs", "emptyrs":
				continue // ignored within the stream
			}
		}
		data := func() []byte {
			if k.N < 0 {
				return nil
			}
			return content(0, 0, i, k.N)
		}
		switch k.Do {
		case "start":
			switch {
			case !server:
				term(i, "call start sent to a client")
			case k.Svc == "" || k.Meth == "":
				term(i, "empty service or method")
			case m.started:
				term(i, "second call start")
			default:
				m.started, m.startAt, m.svc, m.meth = true, i, k.Svc, k.Meth
				if len(data()) > 0 || k.Zero {
					m.deliver = append(m.deliver, data())
				}
			}
		case "data", "two":
			switch {
			case len(data()) == 0 && !k.Comp && k.Err == "" && !k.Zero:
				term(i, "empty data packet")
			case server && !m.started:
				term(i, "data before the call start")
			case m.completed:
				term(i, "data after the completion")
			default:
				if len(data()) > 0 || k.Zero {
					m.deliver = append(m.deliver, data())
				}
				if k.Comp || k.Err != "" {
					m.completed, m.status, m.completeAt = true, k.Err, i
				}
			}
		case "cancel":
			term(i, "cancel")
		case "uncancel":
		case "none", "garbage":
			term(i, "undecodable packet")
		}
	}
	return m
}

// encode builds the bytes of packet i without the length prefix.
func (x *protoExec) encode(i int) []byte {
	k := x.p.Pkts[i]
	var data []byte
	if k.N >= 0 {
		data = content(0, 0, i, k.N)
	}
	var b []byte
	switch k.Do {
	case "start":
		if k.Svc != "" {
			b = pbBytes(b, 1, []byte(k.Svc))
		}
		if k.Meth != "" {
			b = pbBytes(b, 2, []byte(k.Meth))
		}
		if len(data) > 0 {
			b = pbBytes(b, 3, data)
		}
		b = pbBool(b, 4, k.Zero)
		b = pbBytes(nil, 1, b)
	case "data", "two":
		if len(data) > 0 {
			b = pbBytes(b, 1, data)
		}
		b = pbBool(b, 2, k.Zero)
		b = pbBool(b, 3, k.Comp)
		if k.Err != "" {
			b = pbBytes(b, 4, []byte(k.Err))
		}
		b = pbBytes(nil, 2, b)
		if k.Do == "two" {
			// the last body of a packet counts
			b = append(append(pbTag(nil, 3, 0), 1), b...)
		}
	case "cancel":
		b = append(pbTag(nil, 3, 0), 1)
	case "uncancel":
		b = append(pbTag(nil, 3, 0), 0)
	case "none":
		b = pbBytes(nil, 9, []byte("unknown"))
	case "garbage":
		b = []byte{0x0a, 0x7f, 1, 2, 3}
	}
	if k.Unk && k.Do != "garbage" {
		b = pbBytes(b, 15, []byte("future extension"))
	}
	if x.p.Nest {
		switch k.Do {
		case "initrs":
			if k.RsBad {
				b = pbBytes(nil, 2, nil)
			} else {
				b = pbBytes(nil, 1, pbBytes(nil, 1, []byte("comp")))
			}
		case "ackrs":
			if k.RsBad {
				b = pbBytes(nil, 1, nil)
			} else if k.Err != "" {
				b = pbBytes(nil, 2, pbBytes(nil, 1, []byte(k.Err)))
			} else {
				b = pbBytes(nil, 2, nil)
			}
		case "emptyrs":
			b = pbBytes(nil, 3, nil)
		default:
			b = pbBytes(nil, 3, b) // rpcstream data
		}
		b = pbBytes(nil, 1, b) // call data
		b = pbBytes(nil, 2, b) // packet
	}
	return b
}

func frameOf(b []byte) []byte {
	f := make([]byte, 4, 4+len(b))
	binary.LittleEndian.PutUint32(f, uint32(len(b)))
	return append(f, b...)
}

// peerWrite writes the scripted packets.
func (x *protoExec) peerWrite() {
	p, r := x.p, x.r
	left := p.Lim
	put := func(f []byte) bool {
		if p.Lim > 0 {
			if left < len(f) {
				f = f[:left]
				r.fault("truncate")
				_, _ = x.peer.Write(f)
				left = 0
				return false
			}
			left -= len(f)
		}
		_, err := x.peer.Write(f)
		return err == nil
	}
	ok := true
	if p.Nest && p.Side == "server" {
		b := pbBytes(nil, 1, []byte(echo.SRPCEchoerServiceID))
		b = pbBytes(b, 2, []byte("RpcStream"))
		ok = put(frameOf(pbBytes(nil, 1, b)))
	}
	for i := 0; ok && i < len(p.Pkts); i++ {
		k := p.Pkts[i]
		if k.Ms > 0 {
			time.Sleep(time.Duration(k.Ms) * time.Millisecond)
		}
		for w := 0; w < 200 && k.After > len(x.got) && !x.gotDone; w++ {
			time.Sleep(time.Millisecond)
		}
		id := r.begin("peer: packet #%d %s", i, k.Do)
		ok = put(frameOf(x.encode(i)))
		r.end(id, "%v", ok)
		if ok {
			x.nwrote = i + 1
			r.probe("peer-packet")
		}
	}
	x.wcut = !ok
	x.wdone = true
	x.wdoneAt = time.Now()
	if p.EndMs > 0 {
		time.Sleep(time.Duration(p.EndMs) * time.Millisecond)
	}
	switch {
	case p.End == "close" || p.Lim > 0 && left == 0:
		x.ended = true
		r.fault("peer-close")
		_ = x.peer.Close()
	case p.End == "half":
		x.ended = true
		r.fault("peer-half-close")
		_ = x.peer.CloseWrite()
	}
}

// peerRead decodes what the side under test sends.
func (x *protoExec) peerRead() {
	defer func() { x.gotDone = true }()
	hdr := make([]byte, 4)
	for {
		if _, err := io.ReadFull(x.peer, hdr); err != nil {
			x.gotEnd = err
			return
		}
		n := binary.LittleEndian.Uint32(hdr)
		if n == 0 || n > 20<<20 {
			x.gotBad = fmt.Sprintf("a frame of length %d", n)
			return
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(x.peer, b); err != nil {
			x.gotEnd = err
			return
		}
		x.raw = append(x.raw, b)
		pk, err := decodeSrpc(b)
		if err != nil {
			x.gotBad = fmt.Sprintf("an undecodable packet (%v)", err)
			return
		}
		if x.p.Nest {
			inner, ok := x.unnest(pk)
			if !ok {
				continue
			}
			pk = inner
		}
		x.r.logf("peer received %v", pk)
		x.got = append(x.got, pk)
	}
}

// unnest extracts the srpc packet carried by an rpcstream packet.
func (x *protoExec) unnest(pk wirePacket) (wirePacket, bool) {
	if x.p.Side == "client" && len(x.raw) == 1 {
		if pk.kind != "start" || pk.svc != echo.SRPCEchoerServiceID || pk.meth != "RpcStream" || len(pk.data) > 0 || pk.zero {
			x.gotBad = fmt.Sprintf("%v instead of the start of the rpcstream call", pk)
		}
		return pk, false
	}
	if pk.kind != "data" || len(pk.data) == 0 {
		if pk.kind == "data" && pk.err != "" {
			x.hsrvEnd = true
		}
		return pk, false
	}
	fs, err := pbParse(pk.data)
	if err != nil || len(fs) != 1 {
		x.gotBad = "an undecodable rpcstream packet"
		return pk, false
	}
	switch fs[0].num {
	case 1:
		if x.p.Side == "server" || len(x.raw) != 2 || string(fs[0].b) != string(pbBytes(nil, 1, []byte("comp"))) {
			x.gotBad = fmt.Sprintf("an unexpected rpcstream init %q as packet #%d", fs[0].b, len(x.raw))
		}
		x.getter = "ack"
		return pk, false
	case 2:
		if x.p.Side == "client" {
			x.gotBad = "an rpcstream acknowledgement"
		}
		x.getter += "ack"
		if len(fs[0].b) > 0 {
			x.getter += "-error"
		}
		return pk, false
	case 3:
		if x.getter != "ack" {
			x.gotBad = "rpcstream data before the acknowledgement"
		}
		in, err := decodeSrpc(fs[0].b)
		if err != nil {
			x.gotBad = fmt.Sprintf("an undecodable nested packet (%v)", err)
			return pk, false
		}
		return in, true
	}
	x.gotBad = fmt.Sprintf("an rpcstream packet with body %d", fs[0].num)
	return pk, false
}

func (x *protoExec) prop() string {
	if x.p.Side == "client" && x.p.Nest {
		return "C11,C14"
	}
	if x.p.Side == "client" {
		return "C11"
	}
	if x.p.Nest {
		return "C10,C14"
	}
	return "C10"
}

func (x *protoExec) bad(class, f string, a ...any) { x.r.violate(x.prop(), class, f, a...) }

func runProto(r *Run) {
	x := &protoExec{r: r, p: r.Plan.Proto, ctx: newTrackCtx(0)}
	if x.p.Side == "client" {
		x.runClientProto()
	} else {
		x.runServerProto()
	}
}

// server under test

func (x *protoExec) serveCall(svc, meth string, strm srpc.Stream) (bool, error) {
	r, p := x.r, x.p
	x.invoked++
	x.isvc, x.imeth = svc, meth
	if x.invoked > 1 {
		x.bad("invoked-twice", "the handler was invoked %d times for one stream", x.invoked)
		return true, errors.New("invoked twice")
	}
	x.hctx = strm.Context()
	r.probe("handler-invoked")
	script := func(ops []Op) {
		for _, o := range ops {
			switch o.Do {
			case "sleep":
				time.Sleep(time.Duration(o.N) * time.Millisecond)
			case "recv":
				for i := 0; i < o.N && x.srvRecv(strm); i++ {
				}
			case "drain":
				for x.srvRecv(strm) {
				}
			case "send":
				x.send(strm, &x.resp, 1, o.N)
			case "waitctx":
				id := r.begin("handler waits for its context")
				<-strm.Context().Done()
				r.end(id, "")
			}
		}
	}
	g := newGroup()
	if len(p.H2) > 0 {
		g.Go(func() { script(p.H2) })
	}
	script(p.H)
	g.Wait(2 * callBound)
	x.hret = true
	switch p.Ret {
	case "":
		return true, nil
	case "unhandled":
		return false, nil
	}
	return true, retError(p.Ret)
}

func (x *protoExec) send(strm srpc.Stream, to *[]*sendRec, dir, size int) bool {
	s := &sendRec{idx: len(*to), data: content(0, dir, len(*to), size)}
	*to = append(*to, s)
	id := x.r.begin("send #%d (%d bytes)", s.idx, size)
	err := strm.MsgSend(srpc.NewRawMessage(append([]byte(nil), s.data...), false))
	x.r.end(id, "%v", err)
	s.done, s.ok = true, err == nil
	return s.ok
}

func (x *protoExec) srvRecv(strm srpc.Stream) bool {
	m := srpc.NewRawMessage(nil, false)
	id := x.r.begin("receive #%d", len(x.recvd))
	err := strm.MsgRecv(m)
	x.r.end(id, "%v", err)
	if err == nil {
		x.recvd = append(x.recvd, m.GetData())
		return true
	}
	if x.term == nil {
		x.term = err
	} else if x.term == io.EOF && err != io.EOF {
		x.bad("status-changed", "a receive reported the end of the stream, a later one reports %q", err)
	}
	return false
}

// writeFault makes the writes of one end fail while its reads go on.
func (p *ProtoPlan) writeFault(dir int) []Fault {
	if p.WFail <= 0 {
		return nil
	}
	return []Fault{{Kind: "wfail", Dir: dir, Bytes: p.WFail - 1}}
}

func (x *protoExec) runServerProto() {
	p, r := x.p, x.r
	a, b, lk := newLink(p.Net, 0, p.writeFault(1))
	x.peer, x.lk = a, lk
	mux := srpc.NewMux()
	_ = mux.Register(&protoHandler{x})
	var inv srpc.Invoker = mux
	if p.Nest {
		inv = echoMuxFn(func(strm echo.SRPCEchoer_RpcStreamStream) error {
			return rpcstream.HandleRpcStream(strm, func(ctx context.Context, id string) (srpc.Invoker, func(), error) {
				x.getterN++
				if id != "comp" {
					x.bad("wrong-component", "the component getter was asked for %q", id)
				}
				return mux, nil, nil
			})
		})
	}
	srv := srpc.NewServer(inv)
	scx := newTrackCtx(-1)
	g := newGroup()
	hs := newGroup()
	hs.Go(func() { serveStream(scx, srv, b, p.OwnPump, p.OwnPump && p.Net.Seed&1 == 1) })
	g.Go(x.peerWrite)
	if !p.NoRead {
		g.Go(x.peerRead)
	}
	// everything must settle without help once the peer ended or broke the protocol
	time.Sleep(30 * time.Second)
	m := x.model(x.nwrote)
	full := x.wdone && !x.wcut
	x.checkServer(m, full)
	// teardown
	_ = a.Close()
	if !hs.Wait(callBound) || !g.Wait(callBound) {
		x.bad("stuck", "still blocked after the peer closed the connection: %s", strings.Join(r.pending(), "; "))
	}
	time.Sleep(settleTime)
	if x.invoked > 0 && (!x.hret || x.hctx.Err() == nil) {
		x.bad("handler-stuck", "the peer closed the connection, but the handler returned=%v and its context err=%v", x.hret, x.hctx.Err())
	}
	if n := scx.live(); n != 0 {
		r.violate("C10,C12", "context-leak", "%d registration(s) remain on the server's context after the stream ended", n)
	}
	runtime.SimMix(uint64(len(x.recvd))<<8 | uint64(len(x.got)))
}

type protoHandler struct{ x *protoExec }

func (h *protoHandler) GetServiceID() string   { return "svc" }
func (h *protoHandler) GetMethodIDs() []string { return []string{"meth"} }
func (h *protoHandler) InvokeMethod(s, m string, strm srpc.Stream) (bool, error) {
	return h.x.serveCall(s, m, strm)
}

func (x *protoExec) checkServer(m *protoModel, full bool) {
	p := x.p
	known := m.started && m.svc == "svc" && m.meth == "meth"
	if x.gotBad != "" {
		x.bad("bad-wire", "the server sent %s", x.gotBad)
		return
	}
	if x.invoked > 0 && !known {
		// the peer may have written the whole start although its write was reported as failed
		mm := x.model(min(x.nwrote+1, len(p.Pkts)))
		if !(mm.started && mm.svc == "svc" && mm.meth == "meth") {
			x.bad("invoked-wrongly", "the handler was invoked (%q %q) although no valid call start for it was sent", x.isvc, x.imeth)
			return
		}
		m, known = mm, true
	}
	// a nested call ends when the caller fails its side of it
	nestErr := p.Nest && m.completed && m.status != ""
	if known && x.invoked == 0 && !(p.Nest && (x.ended || x.lk.cut)) {
		x.bad("not-invoked", "a valid call start was sent but the handler was not invoked")
		return
	}
	if x.invoked > 0 && (x.isvc != "svc" || x.imeth != "meth") {
		x.bad("misroute", "the handler was invoked with %q %q", x.isvc, x.imeth)
	}
	if p.Nest && m.rsErr && x.getterN > 0 {
		x.bad("component-lookup", "the component was looked up although the stream did not start with an init packet")
	}
	// the handler sees exactly the data the peer sent, in order
	for i, b := range x.recvd {
		all := m.deliver
		if i >= len(all) {
			all = x.model(len(p.Pkts)).deliver
		}
		if i >= len(all) || string(all[i]) != string(b) {
			x.bad("wrong-data", "message #%d received by the handler is %s, which is not what the peer sent (%d messages)", i, short(b), len(m.deliver))
			return
		}
	}
	stopped := x.hret || m.terminated || x.ended || m.rsErr || x.wcut || nestErr
	if x.term != nil {
		clean := m.completed && m.status == ""
		switch {
		case x.term == io.EOF && !clean && !stopped:
			x.bad("false-eof", "the handler saw a clean end of the request stream, but the peer did not complete it (%s)", m.why)
		case x.term == io.EOF && m.completed && m.status != "":
			x.bad("lost-error", "the handler saw a clean end of the request stream, but the peer ended it with the error %q", m.status)
		case x.term == io.EOF && m.terminated && m.why != "cancel" && !m.completed:
			x.bad("false-eof", "the handler saw a clean end of the request stream although the peer broke the protocol: %s", m.why)
		case x.term == io.EOF && m.terminated && m.why == "cancel" && !m.completed:
			x.bad("false-eof", "the handler saw a clean end of the request stream although the peer canceled the call")
		case x.term != io.EOF && !stopped && clean:
			x.bad("wrong-end", "the peer completed its side without error, the handler saw %q", x.term)
		case x.term != io.EOF && m.completed && m.status != "" && x.term.Error() != m.status && !stopped:
			x.bad("wrong-end", "the peer ended its side with the error %q, the handler saw %q", m.status, x.term)
		case !m.completed && !stopped:
			x.bad("wrong-end", "the handler's receive ended with %q although the peer did not end the request stream", x.term)
		}
		if len(x.recvd) < len(m.deliver) && !stopped {
			x.bad("lost-data", "the request stream ended for the handler after %d of %d messages", len(x.recvd), len(m.deliver))
		}
		if len(x.recvd) < len(m.deliver) && m.completed && x.term == io.EOF && !x.hret {
			x.bad("lost-data", "the request stream ended cleanly for the handler after %d of %d messages", len(x.recvd), len(m.deliver))
		}
	}
	// what the server sends
	var nresp, ncomp int
	for i, pk := range x.got {
		switch pk.kind {
		case "data":
			if len(pk.data) > 0 || pk.zero {
				if ncomp > 0 {
					x.bad("data-after-complete", "the server sent %v after the completion of the call", pk)
					return
				}
				if nresp >= len(x.resp) || string(x.resp[nresp].data) != string(pk.data) {
					x.bad("wrong-response", "response #%d sent by the server is %v, which is not what the handler sent", nresp, pk)
					return
				}
				nresp++
			} else if !pk.comp && pk.err == "" {
				x.bad("bad-wire", "the server sent an empty packet %v (#%d)", pk, i)
			}
			if pk.comp || pk.err != "" {
				ncomp++
				if ncomp > 1 {
					x.bad("completed-twice", "the server completed the call %d times", ncomp)
				}
				want := p.Ret
				if !known || want == "unhandled" {
					want = srpc.ErrUnimplemented.Error()
				}
				if !m.started {
					x.bad("completion-without-call", "the server completed a call that never started: %v", pk)
				} else if pk.err != want && (want != emptyText || pk.err == "") || !pk.comp {
					x.bad("wrong-completion", "the server completed the call with %v, the handler returned %q", pk, want)
				}
				if known && !x.hret {
					x.bad("early-completion", "the server completed the call before the handler returned")
				}
			}
		default:
			x.bad("bad-wire", "the server sent %v", pk)
		}
	}
	if x.p.NoRead {
		if (m.terminated || m.rsErr || x.ended && p.End == "close") && x.invoked > 0 && x.hctx.Err() == nil {
			x.bad("not-cancelled", "the peer ended the call (%s), and the context of the handler is still live", m.why)
		}
		return
	}
	hdone := !known && m.started || x.hret
	full = full && !nestErr
	if x.lk.cut {
		full = false
		if hdone && !p.Nest && !x.gotDone {
			x.bad("not-closed", "the handler returned after the server's writes had failed, and the server did not close the stream")
		}
		if x.hret && x.hctx.Err() == nil {
			x.bad("not-cancelled", "the handler returned, and its context is still live")
		}
	}
	switch {
	case m.terminated || m.rsErr:
		// a protocol error or a cancel ends the call: the handler is told and
		// the connection closed
		if x.invoked > 0 && x.hctx.Err() == nil {
			x.bad("not-cancelled", "the call was over (%s), and the context of the handler is still live", m.why)
		}
		if !x.gotDone && !x.p.Nest {
			x.bad("not-closed", "the call was over (%s), and the server did not close the stream", m.why)
		}
	case x.ended:
		if x.invoked > 0 && x.hctx.Err() == nil {
			x.bad("not-cancelled", "the peer closed the connection, and the context of the handler is still live")
		}
		if !x.gotDone {
			x.bad("not-closed", "the peer closed the connection, and the server did not close the stream")
		}
	case hdone && full:
		// an undisturbed call: everything the handler sent arrives, then the completion
		if ncomp != 1 {
			x.bad("no-completion", "the handler returned, and the server sent %d completions", ncomp)
		}
		for _, s := range x.resp {
			if s.ok && s.idx >= nresp {
				x.bad("lost-response", "response #%d whose send succeeded was not sent before the completion", s.idx)
				break
			}
		}
		if !x.gotDone && !p.Nest {
			x.bad("not-closed", "the call completed, and the server did not close the stream")
		}
		if x.invoked > 0 && x.hctx.Err() == nil {
			x.bad("not-cancelled", "the handler returned, and its context is still live")
		}
	case full && known && !x.hret:
		// the handler is still waiting for more: it must have received everything
		if x.hctx.Err() != nil {
			x.bad("cancelled-early", "the context of the handler is cancelled although the call is in progress")
		}
		n := 0
		for _, o := range append(append([]Op(nil), p.H...), p.H2...) {
			if o.Do == "drain" {
				n = 1 << 20
			}
		}
		if n > 0 && x.term == nil && len(x.recvd) < len(m.deliver) && !p.Wait {
			x.bad("lost-data", "the handler is still waiting for messages after %d of %d were delivered", len(x.recvd), len(m.deliver))
		}
		if n > 0 && x.term == nil && m.completed && !p.Wait {
			x.bad("lost-end", "the handler is still waiting for messages although the peer completed the request stream")
		}
	}
	if x.invoked > 0 && !stopped && !m.completed && !x.hret && x.term != nil && x.hctx.Err() == nil {
		x.bad("wrong-end", "the handler's receive failed with %q although the call is in progress", x.term)
	}
}

// client under test

func (x *protoExec) runClientProto() {
	p, r := x.p, x.r
	a, b, lk := newLink(p.Net, 0, p.writeFault(0))
	x.peer, x.lk = b, lk
	opens := 0
	cl := srpc.NewClient(func(ctx context.Context, mh srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
		opens++
		prw := srpc.NewPacketReadWriter(a)
		go prw.ReadPump(mh, ch)
		return prw, nil
	})
	if p.Nest {
		cl = rpcstream.NewRpcStreamClient(echo.NewSRPCEchoerClient(cl).RpcStream, "comp", !p.NoAck)
	}
	if p.OwnRPC && !p.Nest && !p.Unary {
		cl = &ownClient{x: x, prw: srpc.NewPacketReadWriter(a)}
		opens++
	}
	g := newGroup()
	pg := newGroup()
	pg.Go(x.peerWrite)
	if !p.NoRead {
		pg.Go(x.peerRead)
	}
	g.Go(func() { x.clientCall(cl) })
	time.Sleep(30 * time.Second)
	m := x.model(x.nwrote)
	x.checkClient(m)
	if n := x.ctx.live(); n != 0 && x.cdone && (!p.Nest || !p.NoAck && !x.acked()) {
		r.violate("C11,C12", "context-leak", "%d registration(s) remain on the caller's context after the call was over", n)
	}
	_ = b.Close()
	if !g.Wait(callBound) {
		x.bad("stuck", "still blocked after the peer closed the connection: %s", strings.Join(r.pending(), "; "))
	}
	_ = a.Close()
	if !pg.Wait(callBound) {
		x.bad("stuck", "the scripted peer is still blocked: %s", strings.Join(r.pending(), "; "))
	}
	if opens > 1 {
		x.bad("reopened", "the client opened %d streams for one call", opens)
	}
	time.Sleep(settleTime)
	if n := x.ctx.live(); n != 0 && x.cdone {
		r.violate("C11,C12", "context-leak", "%d registration(s) remain on the caller's context after the call", n)
	}
	x.ctx.cancel()
	runtime.SimMix(uint64(len(x.recvd))<<8 | uint64(len(x.got)))
}

// ownClient runs a ClientRPC without the Client.
type ownClient struct {
	x    *protoExec
	prw  *srpc.PacketReadWriter
	rpc  *srpc.ClientRPC
	wend [2]bool // Wait returned: with a live context, with one that ends early
	werr [2]error
	live bool // Wait returned before the caller ended the call
	late bool // Wait had not returned when the caller ended the call, long after the peer was done
}

func (c *ownClient) ExecCall(context.Context, string, string, srpc.Message, srpc.Message) error {
	panic("unused")
}

func (c *ownClient) NewStream(ctx context.Context, svc, meth string, first srpc.Message) (srpc.Stream, error) {
	var data []byte
	if first != nil {
		data, _ = first.MarshalVT()
	}
	c.rpc = srpc.NewClientRPC(ctx, svc, meth)
	c.x.own = c
	wctx, cancel := context.WithTimeout(context.Background(), 7*time.Millisecond)
	for i, ctx := range []context.Context{context.Background(), wctx} {
		go func() {
			id := c.x.r.begin("Wait %d", i)
			c.werr[i] = c.rpc.Wait(ctx)
			c.wend[i] = true
			if i == 0 {
				c.live = !c.x.cclosed && !c.x.ccancel
			}
			c.x.r.end(id, "%v", c.werr[i])
			if i == 1 {
				cancel()
			}
		}()
	}
	go c.prw.ReadPump(c.rpc.HandlePacketData, c.rpc.HandleStreamClose)
	if err := c.rpc.Start(c.prw, first != nil, data); err != nil {
		return nil, err
	}
	return srpc.NewMsgStream(ctx, c.rpc, func() { c.prw.Close() }), nil
}

// checkWait compares what Wait reported with the state of the call.
func (c *ownClient) check(m *protoModel, over bool) {
	x := c.x
	if !c.wend[1] || c.werr[1] == nil && !over && !x.cdone {
		x.bad("wait", "Wait with a context that ended has not returned an error (returned: %v, %v)", c.wend[1], c.werr[1])
	}
	failed := m.completed && m.status != ""
	switch {
	case c.wend[0] && !failed && !over && !x.cdone:
		x.bad("wait", "Wait returned %v although the call is in progress", c.werr[0])
	case !c.wend[0] && (failed && !over || x.cdone || m.terminated || x.ended):
		x.bad("wait", "Wait has not returned although the call is over (completed=%v, %s)", m.completed, m.why)
	case c.late && failed && !x.lk.cut && !x.wcut:
		x.bad("wait", "the server failed the call with %q, Wait had not returned seconds later", m.status)
	case c.wend[0] && failed && x.opened && c.live && !x.lk.cut && !x.wcut && (c.werr[0] == nil || c.werr[0].Error() != m.status):
		x.bad("wait", "the server failed the call with %q, Wait returned %v", m.status, c.werr[0])
	}
}

func (x *protoExec) clientCall(cl srpc.Client) {
	p, r := x.p, x.r
	defer func() { x.cdone = true }()
	if p.Unary {
		s := &sendRec{data: content(0, 1, 0, max(p.First, 0))}
		x.reqs = append(x.reqs, s)
		var out srpc.Message = srpc.NewRawMessage(nil, false)
		if p.Msg {
			out = &echo.EchoMsg{}
		}
		id := r.begin("ExecCall")
		err := cl.ExecCall(x.ctx, "svc", "meth", srpc.NewRawMessage(append([]byte(nil), s.data...), false), out)
		r.end(id, "%v", err)
		s.done, s.ok = true, true
		x.uerr, x.uok = err, err == nil
		if raw, ok := out.(*srpc.RawMessage); ok {
			x.uout = raw.GetData()
		}
		x.cclosed = true
		return
	}
	var first srpc.Message
	if p.First >= 0 {
		s := &sendRec{data: content(0, 1, 0, p.First)}
		x.reqs = append(x.reqs, s)
		first = srpc.NewRawMessage(append([]byte(nil), s.data...), false)
	}
	id := r.begin("NewStream")
	strm, err := cl.NewStream(x.ctx, "svc", "meth", first)
	r.end(id, "%v", err)
	x.openErr = err
	if err != nil {
		return
	}
	if first != nil {
		x.reqs[0].done, x.reqs[0].ok = true, true
	}
	x.opened = true
	script := func(ops []Op) {
		for _, o := range ops {
			switch o.Do {
			case "sleep":
				time.Sleep(time.Duration(o.N) * time.Millisecond)
			case "recv":
				for i := 0; i < o.N && x.srvRecv(strm); i++ {
				}
			case "drain":
				for x.srvRecv(strm) {
				}
			case "send":
				if !x.halfDone {
					x.send(strm, &x.reqs, 1, o.N)
				}
			case "closesend":
				x.halfDone = true
				id := r.begin("CloseSend")
				err := strm.CloseSend()
				r.end(id, "%v", err)
			case "cancel":
				x.ccancel = true
				r.fault("cancel")
				x.ctx.cancel()
			}
		}
	}
	g := newGroup()
	if len(p.C2) > 0 {
		g.Go(func() { script(p.C2) })
	}
	script(p.C)
	g.Wait(2 * callBound)
	if x.own != nil && r.Plan.Seed&3 == 0 {
		time.Sleep(5 * time.Second)
		x.own.late = !x.own.wend[0] && x.wdone && !x.ended && time.Since(x.wdoneAt) > 4*time.Second
	}
	x.cclosed = true
	id = r.begin("Close")
	_ = strm.Close()
	r.end(id, "")
}

// acked: the component of the nested call may have been acknowledged.
func (x *protoExec) acked() bool {
	return len(x.p.Pkts) > 0 && x.nwrote > 0 && x.p.Pkts[0].Do == "ackrs" && x.p.Pkts[0].Err == "" && !x.p.Pkts[0].RsBad
}

func (x *protoExec) checkClient(m *protoModel) {
	p := x.p
	if x.gotBad != "" {
		x.bad("bad-wire", "the client sent %s", x.gotBad)
		return
	}
	// what the client sends
	started, completed, cancelled, nreq := false, false, false, 0
	for i, pk := range x.got {
		if cancelled {
			x.bad("packet-after-cancel", "the client sent %v after its cancel packet", pk)
			return
		}
		if (i == 0) != (pk.kind == "start") {
			x.bad("bad-wire", "packet #%d sent by the client is %v", i, pk)
			return
		}
		switch pk.kind {
		case "start", "data":
			if pk.kind == "start" {
				started = true
				if pk.svc != "svc" || pk.meth != "meth" {
					x.bad("bad-wire", "the client started the call as %v", pk)
				}
				if p.First < 0 && (len(pk.data) > 0 || pk.zero) {
					x.bad("invented-message", "the client sent a first message although there was none: %v", pk)
					return
				}
				if p.First >= 0 && len(pk.data) == 0 && !pk.zero {
					x.bad("lost-message", "the client did not send the (empty) first message: %v", pk)
					return
				}
			}
			if len(pk.data) > 0 || pk.zero {
				if completed {
					x.bad("data-after-complete", "the client sent %v after its half-close", pk)
				}
				if nreq >= len(x.reqs) || string(x.reqs[nreq].data) != string(pk.data) {
					x.bad("wrong-message", "message #%d sent by the client is %v, which is not what the caller sent", nreq, pk)
					return
				}
				if len(pk.data) > 0 && pk.zero {
					x.bad("bad-wire", "the client marked a non-empty message as empty: %v", pk)
				}
				nreq++
			} else if pk.kind == "data" && !pk.comp && pk.err == "" {
				x.bad("bad-wire", "the client sent an empty packet %v", pk)
			}
			if pk.comp || pk.err != "" {
				if !x.halfDone {
					x.bad("invented-end", "the client ended its side (%v) although the caller did not half-close", pk)
				}
				if completed {
					x.bad("completed-twice", "the client completed its side twice")
				}
				completed = true
			}
		case "cancel":
			if !pk.cancel {
				x.bad("bad-wire", "the client sent %v", pk)
			}
			cancelled = true
			if !x.cclosed && !x.ccancel && !m.terminated {
				x.bad("invented-cancel", "the client cancelled the call although the caller did not")
			}
		default:
			x.bad("bad-wire", "the client sent %v", pk)
		}
	}
	if p.Nest && !p.NoAck && len(p.Pkts) > 0 {
		err := x.openErr
		if p.Unary {
			err = x.uerr
		}
		k := p.Pkts[0]
		bad := k.Do != "ackrs" || k.RsBad || k.Err != ""
		if x.nwrote > 0 && bad && !x.ended && !p.NoRead && x.requestWritten() {
			if x.opened || x.uok {
				x.bad("opened-without-ack", "the nested call was opened although the acknowledgement was %+v", k)
			} else if err == nil {
				x.bad("stuck", "opening the nested call did not return although the server answered")
			} else if k.Do == "ackrs" && k.Err != "" && !k.RsBad && !strings.Contains(err.Error(), k.Err) {
				x.bad("ack-error-lost", "the server refused the component with %q, opening failed with %q", k.Err, err)
			}
		}
		if m.rsErr && len(x.got) > 0 {
			x.bad("sent-without-ack", "the client sent %v although the component was not acknowledged", x.got[0])
		}
		if bad {
			return
		}
		if x.nwrote == 0 {
			return // waiting for the acknowledgement
		}
	}
	over := m.terminated || x.ended || x.wcut || x.ccancel || x.lk.cut
	if !p.NoRead && x.opened && !started && !over && x.openErr == nil {
		x.bad("no-start", "the stream was opened but no call start was sent")
	}
	// (Start keeps the call locked while its first write is stalled)
	if x.own != nil && (x.opened || x.openErr != nil) {
		x.own.check(m, over)
	}
	if x.opened && !over && !p.NoRead {
		for _, s := range x.reqs {
			if s.ok && s.idx >= nreq {
				x.bad("lost-message", "message #%d whose send succeeded was never sent to the server", s.idx)
				break
			}
		}
		if x.halfDone && !completed {
			x.bad("lost-end", "the caller half-closed but the server was not told")
		}
		if x.cdone && !cancelled && !p.Unary {
			x.bad("no-cancel", "the caller closed the stream but the server was not told")
		}
	}
	if x.cdone && !x.gotDone && !p.NoRead && !p.Nest {
		if x.opened || p.Unary {
			x.bad("not-closed", "the caller closed the stream, and the client did not close the connection")
		} else {
			x.r.violate("C11,C12", "not-closed", "opening the stream failed with %q, and the client did not close the connection it had opened", x.openErr)
		}
	}
	if !p.Unary && x.openErr != nil && !over && !m.completed {
		x.bad("open-failed", "opening the stream failed with %q although nothing went wrong", x.openErr)
	}
	if m.terminated && !x.gotDone && !p.NoRead && !p.Nest {
		x.bad("not-closed", "the call was over (%s), and the client did not close the connection", m.why)
	}
	// what the client delivers
	if p.Unary {
		if !x.cdone {
			if !p.NoRead && (len(m.deliver) > 0 || m.completed || m.terminated || x.ended) {
				x.bad("stuck", "ExecCall is still blocked although the server answered (%d messages, completed=%v, %s)", len(m.deliver), m.completed, m.why)
			}
			return
		}
		want := x.model(len(p.Pkts))
		switch {
		case x.uok:
			if len(want.deliver) == 0 {
				x.bad("invented-response", "ExecCall succeeded although the server sent no response")
			} else if !p.Msg && string(want.deliver[0]) != string(x.uout) {
				x.bad("wrong-response", "ExecCall returned %s, the server sent %s", short(x.uout), short(want.deliver[0]))
			}
		case len(m.deliver) > 0:
			if p.Msg && len(m.deliver[0]) > 0 {
				break // the response cannot be decoded
			}
			if !x.ccancel && !x.requestLost() {
				x.bad("lost-response", "ExecCall failed with %q although the server had sent a response", x.uerr)
			}
		case m.completed && m.status != "" && x.uerr.Error() != m.status && !x.requestLost():
			x.bad("wrong-status", "the server failed the call with %q, ExecCall returned %q", m.status, x.uerr)
		case x.uerr == io.EOF && !m.completed && !x.requestLost():
			x.bad("false-eof", "ExecCall returned io.EOF although the server did not complete the call")
		}
		return
	}
	want := x.model(len(p.Pkts))
	for i, b := range x.recvd {
		if i >= len(want.deliver) || string(want.deliver[i]) != string(b) {
			x.bad("wrong-data", "message #%d received by the client is %s, which is not what the server sent", i, short(b))
			return
		}
	}
	if x.term == nil {
		drain := false
		for _, o := range append(append([]Op(nil), p.C...), p.C2...) {
			if p.NoRead {
				break // the client may be blocked in a send
			}
			drain = drain || o.Do == "drain"
		}
		if drain && x.opened && !x.cdone && (m.completed || m.terminated || x.ended) {
			x.bad("stuck", "a receive is still blocked although the call is over (completed=%v, %s)", m.completed, m.why)
		}
		if drain && x.opened && !x.cdone && len(x.recvd) < len(m.deliver) {
			x.bad("lost-data", "a receive is still blocked after %d of %d messages", len(x.recvd), len(m.deliver))
		}
		return
	}
	if x.ccancel {
		if x.term == io.EOF && !(want.completed && want.status == "") {
			x.bad("false-eof", "a receive reported a clean end although the server did not complete the call")
		}
		return
	}
	if len(x.recvd) < len(m.deliver) {
		x.bad("lost-data", "the stream ended with %q after %d of %d messages", x.term, len(x.recvd), len(m.deliver))
		return
	}
	switch {
	case m.completed && m.status == "":
		if x.term != io.EOF {
			x.bad("wrong-status", "the server completed the call without error, the client saw %q", x.term)
		}
	case m.completed:
		if x.term.Error() != m.status {
			x.bad("wrong-status", "the server failed the call with %q, the client saw %q", m.status, x.term)
		}
	default:
		if x.term == io.EOF {
			x.bad("false-eof", "the client saw a clean end although the server did not complete the call (%s)", m.why)
		} else if !m.terminated && !x.ended && !x.wcut {
			x.bad("wrong-status", "the client saw %q although the call is in progress", x.term)
		}
	}
}

// requestWritten: the rpcstream was requested.
func (x *protoExec) requestWritten() bool { return len(x.raw) >= 2 }

// requestLost: the call may have been over before the request was written.
func (x *protoExec) requestLost() bool { return len(x.got) == 0 || x.got[0].kind != "start" }

// generation

func genWire(r *RNG, server bool) []WirePkt {
	var out []WirePkt
	n := r.Range(1, 7)
	data := func() WirePkt {
		k := WirePkt{Do: "data", N: genSize(r, 0.05)}
		if k.N == 0 {
			k.Zero = true
		}
		return k
	}
	if server && r.P(0.93) {
		k := WirePkt{Do: "start", Svc: "svc", Meth: "meth", N: -1}
		if r.P(0.5) {
			k.N = genSize(r, 0.05)
			k.Zero = k.N == 0
		}
		switch r.N(24) {
		case 0:
			k.Svc = ""
		case 1:
			k.Meth = ""
		case 2:
			k.Svc = "other"
		case 3:
			k.Meth = "nope"
		case 4:
			k.Svc = "svcx"
		}
		out = append(out, k)
	}
	for i := 0; i < n; i++ {
		switch r.N(16) {
		case 0:
			out = append(out, WirePkt{Do: "cancel", N: -1})
		case 1:
			out = append(out, WirePkt{Do: "uncancel", N: -1})
		case 2:
			if r.P(0.5) {
				out = append(out, WirePkt{Do: pick(r, "none", "garbage"), N: -1})
			}
		case 3:
			if r.P(0.4) {
				out = append(out, WirePkt{Do: "start", Svc: "svc", Meth: pick(r, "meth", "meth", "other"), N: pick(r, -1, 20)})
			}
		case 4:
			if r.P(0.4) {
				out = append(out, WirePkt{Do: "data", N: pick(r, -1, 0)})
			}
		case 5, 6:
			k := WirePkt{Do: "data", N: -1, Comp: true}
			if r.P(0.4) {
				k.N = genSize(r, 0.1)
				k.Zero = k.N == 0
			}
			if r.P(0.4) {
				k.Err = pick(r, errTexts...)
				k.Comp = r.P(0.7)
			}
			out = append(out, k)
		case 7:
			k := data()
			k.Do = "two"
			out = append(out, k)
		default:
			out = append(out, data())
		}
	}
	if r.P(0.4) {
		out = append(out, WirePkt{Do: "data", N: -1, Comp: true})
	}
	for i := range out {
		if r.P(0.2) {
			out[i].Ms = r.Range(1, 30)
		}
		if r.P(0.2) {
			out[i].After = r.Range(1, 3)
		}
		out[i].Unk = r.P(0.06)
	}
	return out
}

func genProto(side string) func(r *RNG, p *Plan) {
	return func(r *RNG, p *Plan) {
		p.Family = "proto"
		q := &ProtoPlan{Side: side, Net: genNet(r, "direct"), First: -1}
		p.Proto = q
		q.Net.Rendez = false
		q.Pkts = genWire(r, side == "server")
		q.End = pick(r, "wait", "wait", "close", "half")
		q.OwnPump = side == "server" && r.P(0.3)
		if r.P(0.3) {
			q.EndMs = r.Range(1, 50)
		}
		if r.P(0.1) {
			q.Lim = r.Range(1, 300)
		}
		q.NoRead = r.P(0.04)
		if r.P(0.06) {
			q.WFail = 1 + r.N(pick(r, 8, 40, 400))
		}
		if side == "server" {
			if r.P(0.3) {
				q.Nest = true
				init := WirePkt{Do: "initrs", N: -1, RsBad: r.P(0.08)}
				q.Pkts = append([]WirePkt{init}, q.Pkts...)
				if r.P(0.2) {
					k := 1 + r.N(len(q.Pkts))
					e := WirePkt{Do: pick(r, "initrs", "ackrs", "emptyrs"), N: -1}
					q.Pkts = append(q.Pkts[:k:k], append([]WirePkt{e}, q.Pkts[k:]...)...)
				}
			}
			n := r.N(5)
			for i := 0; i < n; i++ {
				switch r.N(4) {
				case 0:
					q.H = append(q.H, Op{Do: "recv", N: r.Range(1, 3)})
				case 1:
					q.H = append(q.H, Op{Do: "sleep", N: r.Range(1, 30)})
				default:
					q.H = append(q.H, Op{Do: "send", N: genSize(r, 0.05)})
				}
			}
			switch r.N(5) {
			case 0:
				q.H2 = []Op{{Do: "drain"}}
				for i := range q.H {
					if q.H[i].Do == "recv" {
						q.H[i] = Op{Do: "sleep", N: 1} // one reader only
					}
				}
			case 1:
				q.H = append(q.H, Op{Do: "waitctx"})
				q.Wait = true
			case 2:
			default:
				q.H = append(q.H, Op{Do: "drain"})
			}
			if r.P(0.35) {
				q.Ret = pick(r, retTexts...)
			} else if r.P(0.05) {
				q.Ret = "unhandled"
			}
			return
		}
		if r.P(0.25) {
			q.Nest = true
			q.NoAck = r.P(0.4)
			a := WirePkt{Do: "ackrs", N: -1}
			switch r.N(12) {
			case 0:
				a.Err = pick(r, errTexts...)
			case 1:
				a.RsBad = true
			case 2:
				a.Do = "emptyrs"
			}
			if r.P(0.95) {
				q.Pkts = append([]WirePkt{a}, q.Pkts...)
			}
			if r.P(0.2) && len(q.Pkts) > 1 {
				k := r.Range(1, len(q.Pkts)-1)
				e := WirePkt{Do: pick(r, "initrs", "ackrs", "emptyrs"), N: -1}
				q.Pkts = append(q.Pkts[:k:k], append([]WirePkt{e}, q.Pkts[k:]...)...)
			}
		}
		q.Unary = r.P(0.35)
		q.Msg = q.Unary && r.P(0.2)
		q.OwnRPC = !q.Unary && !q.Nest && r.P(0.3)
		if q.Unary || r.P(0.6) {
			q.First = genSize(r, 0.05)
		}
		n := r.N(5)
		for i := 0; i < n; i++ {
			switch r.N(5) {
			case 0:
				q.C = append(q.C, Op{Do: "recv", N: r.Range(1, 3)})
			case 1:
				q.C = append(q.C, Op{Do: "sleep", N: r.Range(1, 30)})
			default:
				q.C = append(q.C, Op{Do: "send", N: genSize(r, 0.05)})
			}
		}
		if r.P(0.4) {
			q.C = append(q.C, Op{Do: "closesend"})
		}
		if r.P(0.04) {
			q.C = append(q.C, Op{Do: "cancel"})
		}
		if r.P(0.3) {
			q.C2 = []Op{{Do: "drain"}}
			// one reader only
			for i := range q.C {
				if q.C[i].Do == "recv" {
					q.C[i] = Op{Do: "sleep", N: 1}
				}
			}
		} else if r.P(0.8) {
			q.C = append(q.C, Op{Do: "drain"})
		} else {
			q.C = append(q.C, Op{Do: "sleep", N: r.Range(1, 60)})
		}
	}
}

func reduceProto(p *Plan) []*Plan {
	var out []*Plan
	add := func(f func(q *ProtoPlan)) {
		q := clonePlan(p)
		f(q.Proto)
		out = append(out, q)
	}
	b := p.Proto
	if b.OwnPump {
		add(func(q *ProtoPlan) { q.OwnPump = false })
	}
	if b.OwnRPC {
		add(func(q *ProtoPlan) { q.OwnRPC = false })
	}
	for i := range b.Pkts {
		if !(b.Nest && i == 0) {
			add(func(q *ProtoPlan) { q.Pkts = append(q.Pkts[:i], q.Pkts[i+1:]...) })
		}
		if b.Pkts[i].Ms > 0 {
			add(func(q *ProtoPlan) { q.Pkts[i].Ms = 0 })
		}
		if b.Pkts[i].After > 0 {
			add(func(q *ProtoPlan) { q.Pkts[i].After = 0 })
		}
		if b.Pkts[i].Unk {
			add(func(q *ProtoPlan) { q.Pkts[i].Unk = false })
		}
		if b.Pkts[i].N > 20 {
			add(func(q *ProtoPlan) { q.Pkts[i].N = 20 })
		}
	}
	cut := func(get func(q *ProtoPlan) *[]Op) {
		ops := *get(b)
		for i := range ops {
			add(func(q *ProtoPlan) { o := get(q); *o = append((*o)[:i], (*o)[i+1:]...) })
		}
	}
	cut(func(q *ProtoPlan) *[]Op { return &q.H })
	cut(func(q *ProtoPlan) *[]Op { return &q.H2 })
	cut(func(q *ProtoPlan) *[]Op { return &q.C })
	if b.EndMs > 0 {
		add(func(q *ProtoPlan) { q.EndMs = 0 })
	}
	if b.Lim > 0 {
		add(func(q *ProtoPlan) { q.Lim = 0 })
	}
	if b.WFail > 0 {
		add(func(q *ProtoPlan) { q.WFail = 0 })
	}
	if b.Ret != "" {
		add(func(q *ProtoPlan) { q.Ret = "" })
	}
	for _, n := range reduceNet(b.Net) {
		add(func(q *ProtoPlan) { q.Net = n })
	}
	return out
}

func init() {
	families["proto"] = family{runProto, "C10,C11,C12"}
	reducers["proto"] = reduceProto
	propGens["C10"] = genProto("server")
	propGens["C11"] = genProto("client")
}
