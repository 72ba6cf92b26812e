package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/aperturerobotics/starpc/srpc"
	pkgerrors "github.com/pkg/errors"
)

// Op is one step of a client or handler script.
type Op struct {
	Do string `json:"do"`
	N  int    `json:"n,omitempty"` // size, count or milliseconds
	K  int    `json:"k,omitempty"` // concurrency
}

// Abort is a client-side interruption of a call.
type Abort struct {
	Kind string `json:"kind"` // cancel, close, precancel
	AtOp int    `json:"atOp"` // after this many operations of the call began
	Ms   int    `json:"ms,omitempty"`
}

// CallPlan is one RPC.
type CallPlan struct {
	Kind    string `json:"kind"` // unary, stream
	Svc     int    `json:"svc"`  // service number; negative: unknown service, 100+: unknown method
	First   int    `json:"first"`
	StartMs int    `json:"startMs,omitempty"`
	Client  int    `json:"client,omitempty"` // which client connection
	A       []Op   `json:"a,omitempty"`
	B       []Op   `json:"b,omitempty"`
	SA      []Op   `json:"sa,omitempty"`
	SB      []Op   `json:"sb,omitempty"`
	Ret     string `json:"ret,omitempty"`
	Abort   *Abort `json:"abort,omitempty"`
	Proto   bool   `json:"proto,omitempty"`
	BadComp string `json:"badComp,omitempty"`
	BadMsg  string `json:"badMsg,omitempty"` // req: the first message cannot be encoded; out: the response of a unary call does not decode
	NoClose bool   `json:"noClose,omitempty"`
	Adapter bool   `json:"adapter,omitempty"`
	Copy    bool   `json:"copy,omitempty"`   // raw messages that copy their data
	NotFnd  bool   `json:"notFnd,omitempty"` // the handler reports its error as "not found"
	Hold    bool   `json:"hold,omitempty"`   // the handler waits until every other call is over
}

// RPCPlan is a workload over one topology.
type RPCPlan struct {
	Topo    string     `json:"topo"`
	Topo2   string     `json:"topo2,omitempty"`
	Layers  []string   `json:"layers,omitempty"`
	Wrap    []string   `json:"wrap,omitempty"`
	NoRel   bool       `json:"noRel,omitempty"` // component lookups have no release function
	Comp    []string   `json:"comp,omitempty"`  // ids of the component asked for and, behind a proxy, of the remote one
	Net     NetCfg     `json:"net"`
	Clients int        `json:"clients,omitempty"`
	Faults  []Fault    `json:"faults,omitempty"`
	Calls   []CallPlan `json:"calls"`
	Serial  bool       `json:"serial,omitempty"`
	MaxIn   int        `json:"maxIn,omitempty"`   // yamux limit of concurrent incoming streams
	Peer    string     `json:"peer,omitempty"`    // the end of a muxed connection ("client" or "server") that is not set up by the library
	CloseFn bool       `json:"closeFn,omitempty"` // the application wraps streams and packet writers with close functions
	OwnPump bool       `json:"ownPump,omitempty"` // direct: the server side is a ServerRPC pumped by the application
}

// rpcBias steers generation towards a property.
type rpcBias struct {
	topos    []string
	layers   [][]string
	faultP   float64
	faults   []string
	abortP   float64
	aborts   []string
	errP     float64
	unaryP   float64
	unknownP float64
	calls    [2]int
	msgs     int
	bigP     float64
	wrapP    float64
	psendP   float64
	badCompP float64
	protoP   float64
	early    float64 // handler returns without reading everything
	sleepP   float64
	serialP  float64
	clients  int
	nocloseP float64
	longP    float64 // streams of many small messages
	holdP    float64 // handlers that wait for all other calls
	slowP    float64 // handlers that read late
	crowdP   float64 // many calls at once
	idleP    float64 // long silence
}

func genSize(r *RNG, bigP float64) int {
	if r.P(bigP) {
		return pick(r, 2043, 2044, 2048, 4096, 9000, 70000, 300000)
	}
	switch r.N(8) {
	case 0:
		return 0
	case 1:
		return r.Range(1, 8)
	case 2:
		return r.Range(100, 900)
	default:
		return r.Range(12, 48)
	}
}

var errTexts = []string{"boom", "deadline: quota exceeded", "EOF", "unimplemented", "context canceled", "bad \x00 byte", "x", "ünïcode failure", "unexpected packet after rpc was completed"}

// emptyText stands for a handler error whose text is empty.
const emptyText = "<empty>"

var retTexts = append([]string{emptyText}, errTexts...)

// retSpecial are well-known errors a handler may return.
var retSpecial = map[string]error{
	"!canceled": context.Canceled,
	"!deadline": context.DeadlineExceeded,
	"!eof":      io.EOF,
	"!ueof":     io.ErrUnexpectedEOF,
	"!unimpl":   srpc.ErrUnimplemented,
	"!complete": srpc.ErrCompleted,
	"!long":     errors.New(strings.Repeat("the disk of the third replica is full; ", 130)),
	"!wrapped":  fmt.Errorf("reading the request: %w", io.EOF),
	"!wrapped2": fmt.Errorf("calling the backend: %w", context.Canceled),
	"!wrapped3": pkgerrors.Wrap(pkgerrors.Wrap(srpc.ErrUnimplemented, "inner"), "outer"),
	"!wrapped4": pkgerrors.WithMessage(errors.New("cause"), "message"),
	"!spaces":   errors.New("  two lines\n\tand spaces \n"),
}

var retNames = []string{"!canceled", "!canceled", "!deadline", "!eof", "!eof", "!ueof", "!unimpl", "!complete", "!long", "!wrapped", "!wrapped2", "!wrapped3", "!wrapped4", "!spaces"}

// retError is the error a handler returns.
func retError(text string) error {
	if text == emptyText {
		return errors.New("")
	}
	if err := retSpecial[text]; err != nil {
		return err
	}
	return errors.New(text)
}

func genNet(r *RNG, topo string) NetCfg {
	n := NetCfg{Seed: r.U64()}
	if r.P(0.5) {
		n.Chunk = pick(r, 1, 3, 7, 16, 64, 512, 4000)
	}
	if r.P(0.4) {
		n.DelayP = pick(r, 0.02, 0.1, 0.5)
		n.MaxMs = pick(r, 1, 5, 20)
	}
	if r.P(0.3) {
		n.Cap = pick(r, 64, 300, 5000)
	}
	if topo == "direct" && r.P(0.2) {
		n.Rendez = true
	}
	if r.P(0.3) {
		n.EOFData = true
	}
	return n
}

func genRPC(r *RNG, b rpcBias) *RPCPlan {
	p := &RPCPlan{Topo: pick(r, b.topos...)}
	if len(b.layers) > 0 {
		p.Layers = b.layers[r.N(len(b.layers))]
	}
	for _, l := range p.Layers {
		if l == "proxy" {
			p.Topo2 = pick(r, "pipe", "direct", "yamux")
		}
	}
	if len(p.Layers) > 0 && r.P(0.25) {
		ids := []string{"comp", "", "a/b c/\u00e9", "remote-comp", strings.Repeat("id", 300), "x", "/lead/", " spaced ", "UPPER"}
		p.Comp = []string{pick(r, ids...), pick(r, ids...)}
	}
	p.NoRel = len(p.Layers) > 0 && r.P(0.1)
	p.Net = genNet(r, p.Topo)
	if r.P(b.wrapP) {
		for _, w := range []string{"vclient", "set", "prefix", "vmux", "fallback", "slice", "prefixinv"} {
			if r.P(0.3) {
				p.Wrap = append(p.Wrap, w)
			}
		}
	}
	p.Clients = 1
	if b.clients > 1 && (p.Topo == "yamuxlis" || p.Topo == "dial" || p.Topo == "ws") {
		p.Clients = r.Range(1, b.clients)
	}
	p.OwnPump = p.Topo == "direct" && r.P(0.3)
	switch p.Topo {
	case "yamux", "yamuxlis":
		if r.P(0.15) {
			p.Peer = pick(r, "client", "server")
		}
	}
	p.CloseFn = r.P(0.1)
	if r.P(0.1) && (p.Topo == "direct" || p.Topo == "yamux" || p.Topo == "rwc") {
		p.Net.ZeroR = pick(r, 0.1, 0.5, 1)
	}
	nc := r.Range(b.calls[0], b.calls[1])
	p.Serial = r.P(b.serialP)
	for i := 0; i < nc; i++ {
		c := genCall(r, b, p)
		if p.Clients > 1 {
			c.Client = r.N(p.Clients)
		}
		p.Calls = append(p.Calls, c)
	}
	if r.P(b.crowdP) {
		// many calls at once: all but two wait for the end of the others
		crowd := pick(r, 20, 40, 70, 140, 200)
		p.Calls, p.Serial = p.Calls[:1], false
		for i := 0; i < crowd; i++ {
			c := CallPlan{Kind: "stream", Svc: r.N(3), First: -1, Hold: true, SA: []Op{{Do: "hold"}, {Do: "send", N: 20}}, A: []Op{{Do: "recv", N: 1}, {Do: "drain"}}}
			p.Calls = append(p.Calls, c)
		}
		c := CallPlan{Kind: "unary", StartMs: 1000 + r.N(100), Svc: r.N(3), First: 20, SA: []Op{{Do: "recv", N: 1}, {Do: "send", N: 30}}}
		p.Calls = append(p.Calls, c)
		p.Calls[0].StartMs = 900
		p.Net.Chunk, p.Net.DelayP, p.Net.Cap = 0, 0, 0
		return p
	}
	if r.P(b.idleP) {
		// long silence: before a call, or within one
		c := &p.Calls[r.N(len(p.Calls))]
		ms := pick(r, 11000, 16000, 31000, 61000, 121000)
		switch {
		case r.P(0.4):
			c.StartMs = ms
		case r.P(0.5) && len(c.SA) > 0:
			i := r.N(len(c.SA))
			c.SA = append(c.SA[:i:i], append([]Op{{Do: "sleep", N: ms}}, c.SA[i:]...)...)
		case c.Kind == "stream":
			i := r.N(len(c.A) + 1)
			c.A = append(c.A[:i:i], append([]Op{{Do: "sleep", N: ms}}, c.A[i:]...)...)
		}
	}
	if r.P(b.faultP) && p.Topo != "pipe" {
		nf := 1
		if r.P(0.2) {
			nf = 2
		}
		for i := 0; i < nf; i++ {
			f := Fault{Kind: pick(r, b.faults...), Dir: r.N(2)}
			if (p.Topo == "rwc" || p.Topo == "ws") && r.P(0.15) {
				f.Kind = pick(r, "clictx", "srvctx")
			}
			if p.Topo == "direct" {
				f.Conn = r.N(nc)
			} else if p.Clients > 1 {
				f.Conn = r.N(p.Clients)
			}
			if p.Topo2 != "" && r.P(0.5) {
				f.Conn = 100
				if p.Topo2 == "direct" {
					f.Conn += r.N(nc)
				}
			}
			switch r.N(4) {
			case 0:
				f.Bytes = r.N(40)
			case 1:
				f.Bytes = r.N(200)
			case 2:
				f.Bytes = r.N(3000)
			default:
				f.Bytes = -1
				f.AtMs = r.N(30)
			}
			switch f.Kind {
			case "stall":
				f.DurMs = pick(r, 1, 10, 100, 3000)
			case "wfail":
				if len(p.Layers) > 0 {
					// (the writer of a nested call half-closes: it cannot end a
					// connection that only carries data the other way)
					f.Kind = "reset"
				}
				f.DurMs = pick(r, 20, 16000, 60000)
			case "partition":
				f.DurMs = pick(r, 10, 1000, 4000, 30000, 120000)
			}
			if p.Topo2 == "pipe" && f.Conn >= 100 {
				f.Conn = 0
			}
			p.Faults = append(p.Faults, f)
		}
	}
	return p
}

func genCall(r *RNG, b rpcBias, p *RPCPlan) CallPlan {
	c := CallPlan{Kind: "stream", Svc: r.N(3), First: -1}
	c.Proto = r.P(b.protoP)
	c.Copy = !c.Proto && r.P(0.25)
	if r.P(b.unknownP) {
		if r.P(0.5) {
			c.Svc = -1
		} else {
			c.Svc += 100
		}
	}
	if len(p.Layers) > 0 && r.P(b.badCompP) {
		c.BadComp = pick(r, "nil", "err", "nil", "err", "errempty", "errrel", "openerr", "relnil", "err1", "errlong")
	}
	if r.P(0.3) {
		c.StartMs = r.N(20)
	}
	if r.P(b.errP) {
		c.Ret = pick(r, retTexts...)
		if r.P(0.3) {
			c.Ret = pick(r, retNames...)
		}
		c.NotFnd = r.P(0.1)
	}
	if r.P(b.unaryP) {
		c.Kind = "unary"
		c.First = genSize(r, b.bigP)
		c.SA = []Op{{Do: "recv", N: 1}}
		if r.P(b.sleepP) {
			c.SA = append(c.SA, Op{Do: "sleep", N: r.Range(1, 30)})
		}
		if r.P(0.1) {
			c.SA = append(c.SA, Op{Do: "drain"})
		}
		if c.Ret == "" {
			c.SA = append(c.SA, Op{Do: "send", N: genSize(r, b.bigP)})
			if r.P(b.sleepP / 2) {
				c.SA = append(c.SA, Op{Do: "sleep", N: r.Range(1, 30)})
			}
		}
		// a drain in a unary handler only ends when the client goes away
		for i := range c.SA {
			if c.SA[i].Do == "drain" {
				c.SA = append(c.SA[:i], c.SA[i+1:]...)
				break
			}
		}
		if c.Svc < 0 || c.Svc >= 100 {
			c.SA = nil
		}
	} else {
		genStream(r, b, &c)
	}
	if c.Svc >= 0 && c.Svc < 100 && c.BadComp == "" && r.P(0.04) {
		c.BadMsg = "req"
		if c.Kind == "unary" {
			c.BadMsg = pick(r, "req", "out")
		}
	}
	if nothold := c.Svc < 0 || c.Svc >= 100; !nothold && !p.Serial && r.P(b.holdP) {
		c.Hold = true
		i := r.N(len(c.SA) + 1)
		c.SA = append(c.SA[:i:i], append([]Op{{Do: "hold"}}, c.SA[i:]...)...)
	}
	if r.P(b.abortP) {
		c.Abort = &Abort{Kind: pick(r, b.aborts...), AtOp: r.N(2 + 2*(len(c.A)+len(c.SA)))}
		if r.P(0.2) {
			c.Abort.Ms = r.N(30)
		}
		if r.P(0.4) {
			// the handler stays until it notices
			c.SA = append(c.SA, Op{Do: "waitctx"})
		} else if r.P(0.3) && len(c.SB) == 0 {
			c.SA = append(c.SA, Op{Do: "drain"})
		}
	}
	return c
}

func genStream(r *RNG, b rpcBias, c *CallPlan) {
	if r.P(0.4) {
		c.First = genSize(r, b.bigP)
	}
	n := r.N(b.msgs + 1)
	mode := r.N(4) // 0 bidi, 1 server stream, 2 client stream, 3 echo-like
	if r.P(b.longP) {
		n = r.N(3)
		c.Proto = false
	}
	type ev struct {
		c2s  bool
		size int
	}
	var evs []ev
	for i := 0; i < n; i++ {
		e := ev{size: genSize(r, b.bigP)}
		switch mode {
		case 0:
			e.c2s = r.P(0.5)
		case 1:
			e.c2s = false
		case 2:
			e.c2s = true
		case 3:
			e.c2s = i%2 == 0
		}
		evs = append(evs, e)
	}
	var a, bb, sa, sb []Op
	split := r.P(0.3)
	ssplit := r.P(0.25)
	add := func(main *[]Op, alt *[]Op, useAlt bool, o Op) {
		if r.P(b.sleepP * 0.3) {
			*main = append(*main, Op{Do: "sleep", N: r.Range(1, 20)})
		}
		if useAlt {
			*alt = append(*alt, o)
		} else {
			*main = append(*main, o)
		}
	}
	if c.First >= 0 {
		add(&sa, &sb, ssplit, Op{Do: "recv", N: 1})
	}
	for _, e := range evs {
		if e.c2s {
			if r.P(b.psendP) {
				k := r.Range(2, 4)
				a = append(a, Op{Do: "psend", N: 20 + r.N(40), K: k})
				add(&sa, &sb, ssplit, Op{Do: "recv", N: k})
				continue
			}
			a = append(a, Op{Do: "send", N: e.size})
			add(&sa, &sb, ssplit, Op{Do: "recv", N: 1})
		} else {
			if r.P(b.psendP) {
				k := r.Range(2, 4)
				sa = append(sa, Op{Do: "psend", N: 20 + r.N(40), K: k})
				add(&a, &bb, split, Op{Do: "recv", N: k})
				continue
			}
			sa = append(sa, Op{Do: "send", N: e.size})
			add(&a, &bb, split, Op{Do: "recv", N: 1})
		}
	}
	if b.longP > 0 && r.P(b.longP) {
		// a burst the receiver reads only after it arrived
		k := pick(r, 30, 70, 140, 300)
		if r.P(0.15) {
			k = pick(r, 700, 1300, 2200)
		}
		o := Op{Do: "sendn", N: r.N(40), K: k}
		if r.P(0.5) {
			a = append(a, o)
			sa = append(sa, Op{Do: "sleep", N: r.Range(1, 60)})
			add(&sa, &sb, ssplit, Op{Do: "recv", N: k})
		} else {
			sa = append(sa, o)
			a = append(a, Op{Do: "sleep", N: r.Range(1, 60)})
			add(&a, &bb, split, Op{Do: "recv", N: k})
		}
	}
	if r.P(0.06) {
		k, o := &a, Op{Do: pick(r, "badsend", "badsend", "badrecv")}
		if r.P(0.5) {
			k = &sa
		}
		i := r.N(len(*k) + 1)
		if o.Do == "badsend" {
			*k = append((*k)[:i:i], append([]Op{o}, (*k)[i:]...)...)
		} else if i < len(*k) && (*k)[i].Do == "recv" && (*k)[i].N <= 1 {
			(*k)[i] = o
		}
	}
	early := r.P(b.early)
	closeSend := r.P(0.6)
	if closeSend {
		a = append(a, Op{Do: "closesend"})
		if r.P(0.2) {
			// half-closing again changes nothing
			if r.P(0.6) {
				a = append(a, Op{Do: "sleep", N: r.Range(1, 30)})
			}
			a = append(a, Op{Do: "closesend"})
		}
		if !early {
			if ssplit {
				sb = append(sb, Op{Do: "drain"})
			} else {
				sa = append(sa, Op{Do: "drain"})
			}
			// after the half-close the other direction must still work
			if r.P(0.5) {
				k := r.N(3)
				for i := 0; i < k; i++ {
					sa = append(sa, Op{Do: "send", N: genSize(r, b.bigP)})
				}
			}
		}
	}
	if !early && r.P(b.slowP) {
		// everything the client sends waits in the queue of the handler
		sa = append([]Op{{Do: "sleep", N: r.Range(5, 80)}}, sa...)
	}
	if early && len(sa) > 0 {
		sa = sa[:r.N(len(sa)+1)]
		// without the responses the peer may never send what sb waits for
		sb = nil
	}
	if split {
		bb = append(bb, Op{Do: "drain"})
	} else {
		a = append(a, Op{Do: "drain"})
	}
	c.A, c.B, c.SA, c.SB = a, bb, sa, sb
	c.NoClose = r.P(b.nocloseP)
	if c.Svc < 0 || c.Svc >= 100 {
		c.SA, c.SB = nil, nil
	}
}
