package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
)

// FramePlan drives the packet framing directly.
type FramePlan struct {
	Net     NetCfg   `json:"net"`
	Writers []FrameW `json:"writers"`
	HErrAt  int      `json:"hErrAt,omitempty"` // the packet handler fails at this packet (1-based)
	End     string   `json:"end"`              // close, wclose, rclose, bad-zero, bad-huge, bad-max, partial, fault
	Part    int      `json:"part,omitempty"`   // partial: bytes of a further frame that arrive before the end
	EndMs   int      `json:"endMs,omitempty"`
	Faults  []Fault  `json:"faults,omitempty"`
	SlowMs  int      `json:"slowMs,omitempty"` // the handler takes this long per packet
	Wrap    bool     `json:"wrap,omitempty"`   // write through NewPacketWriterWithClose
	Two     bool     `json:"two,omitempty"`    // traffic in both directions
}

// FrameW is one concurrent writer.
type FrameW struct {
	Sizes []int `json:"sizes"`
	Raw   bool  `json:"raw,omitempty"` // writes complete frames with Write
	Ms    int   `json:"ms,omitempty"`
}

type frameExec struct {
	r *Run
	p *FramePlan
}

// frameSide checks one reading side.
type frameSide struct {
	x        *frameExec
	name     string
	want     [][]*srpc.Packet // per writer
	wire     [][][]byte
	done     []int    // writes finished successfully per writer
	front    []string // possible numbers of packets delivered per writer
	n        int
	inCb     bool
	closedN  int
	closeErr error
	herr     error
	hfail    bool
}

var errHandler = errors.New("handler rejects the packet")

func framePacket(dir, w, i, size int) *srpc.Packet {
	b := content(w, dir, i, size)
	switch {
	case i%5 == 3:
		return srpc.NewCallStartPacket(fmt.Sprintf("s%d", w), fmt.Sprintf("m%d", i), b, len(b) == 0)
	case i%7 == 6:
		return srpc.NewCallDataPacket(b, len(b) == 0, true, fmt.Errorf("e%d.%d", w, i))
	default:
		return srpc.NewCallDataPacket(b, false, true, nil)
	}
}

func (s *frameSide) prepare(dir int) {
	p := s.x.p
	for wi, w := range p.Writers {
		var ps []*srpc.Packet
		var ws [][]byte
		for i, n := range w.Sizes {
			pk := framePacket(dir, wi, i, n)
			if over := pk.SizeVT() - 10_000_000; over > 0 {
				// the largest packet a reader accepts
				pk = framePacket(dir, wi, i, n-over)
			}
			b, err := pk.MarshalVT()
			if err != nil {
				panic(err)
			}
			ps = append(ps, pk)
			ws = append(ws, b)
		}
		s.want = append(s.want, ps)
		s.wire = append(s.wire, ws)
	}
	s.done = make([]int, len(p.Writers))
	s.front = []string{string(make([]byte, len(p.Writers)))}
}

// packet is the packet handler.
//
//go:norace
func (s *frameSide) packet(data []byte) error {
	r := s.x.r
	if s.inCb {
		r.violate("C08,C09", "concurrent-callback", "%s: the packet handler was called while another call to it was in progress", s.name)
	}
	if s.closedN > 0 {
		r.violate("C08", "packet-after-close", "%s: a packet was delivered after the close handler", s.name)
	}
	if s.hfail {
		r.violate("C08", "packet-after-error", "%s: a packet was delivered after the handler had returned an error", s.name)
	}
	s.inCb = true
	defer func() { s.inCb = false }()
	s.n++
	if s.x.p.SlowMs > 0 {
		time.Sleep(time.Duration(s.x.p.SlowMs) * time.Millisecond)
	}
	// the packet must be the next one of some writer
	var next []string
	seen := map[string]bool{}
	for _, f := range s.front {
		for w := range s.wire {
			if k := int(f[w]); k < len(s.wire[w]) && string(s.wire[w][k]) == string(data) {
				v := []byte(f)
				v[w]++
				if !seen[string(v)] && len(next) < 500 {
					seen[string(v)] = true
					next = append(next, string(v))
				}
			}
		}
	}
	if len(next) == 0 {
		cls, what := "corrupt-packet", "which is not the next packet of any writer and was never sent"
		for w := range s.wire {
			for i := range s.wire[w] {
				if string(s.wire[w][i]) == string(data) {
					if i < int(s.front[0][w]) {
						cls, what = "duplicate-packet", "which was delivered before"
					} else {
						cls, what = "lost-packet", fmt.Sprintf("packet #%d of writer %d, while its packet #%d is missing", i, w, s.front[0][w])
					}
				}
			}
		}
		r.violate("C08,C09", cls, "%s: packet %d delivered is %s (%d bytes), %s", s.name, s.n, short(data), len(data), what)
		return errHandler
	}
	s.front = next
	r.probe("packet-delivered")
	if s.x.p.HErrAt == s.n {
		s.hfail = true
		s.herr = errHandler
		r.fault("handler-error")
		return errHandler
	}
	return nil
}

//go:norace
func (s *frameSide) closed(err error) {
	s.closedN++
	s.closeErr = err
	if s.closedN > 1 {
		s.x.r.violate("C08", "closed-twice", "%s: the close handler was called %d times", s.name, s.closedN)
	}
	if s.inCb {
		s.x.r.violate("C08", "concurrent-callback", "%s: the close handler was called while the packet handler was running", s.name)
	}
	s.x.r.probe("stream-closed")
}

func runFrame(r *Run) {
	x := &frameExec{r, r.Plan.Frame}
	p := x.p
	a, b, lk := newLink(p.Net, 0, p.Faults)
	pa, pb := srpc.NewPacketReadWriter(a), srpc.NewPacketReadWriter(b)
	rd := &frameSide{x: x, name: "reader"}
	rd.prepare(0)
	ra := &frameSide{x: x, name: "reverse reader"}
	if p.Two {
		ra.prepare(1)
	}
	pumps := newGroup()
	pumps.Go(func() { pb.ReadPump(rd.packet, rd.closed) })
	if p.Two {
		pumps.Go(func() { pa.ReadPump(ra.packet, ra.closed) })
	}
	ws := newGroup()
	start := func(s *frameSide, prw *srpc.PacketReadWriter) {
		var pw srpc.PacketWriter = prw
		closeN := 0
		if p.Wrap {
			pw = srpc.NewPacketWriterWithClose(prw, func() error { closeN++; return nil })
		}
		for wi, w := range p.Writers {
			ws.Go(func() {
				if w.Ms > 0 {
					time.Sleep(time.Duration(w.Ms) * time.Millisecond)
				}
				for i := range w.Sizes {
					id := r.begin("%s: writer %d packet #%d (%d bytes)", s.name, wi, i, len(s.wire[wi][i]))
					var err error
					if w.Raw {
						fr := make([]byte, 4+len(s.wire[wi][i]))
						binary.LittleEndian.PutUint32(fr, uint32(len(fr)-4))
						copy(fr[4:], s.wire[wi][i])
						_, err = prw.Write(fr)
					} else {
						err = pw.WritePacket(s.want[wi][i])
					}
					r.end(id, "%v", err)
					if err != nil {
						if !lk.cut && !lk.closed[0] && !lk.closed[1] {
							r.violate("C08,C09", "write-failed", "%s: writer %d packet #%d failed with %q although the transport is healthy", s.name, wi, i, err)
						}
						return
					}
					s.done[wi] = i + 1
				}
			})
		}
	}
	start(rd, pa)
	if p.Two {
		start(ra, pb)
	}
	if p.End == "rclose" || p.End == "wclose" {
		time.Sleep(time.Duration(p.EndMs) * time.Millisecond)
		r.fault(p.End)
		lk.cut = true
		if p.End == "rclose" {
			_ = pb.Close()
		} else {
			_ = pa.Close()
		}
	}
	if p.HErrAt > 0 {
		// the reader stops reading: writers may block until the transport is closed
		ws.Wait(5 * time.Second)
		lk.cut = true
		_ = pa.Close()
		_ = pb.Close()
	}
	if !ws.Wait(callBound) {
		r.violate("C08,C09", "stuck", "writers still blocked after %v; %v", callBound, r.pending())
	}
	// the end of the stream
	wantErr := ""
	healthy := !lk.cut && p.HErrAt == 0
	var tail []byte
	switch p.End {
	case "bad-zero":
		tail = []byte{0, 0, 0, 0, 1, 0, 0, 0, 9}
		wantErr = "error"
		r.fault("zero-length-frame")
	case "bad-huge":
		var h [8]byte
		binary.LittleEndian.PutUint32(h[:], uint32(10_000_001+p.Part*100_003))
		tail = h[:]
		wantErr = "error"
		r.fault("oversized-frame")
	case "bad-max":
		tail = []byte{0xff, 0xff, 0xff, 0xff, 1, 2, 3}
		wantErr = "error"
		r.fault("oversized-frame")
	case "partial":
		fr := make([]byte, 4+40)
		binary.LittleEndian.PutUint32(fr, 40)
		copy(fr[4:], content(1, 2, 3, 40))
		tail = fr[:1+p.Part%43]
		wantErr = "error"
		r.fault("partial-frame")
	default:
		wantErr = "clean"
	}
	if strings.HasPrefix(p.End, "bad-") && p.Part%2 == 1 {
		tail = tail[:4] // nothing follows the length
	}
	if wantErr == "error" {
		// the reader may stop reading: do not wait for the write
		tw := newGroup()
		tw.Go(func() {
			for len(tail) > 0 {
				n, err := a.Write(tail)
				if err != nil {
					return
				}
				tail = tail[n:]
			}
		})
		if p.End == "partial" {
			tw.Wait(time.Minute)
		} else {
			// must be rejected without waiting for the rest
			if !x.waitClosed(rd, 60*time.Second) && healthy {
				r.violate("C08", "bad-frame-accepted", "reader: a frame with an invalid length (%s) was not rejected", p.End)
			}
		}
	}
	a.CloseWrite()
	if p.Two {
		b.CloseWrite()
	}
	if !pumps.Wait(callBound) {
		r.violate("C08", "stuck", "the read pump did not end after the transport was closed; %v", r.pending())
	}
	_ = a.Close()
	_ = b.Close()
	healthy = healthy && !lk.cut
	for _, s := range []*frameSide{rd, ra} {
		if s == ra && !p.Two {
			continue
		}
		if s.closedN != 1 {
			r.violate("C08", "no-close", "%s: the close handler was called %d times", s.name, s.closedN)
			continue
		}
		if s.hfail {
			if s.closeErr != errHandler {
				r.violate("C08", "wrong-close-error", "%s: the packet handler failed, the close handler got %v", s.name, s.closeErr)
			}
			continue
		}
		if healthy && s == rd {
			all := false
			for _, f := range s.front {
				eq := true
				for w := range s.done {
					eq = eq && s.done[w] == int(f[w])
				}
				all = all || eq
			}
			if !all {
				r.violate("C08,C09", "lost-tail", "%s: the packets delivered per writer are %v, the packets written successfully %v", s.name, []byte(s.front[0]), s.done)
			}
			if wantErr == "error" && s.closeErr == nil {
				r.violate("C08", "bad-end-hidden", "%s: the stream ended with %s and the close handler was told it ended cleanly", s.name, p.End)
			}
			if wantErr == "clean" && s.closeErr != nil && s.closeErr != io.EOF {
				r.violate("C08", "clean-end-error", "%s: the stream ended cleanly between frames and the close handler got %q", s.name, s.closeErr)
			}
		}
		// a stream that was cut inside a frame must not look like a clean end
		if lk.cut && s.closeErr == nil && lk.h[boolInt(s == ra)].cutInside(s) {
			r.violate("C08", "truncation-hidden", "%s: the stream was cut inside a frame and the close handler was told it ended cleanly", s.name)
		}
	}
	runtime.SimMix(uint64(rd.n))
}

// cutInside reports whether the bytes handed to the reader end inside a frame.
func (h *half) cutInside(s *frameSide) bool {
	n := 0
	for w := range s.wire {
		for i := 0; i < int(s.front[0][w]); i++ {
			n += 4 + len(s.wire[w][i])
		}
	}
	return h.consumed > n
}

func (x *frameExec) waitClosed(s *frameSide, d time.Duration) bool {
	for t := time.Duration(0); t < d; t += 250 * time.Millisecond {
		if s.closedN > 0 {
			return true
		}
		time.Sleep(250 * time.Millisecond)
	}
	return s.closedN > 0
}

func genFrame(conc bool) func(r *RNG, p *Plan) {
	return func(r *RNG, p *Plan) {
		p.Family = "frame"
		f := &FramePlan{Net: genNet(r, "direct")}
		if r.P(0.15) {
			f.Net.ZeroR = pick(r, 0.1, 0.5, 1)
		}
		p.Frame = f
		f.Net.Rendez = r.P(0.15)
		if r.P(0.35) {
			f.Net.ShortW = pick(r, 0.05, 0.3, 0.9)
		}
		nw := 1
		if conc || r.P(0.3) {
			nw = r.Range(2, 5)
		}
		for i := 0; i < nw; i++ {
			w := FrameW{}
			n := r.Range(1, 8)
			for k := 0; k < n; k++ {
				w.Sizes = append(w.Sizes, frameSize(r))
			}
			// Write of a raw frame is atomic only if the transport takes it whole
			w.Raw = r.P(0.1) && f.Net.ShortW == 0
			if r.P(0.2) {
				w.Ms = r.N(10)
			}
			f.Writers = append(f.Writers, w)
		}
		huge := false
		if !conc && r.P(0.005) {
			f.Writers[0].Sizes[0] = pick(r, 9_999_990, 9_000_000, 2_100_000)
			f.Net.Cap = 1 << 25
			f.Net.Rendez = false
			huge = true
			if f.Net.Chunk > 0 && f.Net.Chunk < 512 {
				f.Net.Chunk = 4000
			}
		}
		if f.Net.Cap > 0 && f.Net.Cap < 16384 || f.Net.Rendez {
			// keep the run short
			for _, w := range f.Writers {
				for k := range w.Sizes {
					if w.Sizes[k] > 5000 {
						w.Sizes[k] = 5000 - w.Sizes[k]%500
					}
				}
			}
		}
		f.End = pick(r, "close", "close", "close", "rclose", "wclose", "bad-zero", "bad-huge", "bad-max", "partial", "partial", "fault")
		f.Part = r.N(44)
		f.EndMs = r.N(20)
		if r.P(0.1) {
			f.HErrAt = r.Range(1, 8)
		}
		if r.P(0.1) {
			f.SlowMs = r.Range(1, 5)
		}
		f.Wrap = r.P(0.2)
		f.Two = r.P(0.25) && !huge
		if f.End == "fault" {
			ft := Fault{Kind: pick(r, "reset", "fin", "trunc", "stall", "trunc"), Dir: 0}
			switch r.N(3) {
			case 0:
				ft.Bytes = r.N(60)
			case 1:
				ft.Bytes = r.N(2000)
			default:
				ft.Bytes = -1
				ft.AtMs = r.N(10)
			}
			if ft.Kind == "stall" {
				ft.DurMs = r.Range(1, 3000)
			}
			f.Faults = append(f.Faults, ft)
		}
	}
}

func frameSize(r *RNG) int {
	switch r.N(10) {
	case 0:
		return 0
	case 1:
		return r.N(4)
	case 2:
		// around the reader's internal buffer size
		return 2048 + r.Range(-24, 24)
	case 3:
		return 4096 + r.Range(-24, 24)
	case 4:
		return r.Range(100, 2000)
	case 5:
		return pick(r, 65536, 70001, 200000, 30000)
	case 6:
		return 256 + r.Range(-8, 8)
	default:
		return r.Range(5, 60)
	}
}

func reduceFrame(p *Plan) []*Plan {
	var out []*Plan
	add := func(f func(q *FramePlan)) {
		q := clonePlan(p)
		f(q.Frame)
		out = append(out, q)
	}
	f := p.Frame
	for i := range f.Writers {
		if len(f.Writers) > 1 {
			add(func(q *FramePlan) { q.Writers = append(q.Writers[:i], q.Writers[i+1:]...) })
		}
	}
	for i := range f.Faults {
		add(func(q *FramePlan) { q.Faults = append(q.Faults[:i], q.Faults[i+1:]...) })
	}
	for i, w := range f.Writers {
		for j := range w.Sizes {
			if len(w.Sizes) > 1 {
				add(func(q *FramePlan) {
					q.Writers[i].Sizes = append(q.Writers[i].Sizes[:j], q.Writers[i].Sizes[j+1:]...)
				})
			}
			if w.Sizes[j] > 20 {
				add(func(q *FramePlan) { q.Writers[i].Sizes[j] = 20 })
			}
		}
		if w.Ms > 0 {
			add(func(q *FramePlan) { q.Writers[i].Ms = 0 })
		}
		if w.Raw {
			add(func(q *FramePlan) { q.Writers[i].Raw = false })
		}
	}
	if f.Two {
		add(func(q *FramePlan) { q.Two = false })
	}
	if f.Wrap {
		add(func(q *FramePlan) { q.Wrap = false })
	}
	if f.SlowMs > 0 {
		add(func(q *FramePlan) { q.SlowMs = 0 })
	}
	if f.HErrAt > 0 {
		add(func(q *FramePlan) { q.HErrAt = 0 })
	}
	for _, n := range reduceNet(f.Net) {
		add(func(q *FramePlan) { q.Net = n })
	}
	return out
}

func reduceNet(n NetCfg) []NetCfg {
	var out []NetCfg
	add := func(f func(m *NetCfg)) { m := n; f(&m); out = append(out, m) }
	if n.Chunk != 0 {
		add(func(m *NetCfg) { m.Chunk = 0 })
	}
	if n.DelayP != 0 {
		add(func(m *NetCfg) { m.DelayP, m.MaxMs = 0, 0 })
	}
	if n.Cap != 0 {
		add(func(m *NetCfg) { m.Cap = 0 })
	}
	if n.Rendez {
		add(func(m *NetCfg) { m.Rendez = false })
	}
	if n.EOFData {
		add(func(m *NetCfg) { m.EOFData = false })
	}
	if n.ShortW != 0 {
		add(func(m *NetCfg) { m.ShortW = 0 })
	}
	return out
}

func init() {
	families["frame"] = family{runFrame, "C08"}
	reducers["frame"] = reduceFrame
	propGens["C08"] = genFrame(false)
	propGens["C09"] = genFrame(true)
}
