package main

import (
	"errors"
	"time"

	"github.com/pion/interceptor"
	prtp "github.com/pion/rtp"

	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vtime"
)

// call is one packet seen by the handler.
type call struct {
	h prtp.Header
	p []byte
}

// rec records what it is given; the n-th call fails if fail[n] is set.
type rec struct {
	calls   []call
	closed  int
	fail    func(n int) error
	late    bool // a call after close
	nreads  *int
	readsAt []int
}

func (r *rec) String() string { return "rec" }
func (r *rec) HandleRTP(h *prtp.Header, p []byte) error {
	if r.closed > 0 {
		r.late = true
	}
	n := len(r.calls)
	r.calls = append(r.calls, call{*h, append([]byte(nil), p...)})
	if r.nreads != nil {
		r.readsAt = append(r.readsAt, *r.nreads)
	}
	if r.fail != nil {
		return r.fail(n)
	}
	return nil
}
func (r *rec) Close() { r.closed++ }

type reader struct {
	pkts  []*prtp.Packet
	fail  int
	err   error
	reads int
}

func (r *reader) ReadRTP() (*prtp.Packet, interceptor.Attributes, error) {
	n := r.reads
	r.reads++
	if n == r.fail {
		return nil, nil, r.err
	}
	return r.pkts[n], nil, nil
}

func packet(seq uint16) *prtp.Packet {
	p := &prtp.Packet{Header: prtp.Header{Version: 2, SequenceNumber: seq, Timestamp: sym.U32("ts"), SSRC: sym.U32("ssrc"), PayloadType: sym.U8("pt") & 127, Marker: sym.Bool("marker")}}
	p.Payload = sym.Bytes("payload", 1)
	return p
}

// shape varies the number of CSRCs and the payload length.
func shape(p *prtp.Packet) *prtp.Packet {
	switch sym.Choose("shape", 3) {
	case 1:
		p.Payload = sym.Bytes("payload", 2)
		p.CSRC = []uint32{sym.U32("csrc")}
		p.SetExtension(1, []byte{sym.U8("ext")})
	case 2:
		p.Payload = nil
	}
	return p
}

func same(c call, p *prtp.Packet, why string) {
	h := p.Header
	sym.Assert(c.h.SequenceNumber == h.SequenceNumber && c.h.Timestamp == h.Timestamp && c.h.SSRC == h.SSRC && c.h.PayloadType == h.PayloadType && c.h.Marker == h.Marker && c.h.Version == h.Version && c.h.Padding == h.Padding && c.h.Extension == h.Extension, why+": header changed")
	sym.Assert(len(c.h.CSRC) == len(h.CSRC), why+": CSRC changed")
	for i := range h.CSRC {
		sym.Assert(c.h.CSRC[i] == h.CSRC[i], why+": CSRC changed")
	}
	sym.Assert(string(c.h.GetExtension(1)) == string(h.GetExtension(1)), why+": header extension changed")
	sym.Assert(string(c.p) == string(p.Payload), why+": payload changed")
}

var errRead, errHandle = errors.New("read failed"), errors.New("handler failed")

// HLoop: the receive loop.
func HLoop() {
	n := sym.Bound(4, 6)
	rd := &reader{fail: sym.Choose("readfail", n+1), err: errRead}
	for i := 0; i < rd.fail; i++ {
		rd.pkts = append(rd.pkts, shape(packet(sym.U16("seq"))))
	}
	hfail := sym.Choose("handlerfail", n+1)
	h := &rec{nreads: &rd.reads, fail: func(i int) error {
		if i == hfail {
			return errHandle
		}
		return nil
	}}
	wrap := sym.Choose("nopcloser", 2) == 1
	var hc rtp.HandlerCloser = h
	if wrap {
		hc = rtp.NewNopCloser(h)
	}
	err := rtp.HandleLoop(rd, hc)
	want, werr, reads := rd.fail, errRead, rd.fail+1
	if hfail < rd.fail {
		want, werr, reads = hfail+1, errHandle, hfail+1
	}
	sym.Assert(err == werr, "the loop did not return the first error")
	sym.Assert(rd.reads == reads, "the loop read on after an error or stopped early")
	sym.Assert(len(h.calls) == want, "a packet was not handed over once")
	for i := range h.calls {
		same(h.calls[i], rd.pkts[i], "loop")
		sym.Assert(h.readsAt[i] == i+1, "a packet was held back")
	}
	if wrap {
		sym.Assert(h.closed == 0, "a handler behind a no-op closer was closed")
	} else {
		sym.Assert(h.closed == 1, "the handler was not closed exactly once")
	}
	sym.Assert(!h.late, "the handler was used after it was closed")
	sym.Reach("end")
}

// HInOrder: packets in sequence through the jitter handler.
func HInOrder() {
	n := sym.Bound(4, 6)
	fails := make([]bool, n)
	for i := range fails {
		fails[i] = sym.Bool("fails")
	}
	h := &rec{fail: func(i int) error {
		if fails[i] {
			return errHandle
		}
		return nil
	}}
	j := rtp.HandleJitter(h)
	base := sym.U16("base")
	for i := 0; i < n; i++ {
		p := shape(packet(base + uint16(i)))
		err := j.HandleRTP(&p.Header, p.Payload)
		sym.Assert(len(h.calls) == i+1, "an in-order packet was not forwarded in the same call")
		same(h.calls[i], p, "jitter handler")
		if fails[i] {
			sym.Assert(err == errHandle, "the error of the handler was not reported")
		} else {
			sym.Assert(err == nil, "an error was reported for a handled packet")
		}
	}
	sym.Assert(h.closed == 0, "the handler was closed early")
	j.Close()
	sym.Assert(h.closed == 1, "closing did not close the handler once")
	sym.Assert(len(h.calls) == n, "closing handed over packets")
	sym.Reach("end")
}

// HReorder: packets in any order with repetitions; one handler call may fail.
func HReorder() {
	n := sym.Bound(4, 5)
	fail := sym.Choose("fails", n+1)
	h := &rec{fail: func(i int) error {
		if i == fail {
			return errHandle
		}
		return nil
	}}
	j := rtp.HandleJitter(h)
	base := sym.U16("base")
	pkts := make([]*prtp.Packet, n)
	for i := range pkts {
		pkts[i] = packet(base + uint16(i))
	}
	push := func(i int) error { return j.HandleRTP(&pkts[i].Header, pkts[i].Payload) }
	seen := make([]bool, n)
	next := 0
	for k := 0; k < n; k++ {
		i := 0
		if k > 0 {
			i = sym.Choose("which", n)
		}
		before := len(h.calls)
		err := push(i)
		seen[i] = true
		for next < n && seen[next] {
			next++
		}
		sym.Assert(len(h.calls) == next, "the packets that are due were not forwarded, each once")
		for x := before; x < next; x++ {
			same(h.calls[x], pkts[x], "jitter handler")
		}
		sym.Assert((err == errHandle) == (before <= fail && fail < next), "the error of the handler was not reported by the call that delivered")
	}
	j.Close()
	sym.Assert(h.closed == 1 && !h.late, "closing did not close the handler once")
	sym.Reach("end")
}

// HTimeout: a missing packet; the ones behind it follow once they are 60 ms old,
// and an error of the handler is reported by the next call.
func HTimeout() {
	h := &rec{}
	bad := sym.Bool("fails")
	h.fail = func(i int) error {
		if i == 1 && bad {
			return errHandle
		}
		return nil
	}
	j := rtp.HandleJitter(h)
	base := sym.U16("base")
	p0, p2, p3 := packet(base), packet(base+2), packet(base+3)
	sym.Assert(j.HandleRTP(&p0.Header, p0.Payload) == nil, "an error was reported")
	sym.Assert(j.HandleRTP(&p2.Header, p2.Payload) == nil, "an error was reported")
	sym.Assert(len(h.calls) == 1, "a packet behind a gap was forwarded at once")
	var now time.Duration
	step := func(d time.Duration) {
		now += d
		vtime.Set(now)
		for i := 0; i < 4; i++ {
			for _, t := range vtime.Timers {
				if t.Active() && t.When() <= now {
					t.Fire()
				}
			}
			sym.WaitIdle()
		}
	}
	step(59 * time.Millisecond)
	sym.Assert(len(h.calls) == 1, "a packet behind a gap was forwarded too early")
	step(2 * time.Millisecond)
	sym.Assert(len(h.calls) == 2, "a packet behind a gap was not forwarded after the latency")
	same(h.calls[1], p2, "jitter handler")
	err := j.HandleRTP(&p3.Header, p3.Payload)
	sym.Assert(len(h.calls) == 3, "the packet after it was not forwarded")
	same(h.calls[2], p3, "jitter handler")
	sym.Assert((err == errHandle) == bad && (bad || err == nil), "the error of the handler was not reported by the next call")
	j.Close()
	sym.Assert(h.closed == 1 && !h.late, "closing did not close the handler once")
	sym.Reach("end")
}

// HMany: a long stream through the jitter handler, with packets swapped and
// repeated, and through the receive loop.
func HMany() {
	n := sym.Bound(80, 400)
	base := []uint16{0, 65500, 32760}[sym.Choose("base", 3)]
	size := []int{1, 160, 1460}[sym.Choose("size", 3)]
	at := []int{0, 33, n - 1}[sym.Choose("at", 3)]
	var pkts []*prtp.Packet
	for i := 0; i < n; i++ {
		p := &prtp.Packet{Header: prtp.Header{Version: 2, SequenceNumber: base + uint16(i), Timestamp: uint32(i) * 160, SSRC: 9, PayloadType: 8}, Payload: make([]byte, size)}
		p.Payload[0], p.Payload[size-1] = byte(i), byte(i*3)
		if i == at {
			p.Payload[size-1] = sym.U8("last")
			p.Timestamp = sym.U32("ts")
		}
		pkts = append(pkts, p)
	}
	if sym.Choose("loop", 2) == 1 {
		h := &rec{}
		rd := &reader{pkts: pkts, fail: n, err: errRead}
		sym.Assert(rtp.HandleLoop(rd, h) == errRead, "the loop did not return the first error")
		sym.Assert(len(h.calls) == n && h.closed == 1 && !h.late, "a packet was not handed over once")
		for i := range h.calls {
			same(h.calls[i], pkts[i], "loop")
		}
		sym.Reach("loop")
		return
	}
	fail := sym.Choose("fails", 2) == 1
	h := &rec{fail: func(i int) error {
		if fail && i%7 == 6 {
			return errHandle
		}
		return nil
	}}
	j := rtp.HandleJitter(h)
	errs, due := 0, 0
	push := func(i int) {
		if err := j.HandleRTP(&pkts[i].Header, pkts[i].Payload); err != nil {
			sym.Assert(err == errHandle, "another error was reported")
			errs++
		}
	}
	gap := -1 // a late packet that holds up many
	if sym.Choose("gap", 2) == 1 {
		gap = 5
	}
	for i := 0; i < n; i++ {
		if i == gap {
			for k := i + 1; k < i+60; k++ {
				push(k)
			}
			sym.Assert(len(h.calls) == i, "a packet was forwarded before its predecessor")
			push(i)
			i += 59
			due = i + 1
		} else if i%5 == 2 && i+1 < n {
			push(i + 1)
			push(i)
			due = i + 2
			push(i + 1) // once more, too late
			i++
		} else {
			push(i)
			due = i + 1
		}
		sym.Assert(len(h.calls) == due, "the packets that are due were not forwarded, each once")
	}
	for i := range h.calls {
		same(h.calls[i], pkts[i], "jitter handler")
	}
	if fail {
		sym.Assert(errs > 0 && errs <= n/7, "the errors of the handler were not reported")
	} else {
		sym.Assert(errs == 0, "an error was reported for a handled packet")
	}
	j.Close()
	sym.Assert(h.closed == 1 && !h.late && len(h.calls) == n, "closing did not close the handler once")
	sym.Reach("end")
}
