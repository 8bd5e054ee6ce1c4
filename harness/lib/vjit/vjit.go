// Package vjit drives a jitter buffer on the virtual clock and predicts what
// it does with a model of its contract (a sorted list of held packets).
package vjit

import (
	"time"

	"github.com/pion/rtp"

	"github.com/livekit/media-sdk/jitter"
	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vtime"
)

// Pkt is a packet given to the buffer.
type Pkt struct {
	P               *rtp.Packet
	Off             int // sequence number relative to the base
	At              time.Duration
	Start, End, Pad bool
	h               rtp.Header
	payload         []byte
	Done            bool // handed over
}

// audio is a depacketizer for which every packet is a sample; video has the
// start of a sample in the payload and its end in the marker.
type audio struct{}

func (audio) Unmarshal(p []byte) ([]byte, error)         { return p, nil }
func (audio) IsPartitionHead(payload []byte) bool        { return true }
func (audio) IsPartitionTail(marker bool, p []byte) bool { return true }

type video struct{}

func (video) Unmarshal(p []byte) ([]byte, error)         { return p, nil }
func (video) IsPartitionHead(payload []byte) bool        { return len(payload) > 0 && payload[0] == 1 }
func (video) IsPartitionTail(marker bool, p []byte) bool { return marker }

type Run struct {
	B     *jitter.Buffer
	Base  uint16
	Audio bool
	Lat   time.Duration
	Now   time.Duration

	Pushed []*Pkt
	Out    [][]jitter.ExtPacket
	Notes  int // loss notifications
	Via    int // the function packets are pushed with
	NLost  uint64
	NDrop  uint64

	// the model
	held                                              []*Pkt
	init                                              bool
	prev                                              int
	expect                                            [][]*Pkt
	MPushed, MPad, MLost, MDropped, MPopped, MIgnored int

	stats *jitter.BufferStats // the last ones taken, and what they were
	were  jitter.BufferStats
}

func New(isAudio bool, lat time.Duration) *Run {
	r := &Run{Audio: isAudio, Lat: lat, Base: sym.U16("base")}
	var d rtp.Depacketizer = video{}
	if isAudio {
		d = audio{}
	}
	r.B = jitter.NewBuffer(d, lat, func(p []jitter.ExtPacket) {
		r.Out = append(r.Out, p)
	}, jitter.WithPacketLossHandler(func(lost, dropped uint64) {
		r.Notes++
		r.NLost, r.NDrop = lost, dropped
	}))
	return r
}

// Packet makes a packet with sequence number base+off.
func (r *Run) Packet(off int, start, end, pad bool) *Pkt {
	p := &Pkt{Off: off, Start: start || r.Audio, End: end || r.Audio, Pad: pad}
	h := rtp.Header{Version: 2, SequenceNumber: r.Base + uint16(off), Timestamp: sym.U32("ts"), Marker: end, Padding: pad}
	if !pad {
		p.payload = []byte{0, sym.U8("data")}
		if start {
			p.payload[0] = 1
		}
	}
	p.h = h
	p.P = &rtp.Packet{Header: h, Payload: append([]byte(nil), p.payload...)}
	return p
}

// Layout chooses how a stream of n packets is divided into samples.
func (r *Run) Layout(n int) func(off int) *Pkt {
	first := make([]bool, n+1)
	first[0], first[n] = true, true
	for i := 1; i < n; i++ {
		first[i] = r.Audio || sym.Bool("first")
	}
	return func(off int) *Pkt { return r.Packet(off, first[off], first[off+1], false) }
}

// Push gives a packet to the buffer.
func (r *Run) Push(p *Pkt) {
	p.At = r.Now
	r.Pushed = append(r.Pushed, p)
	switch r.Via {
	case 1:
		r.B.Push(p.P)
	case 2:
		r.B.PushExtPacket(jitter.ExtPacket{ReceivedAt: vtime.At(r.Now), Packet: p.P})
	case 3:
		r.B.PushExtPacketBatch([]jitter.ExtPacket{{ReceivedAt: vtime.At(r.Now), Packet: p.P}})
	default:
		r.B.PushAt(p.P, vtime.At(r.Now))
	}
	r.mpush(p)
	r.Settle()
}

// Advance lets time pass; an expired timer of the buffer fires.
func (r *Run) Advance(d time.Duration) {
	r.Now += d
	vtime.Set(r.Now)
	r.Settle()
	r.mready()
}

// Settle fires the buffer's timers as long as they are due and do something.
func (r *Run) Settle() {
	for i := 0; i < 12; i++ {
		due := false
		n, out := r.B.Size(), len(r.Out)
		for k := 0; k < vtime.NTimers(); k++ {
			t := vtime.Timers[k]
			if t.Active() && t.When() <= r.Now {
				due = true
				t.Fire()
				sym.WaitIdle()
			}
		}
		if !due || n == r.B.Size() && out == len(r.Out) {
			return
		}
	}
}

// ---- model

func (r *Run) mpush(p *Pkt) {
	r.MPushed++
	if p.Pad {
		r.MPad++
		if !r.init {
			r.MIgnored++
			return
		}
	}
	if r.init && p.Off <= r.prev {
		if p.Pad {
			r.MIgnored++
		} else {
			r.MDropped++
		}
	} else {
		i := len(r.held)
		for i > 0 && r.held[i-1].Off >= p.Off {
			i--
		}
		if i < len(r.held) && r.held[i].Off == p.Off {
			if p.Pad {
				r.MIgnored++
			} else {
				r.MDropped++ // a duplicate
			}
		} else {
			r.held = append(r.held, nil)
			copy(r.held[i+1:], r.held[i:])
			r.held[i] = p
		}
	}
	r.mready()
}

// sample returns the length of the complete sample at the head, or 0.
func (r *Run) sample() int {
	if len(r.held) == 0 {
		return 0
	}
	if r.held[0].Pad {
		return 1
	}
	if !r.held[0].Start {
		return 0
	}
	for i, p := range r.held {
		if i > 0 && p.Off != r.held[i-1].Off+1 {
			return 0
		}
		if p.End && !p.Pad {
			return i + 1
		}
	}
	return 0
}

func (r *Run) mlost() {
	if r.init {
		r.MLost += r.held[0].Off - r.prev - 1
	}
}

func (r *Run) mtake(n int) {
	var s []*Pkt
	for _, p := range r.held[:n] {
		if !p.Pad {
			s = append(s, p)
		}
	}
	r.prev = r.held[n-1].Off
	r.held = r.held[n:]
	r.init = true
	r.MPopped += n
	if len(s) > 0 {
		r.expect = append(r.expect, s)
	}
}

func (r *Run) mdrop() {
	r.mlost()
	r.prev = r.held[0].Off
	r.held = r.held[1:]
	r.MDropped++
}

func (r *Run) mready() {
	for len(r.held) > 0 {
		h := r.held[0]
		age := r.Now - h.At
		if n := r.sample(); n > 0 {
			if r.init && h.Off != r.prev+1 {
				if age < r.Lat {
					return
				}
				r.mlost()
			}
			r.mtake(n)
		} else {
			if age < r.Lat {
				return
			}
			// whether it is dropped at exactly the latency or right after it
			// is left open
			sym.Assume(age > r.Lat)
			r.mdrop()
		}
	}
}

// Flush flushes the buffer.
func (r *Run) Flush() {
	r.B.Flush()
	for len(r.held) > 0 {
		if n := r.sample(); n > 0 {
			if h := r.held[0]; r.init && h.Off != r.prev+1 {
				r.mlost()
			}
			r.mtake(n)
		} else {
			r.mdrop()
		}
	}
}

// ---- checks

func (r *Run) find(p *rtp.Packet) *Pkt {
	for _, q := range r.Pushed {
		if q.P == p {
			return q
		}
	}
	return nil
}

// CheckOrder: only pushed packets, unmodified, at most once, increasing.
func (r *Run) CheckOrder() {
	var last *Pkt
	for _, q := range r.Pushed {
		q.Done = false
	}
	for _, s := range r.Out {
		for _, e := range s {
			q := r.find(e.Packet)
			sym.Assert(q != nil, "a packet is delivered that was not pushed")
			sym.Assert(!q.Done, "a packet is delivered twice")
			q.Done = true
			sym.Assert(e.ReceivedAt.Equal(vtime.At(q.At)), "a packet is delivered with another reception time")
			h, g := &e.Packet.Header, &q.h
			same := h.SequenceNumber == g.SequenceNumber && h.Timestamp == g.Timestamp && h.Marker == g.Marker && h.Padding == g.Padding && h.Version == g.Version && len(e.Packet.Payload) == len(q.payload)
			sym.Assert(same, "a packet was modified")
			for i := range q.payload {
				sym.Assert(e.Packet.Payload[i] == q.payload[i], "a packet's payload was modified")
			}
			if last != nil {
				sym.Assert(q.Off != last.Off, "a sequence number is delivered twice")
				sym.Assert(q.Off > last.Off, "packets are not delivered in sequence order")
			}
			last = q
		}
	}
}

// CheckTiming: what was delivered so far is what had to be by now.
func (r *Run) CheckTiming() {
	n := 0
	for _, s := range r.Out {
		sym.Assert(n < len(r.expect), "a sample is delivered too early or although it should not be")
		e := r.expect[n]
		sym.Assert(len(s) == len(e), "another sample is delivered than expected")
		for i := range s {
			sym.Assert(s[i].Packet == e[i].P, "another packet is delivered than expected")
		}
		n++
	}
	sym.Assert(n == len(r.expect), "a sample is not delivered although it is due")
}

// CheckSamples: every call has one complete sample.
func (r *Run) CheckSamples() {
	for _, s := range r.Out {
		sym.Assert(len(s) > 0, "the handler is called without packets")
		prev := 0
		for i, e := range s {
			q := r.find(e.Packet)
			sym.Assert(q != nil, "a packet is delivered that was not pushed")
			sym.Assert(q.Start || i > 0, "a sample does not begin with its first packet")
			sym.Assert(q.End == (i == len(s)-1), "a sample does not end with its last packet")
			sym.Assert(!q.Pad, "padding is delivered")
			if i > 0 {
				// padding between the packets of a sample is left out
				for o := prev + 1; o < q.Off && o < prev+8; o++ {
					found := false
					for _, x := range r.Pushed {
						found = found || x.Pad && x.Off == o
					}
					sym.Assert(found, "a sample is delivered with a packet missing")
				}
				sym.Assert(q.Off > prev && q.Off < prev+8, "the packets of a sample are not consecutive")
			}
			prev = q.Off
		}
	}
}

// CheckSize: exactly the expected packets are held.
func (r *Run) CheckSize() {
	sym.Assert(r.B.Size() == len(r.held), "the number of held packets is wrong")
}

// CheckStats: the statistics account for every packet.
func (r *Run) CheckStats() {
	s := r.B.Stats()
	sym.Assert(r.stats == nil || *r.stats == r.were, "statistics taken earlier changed")
	r.stats, r.were = s, *s
	sym.Assert(s.PacketsPushed == uint64(r.MPushed), "wrong number of pushed packets")
	sym.Assert(s.PaddingPushed == uint64(r.MPad), "wrong number of padding packets")
	sym.Assert(s.PacketsPushed == s.PacketsPopped+s.PacketsDropped+uint64(r.B.Size())+uint64(r.MIgnored), "pushed packets are not all accounted for")
	sym.Assert(s.PacketsPopped == uint64(r.MPopped), "wrong number of popped packets")
	sym.Assert(s.PacketsDropped == uint64(r.MDropped), "wrong number of dropped packets")
	sym.Assert(s.PacketsLost == uint64(r.MLost), "wrong number of lost packets")
	calls := uint64(len(r.Out)) // padding alone may be counted as a sample
	sym.Assert(s.SamplesPopped >= calls && s.SamplesPopped <= calls+s.PaddingPushed, "wrong number of popped samples")
	if s.PacketsPushed > 0 {
		sym.Assert(s.PacketLoss() == float64(s.PacketsDropped)/float64(s.PacketsPushed), "wrong packet loss ratio")
	} else {
		sym.Assert(s.PacketLoss() == 0, "packet loss without packets")
	}
	if s.PacketsLost+s.PacketsDropped > 0 {
		sym.Assert(r.Notes > 0, "loss is not notified")
		sym.Assert(r.NLost == s.PacketsLost && r.NDrop == s.PacketsDropped, "the last loss notification does not carry the current totals")
	} else {
		sym.Assert(r.Notes == 0 || r.NLost == 0 && r.NDrop == 0, "a loss notification carries wrong totals")
	}
}

// At is the current time.
func (r *Run) At() time.Time { return vtime.At(r.Now) }

// SetTime makes Now the current time without firing timers.
func (r *Run) SetTime() { vtime.Set(r.Now) }

// FireDue fires the timers that are due, once.
func (r *Run) FireDue() {
	for k := 0; k < vtime.NTimers(); k++ {
		t := vtime.Timers[k]
		if t.Active() && t.When() <= r.Now {
			t.Fire()
		}
	}
}

// Long plays a long stream, of which a burst is lost, delayed or repeated.
func Long(check func(*Run)) { LongWith(false, false, check) }

// LongWith: also with padding between the packets, or flushed.
func LongWith(pads, flush bool, check func(*Run)) {
	isAudio := pads || sym.Choose("video", 2) == 0
	r := New(isAudio, 60*time.Millisecond)
	n := sym.Bound(40, 80)
	size := 1
	if !isAudio {
		size = []int{2, 7, 12}[sym.Choose("size", 3)] // packets per sample
	}
	fate := sym.Choose("fate", 5)
	at := []int{0, 1, 6, 13, 20}[sym.Choose("at", 5)]
	count := []int{1, 3, 12}[sym.Choose("count", 3)]
	period := []time.Duration{time.Millisecond, 7 * time.Millisecond}[sym.Choose("period", 2)]
	late := []int{1, 5, 17}[sym.Choose("late", sym.Bound(2, 3))]
	if fate == 0 {
		sym.Assume(at == 0 && count == 1)
	}
	if fate != 2 && fate != 4 {
		sym.Assume(late == 1)
	}
	r.Via = (at + count + size) % 4
	switch w := sym.Choose("wrap", 3); w {
	case 0:
		sym.Assume(r.Base < 60000)
	default:
		sym.Assume(r.Base == []uint16{65535, 65527, 65510}[w])
	}
	mk := func(off int) *Pkt { return r.Packet(off, off%size == 0, off%size == size-1, pads && off%4 >= 2) }
	send := func(off int) {
		if off < n {
			r.Push(mk(off))
		}
	}
	held := 0
	for i := 0; i < n+20; i++ {
		r.Advance(period)
		in := i >= at && i < at+count
		switch {
		case in && fate == 1: // lost
		case in && fate == 2: // late
			held++
		case in && fate == 3: // twice
			send(i)
			send(i)
		case fate == 4: // reversed
			if in {
				send(at + at + count - 1 - i)
			} else {
				send(i)
			}
		default:
			send(i)
		}
		if held > 0 && i >= at+count-1+late {
			for ; held > 0; held-- {
				send(at + count - held)
			}
		}
		if flush && i%11 == 9 {
			r.Flush()
			sym.Assert(r.B.Size() == 0, "packets remain after a flush")
		}
		check(r)
	}
	r.Advance(100 * time.Millisecond)
	check(r)
	r.B.Close()
	sym.Reach("end")
}
