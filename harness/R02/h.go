package main

import (
	"errors"

	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/zzverif/sym"
)

var errT = errors.New("transport failed")

type tr struct {
	ts   []uint32
	fail bool
}

func (t *tr) String() string { return "t" }
func (t *tr) WriteRTP(h *rtp.Header, p []byte) (int, error) {
	if t.fail {
		return 0, errT
	}
	t.ts = append(t.ts, h.Timestamp)
	return len(p), nil
}

// Narrow symbolic values keep every sum far below 2^32.
func dur32(name string) uint32 { return uint32(sym.Range(name, 1, 1<<13)) }
func ts32(name string) uint32  { return uint32(sym.Range(name, 0, 1<<19-1)) }

// One stream alone: exact stamps.
func HAlone() {
	t := &tr{}
	dur := dur32("dur")
	s := rtp.NewSeqWriter(t).NewStreamWithDur(8, dur)
	next := []uint32{0, 0xFFFFFFFF - 1<<23, 1<<31 - 1<<18}[sym.Choose("base", sym.Bound(1, 3))]
	if next > 0 {
		s.ResetTimestamp(next)
	}
	follow := false
	for k := 0; k < sym.Bound(4, 6); k++ {
		n := len(t.ts)
		switch op := sym.Choose("op", 4); op {
		case 0, 1:
			t.fail = sym.Split(sym.Bool("fail"))
			var err error
			if op == 0 {
				err = s.WritePayload([]byte{1}, false)
			} else {
				err = s.WritePayloadAtCurrent([]byte{1}, false)
			}
			sym.Assert((err != nil) == t.fail, "the transport's error is not returned")
			if t.fail {
				sym.Assert(len(t.ts) == n, "a failed write sent a packet")
				break
			}
			sym.Assert(len(t.ts) == n+1, "a write did not send exactly one packet")
			sym.Assert(t.ts[n] == next, "a frame is not stamped with the stream's time")
			follow = op == 1
			if op == 0 {
				next += dur
			}
		case 2:
			d := ts32("delay")
			s.Delay(d)
			next += d
			follow = false
		case 3:
			d := []int{0, 1, 26}[sym.Choose("delayN", 3)]
			s.DelayN(d)
			next += uint32(d) * dur
			follow = false
		}
		sym.Assert(s.GetCurrentTimestamp() == next, "the current timestamp is not the time of the next frame")
	}
	_ = follow
	sym.Reach("end")
}

// Two streams of one sender.
func HTwo() {
	t := &tr{}
	sw := rtp.NewSeqWriter(t)
	var durs [2]uint32
	var ss [2]*rtp.Stream
	for i := range ss {
		durs[i] = dur32("dur")
		ss[i] = sw.NewStreamWithDur(byte(i), durs[i])
	}
	var ts [2]uint32
	var follow [2]bool
	// anywhere in the timestamp range
	base := []uint32{0, 1<<31 - 1<<18, 0xFFFFFFFF - 1<<23}[sym.Choose("base", 3)]
	if base > 0 {
		for i := range ss {
			ss[i].ResetTimestamp(base)
			ts[i] = base
		}
	}
	var max uint32 // the sender's most advanced timestamp
	sync := func(i int) {
		if max > ts[i]+25*durs[i] {
			ts[i] = max
			sym.Reach("caught up")
		} else if ts[i] > max {
			max = ts[i]
		}
	}
	for k := 0; k < sym.Bound(3, 5); k++ {
		i := sym.Choose("stream", 2)
		n := len(t.ts)
		switch op := sym.Choose("op", 4); op {
		case 0, 1:
			t.fail = k < 2 && sym.Split(sym.Bool("fail"))
			if !follow[i] {
				sync(i)
			}
			var err error
			if op == 0 {
				err = ss[i].WritePayload([]byte{1}, false)
			} else {
				err = ss[i].WritePayloadAtCurrent([]byte{1}, false)
			}
			sym.Assert((err != nil) == t.fail, "the transport's error is not returned")
			if t.fail {
				break
			}
			sym.Assert(len(t.ts) == n+1, "a write did not send exactly one packet")
			sym.Assert(t.ts[n] == ts[i], "a frame is stamped with the wrong time")
			follow[i] = op == 1
			if op == 0 {
				ts[i] += durs[i]
			}
		case 2:
			d := ts32("delay")
			ss[i].Delay(d)
			ts[i] += d
			sync(i)
			follow[i] = false
		case 3:
			d := base + ts32("reset")
			ss[i].ResetTimestamp(d)
			ts[i] = d
			follow[i] = false
		}
		sym.Assert(ss[i].GetCurrentTimestamp() == ts[i], "the current timestamp is not the time of the next frame")
	}
	sym.Reach("end")
}

// CurTS: the sender's most advanced timestamp never decreases, in any interleaving.
func HCurTS() {
	sym.Preempt(2, false)
	sw := rtp.NewSeqWriter(&tr{})
	var a, b, ra, rb uint32
	base := []uint32{0, 1<<31 - 1<<18, 0xFFFFFFFF - 1<<23}[sym.Choose("base", 3)]
	a, b = base+ts32("a"), base+ts32("b")
	inc := dur32("inc")
	done := make(chan bool, 2)
	go func() { ra = sw.CurTS(a, inc); done <- true }()
	go func() { rb = sw.CurTS(b, inc); done <- true }()
	<-done
	<-done
	hi := a
	if b > hi {
		hi = b
	}
	sym.Assert(ra == a || ra == b, "a timestamp was invented")
	sym.Assert(rb == a || rb == b, "a timestamp was invented")
	sym.Assert(ra >= a && rb >= b, "a timestamp went back")
	// far behind: reports the most advanced timestamp
	if hi > 25*inc {
		sym.Assert(sw.CurTS(hi-25*inc, inc) == hi-25*inc, "a stream 25 frames behind does not keep its own time")
	}
	if hi > 25*inc+1 {
		sym.Assert(sw.CurTS(hi-25*inc-1, inc) == hi, "the most advanced timestamp of the sender was lost")
	}
	sym.Reach("end")
}

func HNegative() {
	n := sym.Range("n", -1000, -1)
	p := func() (p bool) {
		defer func() { p = recover() != nil }()
		rtp.NewSeqWriter(&tr{}).NewStreamWithDur(0, 160).DelayN(n)
		return
	}()
	sym.Assert(p, "a negative delay is accepted")
	sym.Reach("end")
}

// A stream alone, anywhere in the timestamp range, with pauses and bursts.
func HLong() {
	t := &tr{}
	dur := []uint32{160, 960, 3000}[sym.Choose("dur", 3)]
	s := rtp.NewSeqWriter(t).NewStreamWithDur(8, dur)
	next := []uint32{0, 1<<31 - 1<<18, 0xFFFFFFFF - 1<<28}[sym.Choose("base", 3)]
	s.ResetTimestamp(next)
	seed := uint32(sym.Choose("seed", 3))
	s.DelayN(70000)
	next += 70000 * dur
	for k := uint32(0); k < 200; k++ {
		x := (k*7 + k*k*3 + seed*11) % 23
		switch {
		case x < 2:
			t.fail = true
			sym.Assert(s.WritePayload([]byte{1}, false) == errT, "the transport's error is not returned")
			t.fail = false
		case x < 4:
			s.DelayN(int(x) * 20)
			next += 20 * x * dur
		case x < 6:
			s.Delay(x * 37)
			next += x * 37
		default:
			for i := uint32(0); i < x%3; i++ {
				sym.Assert(s.WritePayloadAtCurrent([]byte{2}, false) == nil, "writing fails")
				sym.Assert(t.ts[len(t.ts)-1] == next, "a frame is not stamped with the stream's time")
			}
			sym.Assert(s.WritePayload([]byte{1}, false) == nil, "writing fails")
			sym.Assert(t.ts[len(t.ts)-1] == next, "a frame is not stamped with the stream's time")
			next += dur
		}
		sym.Assert(s.GetCurrentTimestamp() == next, "the current timestamp is not the time of the next frame")
	}
	sym.Reach("end")
}

// Streams by clock rate: frames of 20 ms.
func HClock() {
	t := &tr{}
	sw := rtp.NewSeqWriter(t)
	rate := sym.Range("rate", 50, 200000)
	s := sw.NewStream(sym.U8("type"), rate)
	dur := uint32(rate / 50)
	for k := uint32(0); k < 3; k++ {
		sym.Assert(s.GetCurrentTimestamp() == k*dur, "the current timestamp is not the time of the next frame")
		sym.Assert(s.WritePayload([]byte{1}, false) == nil && t.ts[k] == k*dur, "frames do not advance by 20 ms of the clock rate")
	}
	s.DelayN(2)
	sym.Assert(s.GetCurrentTimestamp() == 5*dur, "a delay is not counted in frames")
	sym.Reach("end")
}
