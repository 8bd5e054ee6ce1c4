package main

import (
	"context"
	"errors"
	"time"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vtime"
)

const keypad = "0123456789*#abcd"

var (
	errA = errors.New("audio failed")
	errT = errors.New("transport failed")
)

type pkt struct {
	h    rtp.Header
	p    []byte
	tick int
}

type tr struct {
	got  []pkt
	tick *int
	fail int
}

func (t *tr) String() string { return "t" }
func (t *tr) WriteRTP(h *rtp.Header, p []byte) (int, error) {
	if len(t.got) == t.fail {
		return 0, errT
	}
	t.got = append(t.got, pkt{*h, append([]byte{}, p...), *t.tick})
	return len(p), nil
}

type aw struct {
	got  []media.PCM16Sample
	fail int
}

func (s *aw) String() string  { return "a" }
func (s *aw) SampleRate() int { return 400 }
func (s *aw) WriteSample(d media.PCM16Sample) error {
	if len(s.got) == s.fail {
		return errA
	}
	s.got = append(s.got, append(media.PCM16Sample{}, d...))
	return nil
}

func silent(f media.PCM16Sample) bool {
	for _, v := range f {
		if v != 0 {
			return false
		}
	}
	return true
}

type ev struct {
	code byte
	gap  int  // half seconds of extra pause before it
	unk  bool // unknown characters before it
}

// run writes digits and returns Write's error after it finished.
func run(ctx context.Context, a media.Writer[media.PCM16Sample], s *rtp.Stream, start uint32, digits string, tick *int, limit int) error {
	res := make(chan error, 1)
	go func() { res <- dtmf.Write(ctx, a, s, start, digits) }()
	for {
		sym.WaitIdle()
		select {
		case err := <-res:
			return err
		default:
		}
		sym.Assert(*tick <= limit, "the sequence does not end")
		*tick++
		for i := 0; i < vtime.NTickers(); i++ {
			if !vtime.Tickers[i].Stopped() {
				vtime.Tickers[i].Tick()
			}
		}
	}
}

// events checks the packets of a complete run.
func events(got []pkt, start uint32, want []ev) {
	i := 0
	var prev uint32
	for k, w := range want {
		sym.Assert(i < len(got), "an event is missing")
		ts := got[i].h.Timestamp
		if k == 0 {
			at := start + uint32(w.gap)*4000
			sym.Assert(ts == at || w.unk && ts >= at, "the first event is not at the start timestamp plus the pauses before it")
		} else {
			at := prev + 2000 + 2000 + uint32(w.gap)*4000
			sym.Assert(ts == at || w.unk && ts >= at, "an event is not at the time of the one before it plus the pauses in between")
		}
		prev = ts
		n, ends, last := 0, 0, uint16(0)
		for ; i < len(got) && ends < 3; i++ {
			p := got[i]
			sym.Assert(p.h.Timestamp == ts, "packets of one event differ in their timestamp")
			sym.Assert(p.h.Marker == (n == 0), "not exactly the first packet of an event is marked")
			sym.Assert(len(p.p) == 4, "an event packet is not four bytes long")
			e, err := dtmf.Decode(p.p)
			sym.Assert(err == nil && e.Code == w.code, "an event packet has the wrong code")
			if e.End {
				if ends == 0 {
					sym.Assert(e.Dur == last+160, "the duration does not grow by one frame")
					sym.Assert(e.Dur >= 2000, "an event is shorter than 250 ms")
				} else {
					sym.Assert(e.Dur == last, "end packets differ in their duration")
				}
				ends++
			} else {
				sym.Assert(ends == 0, "an event continues after its end")
				sym.Assert(e.Dur == last+160, "the duration does not grow by one frame")
			}
			if n > 0 {
				if ends <= 1 {
					sym.Assert(p.tick == got[i-1].tick+1, "an event does not send one packet per frame")
				} else {
					sym.Assert(p.tick == got[i-1].tick, "the end packets are not sent together")
				}
			}
			last = e.Dur
			n++
		}
		sym.Assert(ends == 3, "an event is not ended by three end packets")
	}
	sym.Assert(i == len(got), "packets beyond the events of the digits")
}

// digit returns any character: a known one, or one symbolic unknown one
// (its index in the keypad is 17 then, 16 for 'w').
func digit() (byte, int) {
	k := sym.Choose("class", len(keypad)+2)
	if k <= len(keypad) {
		return (keypad + "w")[k], k
	}
	c := sym.U8("unknown")
	for j := 0; j < len(keypad); j++ {
		sym.Assume(c != keypad[j])
	}
	sym.Assume(c != 'w' && (c < 'A' || c > 'D'))
	return c, k
}

// classify lists the events of the digits, with the pauses before them.
func classify(cls []int) (want []ev) {
	gap, unk := 0, false
	for _, k := range cls {
		switch {
		case k < len(keypad):
			want = append(want, ev{byte(k), gap, unk})
			gap, unk = 0, false
		case k == len(keypad):
			gap++
		default:
			unk = true
		}
	}
	return
}

// Any two characters (thorough: three, of which one is from {5, w, x}).
func HDigits() {
	n := sym.Choose("n", 3)
	var d []byte
	var cls []int
	for i := 0; i < n; i++ {
		c, k := digit()
		d, cls = append(d, c), append(cls, k)
	}
	if sym.Bound(0, 1) == 1 && n == 2 {
		j := sym.Choose("third", 3)
		d, cls = append(d, "5wx"[j]), append(cls, []int{5, 16, 17}[j])
	}
	want := classify(cls)
	tick := 0
	t := &tr{tick: &tick, fail: -1}
	start := uint32(sym.Range("start", 0, 1<<30))
	s := rtp.NewSeqWriter(t).NewStream(101, dtmf.SampleRate)
	var a media.Writer[media.PCM16Sample]
	au := &aw{fail: -1}
	mode := sym.Choose("audio", 3) // none, both, audio only
	if mode > 0 {
		a = au
	}
	if mode == 2 {
		s = nil
	}
	err := run(context.Background(), a, s, start, string(d), &tick, 60*(len(d)+1))
	sym.Assert(err == nil, "writing digits fails")
	if s != nil {
		events(t.got, start, want)
	} else {
		sym.Assert(len(t.got) == 0, "packets without an event stream")
	}
	if mode == 0 {
		sym.Assert(len(au.got) == 0, "audio without an audio writer")
		sym.Reach("events only")
		return
	}
	sym.Assert(len(au.got) == tick-1, "not one audio frame per tick")
	aud := 0
	for i, f := range au.got {
		sym.Assert(len(f) == 8, "an audio frame is not a full frame")
		if !silent(f) {
			aud++
		}
		if mode == 1 {
			in := false
			for _, p := range t.got {
				in = in || p.tick == i+1
			}
			sym.Assert(in == !silent(f), "audio and events disagree about when a digit is played")
		}
	}
	sym.Assert(aud == 13*len(want), "a digit is not audible for its 250 ms")
	sym.Reach("audio")
}

// Failures and cancellation end the sequence.
func HStop() {
	tick := 0
	t := &tr{tick: &tick, fail: -1}
	au := &aw{fail: -1}
	s := rtp.NewSeqWriter(t).NewStream(101, dtmf.SampleRate)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var want error
	at := sym.Choose("at", 30)
	switch sym.Choose("how", 3) {
	case 0:
		au.fail, want = at, errA
	case 1:
		t.fail, want = at, errT
	case 2:
		want = context.Canceled
	}
	res := make(chan error, 1)
	go func() { res <- dtmf.Write(ctx, au, s, 7, "1w2") }()
	for k := 0; k < 80; k++ {
		sym.WaitIdle()
		select {
		case err := <-res:
			sym.Assert(errors.Is(err, want), "the sequence does not end with the error that stopped it")
			if want == context.Canceled {
				sym.Assert(len(au.got) == at, "the sequence ended before or went on after the cancellation")
			}
			sym.Assert(au.fail < 0 || len(au.got) == au.fail, "audio was written after the failure")
			sym.Assert(t.fail < 0 || len(t.got) == t.fail, "events were written after the failure")
			sym.Reach("stopped")
			return
		default:
		}
		if want == context.Canceled && k == at {
			cancel()
			continue
		}
		vtime.Tickers[0].Tick()
		sym.Assert(vtime.Tickers[0].Period() == 20*time.Millisecond, "not one frame per 20 ms")
	}
	sym.Fail("a failure or cancellation does not end the sequence")
}

// HLong: all digits in one sequence, with pauses, anywhere in the timestamp
// range.
func HLong() {
	digits := "0123456789*#abcdww1"
	rot := sym.Choose("rotate", len(digits))
	digits = digits[rot:] + digits[:rot]
	var cls []int
	for i := range digits {
		k := 16
		for j := range keypad {
			if keypad[j] == digits[i] {
				k = j
			}
		}
		cls = append(cls, k)
	}
	tick := 0
	t := &tr{tick: &tick, fail: -1}
	start := []uint32{0, 1<<31 - 40000, 0xFFFFFFFF - 90000}[sym.Choose("start", 3)] + uint32(sym.Range("before", 0, 255))
	s := rtp.NewSeqWriter(t).NewStream(101, dtmf.SampleRate)
	sym.Assert(run(context.Background(), nil, s, start, digits, &tick, 60*(len(digits)+1)) == nil, "writing digits fails")
	events(t.got, start, classify(cls))
	sym.Reach("end")
}
