package main

import (
	"context"
	"errors"
	"time"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/tones"
	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vtime"
)

var errA = errors.New("audio failed")

const frame = 20 * time.Millisecond

type aw struct {
	rate int
	got  []media.PCM16Sample
	fail int
}

func (s *aw) String() string  { return "a" }
func (s *aw) SampleRate() int { return s.rate }
func (s *aw) WriteSample(d media.PCM16Sample) error {
	if len(s.got) == s.fail {
		return errA
	}
	s.got = append(s.got, append(media.PCM16Sample{}, d...))
	return nil
}

func silent(f media.PCM16Sample) bool {
	for _, v := range f {
		if v != 0 {
			return false
		}
	}
	return true
}

func play(list []tones.Tone, a *aw, ticks int, check func(k int, f media.PCM16Sample), cancelAt int) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	res := make(chan error, 1)
	go func() { res <- tones.Play(ctx, a, 10000, list) }()
	for k := 0; k < ticks; k++ {
		sym.WaitIdle()
		sym.Assert(len(a.got) == k, "not exactly one frame per tick was written")
		select {
		case <-res:
			sym.Fail("playback ended without a cancellation or failure")
		default:
		}
		if k == cancelAt {
			cancel()
			sym.WaitIdle()
			sym.Assert(<-res == context.Canceled, "a cancelled playback does not return the context's error")
			sym.Assert(len(a.got) == k, "a frame was written after the cancellation")
			sym.Reach("cancelled")
			return
		}
		sym.Assert(vtime.NTickers() == 1 && vtime.Tickers[0].Period() == frame, "not one frame per 20 ms")
		vtime.Tickers[0].Tick()
		sym.WaitIdle()
		if k == a.fail {
			sym.Assert(errors.Is(<-res, errA), "the destination's error is not returned")
			sym.Assert(len(a.got) == k, "a frame was written after the failure")
			sym.Reach("failed")
			return
		}
		sym.Assert(len(a.got) == k+1, "not exactly one frame per tick was written")
		check(k, a.got[k])
	}
	sym.Reach("played")
}

var freqs = [][]tones.Hz{{425}, {697, 1209}, {440, 480, 620}}

// Cadences of tones with symbolic durations.
func HCadence() {
	n := 1 + sym.Choose("tones", sym.Bound(2, 3))
	var list []tones.Tone
	type seg struct {
		freq   []tones.Hz
		frames int
	}
	var segs []seg
	max := sym.Bound(2, 3)
	for i := 0; i < n; i++ {
		t := tones.Tone{Freq: freqs[i]}
		t.Dur = time.Duration(sym.Range("dur", 1, max*int(frame)+1))
		segs = append(segs, seg{t.Freq, sym.Concrete(int((t.Dur + frame - 1) / frame))})
		if sym.Choose("silence", 2) == 1 {
			t.Silence = time.Duration(sym.Range("silence", 1, max*int(frame)+1))
			segs = append(segs, seg{nil, sym.Concrete(int((t.Silence + frame - 1) / frame))})
		}
		list = append(list, t)
	}
	total := 0
	for _, s := range segs {
		total += s.frames
	}
	a := &aw{rate: 400, fail: -1}
	ref := make(media.PCM16Sample, 8)
	play(list, a, 2*total+1, func(k int, f media.PCM16Sample) {
		p := k % total
		i := 0
		for p >= segs[i].frames {
			p -= segs[i].frames
			i++
		}
		sym.Assert(len(f) == 8, "a frame is not a full frame")
		if segs[i].freq == nil {
			sym.Assert(silent(f), "a silence of the cadence is audible")
			return
		}
		sym.Assert(!silent(f), "a tone of the cadence is silent")
		tones.Generate(ref, time.Duration(k)*frame, frame, 10000, segs[i].freq)
		same := true
		for j := range f {
			same = same && f[j] == ref[j]
		}
		sym.Assert(same, "a frame is not the active tone at its time")
	}, -1)
}

// A continuous tone; stops at any point; any destination rate.
func HContinuous() {
	rates := []int{8000, 16000, 48000}
	a := &aw{rate: rates[sym.Choose("rate", 3)], fail: -1}
	cancelAt := -1
	at := sym.Choose("at", 4)
	if sym.Choose("how", 2) == 0 {
		a.fail = at
	} else {
		cancelAt = at
	}
	play(tones.ETSIDial, a, 6, func(k int, f media.PCM16Sample) {
		sym.Assert(len(f) == a.rate/50, "a frame is not a full frame")
		sym.Assert(!silent(f), "a continuous tone is silent")
	}, cancelAt)
}

// The predefined tones: 425 Hz; ringing 1 s on, 4 s off; busy 0.5 s each.
func HETSI() {
	which := sym.Choose("which", 3)
	list := [][]tones.Tone{tones.ETSIDial, tones.ETSIRinging, tones.ETSIBusy}[which]
	on, total := []int{1, 50, 25}[which], []int{1, 250, 50}[which]
	a := &aw{rate: 8000, fail: -1}
	ref := make(media.PCM16Sample, 160)
	play(list, a, sym.Bound(310, 1010), func(k int, f media.PCM16Sample) {
		sym.Assert(len(f) == 160, "a frame is not a full frame")
		if k%total >= on {
			sym.Assert(silent(f), "a silence of a standard tone is audible")
			return
		}
		sym.Assert(!silent(f), "a standard tone is silent")
		if k%7 == 0 {
			tones.Generate(ref, time.Duration(k)*frame, frame, 10000, []tones.Hz{425})
			same := true
			for j := range f {
				same = same && f[j] == ref[j]
			}
			sym.Assert(same, "a standard tone does not have 425 Hz")
		}
	}, -1)
}
