package main

import (
	"context"
	"errors"
	"time"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vtime"
)

var errW = errors.New("writer failed")

type wr struct {
	got  []media.PCM16Sample
	fail int
}

func (s *wr) String() string  { return "w" }
func (s *wr) SampleRate() int { return 48000 }
func (s *wr) WriteSample(d media.PCM16Sample) error {
	s.got = append(s.got, append(media.PCM16Sample{}, d...))
	if len(s.got)-1 == s.fail {
		return errW
	}
	return nil
}

// One event at a time: a tick, or the cancellation of the context.
func HPlay() {
	n := sym.Choose("frames", sym.Bound(4, 6))
	var frames []media.PCM16Sample
	for i := 0; i < n; i++ {
		frames = append(frames, sym.I16s[int16]("frame", 1+i%2))
	}
	w := &wr{fail: sym.Choose("failAt", n+1)}
	dur := time.Duration(sym.Range("dur", 1, 1<<32))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if sym.Choose("precancelled", 2) == 1 {
		cancel()
	}
	list := append([]media.PCM16Sample{}, frames...)
	res := make(chan error, 1)
	go func() { res <- media.PlayAudio[media.PCM16Sample](ctx, w, dur, list) }()
	sym.WaitIdle()
	var want error
	done, wrote := n == 0, 0
	if !done && ctx.Err() != nil {
		done, want = true, context.Canceled
	}
	check := func() {
		sym.Assert(len(w.got) == wrote, "not exactly one frame per tick was written")
		for i, g := range w.got {
			ok := i < n && len(g) == len(frames[i])
			for j := range g {
				ok = ok && g[j] == frames[i][j]
			}
			sym.Assert(ok, "a written frame is not the next frame of the list")
		}
		select {
		case err := <-res:
			sym.Assert(done, "playback returned before the last frame, a failure or a cancellation")
			sym.Assert(err == want || (err != nil && want != nil && errors.Is(err, want)), "playback returned the wrong error")
			res <- err
		default:
			sym.Assert(!done, "playback did not return")
		}
	}
	check()
	for k := 0; k < n+2; k++ {
		if sym.Choose("event", 2) == 0 {
			for i := 0; i < vtime.NTickers(); i++ {
				sym.Assert(vtime.Tickers[i].Period() == dur, "the tick is not the frame duration")
				vtime.Tickers[i].Tick()
			}
			if !done {
				wrote++
				if w.fail == wrote-1 {
					done, want = true, errW
					sym.Reach("write error")
				} else if wrote == n {
					done, want = true, nil
					sym.Reach("all played")
				}
			}
		} else {
			cancel()
			if !done {
				done, want = true, context.Canceled
				sym.Reach("cancelled")
			}
		}
		sym.WaitIdle()
		check()
	}
}

// A tick and the cancellation race: at most the one frame whose tick was due
// is written after the cancellation.
func HRace() {
	sym.Preempt(2, false)
	w := &wr{fail: -1}
	frames := []media.PCM16Sample{{1}, {2}, {3}}
	ctx, cancel := context.WithCancel(context.Background())
	res := make(chan error, 1)
	go func() { res <- media.PlayAudio[media.PCM16Sample](ctx, w, time.Second, frames) }()
	sym.WaitIdle()
	vtime.Tickers[0].Tick()
	cancel()
	sym.WaitIdle()
	err := <-res
	sym.Assert(err == context.Canceled, "a cancelled playback does not return the context's error")
	sym.Assert(len(w.got) <= 1, "playback went on after the cancellation")
	for i, g := range w.got {
		sym.Assert(len(g) == 1 && g[0] == frames[i][0], "frames are written out of order")
	}
	sym.Reach("end")
}

// A long list plays to its end, one frame per tick.
func HLong() {
	n := sym.Bound(60, 300)
	var frames []media.PCM16Sample
	for i := 0; i < n; i++ {
		frames = append(frames, media.PCM16Sample{int16(i), sym.I16("frame")})
	}
	w := &wr{fail: -1}
	res := make(chan error, 1)
	go func() {
		res <- media.PlayAudio[media.PCM16Sample](context.Background(), w, 20*time.Millisecond, frames)
	}()
	sym.WaitIdle()
	for k := 0; k < n; k++ {
		sym.Assert(len(res) == 0, "playback returned before the last frame")
		vtime.Tickers[0].Tick()
		sym.WaitIdle()
		sym.Assert(len(w.got) == k+1, "not exactly one frame per tick was written")
		g := w.got[k]
		sym.Assert(len(g) == 2 && g[0] == int16(k) && g[1] == frames[k][1], "a written frame is not the next frame of the list")
	}
	sym.Assert(len(res) == 1 && <-res == nil, "playback did not return after the last frame")
	sym.Reach("end")
}
