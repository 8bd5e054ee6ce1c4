package main

import (
	"time"

	"github.com/livekit/media-sdk/mixer"
	"github.com/livekit/media-sdk/zzverif/mixm"
	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vtime"
)

var durs = []time.Duration{7, 40, 20 * time.Millisecond, 60 * time.Millisecond, 4}

// Wake-ups at any times: the number of frames follows the elapsed time.
func HPace() {
	d := durs[sym.Choose("dur", sym.Bound(3, len(durs)))]
	limit := []int{2, 5, 1}[sym.Choose("limit", sym.Bound(2, 3))]
	o := &mixm.Out{Rate: 8000}
	if d < time.Millisecond {
		o.Rate = int(time.Second / d)
	}
	st := new(mixer.Stats)
	m, err := mixer.NewMixer(o, d, 1, mixer.WithInputBufferFrames(limit), mixer.WithStats(st))
	sym.Assert(err == nil, "the mixer does not start")
	sym.WaitIdle()
	sym.Assert(vtime.NTickers() == 1 && vtime.Tickers[0].Period() == d, "the mixer does not wake up once per frame duration")
	now := time.Duration(sym.Range("start", 0, 1<<20))
	vtime.Set(now)
	vtime.Tickers[0].Tick()
	sym.WaitIdle()
	sym.Assert(len(o.Got) == 1, "the first wake-up does not produce one frame")
	// since the last resynchronisation: its time, and the frames produced after it
	sync, frames := now, 0
	steps := sym.Bound(3, 4)
	if d > time.Millisecond {
		steps--
	}
	for k := 0; k < steps; k++ {
		// a wake-up up to limit+2 frame durations later
		now += time.Duration(sym.Range("gap", 0, int(d)*(limit+2)))
		vtime.Set(now)
		before := len(o.Got)
		timed, jumps, early, resets := st.TimedMixes.Load(), st.JumpMixes.Load(), st.ZeroMixes.Load()+st.NegativeMixes.Load(), st.TimingResets.Load()
		vtime.Tickers[0].Tick()
		sym.WaitIdle()
		n := len(o.Got) - before
		sym.Assert(n >= 0 && n <= limit, "more frames than the input buffer limit at once")
		timed, jumps, early, resets = st.TimedMixes.Load()-timed, st.JumpMixes.Load()-jumps, st.ZeroMixes.Load()+st.NegativeMixes.Load()-early, st.TimingResets.Load()-resets
		// the last produced frame's time is sync + frames*d; dt is how far that is back
		dt := now - sync - time.Duration(frames)*d
		if n < limit || dt < time.Duration(limit+1)*d-d/4 {
			// as many frames as durations elapsed, give or take a quarter
			sym.Assert(dt < time.Duration(n+1)*d, "too few frames for the elapsed time")
			sym.Assert(n == 0 || dt >= time.Duration(n)*d-d/4-1, "too many frames for the elapsed time")
			sym.Assert(resets == 0, "a timing reset is counted without a resynchronisation")
			switch n {
			case 0:
				sym.Assert(early == 1 && timed == 0 && jumps == 0, "a wake-up without a frame is not counted as such")
			case 1:
				sym.Assert(early == 0 && timed == 1 && jumps == 0, "a wake-up with one frame is not counted as timed")
			default:
				sym.Assert(early == 0 && timed == 0 && jumps == uint64(n), "frames that are caught up are not counted as jumps")
			}
			frames += n
			left := now - sync - time.Duration(frames)*d
			sym.Assert(left <= d && left >= -d, "the number of frames drifts from the elapsed time")
			if n == 0 {
				sym.Reach("early")
			}
			if n > 1 {
				sym.Reach("caught up")
			}
		} else {
			// far behind: the limit is produced and the clock resynchronises
			sym.Assert(resets > 0, "a resynchronisation is not counted as a timing reset")
			sym.Assert(early == 0 && timed == 0 && jumps >= uint64(n), "skipped frames are not counted as jumps")
			sync, frames = now, 0
			sym.Reach("resync")
		}
	}
	m.Stop()
	sym.WaitIdle()
	sym.Reach("end")
}

// A steady wake-up per frame duration with jitter below a quarter frame
// produces one frame each, however long it goes on.
func HSteady() {
	d := 20 * time.Millisecond
	o := &mixm.Out{Rate: 8000}
	m, _ := mixer.NewMixer(o, d, 1)
	sym.WaitIdle()
	for k := 0; k < sym.Bound(5, 8); k++ {
		j := time.Duration(0)
		if k > 0 {
			j = time.Duration(sym.Range("jitter", -int(d)/4, int(d)/4))
		}
		vtime.Set(d + time.Duration(k)*d + j)
		vtime.Tickers[0].Tick()
		sym.WaitIdle()
		c := len(o.Got)
		sym.Assert(c >= k && c <= k+2, "steady wake-ups do not produce one frame per duration")
	}
	m.Stop()
	sym.WaitIdle()
	sym.Reach("end")
}

// HGap: a gap of hours, then a steady clock: one frame per wake-up, for long.
func HGap() {
	d := []time.Duration{20 * time.Millisecond, 10 * time.Millisecond, 60 * time.Millisecond}[sym.Choose("dur", 3)]
	limit := 1 + sym.Choose("limit", 6)
	o := &mixm.Out{Rate: 8000}
	m, _ := mixer.NewMixer(o, d, 1, mixer.WithInputBufferFrames(limit))
	sym.WaitIdle()
	now := time.Duration(0)
	tick := func() int {
		n := len(o.Got)
		vtime.Set(now)
		vtime.Tickers[0].Tick()
		sym.WaitIdle()
		return len(o.Got) - n
	}
	for k := 0; k < 100; k++ {
		sym.Assert(tick() == 1, "steady wake-ups do not produce one frame each")
		now += d
	}
	now += []time.Duration{7 * time.Second, time.Hour, 60 * time.Hour, 1000 * time.Hour}[sym.Choose("gap", 4)] + time.Duration(sym.Range("more", 0, 1<<25))
	sym.Assert(tick() == limit, "after a long gap not exactly the limit of frames is produced")
	for k := 0; k < 100; k++ {
		now += d
		sym.Assert(tick() == 1, "steady wake-ups do not produce one frame each after a gap")
	}
	m.Stop()
	sym.WaitIdle()
	sym.Reach("end")
}
