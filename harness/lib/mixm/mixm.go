// Package mixm is a reference model of the mixer, driven next to the real one.
package mixm

import (
	"errors"
	"time"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/mixer"
	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vtime"
)

var ErrOut = errors.New("output failed")

const Dur = 4 * time.Millisecond

// Out records the mixed frames.
type Out struct {
	Rate   int
	Got    []media.PCM16Sample
	Fail   bool
	Errors int
}

func (o *Out) String() string  { return "out" }
func (o *Out) SampleRate() int { return o.Rate }
func (o *Out) WriteSample(s media.PCM16Sample) error {
	o.Got = append(o.Got, s)
	if o.Fail {
		o.Errors++
		return ErrOut
	}
	return nil
}

type In struct {
	I         *mixer.Input
	Q         []int16
	Buffering bool
	Removed   bool
}

type Env struct {
	M      *mixer.Mixer
	O      *Out
	St     *mixer.Stats
	Ins    []*In
	Size   int // samples per frame
	Limit  int // input buffer limit in frames
	Now    time.Duration
	Frames int
	// totals
	InFrames, InSamples, Dropped, DroppedFrames, Added, Removed int
	Restarts, MixedFrames, MixedSamples                         int
	Stopped                                                     bool
}

// New starts a mixer of frames of size samples.
func New(size, limit int, opts ...mixer.MixerOptions) *Env {
	e := &Env{O: &Out{Rate: size * 250}, St: new(mixer.Stats), Size: size, Limit: limit}
	opts = append(opts, mixer.WithInputBufferFrames(limit), mixer.WithStats(e.St))
	m, err := mixer.NewMixer(e.O, Dur, 1, opts...)
	sym.Assert(err == nil, "the mixer does not start")
	e.M = m
	sym.WaitIdle()
	return e
}

func (e *Env) Add() *In {
	in := &In{I: e.M.NewInput(), Buffering: true}
	if e.Stopped {
		sym.Assert(in.I == nil, "a stopped mixer adds an input")
		return nil
	}
	sym.Assert(in.I != nil, "no input was added")
	sym.Assert(in.I.SampleRate() == e.O.Rate, "an input has another sample rate")
	e.Ins = append(e.Ins, in)
	e.Added++
	return in
}

func (e *Env) Write(in *In, s media.PCM16Sample) {
	orig := append(media.PCM16Sample{}, s...)
	err := in.I.WriteSample(s)
	sym.Assert(err == nil, "writing to an input fails")
	for j := range s {
		sym.Assert(s[j] == orig[j], "writing to an input changes the caller's samples")
		s[j] = -77 // the mixer keeps its own copy
	}
	in.Q = append(in.Q, orig...)
	e.InFrames++
	e.InSamples += len(s)
	if d := len(in.Q) - e.Size*e.Limit; d > 0 {
		in.Q = in.Q[d:]
		e.Dropped += d
		e.DroppedFrames++
	}
}

func (e *Env) Close(in *In) {
	sym.Assert(in.I.Close() == nil, "closing an input fails")
	if !in.Removed {
		in.Removed = true
		e.Removed++
	}
}

// Expect computes the next mixed frame.
func (e *Env) Expect() []int {
	sum := make([]int, e.Size)
	for _, in := range e.Ins {
		if in.Removed {
			continue
		}
		if in.Buffering {
			if len(in.Q) < (e.Limit/2+1)*e.Size {
				continue
			}
			in.Buffering = false
		}
		n := len(in.Q)
		if n > e.Size {
			n = e.Size
		}
		if n == 0 {
			in.Buffering = true
			e.Restarts++
		} else {
			e.MixedFrames++
			e.MixedSamples += n
		}
		for j := 0; j < n; j++ {
			sum[j] += int(in.Q[j])
		}
		in.Q = in.Q[n:]
	}
	for j, v := range sum {
		if v > 32767 {
			v = 32767
		}
		if v < -32767 {
			v = -32767
		}
		sum[j] = v
	}
	return sum
}

// Tick lets one frame duration pass and checks the mixed frame.
func (e *Env) Tick() {
	e.Now += Dur
	vtime.Set(e.Now)
	sym.Assert(vtime.NTickers() == 1 && vtime.Tickers[0].Period() == Dur, "the mixer does not wake up once per frame duration")
	vtime.Tickers[0].Tick()
	sym.WaitIdle()
	if !e.Stopped {
		e.Frames++
	}
	sym.Assert(len(e.O.Got) == e.Frames, "not exactly one frame was mixed in a frame duration")
	if e.Stopped {
		return
	}
	e.CheckFrame(e.O.Got[e.Frames-1], e.Expect())
}

func (e *Env) CheckFrame(f media.PCM16Sample, want []int) {
	sym.Assert(len(f) == e.Size, "a mixed frame does not have the full length")
	for j, v := range want {
		sym.Assert(int(f[j]) == v, "a mixed sample is not the saturated sum of the playing inputs")
	}
}

// Recheck verifies that frames handed over earlier did not change.
func Snapshot(fs []media.PCM16Sample) (r []media.PCM16Sample) {
	for _, f := range fs {
		r = append(r, append(media.PCM16Sample{}, f...))
	}
	return
}

func Same(a, b []media.PCM16Sample) bool {
	for i := range a {
		for j := range a[i] {
			if a[i][j] != b[i][j] {
				return false
			}
		}
	}
	return true
}

// CheckStats compares the statistics with the model.
func (e *Env) CheckStats() {
	s := e.St
	sym.Assert(s.Tracks.Load() == int64(e.Added-e.Removed), "the track count is not added minus removed inputs")
	sym.Assert(s.TracksTotal.Load() == uint64(e.Added), "the total track count is wrong")
	sym.Assert(s.InputFrames.Load() == uint64(e.InFrames), "the input frame count is wrong")
	sym.Assert(s.InputSamples.Load() == uint64(e.InSamples), "the input sample count is wrong")
	sym.Assert(s.InputSamplesDropped.Load() == uint64(e.Dropped), "the dropped sample count is not the displaced samples")
	sym.Assert(s.InputFramesDropped.Load() == uint64(e.DroppedFrames), "the dropped frame count is wrong")
	sym.Assert(s.Mixes.Load() == uint64(e.Frames), "the mix count is wrong")
	sym.Assert(s.OutputFrames.Load() == uint64(e.Frames), "the output frame count is wrong")
	sym.Assert(s.OutputSamples.Load() == uint64(e.Frames*e.Size), "the output sample count is wrong")
	sym.Assert(s.Restarts.Load() == uint64(e.Restarts), "the restart count is not the number of times a playing input ran empty")
	sym.Assert(s.MixedFrames.Load() == uint64(e.MixedFrames), "the mixed frame count is not the number of contributions of inputs")
	sym.Assert(s.MixedSamples.Load() == uint64(e.MixedSamples), "the mixed sample count is not the samples contributed by inputs")
	sym.Assert(s.WriteErrors.Load() == uint64(e.O.Errors), "the write error count is not the failed output writes")
}

// TickRaw lets one frame duration pass without waiting for the mixer.
func (e *Env) TickRaw() {
	e.Now += Dur
	vtime.Set(e.Now)
	vtime.Tickers[0].Tick()
}

// Long runs a long session of several inputs with frames of real sizes.
func Long(opts ...mixer.MixerOptions) *Env {
	size := []int{20, 160, 480}[sym.Choose("size", 3)]
	limit := []int{5, 2, 9}[sym.Choose("limit", 3)]
	seed := sym.Choose("seed", sym.Bound(3, 12))
	e := New(size, limit, opts...)
	lens := []int{size, size, size / 2, 3*size + 1, size, 1, limit*size + size/3, size, 2 * size, limit * size}
	v := 0
	for k := 0; k < 150; k++ {
		x := (k*k*7 + k*13 + seed*29) % 31
		switch {
		case len(e.Ins) < 3+seed%5 && (k < 3 || x == 1):
			e.Add()
		case x == 2 && k > 100:
			e.Close(e.Ins[k%len(e.Ins)])
		}
		for i, in := range e.Ins {
			// inputs write in phases, with pauses
			if in.Removed || (k/(8+5*i)+i)%3 == 2 {
				continue
			}
			s := make(media.PCM16Sample, lens[(x*(i+1)+k/10)%len(lens)])
			for j := range s {
				v++
				s[j] = int16(v * 4001)
				if v%5 == 0 {
					s[j] = int16(v)
				}
			}
			if k%30 == 4 {
				s[0] = sym.I16("s")
			}
			e.Write(in, s)
		}
		e.Tick()
	}
	return e
}
