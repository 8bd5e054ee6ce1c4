package main

import (
	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/mixer"
	"github.com/livekit/media-sdk/zzverif/mixm"
	"github.com/livekit/media-sdk/zzverif/sym"
)

func tagged(n int) media.PCM16Sample {
	s := make(media.PCM16Sample, n)
	for i := range s {
		s[i] = int16(sym.U8("s"))
	}
	return s
}

// Any history of operations keeps the statistics exact.
func HHistory() {
	var opts []mixer.MixerOptions
	if sym.Choose("channel", 2) == 1 {
		opts = append(opts, mixer.WithOutputChannelSize(2))
	}
	e := mixm.New(2, 1, opts...)
	for k := 0; k < sym.Bound(5, 6); k++ {
		switch op := sym.Choose("op", 6); op {
		case 0:
			if len(e.Ins) < 2 {
				e.Add()
			}
		case 1:
			if len(e.Ins) > 0 {
				e.Close(e.Ins[sym.Choose("which", len(e.Ins))])
			}
		case 2:
			if len(e.Ins) > 0 {
				e.Write(e.Ins[sym.Choose("which", len(e.Ins))], tagged([]int{1, 3}[sym.Choose("len", 2)]))
			}
		case 3:
			e.Tick()
		case 4:
			e.O.Fail = true
			e.Tick()
			e.O.Fail = false
		case 5:
			e.M.Stop()
			e.Stopped = true
			sym.WaitIdle()
			sym.Assert(e.M.NewInput() == nil, "a stopped mixer adds an input")
		}
		e.CheckStats()
	}
	sym.Reach("end")
}

// Foreign, absent and nil inputs and mixers.
func HForeign() {
	st := new(mixer.Stats)
	o := &mixm.Out{Rate: 500}
	a, err := mixer.NewMixer(o, mixm.Dur, 1, mixer.WithStats(st))
	sym.Assert(err == nil, "the mixer does not start")
	b, err := mixer.NewMixer(o, mixm.Dur, 1)
	sym.Assert(err == nil, "the mixer does not start")
	_, err = mixer.NewMixer(o, mixm.Dur, 2)
	sym.Assert(err != nil, "stereo mixing is not refused")
	ia, ib := a.NewInput(), b.NewInput()
	a.RemoveInput(ib)
	a.RemoveInput(nil)
	sym.Assert(st.Tracks.Load() == 1, "removing a foreign input changes the track count")
	a.RemoveInput(ia)
	a.RemoveInput(ia)
	sym.Assert(ia.Close() == nil, "closing a removed input fails")
	sym.Assert(st.Tracks.Load() == 0 && st.TracksTotal.Load() == 1, "removing an input twice changes the track count twice")
	var nm *mixer.Mixer
	var ni *mixer.Input
	sym.Assert(nm.NewInput() == nil, "a nil mixer adds an input")
	nm.RemoveInput(ia)
	sym.Assert(ni.Close() == nil, "closing a nil input fails")
	a.Stop()
	a.Stop()
	b.Stop()
	sym.WaitIdle()
	sym.Reach("end")
}

// Concurrent additions, removals and writes.
func HConcurrent() {
	sym.Preempt(sym.Bound(1, 2), true)
	st := new(mixer.Stats)
	o := &mixm.Out{Rate: 500}
	m, _ := mixer.NewMixer(o, mixm.Dur, 1, mixer.WithStats(st), mixer.WithInputBufferFrames(1))
	shared := m.NewInput()
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		go func() {
			in := m.NewInput()
			in.WriteSample(media.PCM16Sample{1, 2, 3})
			shared.WriteSample(media.PCM16Sample{5})
			in.Close()
			done <- true
		}()
	}
	<-done
	<-done
	sym.Assert(st.Tracks.Load() == 1 && st.TracksTotal.Load() == 3, "concurrent additions and removals are miscounted")
	sym.Assert(st.InputSamples.Load() == 8 && st.InputFrames.Load() == 4, "concurrent writes are miscounted")
	sym.Assert(st.InputSamplesDropped.Load() == 2, "concurrently displaced samples are miscounted")
	m.Stop()
	sym.WaitIdle()
	sym.Reach("end")
}

// HLong: several inputs, real frame sizes and 150 frame durations.
func HLong() {
	mixm.Long().CheckStats()
	sym.Reach("end")
}
