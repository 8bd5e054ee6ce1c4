package main

import (
	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/mixer"
	"github.com/livekit/media-sdk/zzverif/mixm"
	"github.com/livekit/media-sdk/zzverif/sym"
)

// The sum of 0-3 inputs with every sample value; inputs may be buffering,
// empty, short or removed.
func HSum() {
	n := sym.Choose("inputs", sym.Bound(3, 4))
	size := 2
	var opts []mixer.MixerOptions
	if sym.Choose("channel", 2) == 1 {
		opts = append(opts, mixer.WithOutputChannel())
	}
	e := mixm.New(size, 1+sym.Choose("limit", 2), opts...)
	for i := 0; i < n; i++ {
		e.Add()
	}
	for _, in := range e.Ins {
		e.Write(in, sym.I16s[int16]("s", sym.Choose("len", 2*size+1)))
	}
	if n > 0 && sym.Choose("remove", 2) == 1 {
		e.Close(e.Ins[n-1])
	}
	e.Tick()
	snap := mixm.Snapshot(e.O.Got)
	e.Tick()
	sym.Assert(mixm.Same(snap, e.O.Got), "a mixed frame changed after it was handed over")
	e.M.Stop()
	sym.WaitIdle()
	sym.Reach("end")
}

// Three loud inputs at once: saturation, not wrap-around.
func HLoud() {
	e := mixm.New(1, 1)
	var sum int
	for i := 0; i < 3; i++ {
		v := sym.I16("loud")
		sum += int(v)
		e.Write(e.Add(), media.PCM16Sample{v})
	}
	e.Tick()
	got := int(e.O.Got[0][0])
	if sum > 32767 {
		sym.Assert(got == 32767, "a loud sum is not limited")
		sym.Reach("high")
	} else if sum < -32767 {
		sym.Assert(got == -32767, "a loud negative sum is not limited")
		sym.Reach("low")
	} else {
		sym.Assert(got == sum, "a sum is wrong")
		sym.Reach("plain")
	}
	e.M.Stop()
	sym.WaitIdle()
}

// History: adding, removing, writing and mixing in any order.
func HHistory() {
	e := mixm.New(2, 1)
	e.Add()
	for k := 0; k < sym.Bound(4, 5); k++ {
		switch op := sym.Choose("op", 4); op {
		case 0:
			if len(e.Ins) < 3 {
				e.Add()
			}
		case 1:
			e.Close(e.Ins[sym.Choose("which", len(e.Ins))])
		case 2:
			in := e.Ins[sym.Choose("which", len(e.Ins))]
			e.Write(in, sym.I16s[int16]("s", 1+sym.Choose("len", 2)))
		case 3:
			e.Tick()
		}
	}
	e.Tick()
	e.M.Stop()
	sym.WaitIdle()
	sym.Reach("end")
}

// HLong: several inputs, real frame sizes and 150 frame durations.
func HLong() {
	mixm.Long()
	sym.Reach("end")
}
