package main

import (
	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/zzverif/mixm"
	"github.com/livekit/media-sdk/zzverif/sym"
)

func tagged(n int) media.PCM16Sample {
	s := make(media.PCM16Sample, n)
	for i := range s {
		s[i] = int16(sym.U8("s"))
	}
	return s
}

// One input, any history of writes and ticks; every limit of 1-5 frames.
func HHistory() {
	limit := 1 + sym.Choose("limit", sym.Bound(3, 5))
	size := 1 + sym.Choose("size", 2)
	e := mixm.New(size, limit)
	in := e.Add()
	lens := []int{1, size, size*limit - 1, size*limit + 1}
	for k := 0; k < sym.Bound(5, 7); k++ {
		op := sym.Choose("op", len(lens)+1)
		if op < len(lens) {
			e.Write(in, tagged(lens[op]))
		} else {
			e.Tick()
		}
	}
	for i := 0; i < limit+1; i++ {
		e.Tick()
	}
	sym.Assert(e.St.MixedSamples.Load()+uint64(len(in.Q)+e.Dropped) == uint64(e.InSamples), "a written sample was neither mixed, displaced nor kept")
	e.M.Stop()
	sym.WaitIdle()
	sym.Reach("end")
}

// The default limit: five frames, three of them before playing.
func HDefault() {
	e := mixm.New(1, 0)
	e.Limit = 5
	in := e.Add()
	n := sym.Choose("before", 8)
	for i := 0; i < n; i++ {
		e.Write(in, tagged(1))
	}
	e.Tick()
	if n < 3 {
		sym.Assert(in.Buffering, "an input plays before half its limit plus one is buffered")
		sym.Reach("buffering")
	}
	for i := 0; i < 6; i++ {
		e.Tick()
	}
	m := sym.Choose("again", 5)
	for i := 0; i < m; i++ {
		e.Write(in, tagged(1))
	}
	e.Tick()
	e.Tick()
	e.M.Stop()
	sym.WaitIdle()
	sym.Reach("end")
}

// A writer racing with the mixer: each sample is mixed once, in order, or displaced.
func HConcurrent() {
	sym.Preempt(sym.Bound(1, 2), true)
	e := mixm.New(2, 1)
	in := e.Add()
	done := make(chan bool)
	go func() {
		for i := 0; i < 3; i++ {
			s := media.PCM16Sample{int16(2*i + 1), int16(2*i + 2)}
			in.I.WriteSample(s)
		}
		done <- true
	}()
	e.TickRaw()
	e.TickRaw()
	<-done
	for i := 0; i < 3; i++ {
		e.TickRaw()
		sym.WaitIdle()
	}
	var seen []int16
	for _, f := range e.O.Got {
		for _, v := range f {
			if v != 0 {
				seen = append(seen, v)
			}
		}
	}
	ok := true
	for i := 1; i < len(seen); i++ {
		ok = ok && seen[i] > seen[i-1]
	}
	sym.Assert(ok, "samples were mixed twice or out of order")
	sym.Assert(len(seen)+int(e.St.InputSamplesDropped.Load()) == 6, "a sample was neither mixed nor displaced")
	e.M.Stop()
	sym.WaitIdle()
	sym.Reach("end")
}

// HLong: several inputs, real frame sizes and 150 frame durations.
func HLong() {
	e := mixm.Long()
	kept := 0
	for _, in := range e.Ins {
		if in.Removed {
			return
		}
		kept += len(in.Q)
	}
	sym.Assert(e.St.MixedSamples.Load()+uint64(kept+e.Dropped) == uint64(e.InSamples), "a written sample was neither mixed, displaced nor kept")
	sym.Reach("end")
}
