package main

import (
	"time"

	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vjit"
)

const ms = time.Millisecond

// HFlush: flushing at any point of any history, and going on afterwards.
func HFlush() {
	r := vjit.New(false, 60*ms)
	n := sym.Bound(3, 4)
	layout := r.Layout(n + 2)
	wait := sym.Choose("wait", 2) == 1
	for i := 0; i < n; i++ {
		if i == n-1 && wait {
			r.Advance(time.Duration(sym.Range("ms", 1, 127)) * ms)
		}
		r.Push(layout(sym.Choose("off", n+1)))
	}
	r.CheckTiming()
	r.Flush()
	r.CheckTiming()
	sym.Assert(r.B.Size() == 0, "the buffer is not empty after a flush")
	r.CheckStats()
	// again, with nothing held
	calls := len(r.Out)
	r.Flush()
	sym.Assert(len(r.Out) == calls && r.B.Size() == 0, "flushing an empty buffer delivers something")
	// going on
	r.Push(layout(sym.Choose("off", n+1)))
	r.Push(layout(n + 1))
	r.CheckTiming()
	r.Advance(61 * ms)
	r.CheckTiming()
	r.CheckSize()
	r.B.Close()
	sym.Reach("end")
}

// HAudio: the same with symbolic sequence numbers.
func HAudio() {
	r := vjit.New(true, 60*ms)
	n := sym.Bound(3, 4)
	for i := 0; i < n; i++ {
		r.Push(r.Packet(sym.Range("off", 0, 1023), true, true, false))
	}
	r.Flush()
	r.CheckTiming()
	sym.Assert(r.B.Size() == 0, "the buffer is not empty after a flush")
	for i := 0; i < 2; i++ {
		r.Push(r.Packet(sym.Range("off", 0, 1023), true, true, false))
		r.CheckTiming()
	}
	r.Advance(61 * ms)
	r.CheckTiming()
	sym.Assert(r.B.Size() == 0, "packets are kept beyond the latency")
	r.B.Close()
	sym.Reach("end")
}

// HLong: long streams with a burst lost, late, repeated or reversed.
func HLong() {
	vjit.LongWith(false, true, func(r *vjit.Run) {
		r.CheckTiming()
		r.CheckSize()
	})
}
