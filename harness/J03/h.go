package main

import (
	"time"

	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vjit"
)

const ms = time.Millisecond

// HFlags: packets with arbitrary flags in any order at any time.
func HFlags() {
	r := vjit.New(false, 60*ms)
	n := sym.Bound(3, 4)
	for i := 0; i < n; i++ {
		if i > 0 && sym.Choose("wait", 2) == 1 {
			r.Advance(time.Duration(sym.Range("ms", 1, 127)) * ms)
			r.CheckSamples()
			r.CheckSize()
		}
		r.Push(r.Packet(sym.Choose("off", n), sym.Bool("start"), sym.Bool("end"), false))
		r.CheckSamples()
	}
	r.Advance(61 * ms)
	r.CheckSamples()
	sym.Assert(r.B.Size() == 0, "packets of incomplete samples are kept beyond the latency")
	r.B.Close()
	sym.Reach("end")
}

// HVideo: samples of one to three packets with losses and duplicates.
func HVideo() {
	r := vjit.New(false, 60*ms)
	n := sym.Bound(5, 6)
	layout := r.Layout(n)
	pause := sym.Choose("pause", 3)
	for i := 0; i < n; i++ {
		if i == 2*pause && i > 0 {
			r.Advance(31 * ms)
		}
		// each packet arrives, is lost, arrives late or twice
		switch sym.Choose("fate", 3) {
		case 0:
			r.Push(layout(i))
		case 1: // swapped with the next one, which may arrive twice
			r.Push(layout((i + 1) % n))
			r.Push(layout(i))
		}
		r.CheckSamples()
	}
	r.CheckTiming()
	switch sym.Choose("finish", 2) {
	case 0:
		r.Advance(61 * ms)
		sym.Assert(r.B.Size() == 0, "packets of incomplete samples are kept beyond the latency")
	case 1:
		r.B.Flush()
		sym.Assert(r.B.Size() == 0, "packets remain after a flush")
	}
	r.CheckSamples()
	r.B.Close()
	sym.Reach("end")
}

// HLong: long streams with a burst lost, late, repeated or reversed.
func HLong() {
	vjit.Long(func(r *vjit.Run) {
		r.CheckSamples()
		r.CheckSize()
	})
}
