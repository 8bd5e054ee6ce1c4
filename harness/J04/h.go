package main

import (
	"time"

	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vjit"
)

const ms = time.Millisecond

// HAudio: single-packet samples with symbolic sequence numbers.
func HAudio() {
	r := vjit.New(true, 60*ms)
	n := sym.Bound(4, 5)
	for i := 0; i < n; i++ {
		if i > 1 && sym.Choose("wait", 2) == 1 {
			r.Advance(61 * ms)
			r.CheckStats()
		}
		r.Push(r.Packet(sym.Range("off", 0, sym.Bound(255, 2047)), true, true, false))
		r.CheckStats()
	}
	if sym.Choose("flush", 2) == 1 {
		r.Flush()
	} else {
		r.Advance(61 * ms)
	}
	r.CheckStats()
	r.B.Close()
	sym.Reach("end")
}

// HVideo: arbitrary flags and padding.
func HVideo() {
	r := vjit.New(false, 60*ms)
	n := sym.Bound(4, 5)
	layout := r.Layout(n)
	pad := []int{n, 2, 1, 0}[sym.Choose("pad", sym.Bound(2, 4))]
	wait := sym.Choose("wait", n)
	for i := 0; i < n; i++ {
		if i == wait && i > 0 {
			r.Advance(61 * ms)
			r.CheckStats()
		}
		off := sym.Choose("off", n)
		p := layout(off)
		if off == pad {
			p = r.Packet(off, false, false, true)
		}
		r.Push(p)
		r.CheckStats()
	}
	if sym.Choose("flush", 2) == 1 {
		r.Flush()
	} else {
		r.Advance(61 * ms)
	}
	r.CheckStats()
	r.B.Close()
	sym.Reach("end")
}

// HLong: long streams with a burst lost, late, repeated or reversed.
func HLong() {
	vjit.Long(func(r *vjit.Run) {
		r.CheckStats()
	})
}
