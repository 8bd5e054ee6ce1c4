package main

import (
	"time"

	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vjit"
)

const ms = time.Millisecond

func wait(r *vjit.Run) {
	if sym.Choose("wait", 2) == 1 {
		r.Advance(time.Duration(sym.Range("ms", 1, 127)) * ms)
		r.CheckTiming()
	}
}

// Single-packet samples in any order, with losses and duplicates, at any time.
func HAudio() {
	r := vjit.New(true, 60*ms)
	n := sym.Bound(4, 5)
	for i := 0; i < n; i++ {
		if i > 1 {
			wait(r)
		}
		r.Push(r.Packet(sym.Choose("off", n), true, true, false))
		r.CheckTiming()
	}
	r.Advance(200 * ms)
	r.CheckTiming()
	r.B.Close()
	sym.Reach("end")
}

// Packets with any flags.
func HFlags() {
	r := vjit.New(false, 60*ms)
	n := sym.Bound(3, 4)
	for i := 0; i < n; i++ {
		if i > 0 {
			wait(r)
		}
		r.Push(r.Packet(sym.Choose("off", n), sym.Bool("start"), sym.Bool("end"), false))
		r.CheckTiming()
	}
	r.Advance(200 * ms)
	r.CheckTiming()
	r.B.Close()
	sym.Reach("end")
}

// Samples of one or several packets each, reordered, duplicated or lost.
func HVideo() {
	r := vjit.New(false, 60*ms)
	n := sym.Bound(4, 5)
	layout := r.Layout(n)
	pause := 1 + sym.Choose("pause", n-1)
	for i := 0; i < n; i++ {
		if i == pause {
			r.Advance(time.Duration(sym.Range("ms", 1, 127)) * ms)
			r.CheckTiming()
		}
		r.Push(layout(sym.Choose("off", n)))
		r.CheckTiming()
	}
	r.Advance(200 * ms)
	r.CheckTiming()
	r.B.Close()
	sym.Reach("end")
}

// HLatency: changing the latency applies to packets already held.
func HLatency() {
	r := vjit.New(sym.Choose("video", 2) == 0, 60*ms)
	r.Push(r.Packet(0, true, true, false))
	r.Push(r.Packet(2, true, true, false))
	if sym.Choose("more", 2) == 1 {
		r.Advance(time.Duration(sym.Range("ms", 0, 63)) * ms)
		r.Push(r.Packet(4, true, true, false))
	}
	r.CheckTiming()
	r.Lat = time.Duration(sym.Range("latency", 1, 127)) * ms
	r.B.UpdateLatency(r.Lat)
	r.Advance(0)
	r.CheckTiming()
	r.Advance(time.Duration(sym.Range("ms", 0, 127)) * ms)
	r.CheckTiming()
	r.Advance(r.Lat)
	r.CheckTiming()
	r.B.Close()
	sym.Reach("end")
}

// HLong: long streams with a burst lost, late, repeated or reversed.
func HLong() {
	vjit.Long(func(r *vjit.Run) {
		r.CheckTiming()
	})
}
