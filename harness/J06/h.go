package main

import (
	"time"

	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vjit"
)

const ms = time.Millisecond

func noPadding(r *vjit.Run) {
	for _, s := range r.Out {
		sym.Assert(len(s) > 0, "the handler is called without packets")
		for _, e := range s {
			sym.Assert(!e.Packet.Padding, "padding is delivered")
		}
	}
}

// HContiguous: padding in sequence does not delay or count as lost.
func HContiguous() {
	video := sym.Choose("video", 2) == 1
	r := vjit.New(!video, 60*ms)
	n := sym.Bound(5, 7)
	off, media, calls := 0, 0, 0
	started := false
	for off < n {
		if sym.Bool("pad") {
			p := r.Packet(off, false, false, true)
			r.B.PushAt(p.P, r.At())
			off++
		} else {
			k := 1
			if video {
				k += sym.Choose("more", 2)
			}
			for i := 0; i < k; i++ {
				p := r.Packet(off, i == 0, i == k-1, false)
				r.B.PushAt(p.P, r.At())
				off++
				media++
			}
			calls++
			started = true
		}
		noPadding(r)
		sym.Assert(len(r.Out) == calls, "padding delays a sample")
	}
	got := 0
	for _, s := range r.Out {
		got += len(s)
	}
	sym.Assert(got == media, "padding costs a packet")
	st := r.B.Stats()
	sym.Assert(st.PacketsLost == 0 && st.PacketsDropped == 0 && r.Notes == 0, "padding is counted as lost or dropped")
	sym.Assert(r.B.Size() == 0, "packets remain in the buffer")
	if started {
		sym.Reach("media")
	}
	r.B.Close()
	sym.Reach("end")
}

// HAny: padding and samples in any order, with losses, duplicates and pauses.
func HAny() {
	r := vjit.New(sym.Choose("video", 2) == 0, 60*ms)
	n := sym.Bound(4, 5)
	layout := r.Layout(n)
	pads := make([]bool, n)
	pause := sym.Bound(n-1, 0)
	if pause == 0 {
		pause = 1 + sym.Choose("pause", n-1)
	}
	for i := 0; i < n; i++ {
		if i == pause {
			r.Advance(time.Duration(sym.Range("ms", 50, 65)) * ms)
		}
		off := sym.Choose("off", n)
		// a sequence number is padding whenever it is sent, between samples
		if i == 0 {
			for k := sym.Bound(1, 2); k > 0; k-- {
				pads[sym.Choose("pad", n)] = true
			}
		}
		p := layout(off)
		if pads[off] {
			p = r.Packet(off, false, false, true)
		}
		r.Push(p)
		noPadding(r)
		r.CheckTiming()
		r.CheckSize()
	}
	r.Advance(200 * ms)
	r.CheckTiming()
	r.CheckSize()
	r.CheckStats()
	noPadding(r)
	r.B.Close()
	sym.Reach("end")
}

// HBefore: padding before the first delivered sample is ignored.
func HBefore() {
	r := vjit.New(sym.Choose("video", 2) == 0, 60*ms)
	n := sym.Bound(2, 3)
	for i := 0; i < n; i++ {
		r.Push(r.Packet(sym.Range("off", 0, 0xFFFF), false, false, true))
		sym.Assert(r.B.Size() == 0, "padding before the first sample is held")
		if sym.Bool("wait") {
			r.Advance(61 * ms)
		}
	}
	p := r.Packet(sym.Range("off", 0, 0xFFFF), true, true, false)
	r.Push(p)
	sym.Assert(len(r.Out) == 1 && len(r.Out[0]) == 1 && r.Out[0][0].Packet == p.P, "padding before the first sample delays it")
	st := r.B.Stats()
	sym.Assert(st.PacketsLost == 0 && st.PacketsDropped == 0 && st.PacketsPopped == 1 && st.PaddingPushed == uint64(n) && st.PacketsPushed == uint64(n+1), "padding before the first sample is counted")
	r.B.Close()
	sym.Reach("end")
}

// HLong: long streams with a burst lost, late, repeated or reversed.
func HLong() {
	vjit.LongWith(true, false, func(r *vjit.Run) {
		noPadding(r)
		r.CheckTiming()
		r.CheckSize()
	})
}
