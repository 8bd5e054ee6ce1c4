package main

import (
	"time"

	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vjit"
)

const ms = time.Millisecond

func wait(r *vjit.Run) {
	if sym.Choose("wait", 2) == 1 {
		r.Advance(61 * ms)
		r.CheckOrder()
	}
}

// HAudio: single-packet samples with any sequence numbers of a window.
func HAudio() {
	r := vjit.New(true, 60*ms)
	n := sym.Bound(4, 5)
	for i := 0; i < n; i++ {
		if i > 1 {
			wait(r)
		}
		r.Push(r.Packet(sym.Range("off", 0, 2047), true, true, false))
		r.CheckOrder()
	}
	if sym.Choose("flush", 2) == 1 {
		r.B.Flush()
	} else {
		r.Advance(61 * ms)
	}
	r.CheckOrder()
	r.B.Close()
	sym.Reach("end")
}

// HInsert: packets that wait for a missing one are pushed in any order.
func HInsert() {
	r := vjit.New(true, 60*ms)
	r.Push(r.Packet(0, true, true, false))
	n := sym.Bound(5, 6)
	var used [8]bool
	for i := 0; i < n; i++ {
		off := 2 + sym.Choose("off", n)
		sym.Assume(!used[off])
		used[off] = true
		r.Push(r.Packet(off, true, true, false))
	}
	r.CheckTiming()
	r.Push(r.Packet(1, true, true, false))
	r.CheckOrder()
	r.CheckTiming()
	sym.Assert(r.B.Size() == 0, "contiguous packets are not all delivered")
	r.B.Close()
	sym.Reach("end")
}

// HVideo: samples of several packets, reordered, repeated or lost, and padding.
func HVideo() {
	r := vjit.New(false, 60*ms)
	n := sym.Bound(4, 5)
	layout := r.Layout(n)
	pad := []int{n, 1, 0, 2}[sym.Choose("pad", sym.Bound(2, 4))]
	pause := sym.Bound(2, 0)
	if pause == 0 {
		pause = 1 + sym.Choose("pause", n)
	}
	for i := 0; i < n; i++ {
		if i == pause {
			r.Advance(61 * ms)
		}
		off := sym.Choose("off", n)
		p := layout(off)
		if off == pad {
			p = r.Packet(off, false, false, true)
		}
		r.Push(p)
		r.CheckOrder()
	}
	r.B.Flush()
	r.CheckOrder()
	// packets after the flush, old and new ones
	r.Push(layout(sym.Choose("after", n)))
	r.CheckOrder()
	r.B.Close()
	sym.Reach("end")
}

// HConcurrent: packets pushed from two goroutines while the timer fires.
func HConcurrent() {
	sym.Preempt(sym.Bound(1, 2), true)
	r := vjit.New(true, 60*ms)
	var ps []*vjit.Pkt
	for i := 0; i < 3; i++ {
		ps = append(ps, r.Packet(i, true, true, false))
	}
	r.Pushed = ps
	r.B.PushAt(ps[0].P, r.At())
	r.Now = 61 * ms
	r.SetTime()
	done := make(chan bool, 2)
	go func() {
		r.B.PushAt(ps[2].P, r.At().Add(-61*ms))
		done <- true
	}()
	go func() {
		r.FireDue()
		done <- true
	}()
	ps[1].At, ps[2].At = r.Now, 0
	r.B.PushAt(ps[1].P, r.At())
	<-done
	<-done
	sym.WaitIdle()
	r.Settle()
	r.CheckOrder()
	st := r.B.Stats()
	sym.Assert(st.PacketsPushed == 3 && st.PacketsPopped+st.PacketsDropped == 3, "packets are not all accounted for")
	r.B.Close()
	sym.Reach("end")
}

// HLong: long streams with a burst lost, late, repeated or reversed.
func HLong() {
	vjit.Long(func(r *vjit.Run) {
		r.CheckOrder()
	})
}
