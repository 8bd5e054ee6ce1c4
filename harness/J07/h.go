package main

import (
	"time"

	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vjit"
)

const ms = time.Millisecond

// HImmediate: the old stream is delivered completely, then the sender jumps.
// Every sample of the new stream is handed over with its last packet.
func HImmediate() {
	video := sym.Choose("video", 2) == 1
	r := vjit.New(!video, 60*ms)
	n := sym.Bound(2, 3)
	var want []*vjit.Pkt
	sample := func(off int) int {
		k := 1
		if video {
			k += sym.Choose("more", 2)
		}
		calls := len(r.Out)
		var s []*vjit.Pkt
		for i := 0; i < k; i++ {
			sym.Assert(len(r.Out) == calls, "an incomplete sample is delivered")
			p := r.Packet(off+i, i == 0, i == k-1, false)
			s = append(s, p)
			r.B.PushAt(p.P, r.At())
		}
		want = append(want, s...)
		sym.Assert(len(r.Out) == calls+1, "a sample of a new stream is not handed over immediately")
		return off + k
	}
	off := 0
	for i := 0; i < n; i++ {
		off = sample(off)
	}
	// the next sequence number is at least 3000 ahead of the last one, or at
	// least 3016 behind it (so that its first sample is as well)
	jump := sym.Range("jump", 3000, 0x10000-3016)
	off += jump - 1
	for i := 0; i < n; i++ {
		off = sample(off)
	}
	k := 0
	for _, s := range r.Out {
		for _, e := range s {
			sym.Assert(k < len(want) && e.Packet == want[k].P, "packets are lost, repeated or reordered by a restart")
			k++
		}
	}
	sym.Assert(k == len(want), "packets are lost by a restart")
	st := r.B.Stats()
	sym.Assert(st.PacketsLost == 0 && st.PacketsDropped == 0 && r.Notes == 0, "the jump is counted as loss")
	sym.Assert(r.B.Size() == 0, "packets remain in the buffer")
	r.B.Close()
	sym.Reach("end")
}

// HPending: the sender jumps while packets of the old stream are held behind a
// missing one; possibly it jumps again.
func HPending() {
	r := vjit.New(sym.Choose("video", 2) == 0, 60*ms)
	push := func(off int) *vjit.Pkt {
		p := r.Packet(off, true, true, false)
		r.B.PushAt(p.P, r.At())
		return p
	}
	first := push(0)
	missing := sym.Choose("missing", 2) + 1 // how many
	var held []*vjit.Pkt
	for i := 0; i < 2; i++ {
		held = append(held, push(1+missing+i))
	}
	var fresh []*vjit.Pkt
	j := sym.Range("jump", 3100, 0x10000-3100)
	off := 1 + missing + 1 + j
	jumps := 1 + sym.Choose("again", 2)
	for k := 0; k < jumps; k++ {
		fresh = append(fresh, push(off), push(off+1))
		// the second jump leads back near the old stream, but is seen as
		// a third stream if it is far from all packets held
		j2 := sym.Range("jump2", 3100, 0x10000-3100)
		off += 1 + j2
		sym.Assume(k > 0 || far(off, 0) && far(off, 1+missing+1))
	}
	sym.Assert(len(r.Out) == 1, "a new stream overtakes packets of the old one")
	want := []*vjit.Pkt{first}
	lost := 0
	if sym.Choose("arrives", 2) == 1 {
		want = append(want, make([]*vjit.Pkt, missing)...)
		for i := 0; i < missing; i++ {
			// in either order
			o := 1 + i
			if sym.Choose("order", 2) == 1 && missing == 2 {
				o = 2 - i
			}
			found := false
			for _, p := range r.Pushed {
				found = found || p.Off == o
			}
			sym.Assume(!found)
			p := r.Packet(o, true, true, false)
			r.Pushed = append(r.Pushed, p)
			r.B.PushAt(p.P, r.At())
			want[o] = p
		}
	} else {
		r.Now += 61 * ms
		r.SetTime()
		r.Settle()
		lost = missing
	}
	want = append(want, held...)
	want = append(want, fresh...)
	var got []*vjit.Pkt
	for _, s := range r.Out {
		for _, e := range s {
			k := len(got)
			sym.Assert(k < len(want) && want[k] != nil && e.Packet == want[k].P, "packets are lost, repeated or reordered by a restart")
			got = append(got, want[k])
		}
	}
	sym.Assert(len(got) == len(want), "packets are lost or late after a restart")
	st := r.B.Stats()
	sym.Assert(st.PacketsLost == uint64(lost) && st.PacketsDropped == 0, "the jump is counted as loss")
	sym.Assert(r.B.Size() == 0, "packets remain in the buffer")
	r.B.Close()
	sym.Reach("end")
}

// far reports whether two sequence numbers are 3100 or more apart.
func far(a, b int) bool {
	d := uint16(a - b)
	return d >= 3100 && d <= 0x10000-3100
}

// HReordered: the first packets of the new stream arrive in any order, one of
// them late or never, while a packet of the old stream is held.
func HReordered() {
	r := vjit.New(sym.Choose("video", 2) == 0, 60*ms)
	push := func(off int) *vjit.Pkt {
		p := r.Packet(off, true, true, false)
		r.B.PushAt(p.P, r.At())
		return p
	}
	want := []*vjit.Pkt{push(0), nil, push(2)}
	off := 3 + sym.Range("jump", 3100, 0x10000-3100)
	n := 4
	late := 1 + sym.Choose("late", n-1)
	fresh := make([]*vjit.Pkt, n)
	for k := 0; k < n-1; k++ {
		i := sym.Choose("next", n)
		sym.Assume(i != late && fresh[i] == nil)
		fresh[i] = push(off + i)
	}
	sym.Assert(len(r.Out) == 1, "a new stream overtakes packets of the old one")
	want[1] = push(1)
	check := func(want []*vjit.Pkt) {
		k := 0
		for _, s := range r.Out {
			for _, e := range s {
				sym.Assert(k < len(want) && e.Packet == want[k].P, "packets of a new stream are lost, repeated or reordered, or overtake a missing one")
				k++
			}
		}
		sym.Assert(k == len(want), "packets of a new stream are late")
	}
	check(append(want, fresh[:late]...))
	lost := 0
	if late < n-1 && sym.Choose("arrives", 2) == 0 {
		lost = 1
		r.Now += 61 * ms
		r.SetTime()
		r.Settle()
		want = append(append(want, fresh[:late]...), fresh[late+1:]...)
	} else {
		fresh[late] = push(off + late)
		want = append(want, fresh...)
	}
	check(want)
	st := r.B.Stats()
	sym.Assert(st.PacketsLost == uint64(lost) && st.PacketsDropped == 0, "the jump is counted as loss, or the gap is not")
	sym.Assert(r.B.Size() == 0, "packets remain in the buffer")
	r.B.Close()
	sym.Reach("end")
}

// HMany: many packets of the old stream are held, and the new one is long.
func HMany() {
	r := vjit.New(sym.Choose("video", 2) == 0, 60*ms)
	push := func(off int) *vjit.Pkt {
		p := r.Packet(off, true, true, false)
		r.B.PushAt(p.P, r.At())
		return p
	}
	n := sym.Bound(11, 20)
	want := []*vjit.Pkt{push(0), nil}
	for i := 0; i < n; i++ {
		want = append(want, push(2+i))
	}
	off := n + 2 + sym.Range("jump", 3100, 0x10000-3100)
	for i := 0; i < n; i++ {
		want = append(want, push(off+i))
	}
	sym.Assert(len(r.Out) == 1, "a new stream overtakes packets of the old one")
	lost := 0
	if sym.Choose("arrives", 2) == 1 {
		want[1] = push(1)
	} else {
		want = append(want[:1], want[2:]...)
		r.Now += 61 * ms
		r.SetTime()
		r.Settle()
		lost = 1
	}
	for i := 0; i < n; i++ {
		want = append(want, push(off+n+i))
	}
	k := 0
	for _, s := range r.Out {
		for _, e := range s {
			sym.Assert(k < len(want) && e.Packet == want[k].P, "packets are lost, repeated or reordered by a restart")
			k++
		}
	}
	sym.Assert(k == len(want), "packets are lost or late after a restart")
	st := r.B.Stats()
	sym.Assert(st.PacketsLost == uint64(lost) && st.PacketsDropped == 0, "the jump is counted as loss")
	sym.Assert(r.B.Size() == 0, "packets remain in the buffer")
	r.B.Close()
	sym.Reach("end")
}
