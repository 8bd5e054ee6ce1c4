package main

import (
	"time"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/tones"
	"github.com/livekit/media-sdk/zzverif/sym"
)

func abs(v int16) int {
	if v < 0 {
		return -int(v)
	}
	return int(v)
}

var freqs = [][]tones.Hz{{425}, {697, 1209}, {941, 1633}, {1, 2, 3, 4}, {440, 480, 620}}
var times = []time.Duration{20 * time.Millisecond, 86400*time.Second + 12345678, 0, 3 * time.Second, 7}

// Bounded by the amplitude and the same for a split frame, for every amplitude.
func HAmp() {
	f := freqs[sym.Choose("freqs", sym.Bound(4, len(freqs)))]
	ts := times[sym.Choose("ts", sym.Bound(2, len(times)))]
	var amp int16
	if sym.Bound(0, 1) == 1 {
		amp = sym.I16("amp")
	} else {
		amp = int16(sym.Range("amp", 0, 63) + []int{0, 32767 - 63, -32768}[sym.Choose("around", 3)])
	}
	l := 1 + sym.Choose("len", sym.Bound(2, 3))
	d := 20 * time.Millisecond
	both := sym.I16s[int16]("junk", 2*l)
	one := sym.I16s[int16]("junk", l)
	two := sym.I16s[int16]("junk", l)
	end := tones.Generate(both, ts, 2*d*time.Duration(l), amp, f)
	sym.Assert(end == ts+2*d*time.Duration(l), "the time after the frame is wrong")
	mid := tones.Generate(one, ts, d*time.Duration(l), amp, f)
	sym.Assert(mid == ts+d*time.Duration(l), "the time after the frame is wrong")
	tones.Generate(two, mid, d*time.Duration(l), amp, f)
	for i := 0; i < l; i++ {
		sym.Assert(abs(both[l+i]) <= abs(amp), "a sample exceeds the amplitude")
		sym.Assert(one[i] == both[i], "the first half of a split frame differs")
		sym.Assert(two[i] == both[l+i], "consecutive frames are not phase-continuous")
	}
	sym.Reach("end")
}

// For every phase: math.Sin is any value between -1 and 1.
func HPhase() {
	n := 1 + sym.Choose("n", sym.Bound(2, 3))
	ts := time.Duration(sym.Range("ts", 0, 1<<30))
	amp := []int16{16383, 32767, 1, 0, -32768, -1, 10000}[sym.Choose("amp", sym.Bound(3, 7))]
	buf := sym.I16s[int16]("junk", 1)
	f := []tones.Hz{697, 1209, 1633}[:n]
	tones.Generate(buf, ts, 20*time.Millisecond, amp, f)
	sym.Assert(abs(buf[0]) <= abs(amp), "a sample exceeds the amplitude")
	sym.Reach("end")
}

// No frequencies: silence everywhere; the end time is exact.
func HSilence() {
	n := sym.Choose("len", 5)
	buf := make(media.PCM16Sample, 0, n+2)
	buf = append(buf, sym.I16s[int16]("junk", n+1)...)
	last := buf[n]
	ts := time.Duration(sym.Range("ts", 0, 1<<40))
	d := time.Duration(sym.Range("dur", 0, 1<<40))
	end := tones.Generate(buf[:n], ts, d, sym.I16("amp"), nil)
	for i := 0; i < n; i++ {
		sym.Assert(buf[i] == 0, "not silent without frequencies")
	}
	sym.Assert(buf[n] == last, "written beyond the frame")
	sym.Assert(end == ts+d, "the time after the frame is wrong")
	sym.Reach("end")
}

// Several frequencies are mixed as their mean, without overflow.
func HMean() {
	amp := int16(sym.Range("amp", 0, 63) + []int{32767 - 63, -32767, 0}[sym.Choose("around", sym.Bound(2, 3))])
	fs := [][]tones.Hz{{50, 50}, {50, 50, 50, 50}, {50, 50, 50}, {50, 150}, {100, 50, 25}}[sym.Choose("freqs", sym.Bound(2, 5))]
	ts := 20 * time.Millisecond * time.Duration(sym.Choose("frame", sym.Bound(1, 2)))
	buf := make(media.PCM16Sample, 4)
	tones.Generate(buf, ts, 20*time.Millisecond, amp, fs)
	var sum [4]int
	for _, f := range fs {
		one := make(media.PCM16Sample, 4)
		tones.Generate(one, ts, 20*time.Millisecond, amp, []tones.Hz{f})
		for i, v := range one {
			sum[i] += int(v)
		}
	}
	n := len(fs)
	for i, v := range buf {
		d := int(v)*n - sum[i]
		sym.Assert(d >= -2*n && d <= 2*n, "several tones are not mixed as their mean")
	}
	sym.Reach("end")
}

// A known sine: one frequency, quarter periods.
func HSine() {
	amp := sym.I16("amp")
	ts := 20 * time.Millisecond * time.Duration(sym.Choose("frame", 4))
	buf := make(media.PCM16Sample, 4)
	tones.Generate(buf, ts, 20*time.Millisecond, amp, []tones.Hz{50})
	a := int(amp)
	near := func(v, w int) bool { d := v - w; return d >= -1 && d <= 1 }
	sym.Assert(near(int(buf[0]), 0), "phase 0 is not zero")
	sym.Assert(near(int(buf[1]), a), "a quarter period is not at the amplitude")
	sym.Assert(near(int(buf[2]), 0), "half a period is not zero")
	sym.Assert(near(int(buf[3]), -a) || a == -32768, "three quarters of a period are not at minus the amplitude")
	sym.Reach("end")
}

// HReal: frames of real sizes, long after the start.
func HReal() {
	f := freqs[sym.Choose("freqs", len(freqs))]
	l := []int{160, 320, 960}[sym.Choose("len", 3)]
	amp := []int16{16383, 32767, 1000, -32767}[sym.Choose("amp", 4)]
	d := 20 * time.Millisecond
	ts := []time.Duration{0, d, time.Hour, 24*time.Hour + 5*d}[sym.Choose("ts", 4)]
	if len(f) == 1 {
		// up to a day, the phase of one tone is exact to a part in a thousand
		one := make(media.PCM16Sample, 160)
		two := make(media.PCM16Sample, 160)
		tones.Generate(one, ts, d, amp, []tones.Hz{400})
		tones.Generate(two, ts+d, d, amp, []tones.Hz{400}) // 8 periods later
		for i := range one {
			e := int(one[i]) - int(two[i])
			sym.Assert(e >= -40 && e <= 40, "a periodic tone is not periodic")
		}
	}
	both := make(media.PCM16Sample, 3*l)
	end := tones.Generate(both, ts, 3*d, amp, f)
	sym.Assert(end == ts+3*d, "the time after the frame is wrong")
	buf := make(media.PCM16Sample, l)
	at := ts
	for k := 0; k < 3; k++ {
		buf[0] = sym.I16("junk")
		at = tones.Generate(buf, at, d, amp, f)
		for i, v := range buf {
			sym.Assert(abs(v) <= abs(amp), "a sample exceeds the amplitude")
			e := int(v) - int(both[k*l+i])
			sym.Assert(e >= -1 && e <= 1, "consecutive frames are not phase-continuous")
		}
	}
	sym.Assert(at == end, "the time after the frame is wrong")
	sym.Reach("end")
}

// HPosition: a sample of a frame is the one that a frame starting there has.
func HPosition() {
	f := freqs[sym.Choose("freqs", len(freqs))]
	l := []int{160, 320, 882, 960, 7}[sym.Choose("len", 5)]
	amp := []int16{16383, -32767}[sym.Choose("amp", 2)]
	d := []time.Duration{20 * time.Millisecond, 7500 * time.Microsecond}[sym.Choose("dur", 2)]
	ts := []time.Duration{0, time.Hour + 20*time.Millisecond}[sym.Choose("ts", 2)]
	buf := make(media.PCM16Sample, l)
	buf[0] = sym.I16("junk")
	tones.Generate(buf, ts, d, amp, f)
	one := make(media.PCM16Sample, 1)
	for i := 0; i < l; i += 1 + l/200 {
		tones.Generate(one, ts+d*time.Duration(i)/time.Duration(l), d/time.Duration(l), amp, f)
		e := int(one[0]) - int(buf[i])
		sym.Assert(e >= -1 && e <= 1, "a sample is not evaluated at the time of its position")
	}
	sym.Reach("end")
}
