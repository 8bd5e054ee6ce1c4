package main

import (
	"errors"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/res"
	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vogg"
)

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

func HSplit() {
	ch := 1 + sym.Choose("stereo", 2)
	rate := []int{100, 150}[sym.Choose("rate", 2)] // 2 or 3 samples per frame and channel
	per := rate / 50 * ch
	n := sym.Choose("n", sym.Bound(9, 13))
	vogg.Rate, vogg.Ch = rate, ch
	vogg.EOFWith = sym.Choose("eofWith", 2) == 1
	vogg.Amount = func(max int) int { return 1 + sym.Choose("amount", max) }
	var want []int16 // scaled samples, up to rounding
	for i := 0; i < n; i++ {
		v := float32(sym.Range("v", -128, 127)) / 128
		want = append(want, int16(v*0x7fff))
		vogg.Samples = append(vogg.Samples, v)
	}
	frames := res.ReadOggAudioFile(nil, rate, ch)
	k := 0
	for i, f := range frames {
		if i < len(frames)-1 {
			sym.Assert(len(f) == per, "a frame before the last is not 20 ms long")
		} else {
			sym.Assert(len(f) > 0 && len(f) <= per, "the last frame is empty or longer than 20 ms")
		}
		for _, s := range f {
			sym.Assert(k < n, "samples were duplicated")
			d := int(s) - int(want[k])
			sym.Assert(d >= -1 && d <= 1, "a sample is lost, out of order or not scaled to 16 bits")
			k++
		}
	}
	sym.Assert(k == n, "samples were lost")
	sym.Reach("end")
}

// Scaling, for every sample value that is a multiple of 2^-7 (thorough 2^-9).
func HScale() {
	vogg.Rate, vogg.Ch = 100, 1
	vogg.Amount = func(max int) int { return max }
	k := sym.Bound(128, 512)
	v := sym.Range("v", -k, k)
	vogg.Samples = []float32{float32(v) / float32(k)}
	f := res.ReadOggAudioFile(nil, 100, 1)
	sym.Assert(len(f) == 1 && len(f[0]) == 1, "wrong number of frames")
	d := int(f[0][0])*k - v*32767
	sym.Assert(d >= -k && d <= k, "a sample is not scaled to 16 bits")
	sym.Reach("end")
}

// Faults of the decoder and wrong formats are not silently accepted.
func HFaults() {
	vogg.Rate, vogg.Ch = 100, 1
	vogg.Amount = func(max int) int { return max }
	vogg.Samples = []float32{0.5, 0.25, 0.125}
	vogg.EOFWith = sym.Choose("with", 2) == 1
	rate, ch := 100, 1
	switch sym.Choose("fault", 5) {
	case 0:
		vogg.OpenErr = errors.New("broken header")
	case 1:
		vogg.ReadErr = errors.New("broken page")
	case 2:
		rate = 48000
	case 3:
		ch = 2
	case 4:
		var fs []media.PCM16Sample
		sym.Assert(!panics(func() { fs = res.ReadOggAudioFile(nil, 100, 1) }), "a good resource is refused")
		sym.Assert(len(fs) == 2, "wrong number of frames")
		sym.Reach("good")
		return
	}
	sym.Assert(panics(func() { res.ReadOggAudioFile(nil, rate, ch) }), "a broken or unexpected resource is accepted")
	sym.Reach("refused")
}

// HReal: resources of a real rate and length.
func HReal() {
	ch := 1 + sym.Choose("stereo", 2)
	rate := []int{48000, 8000, 44100}[sym.Choose("rate", 3)]
	per := rate / 50 * ch
	n := []int{3 * per, 4*per + 17*ch, 2*per - ch, per}[sym.Choose("n", 4)]
	amount := []int{per, 128 * ch, 1000 * ch, ch * 7}[sym.Choose("amount", 4)]
	vogg.Rate, vogg.Ch = rate, ch
	vogg.EOFWith = sym.Choose("eofWith", 2) == 1
	vogg.Amount = func(max int) int { return min(max, amount) }
	v0, v1 := sym.Range("v", -128, 127), sym.Range("v", -128, 127)
	var want []int16
	for i := 0; i < n; i++ {
		v := i%201 - 100
		if i == 0 {
			v = v0
		}
		if i == n-1 {
			v = v1
		}
		s := float32(v) / 128
		want = append(want, int16(s*0x7fff))
		vogg.Samples = append(vogg.Samples, s)
	}
	frames := res.ReadOggAudioFile(nil, rate, ch)
	k := 0
	for i, f := range frames {
		if i < len(frames)-1 {
			sym.Assert(len(f) == per, "a frame before the last is not 20 ms long")
		} else {
			sym.Assert(len(f) > 0 && len(f) <= per, "the last frame is empty or longer than 20 ms")
		}
		for _, s := range f {
			sym.Assert(k < n, "samples were duplicated")
			d := int(s) - int(want[k])
			sym.Assert(d >= -1 && d <= 1, "a sample is lost, out of order or not scaled to 16 bits")
			k++
		}
	}
	sym.Assert(k == n, "samples were lost")
	sym.Reach("end")
}
