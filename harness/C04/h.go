package main

import (
	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/zzverif/sym"
)

// length of a frame: small ones and longer ones.
func length(small int) int {
	n := sym.Choose("n", small+3)
	if n >= small {
		n = []int{11, 19, 35}[n-small]
	}
	return n
}

// Every pair of 16-bit samples: the average is exact, rounded toward zero.
func HStereoToMono() {
	n := length(sym.Bound(4, 9)) // stereo length, odd lengths included
	src := media.PCM16Sample(sym.I16s[int16]("s", n))
	orig := append(media.PCM16Sample{}, src...)
	extra := sym.Choose("extra", 2)
	dst := media.PCM16Sample(sym.I16s[int16]("d", n/2+extra))
	dorig := append(media.PCM16Sample{}, dst...)
	media.StereoToMono(dst, src)
	for i := 0; i < n/2; i++ {
		want := (int32(orig[2*i]) + int32(orig[2*i+1])) / 2
		sym.Assert(int32(dst[i]) == want, "StereoToMono is not the exact average of the pair")
	}
	for i := n / 2; i < len(dst); i++ {
		sym.Assert(dst[i] == dorig[i], "StereoToMono wrote past the mono frame")
	}
	for i := range src {
		sym.Assert(src[i] == orig[i], "StereoToMono changed its input")
	}
	sym.Observe("dst", dst)
	sym.Reach("end")
}

// In-place use: dst and src overlap.
func HStereoToMonoInPlace() {
	n := 2 * (1 + sym.Choose("n", sym.Bound(3, 5)))
	src := media.PCM16Sample(sym.I16s[int16]("s", n))
	orig := append(media.PCM16Sample{}, src...)
	media.StereoToMono(src[:n/2], src)
	for i := 0; i < n/2; i++ {
		want := (int32(orig[2*i]) + int32(orig[2*i+1])) / 2
		sym.Assert(int32(src[i]) == want, "in-place StereoToMono is not the exact average of the pair")
	}
	sym.Observe("dst", src[:n/2])
	sym.Reach("end")
}

func HMonoToStereo() {
	n := length(sym.Bound(4, 8))
	src := media.PCM16Sample(sym.I16s[int16]("s", n))
	orig := append(media.PCM16Sample{}, src...)
	extra := sym.Choose("extra", 3)
	dst := media.PCM16Sample(sym.I16s[int16]("d", 2*n+extra))
	dorig := append(media.PCM16Sample{}, dst...)
	media.MonoToStereo(dst, src)
	for i := 0; i < n; i++ {
		sym.Assert(dst[2*i] == orig[i] && dst[2*i+1] == orig[i], "MonoToStereo did not duplicate the sample")
		sym.Assert(src[i] == orig[i], "MonoToStereo changed its input")
	}
	for i := 2 * n; i < len(dst); i++ {
		sym.Assert(dst[i] == dorig[i], "MonoToStereo wrote past the stereo frame")
	}
	// converting back restores the mono frame exactly
	back := make(media.PCM16Sample, n)
	media.StereoToMono(back, dst[:2*n])
	for i := range back {
		sym.Assert(back[i] == orig[i], "mono -> stereo -> mono changed a sample")
	}
	sym.Observe("dst", dst)
	sym.Reach("end")
}

// A destination that is too small is refused instead of being overrun.
func HTooSmall() {
	n := 1 + sym.Choose("n", 3)
	short := 1 + sym.Choose("short", 2*n)
	dst := make(media.PCM16Sample, 2*n-short, 4*n)
	src := media.PCM16Sample(sym.I16s[int16]("s", n))
	panicked := false
	func() {
		defer func() { panicked = recover() != nil }()
		media.MonoToStereo(dst, src)
	}()
	sym.Assert(panicked, "MonoToStereo accepted a destination that is too small")
	full := dst[:cap(dst)]
	for i := range full {
		sym.Assert(full[i] == 0, "refused MonoToStereo still wrote samples")
	}
	mono := make(media.PCM16Sample, n-min(n, short), 2*n)
	src = media.PCM16Sample(sym.I16s[int16]("t", 2*n))
	panicked = false
	func() {
		defer func() { panicked = recover() != nil }()
		media.StereoToMono(mono, src)
	}()
	sym.Assert(panicked, "StereoToMono accepted a destination that is too small")
	full = mono[:cap(mono)]
	for i := range full {
		sym.Assert(full[i] == 0, "refused StereoToMono still wrote samples")
	}
	sym.Reach("end")
}

// HReal: frames of real sizes.
func HReal() {
	n := []int{160, 441, 960, 1001, 1920, 4807}[sym.Choose("len", 6)]
	src := make(media.PCM16Sample, n)
	for i := range src {
		src[i] = int16(i*977 - 20000)
	}
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	src[at] = sym.I16("s")
	orig := append(media.PCM16Sample{}, src...)
	dst := make(media.PCM16Sample, 2*n+1)
	dst[2*n] = 77
	media.MonoToStereo(dst, src)
	for i, v := range orig {
		sym.Assert(dst[2*i] == v && dst[2*i+1] == v, "MonoToStereo did not duplicate the sample")
	}
	sym.Assert(dst[2*n] == 77, "MonoToStereo wrote past the stereo frame")
	mono := make(media.PCM16Sample, n/2+1)
	mono[n/2] = 77
	media.StereoToMono(mono, src)
	for i := range mono[:n/2] {
		sym.Assert(int32(mono[i]) == (int32(orig[2*i])+int32(orig[2*i+1]))/2, "StereoToMono is not the exact average of the pair")
	}
	sym.Assert(mono[n/2] == 77, "StereoToMono wrote past the mono frame")
	media.StereoToMono(src, src)
	for i := range mono[:n/2] {
		sym.Assert(src[i] == mono[i], "in-place StereoToMono is not the exact average of the pair")
	}
	sym.Reach("end")
}
