package main

import (
	"errors"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/zzverif/sym"
)

var errW = errors.New("writer failed")
var errC = errors.New("close failed")

type sink[T any] struct {
	got    []T
	clone  func(T) T
	fail   bool
	failC  bool
	closes int
}

func (s *sink[T]) String() string  { return "sink" }
func (s *sink[T]) SampleRate() int { return 8000 }
func (s *sink[T]) Close() error {
	s.closes++
	if s.failC {
		return errC
	}
	return nil
}
func (s *sink[T]) WriteSample(d T) error {
	s.got = append(s.got, s.clone(d))
	if s.fail {
		return errW
	}
	return nil
}

func clone[T ~[]E, E any](d T) T { return append(T{}, d...) }

var real []int

func frames() []int {
	if real != nil {
		return real
	}
	n := sym.Bound(3, 4)
	var l []int
	for i := 0; i < n; i++ {
		l = append(l, sym.Choose("size", sym.Bound(5, 7)))
	}
	return l
}

func encode[T ~[]byte](mk func(media.WriteCloser[T]) media.PCM16Writer, code func([]byte, []int16)) {
	s := &sink[T]{clone: clone[T, byte]}
	w := mk(s)
	sym.Assert(w.SampleRate() == 8000, "the encoder does not run at the native rate")
	for k, n := range frames() {
		in := media.PCM16Sample(sym.I16s[int16]("in", min(n, 6)))
		for i := len(in); i < n; i++ {
			in = append(in, int16(i*2503+k))
		}
		orig := clone(in)
		s.fail = sym.Bool("fail")
		err := w.WriteSample(in)
		sym.Assert((err != nil) == s.fail, "the destination's error is not returned")
		sym.Assert(len(s.got) == k+1, "a frame did not reach the destination exactly once")
		g := s.got[k]
		sym.Assert(len(g) == n, "an encoded frame has the wrong length")
		for i := range g {
			var one [1]byte
			code(one[:], orig[i:i+1])
			sym.Assert(g[i] == one[0], "an encoded sample is not the code of its own input")
			sym.Assert(in[i] == orig[i], "the encoder changed its input")
		}
	}
	s.failC = sym.Bool("failC")
	sym.Assert((w.Close() != nil) == s.failC && s.closes == 1, "close does not close the destination once with its error")
	sym.Reach("end")
}

func decode[T ~[]byte](mk func(media.PCM16Writer) media.WriteCloser[T], val func([]int16, []byte)) {
	s := &sink[media.PCM16Sample]{clone: clone[media.PCM16Sample, int16]}
	w := mk(s)
	sym.Assert(w.SampleRate() == 8000, "the decoder does not run at the native rate")
	for k, n := range frames() {
		in := T(sym.Bytes("in", min(n, 6)))
		for i := len(in); i < n; i++ {
			in = append(in, byte(i*37+k))
		}
		orig := clone(in)
		s.fail = sym.Bool("fail")
		err := w.WriteSample(in)
		sym.Assert((err != nil) == s.fail, "the destination's error is not returned")
		sym.Assert(len(s.got) == k+1, "a frame did not reach the destination exactly once")
		g := s.got[k]
		sym.Assert(len(g) == n, "a decoded frame has the wrong length")
		for i := range g {
			var one [1]int16
			val(one[:], orig[i:i+1])
			sym.Assert(g[i] == one[0], "a decoded sample is not the value of its own input")
			sym.Assert(in[i] == orig[i], "the decoder changed its input")
		}
	}
	s.failC = sym.Bool("failC")
	sym.Assert((w.Close() != nil) == s.failC && s.closes == 1, "close does not close the destination once with its error")
	sym.Reach("end")
}

// Frames of real sizes.
func HReal() {
	real = [][]int{{160, 80, 240, 161, 160}, {6, 960, 7, 480, 1000}}[sym.Choose("sizes", 2)]
	switch sym.Choose("codec", 4) {
	case 0:
		HEncA()
	case 1:
		HEncU()
	case 2:
		HDecA()
	case 3:
		HDecU()
	}
}

func HEncA() { encode[g711.ALawSample](g711.EncodeALaw, g711.EncodeALawTo) }
func HEncU() { encode[g711.ULawSample](g711.EncodeULaw, g711.EncodeULawTo) }
func HDecA() {
	decode[g711.ALawSample](func(w media.PCM16Writer) media.WriteCloser[g711.ALawSample] { return g711.DecodeALaw(w) }, g711.DecodeALawTo)
}
func HDecU() {
	decode[g711.ULawSample](func(w media.PCM16Writer) media.WriteCloser[g711.ULawSample] { return g711.DecodeULaw(w) }, g711.DecodeULawTo)
}

// An encoder onto a destination of another rate is refused.
func HRate() {
	r := sym.Range("rate", 1, 1<<20)
	sym.Assume(r != 8000)
	p := func() (p bool) {
		defer func() { p = recover() != nil }()
		g711.EncodeALaw(&rated[g711.ALawSample]{r})
		return
	}()
	q := func() (p bool) {
		defer func() { p = recover() != nil }()
		g711.EncodeULaw(&rated[g711.ULawSample]{r})
		return
	}()
	sym.Assert(p && q, "an encoder accepts a destination of another sample rate")
	sym.Reach("end")
}

type rated[T any] struct{ r int }

func (s *rated[T]) String() string        { return "r" }
func (s *rated[T]) SampleRate() int       { return s.r }
func (s *rated[T]) Close() error          { return nil }
func (s *rated[T]) WriteSample(d T) error { return nil }
