package main

import (
	"errors"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/zzverif/sym"
	lib "github.com/livekit/media-sdk/zzverif/vg722"
)

var errDst = errors.New("destination failed")

type sink[T ~[]E, E int16 | byte] struct {
	rate   int
	frames []T
	closes int
	fail   bool
}

func (s *sink[T, E]) String() string  { return "sink" }
func (s *sink[T, E]) SampleRate() int { return s.rate }
func (s *sink[T, E]) Close() error    { s.closes++; return nil }
func (s *sink[T, E]) WriteSample(d T) error {
	s.frames = append(s.frames, append(T{}, d...))
	for i := range d {
		d[i] = ^d[i]
	}
	if s.fail {
		return errDst
	}
	return nil
}

func same[T int16 | byte](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = ok && a[i] == b[i]
	}
	return ok
}

func mode() (int, lib.Flags) {
	if sym.Split(sym.Bool("8k")) {
		return 8000, lib.FlagSampleRate8000
	}
	return 16000, 0
}

func decode(frames int, maxLen int) {
	rate, f := mode()
	s := &sink[media.PCM16Sample, int16]{rate: rate}
	w := g722.Decode(s)
	sym.Assert(w.SampleRate() == rate, "wrong sample rate")
	ref := lib.NewDecoder(lib.Rate64000, f)
	for k := 0; k < frames; k++ {
		l := sym.Choose("len", maxLen+1)
		in := g722.Sample(sym.Bytes("in", l))
		buf := make([]int16, 2*l)
		want := buf[:ref.Decode(buf, append([]byte{}, in...))]
		s.fail = !lib.Real && sym.Split(sym.Bool("dsterr"))
		err := w.WriteSample(in)
		for i := range in {
			in[i] ^= 0x55
		}
		sym.Assert((err != nil) == s.fail, "destination error not returned, or error without cause")
		sym.Assert(len(s.frames) == k+1, "frame not forwarded exactly once")
		sym.Assert(len(s.frames[k]) == l*rate/8000, "wrong number of samples for the frame")
		sym.Assert(same(s.frames[k], want), "decoded samples are not the codec's")
	}
	sym.Assert(w.Close() == nil && s.closes == 1, "close does not close the destination once")
}

func encode(frames int, maxLen int) {
	rate, f := mode()
	s := &sink[g722.Sample, byte]{rate: rate}
	w := g722.Encode(s)
	sym.Assert(w.SampleRate() == rate, "wrong sample rate")
	ref := lib.NewEncoder(lib.Rate64000, f)
	odd := false
	for k := 0; k < frames; k++ {
		l := sym.Choose("len", maxLen+1)
		in := media.PCM16Sample(sym.I16s[int16]("in", l))
		orig := append([]int16{}, in...)
		if l > 0 && !lib.Real && sym.Split(sym.Bool("room")) { // more of the caller's data behind the frame
			in = append(append(media.PCM16Sample{}, in...), 11, 12)[:l]
		}
		even := orig
		if rate == 16000 && l%2 != 0 {
			even, odd = orig[:l-1], true
		}
		buf := make([]byte, l)
		want := buf[:ref.Encode(buf, even)]
		s.fail = !lib.Real && sym.Split(sym.Bool("dsterr"))
		err := w.WriteSample(in)
		sym.Assert(same(in, orig), "caller's frame modified")
		if cap(in) > l {
			sym.Assert(in[: l+1][l] == 11, "data behind the caller's frame modified")
		}
		sym.Assert((err != nil) == s.fail, "destination error not returned, or error without cause")
		sym.Assert(len(s.frames) == k+1, "frame not forwarded exactly once")
		sym.Assert(len(s.frames[k]) == (l*8000+rate-1)/rate, "wrong number of bytes for the frame")
		if odd {
			// how the missing sample of a pair is made up is not specified
			sym.Assert(same(s.frames[k][:len(want)], want), "encoded bytes before an incomplete pair are not the codec's")
			sym.Reach("odd")
			return
		}
		sym.Assert(same(s.frames[k], want), "encoded bytes are not the codec's")
	}
	sym.Assert(w.Close() == nil && s.closes == 1, "close does not close the destination once")
}

func HDecodeReal() {
	lib.Real = true
	decode(sym.Bound(2, 3), 1)
}

func HEncodeReal() {
	lib.Real = true
	encode(1, 2)
}

func HDecode() { decode(sym.Bound(3, 4), 4) }
func HEncode() { encode(sym.Bound(3, 4), 5) }

// Frames of 10 to 120 ms.
func HLong() {
	rate, f := mode()
	x := sym.I16("x")
	es := &sink[g722.Sample, byte]{rate: rate}
	e := g722.Encode(es)
	re := lib.NewEncoder(lib.Rate64000, f)
	for k, n := range []int{rate / 50, rate / 100, rate * 3 / 25, rate / 25} {
		in := make(media.PCM16Sample, n)
		for i := range in {
			in[i] = x + int16(i)
		}
		buf := make([]byte, n)
		want := buf[:re.Encode(buf, append([]int16{}, in...))]
		sym.Assert(e.WriteSample(in) == nil && len(es.frames) == k+1 && len(es.frames[k]) == n*8000/rate, "wrong number of bytes")
		sym.Assert(same(es.frames[k], want), "wrong bytes")
	}
}

func HLongDecode() {
	rate, f := mode()
	x := sym.U8("x")
	s := &sink[media.PCM16Sample, int16]{rate: rate}
	d := g722.Decode(s)
	rd := lib.NewDecoder(lib.Rate64000, f)
	for k, n := range []int{160, 80, 960, 320} {
		in := make(g722.Sample, n)
		for i := range in {
			in[i] = x + byte(i)
		}
		buf := make([]int16, 2*n)
		want := buf[:rd.Decode(buf, append([]byte{}, in...))]
		sym.Assert(d.WriteSample(in) == nil && len(s.frames) == k+1 && len(s.frames[k]) == n*rate/8000, "wrong number of samples")
		sym.Assert(same(s.frames[k], want), "wrong samples")
	}
}
