package main

import (
	"errors"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/zzverif/sym"
)

var errDst = errors.New("destination failed")
var errClose = errors.New("close failed")

type sink struct {
	rate     int
	frames   []media.PCM16Sample
	last     bool // attempt failed
	fail     bool // failures allowed
	failed   int
	closes   int
	closeBad bool
	errs     int
}

func (s *sink) String() string  { return "sink" }
func (s *sink) SampleRate() int { return s.rate }
func (s *sink) Close() error {
	s.closes++
	if s.closeBad {
		return errClose
	}
	return nil
}
func (s *sink) WriteSample(d media.PCM16Sample) error {
	sym.Assert(s.closes == 0, "frame written after the destination was closed")
	s.frames = append(s.frames, append(media.PCM16Sample{}, d...))
	for i := range d { // the destination may scribble over what it was given
		d[i] = ^d[i]
	}
	if s.fail && sym.Split(sym.Bool("dsterr")) {
		s.failed++
		return errDst
	}
	return nil
}

// Any splitting, no errors: exact stream, exact frame sizes.
func HSplit() {
	fs := 1 + sym.Choose("fs", sym.Bound(3, 4))
	s := &sink{rate: 8000 + sym.Choose("rate", 3)}
	w := media.FullFrames[media.PCM16Sample](s, fs)
	sym.Assert(w.SampleRate() == s.rate, "sample rate is not the destination's")
	var all media.PCM16Sample
	n := sym.Bound(3, 4)
	for k := 0; k < n; k++ {
		l := sym.Choose("len", sym.Bound(5, 6))
		in := media.PCM16Sample(sym.I16s[int16]("s", l))
		all = append(all, in...)
		sym.Assert(w.WriteSample(in) == nil, "write failed although the destination accepted everything")
		for i := range in { // caller reuses its buffer
			in[i] ^= 0x55
		}
		tot := 0
		for _, f := range s.frames {
			sym.Assert(len(f) == fs, "a frame before close does not have the requested size")
			tot += len(f)
		}
		sym.Assert(tot == len(all)/fs*fs, "a complete frame was held back or an incomplete one emitted")
	}
	s.closeBad = sym.Split(sym.Bool("closeErr"))
	err := w.Close()
	sym.Assert(s.closes == 1, "closing did not close the destination exactly once")
	sym.Assert((err != nil) == s.closeBad, "close error of the destination is not returned")
	if s.closeBad {
		sym.Assert(errors.Is(err, errClose), "close error of the destination is not returned")
	}
	var got media.PCM16Sample
	for i, f := range s.frames {
		if i < len(s.frames)-1 {
			sym.Assert(len(f) == fs, "only the final frame may be short")
		}
		sym.Assert(len(f) > 0 && len(f) <= fs, "final frame is empty or too long")
		got = append(got, f...)
	}
	sym.Assert(len(got) == len(all), "samples were lost or duplicated")
	for i := range got {
		sym.Assert(got[i] == all[i], "the sample stream was changed or reordered")
	}
	sym.Observe("got", got)
	sym.Reach("end")
}

// Destination errors at any frame.
func HErrors() {
	fs := 1 + sym.Choose("fs", sym.Bound(2, 3))
	s := &sink{rate: 8000, fail: true}
	w := media.FullFrames[media.PCM16Sample](s, fs)
	var all media.PCM16Sample
	n := sym.Bound(2, 3)
	for k := 0; k < n; k++ {
		l := sym.Choose("len", sym.Bound(5, 6))
		in := media.PCM16Sample(sym.I16s[int16]("s", l))
		all = append(all, in...)
		f0 := s.failed
		err := w.WriteSample(in)
		sym.Assert((err != nil) == (s.failed > f0), "a destination error is not returned by the write that hit it")
		if err != nil {
			sym.Assert(errors.Is(err, errDst), "the returned error is not the destination's")
			sym.Reach("write error")
		}
	}
	s.fail = sym.Split(sym.Bool("closeFails"))
	f0 := s.failed
	err := w.Close()
	sym.Assert(s.closes == 1, "closing did not close the destination exactly once")
	sym.Assert((err != nil) == (s.failed > f0), "an error while closing is not returned")
	// every sample is attempted at most once and in order; all of them when close succeeded
	var got media.PCM16Sample
	for i, f := range s.frames {
		if i < len(s.frames)-1 {
			sym.Assert(len(f) == fs, "only the final frame may be short")
		}
		got = append(got, f...)
	}
	if s.failed == f0 {
		sym.Assert(len(got) == len(all), "samples were lost or duplicated after a destination error")
	}
	sym.Assert(len(got) <= len(all), "samples were duplicated after a destination error")
	for i := range got {
		sym.Assert(got[i] == all[i], "the sample stream was changed or reordered after a destination error")
	}
	sym.Observe("got", got)
	sym.Reach("end")
}

// Real frame sizes: writes of real sizes re-split into frames of 160.
func HReal() {
	fs := []int{160, 37, 1}[sym.Choose("fs", 3)]
	s := &sink{rate: 8000}
	w := media.FullFrames[media.PCM16Sample](s, fs)
	sizes := []int{80, 240, 37, 480, 1, 160, 1603, 8000}
	first := sym.Choose("first", len(sizes))
	var all, got media.PCM16Sample
	for k := 0; k < 6; k++ {
		in := make(media.PCM16Sample, sizes[(first+k*3)%len(sizes)])
		for i := range in {
			in[i] = int16(len(all) + i)
		}
		in[0], in[len(in)-1] = sym.I16("s0"), sym.I16("s1")
		all = append(all, in...)
		sym.Assert(w.WriteSample(in) == nil, "write failed although the destination accepted everything")
		sym.Assert(len(s.frames) == len(all)/fs, "a complete frame was held back or an incomplete one emitted")
	}
	sym.Assert(w.Close() == nil && s.closes == 1, "closing fails or does not close the destination")
	for i, f := range s.frames {
		sym.Assert(len(f) == fs || (i == len(s.frames)-1 && len(f) == len(all)%fs), "a frame does not have the requested size")
		got = append(got, f...)
	}
	sym.Assert(len(got) == len(all), "samples were lost or duplicated")
	for i := range got {
		sym.Assert(got[i] == all[i], "the sample stream was changed or reordered")
	}
	sym.Reach("end")
}
