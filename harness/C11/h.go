package main

import (
	"errors"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vsoxr"
)

var errDst = errors.New("destination failed")

type sink struct {
	rate   int
	got    []int16
	sizes  []int
	closes int
	fail   bool
	failed int
}

func (s *sink) String() string  { return "sink" }
func (s *sink) SampleRate() int { return s.rate }
func (s *sink) Close() error    { s.closes++; return nil }
func (s *sink) WriteSample(d media.PCM16Sample) error {
	sym.Assert(s.closes == 0, "frame written after the destination was closed")
	s.got = append(s.got, d...)
	s.sizes = append(s.sizes, len(d))
	for i := range d { // the destination may scribble over what it was given
		d[i] = ^d[i]
	}
	if s.fail && sym.Split(sym.Bool("dsterr")) {
		s.failed++
		return errDst
	}
	return nil
}

var rates = [][2]int{{48000, 16000}, {48000, 8000}, {16000, 48000}, {44100, 48000}, {48000, 44100}, {22050, 16000}, {8000, 48000}}

// frame size of the given input size
func frame(src, dst, n int) int {
	if dst < src {
		return n / (src / dst)
	}
	return n * (dst / src)
}

func outputs(n int) {
	out := sym.I16s[int16]("o", n)
	vsoxr.Out = func(k int) int16 {
		if k < len(out) {
			return out[k]
		}
		return int16(k)
	}
}

func checkStream(s *sink, msg string) {
	e := vsoxr.All[0]
	sym.Assert(len(s.got) <= e.Produced, "more samples delivered than the engine yielded")
	ok := true
	for i, v := range s.got {
		ok = ok && v == vsoxr.Out(i)
	}
	sym.Assert(ok, msg)
}

func checkInput(src, dst int, all []int16) {
	e := vsoxr.All[0]
	sym.Assert(len(e.In) <= len(all), "more input fed to the engine than written")
	ok := true
	for i, v := range e.In {
		ok = ok && v == all[i]
	}
	sym.Assert(ok, "input reached the engine out of order, changed, or with samples missing")
	// what is held back makes less than one output sample
	sym.Assert((len(all)-len(e.In))*dst < src, "input samples are held back")
}

// Any sizes, any values, any behaviour of the engine.
func HStream() {
	r := rates[sym.Choose("rates", sym.Bound(5, len(rates)))]
	src, dst := r[0], r[1]
	s := &sink{rate: dst}
	s.fail = sym.Split(sym.Bool("fail"))
	up := dst/src >= 3
	w := media.ResampleWriter(s, src)
	sym.Assert(w.SampleRate() == src, "writer does not report the source rate")
	sym.Assert(len(vsoxr.All) == 1 && vsoxr.All[0].Src == src && vsoxr.All[0].Dst == dst, "engine has the wrong rates")
	outputs(32)
	sizes := [][]int{{0, 1, 3, 4, 7}, {0, 1, 2, 3, 4, 6, 7, 8}}[sym.Bound(0, 1)]
	if up {
		sizes = [][]int{{1, 2}, {0, 1, 2, 3}}[sym.Bound(0, 1)]
	} else if src == 48000 && dst == 8000 {
		sizes = [][]int{{0, 3, 7, 13}, {0, 3, 6, 7, 11, 13}}[sym.Bound(0, 1)]
	} else if src/dst < 2 {
		sizes = [][]int{{0, 1, 3, 4}, {0, 1, 2, 3, 4}}[sym.Bound(0, 1)]
	}
	var all []int16
	big := 0
	n := sym.Bound(3, 4)
	if s.fail {
		n--
	}
	for k := 0; k < n; k++ {
		l := sizes[sym.Choose("len", len(sizes))]
		in := media.PCM16Sample(sym.I16s[int16]("s", l))
		all = append(all, in...)
		if l > big {
			big = l
		}
		nf, bad := len(s.sizes), s.failed
		err := w.WriteSample(in)
		for i := range in { // the caller reuses its buffer
			in[i] ^= 0x55
		}
		sym.Assert((err != nil) == (s.failed > bad), "error of the destination not returned, or error without cause")
		sym.Assert(err == nil || errors.Is(err, errDst), "error is not the destination's")
		checkInput(src, dst, all)
		checkStream(s, "delivered samples are not the engine's output in order")
		if f := frame(src, dst, big); f > 0 {
			for _, sz := range s.sizes[nf:] {
				sym.Assert(sz == f, "frame size does not correspond to the largest input frame")
			}
			sym.Assert(vsoxr.All[0].Produced-len(s.got) < f, "a full frame is held back")
		}
		if len(s.sizes) > 0 {
			sym.Reach("frame")
		}
	}
	s.fail = false
	sym.Assert(w.Close() == nil, "close failed")
	sym.Assert(s.closes == 1, "destination not closed exactly once")
	e := vsoxr.All[0]
	sym.Assert(e.Deleted == 1, "engine not released on close")
	sym.Assert(e.Flushing, "engine not flushed")
	checkInput(src, dst, all)
	checkStream(s, "delivered samples are not the engine's output in order after close")
	sym.Assert(len(s.got) == e.Produced, "samples yielded by the engine were lost")
	// nothing remains in the engine
	sym.Assert(len(s.got) == (2*len(e.In)*dst+src)/(2*src), "samples remained in the engine")
	if f := frame(src, dst, big); f > 0 && s.failed == 0 {
		for i, sz := range s.sizes {
			sym.Assert(sz > 0 && (sz <= f), "oversized or empty frame")
			_ = i
		}
	}
}

// Long tails: an engine that holds its output back until it is flushed.
func HTail() {
	rr := [][2]int{{8000, 192000}, {8000, 48000}, {48000, 44100}}[sym.Choose("rates", 3)]
	src, dst := rr[0], rr[1]
	s := &sink{rate: dst}
	w := media.ResampleWriter(s, src)
	vsoxr.Lazy = true
	cnt := []int{1, 3, 43, 46, 180}[sym.Choose("cnt", 5)]
	l := []int{1, 5, 45, 1200}[sym.Choose("len", 4)]
	sym.Assume(cnt*l*dst/src <= 5000 && (l < 100 || dst < src))
	x := sym.I16("x")
	var all []int16
	for k := 0; k < cnt; k++ {
		in := make(media.PCM16Sample, l)
		for i := range in {
			in[i] = x + int16(k*l+i)
			all = append(all, in[i])
		}
		sym.Assert(w.WriteSample(in) == nil, "write failed")
	}
	checkInput(src, dst, all)
	sym.Assert(w.Close() == nil, "close failed")
	checkStream(s, "delivered samples are not the engine's output")
	e := vsoxr.All[0]
	sym.Assert(len(s.got) == e.Produced && e.Produced == (2*len(e.In)*dst+src)/(2*src), "the end of the stream was lost")
	sym.Assert(s.closes == 1 && e.Deleted == 1, "not closed")
	for i, sz := range s.sizes {
		if i < len(s.sizes)-1 {
			sym.Assert(sz == s.sizes[0], "frames of different sizes before the last one")
		} else {
			sym.Assert(sz <= s.sizes[0], "last frame is too large")
		}
	}
	if len(s.got) > 1024 {
		sym.Reach("long tail")
	}
}

// Engine failures.
func HErrors() {
	s := &sink{rate: 16000}
	vsoxr.ErrAt = sym.Choose("at", 4)
	vsoxr.Eager = true
	w := media.ResampleWriter(s, 48000)
	failed := false
	for k := 0; k < 3; k++ {
		in := media.PCM16Sample(sym.I16s[int16]("s", 3))
		calls := vsoxr.All[0].Calls
		err := w.WriteSample(in)
		now := vsoxr.All[0].Calls > vsoxr.ErrAt && calls <= vsoxr.ErrAt
		sym.Assert((err != nil) == now, "error of the engine swallowed, or error without cause")
		failed = failed || now
		if now {
			sym.Reach("engine error")
		}
	}
	calls := vsoxr.All[0].Calls
	err := w.Close()
	now := vsoxr.All[0].Calls > vsoxr.ErrAt && calls <= vsoxr.ErrAt
	sym.Assert((err != nil) == now, "error of the engine on close swallowed, or error without cause")
	sym.Assert(failed || now, "engine was not called at all")
	checkStream(s, "delivered samples are not the engine's output")
	_ = err
}

// Invalid rates are rejected by the engine; the message must survive.
func HCreate() {
	s := &sink{rate: 16000}
	vsoxr.CreateErr = "some engine error"
	var got any
	func() {
		defer func() { got = recover() }()
		media.ResampleWriter(s, 48000)
	}()
	err, ok := got.(error)
	sym.Assert(ok && err.Error() == "some engine error", "failure to create the engine was not reported")
	sym.Assert(vsoxr.BadFree == 0, "static error string freed")
}

// Equal rates bypass the engine; one-shot conversion appends everything.
func HOneShot() {
	r := rates[sym.Choose("rates", len(rates))]
	src, dst := r[0], r[1]
	if sym.Split(sym.Bool("equal")) {
		src = dst
	}
	s := &sink{rate: dst}
	pre := media.PCM16Sample(sym.I16s[int16]("p", sym.Choose("plen", 3)))
	in := media.PCM16Sample(sym.I16s[int16]("s", sym.Choose("len", 8)))
	if src == dst {
		w := media.ResampleWriter(s, src)
		sym.Assert(w == media.PCM16Writer(s), "equal rates do not return the destination itself")
	}
	outputs(32)
	got := media.Resample(append(media.PCM16Sample{}, pre...), dst, in, src)
	var want []int16
	want = append(want, pre...)
	if src == dst {
		want = append(want, in...)
		sym.Assert(len(vsoxr.All) == 0, "engine used for equal rates")
	} else {
		e := vsoxr.All[0]
		checkInput(src, dst, in)
		for i := 0; i < (2*len(e.In)*dst+src)/(2*src); i++ {
			want = append(want, vsoxr.Out(i))
		}
		sym.Assert(e.Deleted == 1, "engine not released")
	}
	sym.Assert(len(got) == len(want), "wrong number of samples")
	ok := true
	for i := range want {
		ok = ok && got[i] == want[i]
	}
	sym.Assert(ok, "resampled samples are not appended in order")
}
