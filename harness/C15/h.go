package main

import (
	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/rtp"
	prtp "github.com/pion/rtp"

	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vsoxr"
)

type sink struct {
	rate   int
	got    []int16
	frames []int
	closes int
}

func (s *sink) String() string  { return "sink" }
func (s *sink) SampleRate() int { return s.rate }
func (s *sink) Close() error    { s.closes++; return nil }
func (s *sink) WriteSample(d media.PCM16Sample) error {
	sym.Assert(s.closes == 0, "the destination is used after it was closed")
	s.got = append(s.got, d...)
	s.frames = append(s.frames, len(d))
	return nil
}

var rates = []int{8000, 16000, 24000, 48000}

func pickRate() int { return rates[sym.Choose("rate", len(rates))] }

// check compares what reached w, fed at rate with in, with what has to:
// engine n resamples it if the rates differ.
func check(w *sink, rate int, in []int16, engine int, closed bool) {
	if rate == w.rate {
		sym.Assert(len(w.got) == len(in), "a destination of the same rate misses samples or gets too many")
		for i := range in {
			sym.Assert(i < len(w.got) && w.got[i] == in[i], "a destination of the same rate gets other samples")
		}
		return
	}
	e := vsoxr.All[engine]
	sym.Assert(e.Src == rate && e.Dst == w.rate, "the resampler converts between the wrong rates")
	sym.Assert(len(e.In) == len(in), "samples are missing from the resampler's input")
	for i := range in {
		sym.Assert(i < len(e.In) && e.In[i] == in[i], "the resampler gets other samples")
	}
	n := len(in) * w.rate / rate
	// up to a frame is held back until closing (C11)
	sym.Assert(len(w.got) == n || !closed && len(w.got) < n, "the destination misses resampled samples or gets too many")
	for i := range w.got {
		sym.Assert(w.got[i] == vsoxr.Out(i), "the destination gets something else than the resampler's output")
	}
	want := 0
	if closed {
		want = 1
	}
	sym.Assert(e.Deleted == want, "the resampler is not released exactly on closing")
}

// HSwitch: writers of any rate are attached to a switch one after the other.
func HSwitch() {
	vsoxr.Eager = true
	rate := pickRate()
	var sw *media.SwitchWriter
	if sym.Choose("late", 2) == 1 {
		sw = media.NewSwitchWriter(-1)
		sw.SetSampleRate(rate)
	} else {
		sw = media.NewSwitchWriter(rate)
	}
	engines := 0
	var prev media.PCM16Writer
	var last *sink
	var in []int16
	eng := 0
	for k := 0; k < sym.Bound(2, 3); k++ {
		w := &sink{rate: pickRate()}
		old := sw.Swap(w)
		if k > 0 {
			sym.Assert(old != nil && old == prev, "attaching does not return the attached writer")
			sym.Assert(last.closes == 0, "attaching closes the writer before")
			check(last, rate, in, eng, false)
			sym.Assert(old.Close() == nil && last.closes == 1, "closing the writer handed back does not close the one attached, once")
			check(last, rate, in, eng, true)
		} else {
			sym.Assert(old == nil, "a writer nobody attached")
		}
		prev = sw.Get()
		sym.Assert(prev != nil && prev.SampleRate() == rate, "the attached writer does not take the switch's rate")
		if w.rate != rate {
			eng = engines
			engines++
		}
		sym.Assert(len(vsoxr.All) == engines, "a resampler too many or too few")
		last, in = w, nil
		for j := sym.Choose("frames", 3); j > 0; j-- {
			f := media.PCM16Sample(sym.I16s[int16]("s", 6))
			in = append(in, f...)
			sym.Assert(sw.WriteSample(f) == nil, "writing fails")
		}
	}
	sym.Assert(sw.SampleRate() == rate, "the switch changes its rate")
	sym.Assert(sw.Close() == nil && last.closes == 1, "closing the switch does not close the attached writer once")
	check(last, rate, in, eng, true)
	sym.Assert(len(vsoxr.All) == engines, "a resampler too many or too few")
	sym.Reach("end")
}

type dec struct {
	name   string
	write  func([]byte) error
	close  func() error
	rate   func() int
	native int
}

func decoder(kind int, w *sink) dec {
	switch kind {
	case 0:
		d := g711.DecodeALaw(w)
		return dec{"A-law", func(b []byte) error { return d.WriteSample(b) }, d.Close, d.SampleRate, 8000}
	case 1:
		d := g711.DecodeULaw(w)
		return dec{"mu-law", func(b []byte) error { return d.WriteSample(b) }, d.Close, d.SampleRate, 8000}
	}
	d := g722.Decode(w)
	native := 16000
	if w.rate == 8000 {
		native = 8000
	}
	return dec{"G.722", func(b []byte) error { return d.WriteSample(b) }, d.Close, d.SampleRate, native}
}

// HDecode: decoders for destinations of any rate.
func HDecode() {
	vsoxr.Eager = true
	kind := sym.Choose("codec", 3)
	w := &sink{rate: pickRate()}
	d := decoder(kind, w)
	sym.Assert(d.rate() == d.native, "the decoder does not run at its own rate")
	engines := 0
	if w.rate != d.native {
		engines = 1
	}
	sym.Assert(len(vsoxr.All) == engines, "a resampler too many or too few")
	// the same decoder at its own rate
	ref := &sink{rate: d.native}
	rd := decoder(kind, ref)
	for j := sym.Choose("frames", sym.Bound(3, 4)); j > 0; j-- {
		b := sym.Bytes("b", 6)
		sym.Assert(rd.write(b) == nil, "writing fails")
		sym.Assert(d.write(b) == nil, "writing fails")
		check(w, d.native, ref.got, 0, false)
	}
	sym.Assert(d.close() == nil && w.closes == 1, "closing the decoder does not close the destination once")
	check(w, d.native, ref.got, 0, true)
	sym.Assert(len(vsoxr.All) == engines, "a resampler too many or too few")
	sym.Reach("end")
}

var names = []string{g711.ALawSDPName, g711.ULawSDPName, g722.SDPName}

func codec(kind int) rtp.AudioCodec {
	for _, c := range media.Codecs() {
		if c.Info().SDPName == names[kind] {
			return c.(rtp.AudioCodec)
		}
	}
	return nil
}

// HRTP: RTP decoders of the registered codecs for destinations of any rate.
func HRTP() {
	vsoxr.Eager = true
	kind := sym.Choose("codec", 3)
	w := &sink{rate: pickRate()}
	c := codec(kind)
	sym.Assert(c != nil, "a codec is not registered")
	native := 8000
	if kind == 2 && w.rate != 8000 {
		native = 16000
	}
	h := c.DecodeRTP(w, sym.U8("type"))
	ref := &sink{rate: native}
	rd := decoder(kind, ref)
	for j := 0; j < sym.Bound(2, 3); j++ {
		b := sym.Bytes("b", 6)
		sym.Assert(rd.write(b) == nil, "writing fails")
		sym.Assert(h.HandleRTP(&prtp.Header{SequenceNumber: uint16(j)}, b) == nil, "a packet is not handled")
		check(w, native, ref.got, 0, false)
	}
	sym.Assert(w.closes == 0, "the destination is closed")
	sym.Reach("end")
}

// HEncode: encoders refuse destinations of a rate the codec does not have.
func HEncode() {
	rate := sym.Int("rate")
	sym.Assume(rate >= 0 && rate <= 192000)
	kind := sym.Choose("codec", 3)
	panics := true
	func() {
		defer func() { recover() }()
		switch kind {
		case 0:
			g711.EncodeALaw(&bytesSink[g711.ALawSample]{rate: rate})
		case 1:
			g711.EncodeULaw(&bytesSink[g711.ULawSample]{rate: rate})
		case 2:
			g722.Encode(&bytesSink[g722.Sample]{rate: rate})
		}
		panics = false
	}()
	ok := rate == 8000 || kind == 2 && rate == 16000
	sym.Assert(panics == !ok, "an encoder accepts a rate it cannot produce or refuses its own")
	sym.Reach("end")
}

type bytesSink[T any] struct{ rate int }

func (s *bytesSink[T]) String() string        { return "sink" }
func (s *bytesSink[T]) SampleRate() int       { return s.rate }
func (s *bytesSink[T]) Close() error          { return nil }
func (s *bytesSink[T]) WriteSample(d T) error { return nil }
