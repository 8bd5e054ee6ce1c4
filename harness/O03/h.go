package main

import (
	"errors"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/opus"
	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vopus"
	"github.com/livekit/protocol/logger"
)

var errDst = errors.New("destination failed")
var errNew = errors.New("no encoder")
var errEnc = errors.New("not encoded")
var errClose = errors.New("close failed")

type sink struct {
	rate   int
	frames []opus.Sample
	err    error
	closes int
	cerr   error
}

func (s *sink) String() string  { return "sink" }
func (s *sink) SampleRate() int { return s.rate }
func (s *sink) Close() error    { s.closes++; return s.cerr }
func (s *sink) WriteSample(d opus.Sample) error {
	s.frames = append(s.frames, append(opus.Sample{}, d...))
	for i := range d {
		d[i] = ^d[i]
	}
	return s.err
}

func same[T comparable](a, b []T) bool {
	ok := len(a) == len(b)
	for i := range a {
		ok = ok && i < len(b) && a[i] == b[i]
	}
	return ok
}

// Frames of any size and content, encoded to any number of bytes.
func HEncode() {
	rate := []int{8000, 48000}[sym.Choose("rate", 2)]
	ch := 1 + sym.Choose("channels", 2)
	s := &sink{rate: rate}
	w, err := opus.Encode(s, ch, logger.GetLogger())
	sym.Assert(err == nil && w != nil, "the encoder is not created")
	sym.Assert(w.SampleRate() == rate, "the sample rate is not the destination's")
	sym.Assert(len(vopus.Encoders) == 1 && vopus.Encoders[0].Rate == rate && vopus.Encoders[0].Channels == ch, "the inner encoder has other parameters")
	var out []byte
	var fail error
	var got []int16
	vopus.NextEnc = func(pcm []int16) vopus.Result {
		got = append([]int16{}, pcm...)
		return vopus.Result{Out: out, Err: fail}
	}
	n := sym.Bound(2, 3)
	for k := 0; k < n; k++ {
		in := media.PCM16Sample(sym.I16s[int16]("s", ch*[]int{0, 1, 3}[sym.Choose("len", 3)]))
		orig := append([]int16{}, in...)
		size := []int{1, 2, 5, rate / 50 * ch}[sym.Choose("size", 4)]
		if size <= 5 {
			out = sym.Bytes("out", size)
		} else {
			out = make([]byte, size)
			out[0], out[size-1] = sym.U8("out"), sym.U8("out")
		}
		fail, s.err = nil, nil
		switch sym.Choose("fault", 3) {
		case 1:
			fail = errEnc
		case 2:
			s.err = errDst
		}
		nf, calls := len(s.frames), vopus.Calls
		got = nil
		err := w.WriteSample(in)
		if len(in) == 0 { // Opus has no empty frames: the encoder refuses
			sym.Assert(err != nil && len(s.frames) == nf, "the failure to encode an empty frame is not returned")
			sym.Reach("empty")
			continue
		}
		sym.Assert(vopus.Calls == calls+1 && same(got, orig), "the frame was not encoded exactly once, unchanged")
		sym.Assert(same([]int16(in), orig), "the caller's frame was modified")
		if fail != nil {
			sym.Assert(errors.Is(err, errEnc), "the encoder's error is not returned")
			sym.Assert(len(s.frames) == nf, "a frame that was not encoded was delivered")
			sym.Reach("not encoded")
			continue
		}
		sym.Assert(len(s.frames) == nf+1, "the encoded frame was not delivered exactly once")
		sym.Assert(same([]byte(s.frames[nf]), out), "the bytes delivered are not those of the encoder")
		if s.err != nil {
			sym.Assert(errors.Is(err, errDst), "the destination's error is not returned")
		} else {
			sym.Assert(err == nil, "an error without cause")
		}
		sym.Reach("delivered")
	}
	sym.Assert(s.closes == 0, "the destination was closed early")
	if sym.Choose("close", 2) == 1 {
		s.cerr = errClose
	}
	sym.Assert(errors.Is(w.Close(), s.cerr), "the destination's result of closing is not returned")
	sym.Assert(s.closes == 1, "close does not close the destination once")
	sym.Assert(len(s.frames) <= n, "closing delivered a frame")
}

// Encoders that cannot be created.
func HNew() {
	s := &sink{rate: 48000}
	ch := sym.Int("channels")
	bad := sym.Split(sym.Bool("refuse"))
	if bad {
		vopus.NewErr = errNew
	}
	w, err := opus.Encode(s, ch, logger.GetLogger())
	ok := sym.Split(ch == 1 || ch == 2)
	if ok && !bad {
		sym.Assert(err == nil && w != nil, "a valid layout was refused")
	} else {
		sym.Assert(err != nil && w == nil, "an encoder that cannot be created was returned")
	}
	sym.Assert(s.closes == 0 && len(s.frames) == 0, "creating an encoder touched the destination")
}

// Many frames of real sizes.
func HLong() {
	rate := []int{16000, 48000}[sym.Choose("rate", 2)]
	ch := 1 + sym.Choose("channels", 2)
	s := &sink{rate: rate}
	w, err := opus.Encode(s, ch, logger.GetLogger())
	sym.Assert(err == nil, "the encoder is not created")
	x := sym.I16("x")
	var in media.PCM16Sample
	var out []byte
	vopus.NextEnc = func(pcm []int16) vopus.Result {
		sym.Assert(len(pcm) == len(in) && pcm[0] == in[0] && pcm[len(pcm)-1] == in[len(in)-1], "the frame was not encoded unchanged")
		return vopus.Result{Out: out}
	}
	for k := 0; k < sym.Bound(24, 100); k++ {
		n := rate / 50 * ch
		if k%4 == 3 {
			n /= 2
		}
		in = make(media.PCM16Sample, n)
		for i := range in {
			in[i] = x + int16(k*3+i)
		}
		out = make([]byte, []int{40, 120, 1, 3, n / 2}[k%5])
		for i := range out {
			out[i] = byte(x) + byte(i+k)
		}
		sym.Assert(w.WriteSample(in) == nil, "a frame was not encoded")
		sym.Assert(len(s.frames) == k+1 && same([]byte(s.frames[k]), out), "the bytes delivered are not those of the encoder")
	}
	sym.Assert(w.Close() == nil && s.closes == 1 && len(s.frames) == sym.Bound(24, 100), "close does not close the destination once")
}
