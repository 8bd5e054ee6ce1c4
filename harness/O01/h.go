package main

import (
	"errors"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/opus"
	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vopus"
	"github.com/livekit/protocol/logger"
)

var errDst = errors.New("destination failed")
var errNew = errors.New("no decoder")

type sink struct {
	rate   int
	frames []media.PCM16Sample
	fail   bool
	closes int
}

func (s *sink) String() string  { return "sink" }
func (s *sink) SampleRate() int { return s.rate }
func (s *sink) Close() error    { s.closes++; return nil }
func (s *sink) WriteSample(d media.PCM16Sample) error {
	s.frames = append(s.frames, append(media.PCM16Sample{}, d...))
	for i := range d {
		d[i] = ^d[i]
	}
	if s.fail {
		return errDst
	}
	return nil
}

// matches compares with the target layout; averages may be rounded either way.
func matches(got, pcm []int16, ch, target int) bool {
	if ch <= target {
		return same(got, layout(pcm, ch, target))
	}
	if len(got) != len(pcm)/2 {
		return false
	}
	for i, v := range got {
		d := 2*int32(v) - int32(pcm[2*i]) - int32(pcm[2*i+1])
		sym.Assert(uint32(d+1) <= 2, "a mixed down sample is not the average of its channels")
	}
	return true
}

func layout(pcm []int16, ch, target int) []int16 {
	var out []int16
	switch {
	case ch == target:
		out = pcm
	case ch < target:
		for _, v := range pcm {
			out = append(out, v, v)
		}
	default:
		for i := 0; i+1 < len(pcm); i += 2 {
			out = append(out, int16((int32(pcm[i])+int32(pcm[i+1]))/2))
		}
	}
	return out
}

func same(a, b []int16) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = ok && a[i] == b[i]
	}
	return ok
}

// Packets of any kind.
func HDecode() {
	target := 1 + sym.Choose("target", 2)
	s := &sink{rate: 48000}
	w, err := opus.Decode(s, target, logger.GetLogger())
	sym.Assert(err == nil && w != nil, "decoder not created")
	sym.Assert(w.SampleRate() == 48000, "sample rate is not the destination's")
	var pcm []int16
	var gotData []byte
	var gotCh int
	vopus.Next = func(ch int, data []byte) vopus.Result {
		gotCh, gotData = ch, append([]byte{}, data...)
		return vopus.Result{Pcm: pcm}
	}
	last := 0
	n := sym.Bound(3, 4)
	for k := 0; k < n; k++ {
		l := 2 * sym.Choose("len", 2)
		pkt := opus.Sample(sym.Bytes("pkt", l))
		nf, calls, decs := len(s.frames), vopus.Calls, len(vopus.Decoders)
		if l == 0 {
			sym.Assert(w.WriteSample(pkt) == nil, "empty packet is an error")
			sym.Assert(len(s.frames) == nf && vopus.Calls == calls && len(vopus.Decoders) == decs, "empty packet not ignored")
			continue
		}
		ch := 1
		if sym.Split(pkt[0]&4 != 0) {
			ch = 2
		}
		cnt := []int{0, 2, 1, 3}[sym.Choose("samples", sym.Bound(2, 4))]
		pcm = sym.I16s[int16]("pcm", cnt*ch)
		orig := append([]byte{}, pkt...)
		s.fail = sym.Split(sym.Bool("dsterr"))
		vopus.NewErr = nil
		if ch != last && sym.Split(sym.Bool("newerr")) {
			vopus.NewErr = errNew
		}
		err := w.WriteSample(pkt)
		if vopus.NewErr != nil {
			sym.Assert(errors.Is(err, errNew), "failure to create the inner decoder is not reported")
			sym.Assert(len(s.frames) == nf && vopus.Calls == calls, "packet processed although its decoder could not be created")
			sym.Reach("creation failed")
			continue
		}
		if ch != last {
			sym.Assert(len(vopus.Decoders) == decs+1, "inner decoder not replaced when the channel count changed")
			d := vopus.Decoders[decs]
			sym.Assert(d.Channels == ch && d.Rate == 48000, "inner decoder created with wrong parameters")
		} else {
			sym.Assert(len(vopus.Decoders) == decs, "inner decoder replaced without a channel change")
		}
		last = ch
		sym.Assert(vopus.Calls == calls+1 && gotCh == ch, "packet not decoded exactly once by a decoder of its channel count")
		eq := len(gotData) == len(orig)
		for i := range orig {
			eq = eq && gotData[i] == orig[i]
		}
		sym.Assert(eq, "inner decoder got other data than the packet")
		sym.Assert((err != nil) == s.fail, "destination error not returned, or error without cause")
		sym.Assert(len(s.frames) == nf+1, "decoded packet not delivered exactly once")
		sym.Assert(matches(s.frames[nf], pcm, ch, target), "delivered samples are not the decoded ones in the target layout")
		sym.Reach("delivered")
	}
	sym.Assert(w.Close() == nil && s.closes == 1, "close does not close the destination once")
}

// A full 20 ms packet fits at every standard rate.
func HFull() {
	rate := []int{8000, 16000, 24000, 48000}[sym.Choose("rate", 4)]
	target := 1 + sym.Choose("target", 2)
	s := &sink{rate: rate}
	w, _ := opus.Decode(s, target, logger.GetLogger())
	for k := 0; k < 2; k++ {
		ch := 1 + sym.Choose("ch", 2)
		pkt := opus.Sample{byte((ch - 1) * 4), 1}
		x := sym.I16("x")
		pcm := make([]int16, rate/50*ch)
		for i := range pcm {
			pcm[i] = x + int16(i)
		}
		vopus.Next = func(int, []byte) vopus.Result { return vopus.Result{Pcm: pcm} }
		sym.Assert(w.WriteSample(pkt) == nil, "20 ms packet not decoded")
		sym.Assert(len(s.frames) == k+1 && len(s.frames[k]) == rate/50*target, "wrong number of samples for a 20 ms packet")
		sym.Assert(matches(s.frames[k][:target], pcm[:ch], ch, target), "wrong samples")
	}
}

// Other channel counts are refused.
func HTarget() {
	t := sym.Int("target")
	w, err := opus.Decode(&sink{rate: 48000}, t, logger.GetLogger())
	if sym.Split(t == 1 || t == 2) {
		sym.Assert(err == nil && w != nil, "valid layout refused")
	} else {
		sym.Assert(err != nil && w == nil, "invalid layout accepted")
	}
}

// Many packets of real sizes, mono and stereo in turns.
func HLong() {
	rate := []int{8000, 48000}[sym.Choose("rate", 2)]
	target := 1 + sym.Choose("target", 2)
	s := &sink{rate: rate}
	w, _ := opus.Decode(s, target, logger.GetLogger())
	x := sym.I16("x")
	var pcm []int16
	var size, ch int
	vopus.Next = func(c int, data []byte) vopus.Result {
		sym.Assert(c == ch && len(data) == size && data[size-1] == byte(size), "inner decoder got other data than the packet")
		return vopus.Result{Pcm: pcm}
	}
	last, decs := 0, 0
	for k := 0; k < sym.Bound(24, 100); k++ {
		ch = 1 + k/3%2
		size = []int{80, 1275, 2, 400, 3}[k%5]
		pkt := make(opus.Sample, size)
		pkt[0] = byte((ch - 1) * 4)
		pkt[size-1] = byte(size)
		n := rate / 50
		if k%4 == 3 {
			n = rate / 100
		}
		pcm = make([]int16, n*ch)
		for i := range pcm {
			pcm[i] = int16(k*5 + i)
		}
		pcm[ch] = x
		if ch != last {
			decs++
		}
		last = ch
		sym.Assert(w.WriteSample(pkt) == nil, "packet not decoded")
		sym.Assert(len(vopus.Decoders) == decs, "inner decoder not replaced exactly when the channel count changed")
		sym.Assert(len(s.frames) == k+1 && len(s.frames[k]) == n*target, "wrong number of samples for a packet")
		sym.Assert(matches(s.frames[k], pcm, ch, target), "delivered samples are not the decoded ones in the target layout")
	}
	sym.Assert(w.Close() == nil && s.closes == 1, "close does not close the destination once")
}
