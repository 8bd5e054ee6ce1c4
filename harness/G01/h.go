package main

import (
	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/zzverif/sym"
)

// ITU-T G.711 expansion, written from the Recommendation's value tables
// (decision/output values), scaled to 16 bits.
func alawRef(c byte) int32 {
	c ^= 0x55
	seg := (c >> 4) & 7
	m := int32(c & 15)
	var v int32
	if seg == 0 {
		v = 2*m + 1 // 1..31
	} else {
		v = (2*m + 33) << (seg - 1)
	}
	v *= 8 // 13-bit value (12-bit magnitude) scaled to 16 bits
	if c&0x80 == 0 {
		v = -v
	}
	return v
}

func ulawRef(c byte) int32 {
	c = ^c
	seg := (c >> 4) & 7
	m := int32(c & 15)
	v := ((2*m+33)<<seg - 33) * 4 // 14-bit value scaled to 16 bits
	if c&0x80 != 0 {
		v = -v
	}
	return v
}

type sink struct{ got []media.PCM16Sample }

func (s *sink) String() string  { return "sink" }
func (s *sink) SampleRate() int { return 8000 }
func (s *sink) Close() error    { return nil }
func (s *sink) WriteSample(d media.PCM16Sample) error {
	s.got = append(s.got, append(media.PCM16Sample{}, d...))
	return nil
}

func run(n int, ref func(byte) int32, to func([]int16, []byte), meth func([]byte) media.PCM16Sample, wr func([]byte, *sink)) {
	in := sym.Bytes("c", min(n, 8))
	for i := len(in); i < n; i++ {
		in = append(in, byte(i*37+i/256))
	}
	orig := append([]byte{}, in...)
	out := make([]int16, n+1)
	to(out[:n], in)
	for i := range orig {
		sym.Assert(int32(out[i]) == ref(orig[i]), "decoded value differs from the ITU-T expansion")
		sym.Assert(in[i] == orig[i], "decoder changed its input")
	}
	sym.Assert(out[n] == 0, "decoder wrote past the frame")
	p := meth(in)
	sym.Assert(len(p) == n, "Decode has the wrong length")
	for i := range p {
		sym.Assert(int32(p[i]) == ref(orig[i]), "Decode method differs from the ITU-T expansion")
	}
	s := &sink{}
	wr(in, s)
	sym.Assert(len(s.got) == 1, "decoder writer must emit one frame per frame")
	if len(s.got) == 1 {
		sym.Assert(len(s.got[0]) == n, "decoder writer changes the frame length")
		for i := range s.got[0] {
			sym.Assert(int32(s.got[0][i]) == ref(orig[i]), "decoder writer differs from the ITU-T expansion")
		}
	}
	sym.Observe("out", out[:n], []int16(p))
	sym.Reach("end")
}

// size of a frame: small ones and real ones.
func size() int {
	n := 1 + sym.Choose("n", sym.Bound(2, 6)+3)
	if k := n - sym.Bound(2, 6); k > 0 {
		n = []int{160, 240, 777}[k-1]
	}
	return n
}

func HALaw() {
	run(size(), alawRef, g711.DecodeALawTo,
		func(b []byte) media.PCM16Sample { return g711.ALawSample(b).Decode() },
		func(b []byte, s *sink) { sym.Assert(g711.DecodeALaw(s).WriteSample(b) == nil, "decoder writer failed") })
}

func HULaw() {
	run(size(), ulawRef, g711.DecodeULawTo,
		func(b []byte) media.PCM16Sample { return g711.ULawSample(b).Decode() },
		func(b []byte, s *sink) { sym.Assert(g711.DecodeULaw(s).WriteSample(b) == nil, "decoder writer failed") })
}
