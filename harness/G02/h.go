package main

import (
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/zzverif/sym"
)

type codec struct {
	enc func([]byte, []int16)
	dec func([]int16, []byte)
}

var alaw = codec{g711.EncodeALawTo, g711.DecodeALawTo}
var ulaw = codec{g711.EncodeULawTo, g711.DecodeULawTo}

func (c codec) e(v int16) byte {
	var o [1]byte
	in := [1]int16{v}
	c.enc(o[:], in[:])
	return o[0]
}

func (c codec) d(b byte) int16 {
	var o [1]int16
	in := [1]byte{b}
	c.dec(o[:], in[:])
	return o[0]
}

func abs(x int32) int32 {
	if x < 0 {
		return -x
	}
	return x
}

// No other code is nearer than the chosen one to both ends of the sample's
// four-unit input bucket (the codec's input resolution).
func nearest(c codec) {
	v := sym.I16("v")
	code := byte(sym.Concrete(int(c.e(v)))) // case split on the 256 codes
	got := int32(c.d(code))
	// the two neighbouring decoded values, found by looking at all codes
	down, up := int32(-1<<20), int32(1<<20)
	for k := 0; k < 256; k++ {
		o := int32(c.d(byte(k)))
		if o < got && o > down {
			down = o
		}
		if o > got && o < up {
			up = o
		}
	}
	lo := int32(v) &^ 3
	hi := lo + 3
	sym.Assert(abs(got-lo) <= abs(up-lo) || abs(got-hi) <= abs(up-hi), "the next larger code is nearer to the sample than the chosen one")
	sym.Assert(abs(got-lo) <= abs(down-lo) || abs(got-hi) <= abs(down-hi), "the next smaller code is nearer to the sample than the chosen one")
	sym.Observe("v", v, got)
	sym.Reach("end")
}

// Adjacent samples suffice: decode(encode(v)) <= decode(encode(v+1)).
func monotone(c codec) {
	a := sym.I16("a")
	sym.Assume(a < 32767)
	ca := byte(sym.Concrete(int(c.e(a))))
	x, y := c.d(ca), c.d(c.e(a+1))
	sym.Assert(x <= y, "a larger sample decodes to a smaller value")
	sym.Observe("xy", x, y)
	sym.Reach("end")
}

func roundtrip(c codec) {
	k := sym.U8("code")
	v := c.d(k)
	k2 := c.e(v)
	sym.Assert(k2 == k || (v == 0 && c.d(k2) == 0), "encoding a decoded code yields a different code")
	sym.Assert(c.d(k2) == v, "code does not round-trip")
	sym.Observe("k", k, v, k2)
	sym.Reach("end")
}

func HALawNearest()   { nearest(alaw) }
func HULawNearest()   { nearest(ulaw) }
func HALawMonotone()  { monotone(alaw) }
func HULawMonotone()  { monotone(ulaw) }
func HALawRoundtrip() { roundtrip(alaw) }
func HULawRoundtrip() { roundtrip(ulaw) }
