// Package vg722 stands in for gotranspile/g722: an inexpensive stateful codec
// with the same interface and the same sizes, or the real one if Real is set.
package vg722

import lib "github.com/gotranspile/g722"

type Flags = lib.Flags

const (
	FlagSampleRate8000 = lib.FlagSampleRate8000
	FlagPacked         = lib.FlagPacked
	Rate48000          = lib.Rate48000
	Rate56000          = lib.Rate56000
	Rate64000          = lib.Rate64000
)

// Real selects the real codec.
var Real bool

type Encoder struct {
	Rate  int
	Flags Flags
	real  *lib.Encoder
	s     uint16
}

func NewEncoder(rate int, flags Flags) *Encoder {
	e := &Encoder{Rate: rate, Flags: flags, s: uint16(rate/1000) ^ uint16(flags)<<8}
	if Real {
		e.real = lib.NewEncoder(rate, flags)
	}
	return e
}

func (e *Encoder) Encode(dst []byte, src []int16) int {
	if e.real != nil {
		return e.real.Encode(dst, src)
	}
	n := 0
	for j := 0; j < len(src); {
		a := uint16(src[j])
		j++
		if e.Flags&FlagSampleRate8000 == 0 {
			a += 3 * uint16(src[j]) // as in the real codec, out of range for odd lengths
			j++
		}
		e.s = e.s*5 + a
		dst[n] = byte(e.s ^ e.s>>8)
		n++
	}
	return n
}

func Encode(pcm []int16, rate int, flags Flags) []byte {
	e := NewEncoder(rate, flags)
	out := make([]byte, len(pcm)+1)
	return out[:e.Encode(out, pcm)]
}

type Decoder struct {
	Rate  int
	Flags Flags
	real  *lib.Decoder
	s     uint16
}

func NewDecoder(rate int, flags Flags) *Decoder {
	d := &Decoder{Rate: rate, Flags: flags, s: uint16(rate/1000) ^ uint16(flags)<<8}
	if Real {
		d.real = lib.NewDecoder(rate, flags)
	}
	return d
}

func (d *Decoder) Decode(dst []int16, src []byte) int {
	if d.real != nil {
		return d.real.Decode(dst, src)
	}
	n := 0
	for _, v := range src {
		d.s = d.s*5 + uint16(v)
		dst[n] = int16(d.s)
		n++
		if d.Flags&FlagSampleRate8000 == 0 {
			dst[n] = int16(^d.s)
			n++
		}
	}
	return n
}

func Decode(g722 []byte, rate int, flags Flags) []int16 {
	d := NewDecoder(rate, flags)
	out := make([]int16, 2*len(g722)+1)
	return out[:d.Decode(out, g722)]
}
