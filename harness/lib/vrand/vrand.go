// Package vrand is math/rand with arbitrary (symbolic) results.
package vrand

import "github.com/livekit/media-sdk/zzverif/sym"

// Small makes results below at most this many values a case split.
var Small int64

// At, if set, chooses the results below its argument.
var At func(n int64) int64

func below(n int64) int64 {
	if At != nil && n > 0 {
		return At(n)
	}
	if n > 0 && n <= Small {
		return int64(sym.Choose("rand", int(n)))
	}
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	v := sym.I64("rand")
	sym.Assume(v >= 0 && v < n)
	return v
}

func Seed(int64)           {}
func Int() int             { return int(below(1<<63 - 1)) }
func Int63() int64         { return below(1<<63 - 1) }
func Int31() int32         { return int32(below(1<<31 - 1)) }
func Uint32() uint32       { return sym.U32("rand") }
func Uint64() uint64       { return sym.U64("rand") }
func Intn(n int) int       { return int(below(int64(n))) }
func Int63n(n int64) int64 { return below(n) }
func Int31n(n int32) int32 { return int32(below(int64(n))) }
func Float64() float64     { return float64(sym.U8("rand")) / 256 }
func Float32() float32     { return float32(sym.U8("rand")) / 256 }

func Read(p []byte) (int, error) {
	copy(p, sym.Bytes("rand", len(p)))
	return len(p), nil
}

func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, sym.Choose("rand", i+1))
	}
}

func Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	Shuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}
