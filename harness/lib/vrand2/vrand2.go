// Package vrand2 is math/rand/v2 whose 64-bit numbers are chosen among extremes.
package vrand2

import "github.com/livekit/media-sdk/zzverif/sym"

// Uint64 returns one of a few numbers: its users only print them.
func Uint64() uint64 {
	return []uint64{1234567890123456789, 0, 1<<64 - 1}[sym.Choose("rand", sym.Bound(1, 3))]
}
