package main

import (
	"io"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/opus"
	"github.com/livekit/media-sdk/zzverif/sym"
)

func copyCheck(f media.Frame, want []byte) {
	sym.Assert(f.Size() == len(want), "declared size is not the serialised size")
	// buffer: large enough, or shorter
	var n int
	if len(want) < 32 {
		n = sym.Choose("dst", len(want)+4)
	} else {
		n = []int{0, len(want) / 2, len(want) - 1, len(want), len(want) + 3}[sym.Choose("dst", 5)]
	}
	full := sym.Bytes("d", n+2)
	orig := append([]byte{}, full...)
	dst := full[: n : n+2]
	got, err := f.CopyTo(dst)
	if n < len(want) {
		sym.Assert(err == io.ErrShortBuffer && got == 0, "a short buffer is not refused with ErrShortBuffer and count 0")
		for i := range full {
			sym.Assert(full[i] == orig[i], "a refused copy still wrote to the destination")
		}
		sym.Reach("short")
		return
	}
	sym.Assert(err == nil && got == len(want), "copy does not report exactly the declared size")
	for i := range want {
		sym.Assert(dst[i] == want[i], "copied bytes differ from the frame")
	}
	for i := len(want); i < len(full); i++ {
		sym.Assert(full[i] == orig[i], "copy wrote past the frame's size")
	}
	sym.Observe("dst", dst)
	sym.Reach("copied")
}

func HPCM16() {
	s := media.PCM16Sample(sym.I16s[int16]("s", length()))
	var want []byte
	for _, v := range s {
		want = append(want, byte(v), byte(uint16(v)>>8))
	}
	copyCheck(s, want)
}

// length of a frame: small ones and real ones.
func length() int {
	n := sym.Choose("n", sym.Bound(12, 20))
	if n == 10 {
		n = 160
	}
	if n == 11 {
		n = 961
	}
	return n
}

func raw() []byte { return sym.Bytes("s", length()) }

func HALaw() { b := raw(); copyCheck(g711.ALawSample(b), append([]byte{}, b...)) }
func HULaw() { b := raw(); copyCheck(g711.ULawSample(b), append([]byte{}, b...)) }
func HG722() { b := raw(); copyCheck(g722.Sample(b), append([]byte{}, b...)) }
func HOpus() { b := raw(); copyCheck(opus.Sample(b), append([]byte{}, b...)) }
