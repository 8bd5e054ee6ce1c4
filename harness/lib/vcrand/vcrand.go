// Package vcrand is crypto/rand with arbitrary (symbolic) bytes.
package vcrand

import (
	"io"

	"github.com/livekit/media-sdk/zzverif/sym"
)

// Next, if set, gives the next byte.
var Next func() byte

// Drawn counts the bytes read.
var Drawn int

func Read(b []byte) (int, error) {
	for i := range b {
		if Next != nil {
			b[i] = Next()
		} else {
			b[i] = sym.U8("random")
		}
		Drawn++
	}
	return len(b), nil
}

type reader struct{}

func (reader) Read(b []byte) (int, error) { return Read(b) }

var Reader io.Reader = reader{}
