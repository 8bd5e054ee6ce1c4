package main

import (
	"errors"
	"fmt"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/opus"
	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vopus"
	"github.com/livekit/protocol/logger"
)

var errDst = errors.New("destination failed")

type sink struct {
	fail bool
	n    int
	last int16
}

func (s *sink) String() string  { return "sink" }
func (s *sink) SampleRate() int { return 48000 }
func (s *sink) Close() error    { return nil }
func (s *sink) WriteSample(d media.PCM16Sample) error {
	s.n++
	if len(d) > 0 {
		s.last = d[0]
	}
	if s.fail {
		return errDst
	}
	return nil
}

func run(n, kinds int, changes bool) {
	s := &sink{}
	w, err := opus.Decode(s, 1, logger.GetLogger())
	sym.Assert(err == nil, "decoder not created")
	var res vopus.Result
	vopus.Next = func(ch int, data []byte) vopus.Result {
		r := res
		if r.Err == nil {
			r.Pcm = append([]int16{}, r.Pcm...)
			for len(r.Pcm) < ch {
				r.Pcm = append(r.Pcm, r.Pcm[0])
			}
		}
		return r
	}
	corrupt := 0
	for k := 0; k < n; k++ {
		pkt := opus.Sample{0x78, 1, 2}
		if changes {
			pkt[0] = sym.U8("toc")
			if sym.Split(pkt[0]&4 != 0) {
				pkt[0] |= 4
			}
		}
		before := s.n
		v := sym.I16("v")
		res = vopus.Result{Pcm: []int16{v}}
		switch sym.Choose("kind", kinds) {
		case 0: // good
			s.fail = kinds == 3 && sym.Split(sym.Bool("dsterr"))
			err := w.WriteSample(pkt)
			if s.fail {
				sym.Assert(errors.Is(err, errDst), "destination error not returned")
				sym.Reach("destination failed")
			} else {
				sym.Assert(err == nil, "good packet rejected")
			}
			s.fail = false
			sym.Assert(s.n == before+1 && s.last == v, "good packet not delivered")
			corrupt = 0
		case 1: // corrupt
			res.Err = vopus.ErrInvalidPacket
			if kinds > 4 && sym.Split(sym.Bool("wrapped")) {
				res.Err = fmt.Errorf("decode: %w", vopus.ErrInvalidPacket)
			}
			err := w.WriteSample(pkt)
			corrupt++
			sym.Assert(s.n == before, "output for a corrupt packet")
			if corrupt <= 5 {
				sym.Assert(err == nil, "one of the first five corrupt packets in a row reported as an error")
			} else if corrupt == 6 {
				sym.Assert(errors.Is(err, vopus.ErrInvalidPacket), "sixth corrupt packet in a row not reported")
				sym.Reach("sixth")
			} else {
				sym.Assert(err != nil, "corrupt packet after the sixth in a row not reported")
			}
		case 2: // other failure
			oe := []error{vopus.ErrBufferTooSmall, vopus.ErrInternalError, vopus.ErrBadArg, errors.New("other")}
			res.Err = oe[k%len(oe)]
			err := w.WriteSample(pkt)
			sym.Assert(errors.Is(err, res.Err), "other decoding error not reported immediately")
			sym.Assert(s.n == before, "output for a failed packet")
			// whether such a failure interrupts a run of corrupt packets is not
			// specified: no run continues past it here
			if corrupt > 0 {
				return
			}
		default:
			sym.Assert(w.WriteSample(nil) == nil && s.n == before, "empty packet not ignored")
			if corrupt > 0 {
				return
			}
		}
	}
}

func HCorrupt() { run(sym.Bound(9, 14), 2, false) }
func HMixed()   { run(sym.Bound(6, 7), 5, false) }
func HDst()     { run(7, 3, false) }
func HChanges() { run(7, 2, true) }

// HLong: short runs of corruption, again and again, are never reported; a long
// one is, once it has six.
func HLong() {
	s := &sink{}
	w, err := opus.Decode(s, 1, logger.GetLogger())
	sym.Assert(err == nil, "decoder not created")
	bad := false
	v := sym.I16("v")
	vopus.Next = func(ch int, data []byte) vopus.Result {
		if bad {
			return vopus.Result{Err: vopus.ErrInvalidPacket}
		}
		return vopus.Result{Pcm: []int16{v}}
	}
	pkt := opus.Sample{0x78, 1, 2}
	l := 1 + sym.Choose("run", 5)
	n := 0
	for k := 0; k < sym.Bound(60, 300); k++ {
		bad = true
		for i := 0; i < l; i++ {
			sym.Assert(w.WriteSample(pkt) == nil, "one of the first five corrupt packets in a row reported as an error")
		}
		bad = false
		for i := 0; i <= k%3; i++ {
			n++
			sym.Assert(w.WriteSample(pkt) == nil, "good packet rejected")
		}
		sym.Assert(s.n == n && s.last == v, "good packet not delivered")
	}
	bad = true
	for i := 1; i <= sym.Bound(40, 300); i++ {
		err := w.WriteSample(pkt)
		if i <= 5 {
			sym.Assert(err == nil, "one of the first five corrupt packets in a row reported as an error")
		} else {
			sym.Assert(err != nil, "corrupt packet after the fifth in a row not reported")
		}
	}
	bad = false
	sym.Assert(w.WriteSample(pkt) == nil && s.n == n+1, "good packet not delivered")
	sym.Reach("end")
}
