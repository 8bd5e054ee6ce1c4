package main

import (
	"errors"
	"time"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/webm"
	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vwebm"
)

type file struct{}

func (file) Write(p []byte) (int, error) { return len(p), nil }
func (file) Close() error                { return nil }

var (
	errW = errors.New("write failed")
	errC = errors.New("close failed")
)

// Every frame duration: block k is stamped k*dur, truncated to milliseconds.
func HTimes() {
	dur := time.Duration(sym.Range("dur", 1, 1<<sym.Bound(28, 30)))
	w := webm.NewPCM16Writer(file{}, 48000, 1, dur)
	sym.Assert(w.SampleRate() == 48000, "the sample rate is wrong")
	n := sym.Bound(5, 6)
	for k := 0; k < n; k++ {
		sym.Assert(w.WriteSample(media.PCM16Sample{int16(k)}) == nil, "writing fails")
	}
	r := vwebm.Last
	sym.Assert(len(r.Blocks) == n, "not one block per frame")
	for k, b := range r.Blocks {
		// b.TS is k*dur/1ms rounded down
		t := time.Duration(k) * dur
		ms := time.Duration(b.TS) * time.Millisecond
		sym.Assert(b.TS >= 0 && ms <= t && t-ms < time.Millisecond, "a block is not stamped with its media time")
	}
	w.Close()
	sym.Reach("end")
}

// Contents and order, for several codecs and frame sizes.
func HBlocks() {
	n := 3
	var want [][]byte
	switch sym.Choose("codec", 2) {
	case 0:
		w := webm.NewPCM16Writer(file{}, 48000, 1, 20*time.Millisecond)
		for k := 0; k < n; k++ {
			s := sym.I16s[int16]("s", sym.Choose("len", 4))
			var b []byte
			for _, v := range s {
				b = append(b, byte(v), byte(uint16(v)>>8))
			}
			want = append(want, b)
			sym.Assert(w.WriteSample(s) == nil, "writing fails")
		}
		sym.Assert(w.Close() == nil, "closing fails")
	case 1:
		w := webm.NewWriter[g711.ULawSample](file{}, "A_ULAW", 1, 8000, 20*time.Millisecond)
		for k := 0; k < n; k++ {
			b := sym.Bytes("b", sym.Choose("len", 4))
			want = append(want, append([]byte{}, b...))
			sym.Assert(w.WriteSample(g711.ULawSample(b)) == nil, "writing fails")
		}
		sym.Assert(w.Close() == nil, "closing fails")
	}
	r := vwebm.Last
	sym.Assert(r.Closed == 1, "the block writer is not closed once")
	sym.Assert(len(r.Blocks) == n, "not one block per frame")
	for k, b := range r.Blocks {
		sym.Assert(b.TS == int64(20*k), "a block is not stamped with its media time")
		sym.Assert(len(b.Data) == len(want[k]), "a block does not carry its frame")
		for i := range b.Data {
			sym.Assert(b.Data[i] == want[k][i], "a block does not carry its frame")
		}
	}
	sym.Reach("end")
}

// bad is a frame that cannot be copied.
type bad struct{ err error }

func (b bad) Size() int                      { return 4 }
func (b bad) CopyTo(dst []byte) (int, error) { return 0, b.err }

func HErrors() {
	switch sym.Choose("what", 3) {
	case 0:
		w := webm.NewPCM16Writer(file{}, 48000, 1, 20*time.Millisecond)
		w.WriteSample(media.PCM16Sample{1})
		vwebm.Last.WriteErr = errW
		sym.Assert(errors.Is(w.WriteSample(media.PCM16Sample{2}), errW), "the block writer's error is not returned")
	case 1:
		w := webm.NewPCM16Writer(file{}, 48000, 1, 20*time.Millisecond)
		vwebm.Last.CloseErr = errC
		sym.Assert(errors.Is(w.Close(), errC), "the error of closing is not returned")
		sym.Assert(vwebm.Last.Closed == 1, "the block writer is not closed")
	case 2:
		w := webm.NewWriter[bad](file{}, "X", 1, 48000, 20*time.Millisecond)
		sym.Assert(errors.Is(w.WriteSample(bad{errW}), errW), "the error of a frame is not returned")
		sym.Assert(len(vwebm.Last.Blocks) == 0, "a block without a frame was written")
	}
	sym.Reach("end")
}

// HLong: many frames, of real sizes.
func HLong() {
	dur := []time.Duration{2500 * time.Microsecond, 10 * time.Millisecond, 20 * time.Millisecond, 60 * time.Millisecond, 21333333, 999999, time.Nanosecond, 5 * time.Second, 25 * time.Hour}[sym.Choose("dur", 9)]
	w := webm.NewPCM16Writer(file{}, 48000, 1, dur)
	n := sym.Bound(700, 4000)
	frame := make(media.PCM16Sample, 960)
	for k := 0; k < n; k++ {
		f := media.PCM16Sample{int16(k), int16(k >> 8)}
		if k%100 < 3 {
			f = frame[:960-k%100*470]
			f[0], f[len(f)-1] = sym.I16("first"), sym.I16("last")
		}
		sym.Assert(w.WriteSample(f) == nil, "writing fails")
		b := vwebm.Last.Blocks[k]
		sym.Assert(len(vwebm.Last.Blocks) == k+1, "not one block per frame")
		sym.Assert(b.TS == int64(time.Duration(k)*dur/time.Millisecond), "a block is not stamped with its media time")
		sym.Assert(len(b.Data) == 2*len(f), "a block does not carry its frame")
		for _, i := range []int{0, 1, len(f) / 2, len(f) - 1} {
			sym.Assert(b.Data[2*i] == byte(f[i]) && b.Data[2*i+1] == byte(uint16(f[i])>>8), "a block does not carry its frame")
		}
	}
	w.Close()
	sym.Reach("end")
}

// HTrack: the file declares what it carries: one audio track of the given codec, rate, channels and frame duration.
func HTrack() {
	rate := sym.Range("rate", 1, 192000)
	ch := sym.Range("channels", 1, 8)
	dur := time.Duration(sym.Range("dur", 1, 1<<28))
	var w media.WriteCloser[media.PCM16Sample]
	codec := "A_TEST"
	if sym.Bool("pcm") {
		codec = "A_PCM/INT/LIT"
		w = webm.NewPCM16Writer(file{}, rate, ch, dur)
	} else {
		w = webm.NewWriter[media.PCM16Sample](file{}, codec, ch, rate, dur)
	}
	r := vwebm.Last
	sym.Assert(len(r.Tracks) == 1, "not one track")
	t := r.Tracks[0]
	sym.Assert(t.CodecID == codec && t.TrackType == 2 && t.TrackNumber != 0 && t.Audio != nil, "the track is not an audio track of the given codec")
	sym.Assert(t.Audio.SamplingFrequency == float64(rate), "the track declares another sampling rate")
	sym.Assert(t.Audio.Channels == uint64(ch), "the track declares other channels")
	sym.Assert(t.DefaultDuration == 0 || t.DefaultDuration == uint64(dur), "the track declares another frame duration")
	sym.Assert(w.SampleRate() == rate, "the sample rate is wrong")
	sym.Reach("end")
}
