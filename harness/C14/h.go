package main

import (
	"context"
	"errors"
	"time"

	prtp "github.com/pion/rtp"
	wm "github.com/pion/webrtc/v4/pkg/media"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vtime"
)

var errDst = errors.New("destination failed")

type sink[T ~[]E, E int16 | byte] struct {
	rate   int
	frames []T
	closes int
	err    error
}

func (s *sink[T, E]) String() string  { return "sink" }
func (s *sink[T, E]) SampleRate() int { return s.rate }
func (s *sink[T, E]) Close() error    { s.closes++; return errDst }
func (s *sink[T, E]) WriteSample(d T) error {
	s.frames = append(s.frames, append(T{}, d...))
	return s.err
}

func same[T int16 | byte](a, b []T, msg string) {
	sym.Assert(len(a) == len(b), msg)
	for i := range a {
		sym.Assert(a[i] == b[i], msg)
	}
}

func pcm(name string, max int) media.PCM16Sample {
	return media.PCM16Sample(sym.I16s[int16](name, sym.Choose(name+" len", max+1)))
}

func clone(s []int16) []int16 { return append([]int16{}, s...) }

// HReader: reads of any sizes deliver the samples once, in order.
func HReader() {
	src := pcm("src", sym.Bound(5, 7))
	orig := clone(src)
	r := media.NewPCM16BufferReader(src)
	pos := 0
	for k := 0; k < sym.Bound(3, 4); k++ {
		n := sym.Choose("size", 4)
		buf := media.PCM16Sample(sym.I16s[int16]("junk", n+1))
		junk := clone(buf)
		got, err := r.ReadSample(buf[:n])
		want := min(n, len(orig)-pos)
		sym.Assert(got == want, "a read does not deliver what is left, up to its size")
		sym.Assert(err == nil || pos == len(orig), "an error before the end")
		same(buf[:got], orig[pos:pos+got], "a read delivers other samples")
		same(buf[got:], junk[got:], "written beyond the samples read")
		pos += got
	}
	same(src, orig, "reading changes the samples")
	if pos == len(orig) {
		sym.Reach("all read")
	}
}

// HStore: frame and sample writers keep everything written, after what was there.
func HStore() {
	old := pcm("old", 2)
	frames := []media.PCM16Sample{old}
	flat := append(media.PCM16Sample{}, old...)
	rate := sym.Int("rate")
	fw, bw := media.NewPCM16FrameWriter(&frames, rate), media.NewPCM16BufferWriter(&flat, rate)
	sym.Assert(fw.SampleRate() == rate && bw.SampleRate() == rate, "the sample rate is not the one given")
	var direct media.PCM16Sample
	var want [][]int16
	all := clone(old)
	want = append(want, clone(old))
	for k := 0; k < sym.Bound(3, 4); k++ {
		in := pcm("s", 3)
		want = append(want, clone(in))
		all = append(all, in...)
		sym.Assert(fw.WriteSample(in) == nil && bw.WriteSample(in) == nil && direct.WriteSample(in) == nil, "storing fails")
		sym.Assert(len(frames) == k+2, "not one frame stored per write")
	}
	for i := range want {
		same(frames[i], want[i], "a stored frame differs")
	}
	same(flat, all, "the stored samples differ")
	same(direct, all[len(old):], "the appended samples differ")
	sym.Assert(fw.Close() == nil && bw.Close() == nil && direct.Close() == nil, "closing fails")
	same(flat, all, "closing changes the stored samples")
	sym.Assert(bw.WriteSample(media.PCM16Sample{1}) == nil, "writing after close fails")
	same(flat, all, "a sample was stored after close")
}

type track struct {
	got []wm.Sample
	err error
}

func (t *track) WriteSample(s wm.Sample) error {
	t.got = append(t.got, s)
	return t.err
}

// HTrack: every frame becomes one WebRTC sample of the configured duration.
func HTrack() {
	t := &track{}
	rate := sym.Int("rate")
	dur := time.Duration(sym.I64("dur"))
	w := media.FromSampleWriter[g711.ULawSample](t, rate, dur)
	sym.Assert(w.SampleRate() == rate, "the sample rate is not the one given")
	n := sym.Bound(3, 4)
	for k := 0; k < n; k++ {
		in := sym.Bytes("b", sym.Choose("len", 4))
		orig := append([]byte{}, in...)
		t.err = nil
		if sym.Choose("fail", 2) == 1 {
			t.err = errDst
		}
		sym.Assert(errors.Is(w.WriteSample(in), t.err), "the track's result is not returned")
		sym.Assert(len(t.got) == k+1, "a frame does not become one sample")
		s := t.got[k]
		same(s.Data, orig, "the sample has other bytes")
		same(in, orig, "the caller's frame was changed")
		sym.Assert(s.Duration == dur, "the sample has another duration")
		sym.Assert(s.Timestamp.IsZero() && s.PacketTimestamp == 0 && s.PrevDroppedPackets == 0 && s.Metadata == nil && len(s.RTPHeaders) == 0, "the sample carries more than the frame")
	}
	sym.Assert(w.Close() == nil && len(t.got) == n, "closing writes or fails")
}

// HNop: closing never reaches a destination protected against it.
func HNop() {
	s := &sink[media.PCM16Sample, int16]{rate: sym.Int("rate")}
	w := media.NopCloser[media.PCM16Sample](s)
	sym.Assert(w.SampleRate() == s.rate && w.String() == s.String(), "not the destination's description")
	for k := 0; k < 3; k++ {
		in := pcm("s", 2)
		s.err = nil
		if sym.Choose("fail", 2) == 1 {
			s.err = errDst
		}
		sym.Assert(w.WriteSample(in) == s.err, "the destination's result is not returned")
		sym.Assert(len(s.frames) == k+1, "a frame is not delivered once")
		same(s.frames[k], in, "another frame is delivered")
		if sym.Choose("close", 2) == 1 {
			sym.Assert(w.Close() == nil, "closing fails")
		}
		sym.Assert(s.closes == 0, "the destination is closed")
	}
}

type handler struct {
	n      int
	closes int
	err    error
	h      *prtp.Header
	p      []byte
}

func (h *handler) String() string { return "h" }
func (h *handler) Close()         { h.closes++ }
func (h *handler) HandleRTP(hd *prtp.Header, p []byte) error {
	h.n++
	h.h, h.p = hd, p
	return h.err
}

// HHandler: handler adapters.
func HHandler() {
	in := &handler{}
	if sym.Choose("fail", 2) == 1 {
		in.err = errDst
	}
	hs := []rtp.Handler{rtp.HandlerFunc(in.HandleRTP), rtp.NewNopCloser(in)}
	k := sym.Choose("which", 2)
	h := &prtp.Header{SequenceNumber: sym.U16("seq"), Timestamp: sym.U32("ts"), Marker: sym.Bool("m")}
	was := h.Clone()
	p := sym.Bytes("p", sym.Choose("len", 3))
	sym.Assert(hs[k].HandleRTP(h, p) == in.err && in.n == 1, "a packet is not handled once with its result")
	sym.Assert(in.h.SequenceNumber == was.SequenceNumber && in.h.Timestamp == was.Timestamp && in.h.Marker == was.Marker, "another header is handled")
	same(in.p, p, "another payload is handled")
	if c, ok := hs[k].(rtp.HandlerCloser); ok {
		c.Close()
		sym.Assert(in.closes == 0, "the handler is closed")
		sym.Reach("nop")
	}
}

// HCodec: a codec made of two converters uses exactly these.
func HCodec() {
	info := media.CodecInfo{SDPName: "X/8000", SampleRate: 1 + sym.Range("rate", 0, 1<<20), RTPClockRate: sym.Range("clock", 0, 1<<20), RTPDefType: sym.U8("typ"), RTPIsStatic: sym.Bool("static"), Priority: sym.Int("prio")}
	c := rtp.NewAudioCodec(info, g711.DecodeULaw, g711.EncodeULaw).(rtp.AudioEncoder[g711.ULawSample])
	got := c.Info()
	want := info
	if want.RTPClockRate == 0 {
		want.RTPClockRate = want.SampleRate
	}
	sym.Assert(got == want, "the codec describes itself differently")
	out := &sink[media.PCM16Sample, int16]{rate: 8000}
	enc := &sink[g711.ULawSample, byte]{rate: 8000}
	b := sym.Bytes("b", sym.Choose("blen", 3))
	sym.Assert(c.Decode(out).WriteSample(b) == nil && len(out.frames) == 1, "a frame is not decoded once")
	p := make([]int16, len(b))
	g711.DecodeULawTo(p, b)
	same(out.frames[0], p, "a frame is decoded differently")
	in := pcm("s", 2)
	w := c.Encode(enc)
	sym.Assert(w.WriteSample(in) == nil && len(enc.frames) == 1, "a frame is not encoded once")
	e := make([]byte, len(in))
	g711.EncodeULawTo(e, in)
	same(enc.frames[0], e, "a frame is encoded differently")
}

// HClear: clearing zeroes every sample of the frame and nothing else.
func HClear() {
	buf := pcm("s", 6)
	orig := clone(buf)
	from := sym.Choose("from", len(buf)+1)
	to := from + sym.Choose("n", len(buf)-from+1)
	buf[from:to].Clear()
	for i, v := range buf {
		if i >= from && i < to {
			sym.Assert(v == 0, "a sample is not cleared")
		} else {
			sym.Assert(v == orig[i], "a sample outside the frame is cleared")
		}
	}
}

// HChain: reader, playback, frame buffer, multi-writer and buffers in a row.
func HChain() {
	src := pcm("src", sym.Bound(6, 8))
	orig := clone(src)
	r := media.NewPCM16BufferReader(src)
	var frames []media.PCM16Sample
	for {
		buf := make(media.PCM16Sample, 1+sym.Choose("size", 3))
		n, _ := r.ReadSample(buf)
		if n == 0 {
			break
		}
		frames = append(frames, buf[:n])
	}
	var flat media.PCM16Sample
	var framed []media.PCM16Sample
	w := media.MultiWriter[media.PCM16Sample]{media.NewPCM16BufferWriter(&flat, 400), media.FullFrames[media.PCM16Sample](media.NewPCM16FrameWriter(&framed, 400), 2)}
	res := make(chan error, 1)
	go func() {
		res <- media.PlayAudio[media.PCM16Sample](context.Background(), w, 20*time.Millisecond, frames)
	}()
	for k := 0; ; k++ {
		sym.WaitIdle()
		select {
		case err := <-res:
			sym.Assert(err == nil, "playing fails")
			sym.Assert(k == len(frames), "not one frame per tick")
			sym.Assert(w.Close() == nil, "closing fails")
			same(flat, orig, "another stream arrives")
			var all []int16
			for i, f := range framed {
				sym.Assert(len(f) == 2 || len(f) == 1 && i == len(framed)-1, "not full frames")
				all = append(all, f...)
			}
			same(all, orig, "another stream arrives")
			sym.Reach("end")
			return
		default:
		}
		sym.Assert(k < len(frames), "the playback does not end")
		vtime.Tickers[0].Tick()
	}
}

// HLong: long recordings in frames of real sizes, read back in other sizes.
func HLong() {
	x := sym.I16("x")
	n := sym.Bound(40, 200)
	var frames []media.PCM16Sample
	var flat, direct media.PCM16Sample
	fw, bw := media.NewPCM16FrameWriter(&frames, 48000), media.NewPCM16BufferWriter(&flat, 48000)
	t := &track{}
	tw := media.FromSampleWriter[g711.ULawSample](t, 8000, 20*time.Millisecond)
	sizes := []int{960, 320, 1, 480, 1920}
	buf := make(media.PCM16Sample, 1920)
	total := 0
	for k := 0; k < n; k++ {
		in := buf[:sizes[(k+k/7)%5]]
		for i := range in {
			in[i] = x + int16(total+i)
		}
		total += len(in)
		sym.Assert(fw.WriteSample(in) == nil && bw.WriteSample(in) == nil && direct.WriteSample(in) == nil, "storing fails")
		b := make(g711.ULawSample, len(in))
		b[len(b)-1] = byte(k)
		sym.Assert(tw.WriteSample(b) == nil && len(t.got) == k+1 && len(t.got[k].Data) == len(b) && t.got[k].Data[len(b)-1] == byte(k), "a frame does not become one sample")
	}
	pos := 0
	sym.Assert(len(frames) == n, "not one frame stored per write")
	for k, f := range frames {
		sym.Assert(len(f) == sizes[(k+k/7)%5], "a stored frame differs")
		for i, v := range f {
			if i%37 == 0 || i == len(f)-1 {
				sym.Assert(v == x+int16(pos+i), "a stored frame differs")
			}
		}
		pos += len(f)
	}
	sym.Assert(len(flat) == total && len(direct) == total, "the stored samples differ")
	r := media.NewPCM16BufferReader(flat)
	rd := 0
	for k := 0; rd < total; k++ {
		got, err := r.ReadSample(buf[:sizes[(k+2+k/3)%5]])
		sym.Assert(got == min(sizes[(k+2+k/3)%5], total-rd), "a read does not deliver what is left, up to its size")
		sym.Assert(err == nil || rd+got == total, "an error before the end")
		for i := 0; i < got; i += 29 {
			sym.Assert(buf[i] == x+int16(rd+i) && direct[rd+i] == buf[i], "a read delivers other samples")
		}
		rd += got
	}
	got, _ := r.ReadSample(buf)
	sym.Assert(got == 0, "samples after the end")
	sym.Reach("end")
}
