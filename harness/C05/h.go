package main

import (
	"time"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/mixer"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/webm"
	prtp "github.com/pion/rtp"
	pmedia "github.com/pion/webrtc/v4/pkg/media"

	"github.com/livekit/media-sdk/zzverif/mixm"
	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vwebm"
)

// frame is a caller's buffer with room behind it.
type frame struct {
	buf  []int16
	orig []int16
	n    int
}

func newFrame(n int) *frame {
	f := &frame{n: n, buf: sym.I16s[int16]("s", n+2)}
	f.orig = append([]int16{}, f.buf...)
	return f
}

func (f *frame) data() media.PCM16Sample { return f.buf[:f.n] }

// used checks that the callee left the caller's memory alone, then reuses it.
func (f *frame) used() {
	for i := range f.buf {
		sym.Assert(f.buf[i] == f.orig[i], "the caller's buffer was changed")
		f.buf[i] = ^f.orig[i]
	}
}

// later checks that the callee does not write to the buffer afterwards.
func (f *frame) later() {
	for i := range f.buf {
		sym.Assert(f.buf[i] == ^f.orig[i], "the caller's buffer was changed afterwards")
	}
}

func (f *frame) want() []int16 { return f.orig[:f.n] }

func same(a, b []int16) bool {
	ok := len(a) == len(b)
	for i := range a {
		ok = ok && i < len(b) && a[i] == b[i]
	}
	return ok
}

func sizes(k int) []*frame {
	var fs []*frame
	for i := 0; i < k; i++ {
		fs = append(fs, newFrame(sym.Choose("len", 4)))
	}
	return fs
}

const kept = "what is kept differs from what was given"

func HFrames() {
	var got []media.PCM16Sample
	w := media.NewPCM16FrameWriter(&got, 48000)
	fs := sizes(sym.Bound(3, 4))
	for _, f := range fs {
		sym.Assert(w.WriteSample(f.data()) == nil, "collecting a frame fails")
		f.used()
	}
	sym.Assert(len(got) == len(fs), "not every frame was collected")
	for i, f := range fs {
		sym.Assert(same(got[i], f.want()), kept)
		f.later()
	}
	sym.Reach("end")
}

func HSamples() {
	var got media.PCM16Sample
	fs := sizes(sym.Bound(3, 4))
	mode := sym.Choose("kind", 2)
	var w media.PCM16Writer
	if mode == 1 {
		w = media.NewPCM16BufferWriter(&got, 48000)
	}
	var want []int16
	for _, f := range fs {
		if mode == 0 {
			got.WriteSample(f.data())
		} else {
			w.WriteSample(f.data())
		}
		f.used()
		want = append(want, f.want()...)
	}
	sym.Assert(same(got, want), kept)
	for _, f := range fs {
		f.later()
	}
	if mode == 1 {
		w.Close()
		f := newFrame(1)
		w.WriteSample(f.data())
		sym.Assert(same(got, want), "a closed buffer writer still collects")
	}
	sym.Reach("end")
}

type msw struct{ got []pmedia.Sample }

func (m *msw) WriteSample(s pmedia.Sample) error { m.got = append(m.got, s); return nil }

type bsample []byte

func bytesOf(n int) (b, orig []byte) {
	b = sym.Bytes("b", n+2)
	return b, append([]byte{}, b...)
}

func HWebRTC() {
	m := &msw{}
	w := media.FromSampleWriter[bsample](m, 48000, 20*time.Millisecond)
	type rec struct {
		b, o []byte
		n    int
	}
	var rs []rec
	for k := 0; k < 2; k++ {
		n := sym.Choose("len", 4)
		b, o := bytesOf(n)
		sym.Assert(w.WriteSample(bsample(b[:n])) == nil, "writing fails")
		for i := range b {
			sym.Assert(b[i] == o[i], "the caller's buffer was changed")
			b[i] = ^b[i]
		}
		rs = append(rs, rec{b, o, n})
	}
	for k, r := range rs {
		sym.Assert(m.got[k].Duration == 20*time.Millisecond, "the sample duration is wrong")
		sym.Assert(len(m.got[k].Data) == r.n, kept)
		for i, v := range m.got[k].Data {
			sym.Assert(v == r.o[i], kept)
		}
	}
	sym.Assert(len(m.got) == 2, "not one sample per frame")
	sym.Reach("end")
}

func HRTPBuffer() {
	var buf rtp.Buffer
	type rec struct {
		h    prtp.Header
		o    []byte
		n    int
		csrc uint32
		ext  byte
		we   bool
	}
	var rs []rec
	h := &prtp.Header{Version: 2, CSRC: make([]uint32, 1)} // reused by the caller
	b := make([]byte, 6)
	e := make([]byte, 2)
	for k := 0; k < 2; k++ {
		r := rec{n: sym.Choose("len", 4)}
		copy(b, sym.Bytes("b", 6))
		r.o = append([]byte{}, b...)
		h.SequenceNumber, h.Timestamp, h.SSRC, h.Marker, h.PayloadType = sym.U16("sn"), sym.U32("ts"), sym.U32("ssrc"), sym.Bool("marker"), sym.U8("pt")&0x7f
		r.csrc = sym.U32("csrc")
		h.CSRC[0] = r.csrc
		r.we = k == 0 && sym.Choose("ext", 2) == 1
		h.Extension, h.Extensions = false, nil
		if r.we {
			r.ext = sym.U8("ext")
			e[0] = r.ext
			sym.Assert(h.SetExtension(1, e) == nil, "setup")
		}
		r.h = *h
		buf.WriteRTP(h, b[:r.n])
		for i := range b {
			sym.Assert(b[i] == r.o[i], "the caller's buffer was changed")
			b[i] = ^b[i]
		}
		sym.Assert(h.CSRC[0] == r.csrc, "the caller's header was changed")
		h.CSRC[0] = ^h.CSRC[0]
		e[0] = ^e[0]
		rs = append(rs, r)
	}
	sym.Assert(len(buf) == 2, "not every packet was kept")
	for k, r := range rs {
		p := buf[k]
		sym.Assert(p.SequenceNumber == r.h.SequenceNumber && p.Timestamp == r.h.Timestamp && p.SSRC == r.h.SSRC && p.Marker == r.h.Marker && p.PayloadType == r.h.PayloadType, kept)
		sym.Assert(len(p.CSRC) == 1 && p.CSRC[0] == r.csrc, "a kept header changes with the caller's CSRC list")
		if r.we {
			x := p.GetExtension(1)
			sym.Assert(len(x) == 2 && x[0] == r.ext, "a kept header changes with the caller's extension")
		}
		sym.Assert(len(p.Payload) == r.n, kept)
		for i, v := range p.Payload {
			sym.Assert(v == r.o[i], kept)
		}
	}
	sym.Reach("end")
}

type file struct{}

func (file) Write(p []byte) (int, error) { return len(p), nil }
func (file) Close() error                { return nil }

func HWebM() {
	w := webm.NewPCM16Writer(file{}, 48000, 1, 20*time.Millisecond)
	fs := sizes(3)
	for _, f := range fs {
		sym.Assert(w.WriteSample(f.data()) == nil, "writing fails")
		f.used()
	}
	bs := vwebm.Last.Blocks
	sym.Assert(len(bs) == len(fs), "not one block per frame")
	for k, f := range fs {
		sym.Assert(len(bs[k].Data) == 2*f.n, kept)
		for i, v := range f.want() {
			sym.Assert(bs[k].Data[2*i] == byte(v) && bs[k].Data[2*i+1] == byte(uint16(v)>>8), kept)
		}
		f.later()
	}
	sym.Reach("end")
}

type sink struct{ got []int16 }

func (s *sink) String() string  { return "sink" }
func (s *sink) SampleRate() int { return 48000 }
func (s *sink) Close() error    { return nil }
func (s *sink) WriteSample(d media.PCM16Sample) error {
	s.got = append(s.got, d...)
	return nil
}

func HFullFrames() {
	s := &sink{}
	w := media.FullFrames[media.PCM16Sample, int16](s, 2+sym.Choose("frame", 2))
	fs := sizes(sym.Bound(3, 4))
	var want []int16
	for _, f := range fs {
		sym.Assert(w.WriteSample(f.data()) == nil, "writing fails")
		f.used()
		want = append(want, f.want()...)
	}
	w.Close()
	sym.Assert(same(s.got, want), kept)
	for _, f := range fs {
		f.later()
	}
	sym.Reach("end")
}

type heard struct{ got []prtp.Packet }

func (h *heard) String() string { return "heard" }
func (h *heard) Close()         {}
func (h *heard) HandleRTP(hd *prtp.Header, p []byte) error {
	h.got = append(h.got, prtp.Packet{Header: hd.Clone(), Payload: append([]byte{}, p...)})
	return nil
}

// HJitter: the jitter handler holds packets back while the caller reads the
// next ones into the same header and buffer.
func HJitter() {
	out := &heard{}
	j := rtp.HandleJitter(out)
	orders := [][]uint16{{0, 1, 2, 3}, {0, 2, 1, 3}, {0, 3, 2, 1}, {0, 2, 3, 1}, {0, 3, 1, 2}}
	order := orders[sym.Choose("order", len(orders))]
	base := sym.U16("base")
	type rec struct {
		o         []byte
		ts, csrc  uint32
		ext       byte
		n         int
		delivered bool
	}
	recs := make([]rec, len(order))
	h := &prtp.Header{Version: 2, CSRC: make([]uint32, 1)} // reused by the caller
	b := make([]byte, 4)
	e := make([]byte, 2)
	for _, sn := range order {
		r := rec{n: sym.Choose("len", 3), ts: sym.U32("ts"), csrc: sym.U32("csrc"), ext: sym.U8("ext")}
		copy(b, sym.Bytes("b", 4))
		r.o = append([]byte{}, b...)
		h.SequenceNumber, h.Timestamp, h.CSRC[0], e[0] = base+sn, r.ts, r.csrc, r.ext
		h.Extension, h.Extensions = false, nil
		sym.Assert(h.SetExtension(1, e) == nil, "setup")
		sym.Assert(j.HandleRTP(h, b[:r.n]) == nil, "a packet is not handled")
		sym.Assert(h.SequenceNumber == base+sn && h.Timestamp == r.ts && h.CSRC[0] == r.csrc && e[0] == r.ext, "the caller's header was changed")
		for i := range b {
			sym.Assert(b[i] == r.o[i], "the caller's buffer was changed")
			b[i] = ^b[i]
		}
		h.CSRC[0], e[0], h.Timestamp = ^h.CSRC[0], ^e[0], ^h.Timestamp
		recs[sn] = r
	}
	sym.Assert(len(out.got) == len(order), "not every packet came out")
	for k, p := range out.got {
		r := recs[k]
		sym.Assert(p.SequenceNumber == base+uint16(k) && p.Timestamp == r.ts && len(p.CSRC) == 1 && p.CSRC[0] == r.csrc, "a held header changes with the caller's")
		x := p.GetExtension(1)
		sym.Assert(len(x) == 2 && x[0] == r.ext, "a held header changes with the caller's extension")
		sym.Assert(len(p.Payload) == r.n, kept)
		for i, v := range p.Payload {
			sym.Assert(v == r.o[i], kept)
		}
	}
	j.Close()
	sym.WaitIdle()
	sym.Reach("end")
}

// The mixer's input: mixm scribbles over every buffer it wrote.
func HMixer() {
	var opts []mixer.MixerOptions
	if sym.Choose("channel", 2) == 1 {
		opts = append(opts, mixer.WithOutputChannelSize(2))
	}
	e := mixm.New(2, 1, opts...)
	in := e.Add()
	var snap []media.PCM16Sample
	for t := 0; t < sym.Bound(2, 3); t++ {
		for k := 0; k < 2; k++ {
			f := newFrame(1 + sym.Choose("len", 2))
			e.Write(in, f.data())
			sym.Assert(f.buf[f.n] == f.orig[f.n] && f.buf[f.n+1] == f.orig[f.n+1], "the caller's buffer was changed")
		}
		e.Tick()
		// the output keeps the frames it was given
		sym.Assert(len(e.O.Got) == t+1 && mixm.Same(snap, e.O.Got), "a frame handed over earlier changed")
		snap = mixm.Snapshot(e.O.Got)
	}
	e.M.Stop()
	sym.WaitIdle()
	sym.Reach("end")
}
