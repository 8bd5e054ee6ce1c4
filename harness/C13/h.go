package main

import (
	"errors"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/zzverif/sym"
	lib "github.com/livekit/media-sdk/zzverif/vg722"
	"github.com/livekit/media-sdk/zzverif/vos"
	"github.com/livekit/media-sdk/zzverif/vsoxr"
)

var errDst = errors.New("destination failed")

type sink[T ~[]E, E int16 | byte] struct {
	rate   int
	frames []T
	closes int
	fail   bool
	failC  bool
}

func (s *sink[T, E]) String() string  { return "sink" }
func (s *sink[T, E]) SampleRate() int { return s.rate }
func (s *sink[T, E]) Close() error {
	s.closes++
	if s.failC {
		return errDst
	}
	return nil
}
func (s *sink[T, E]) WriteSample(d T) error {
	s.frames = append(s.frames, append(T{}, d...))
	if s.fail {
		return errDst
	}
	return nil
}

func (s *sink[T, E]) all() (r T) {
	for _, f := range s.frames {
		r = append(r, f...)
	}
	return r
}

func same[T int16 | byte](a, b []T, msg string) {
	sym.Assert(len(a) == len(b), msg)
	for i := range a {
		sym.Assert(a[i] == b[i], msg)
	}
}

func le(s []int16) (r []byte) {
	for _, v := range s {
		r = append(r, byte(v), byte(uint16(v)>>8))
	}
	return r
}

func pcm(max int) media.PCM16Sample {
	return media.PCM16Sample(sym.I16s[int16]("s", sym.Choose("len", max+1)))
}

// recorded: the file has exactly the stream.
func recorded(name string, want []byte) {
	f := vos.Find(name)
	sym.Assert(f != nil, "there is no dump file of the stream")
	sym.Assert(f.Closes == 1, "a dump file is not closed once")
	same(f.Data, want, "the dump file does not have the stream")
}

// HWriter: a dump of any stream, with failures of the destination and the file.
func HWriter() {
	rate := []int{8000, 48000}[sym.Choose("rate", 2)]
	s := &sink[media.PCM16Sample, int16]{rate: rate}
	w := media.DumpWriterPCM16("rec", s)
	sym.Assert(w.SampleRate() == rate, "the sample rate changed")
	vos.MayFail = sym.Choose("disk", 2) == 1
	var want []int16
	n := sym.Bound(3, 4)
	saw := false
	for k := 0; k < n; k++ {
		in := pcm(3)
		orig := append([]int16{}, in...)
		want = append(want, in...)
		s.fail = sym.Split(sym.Bool("dsterr"))
		err := w.WriteSample(in)
		same(in, orig, "the caller's frame was changed")
		sym.Assert(len(s.frames) == k+1, "a frame does not reach the destination once")
		same(s.frames[k], orig, "the destination gets another frame")
		sym.Assert(!s.fail || err != nil, "an error of the destination is not returned")
		if err != nil && !s.fail {
			sym.Assert(errors.Is(err, vos.ErrWrite) && vos.Files[0].Fault, "an error without cause")
		}
		saw = saw || err != nil && !errors.Is(err, errDst)
	}
	s.failC = sym.Split(sym.Bool("closeerr"))
	err := w.Close()
	sym.Assert(s.closes == 1, "the destination is not closed once")
	sym.Assert(!s.failC || err != nil, "an error of closing the destination is not returned")
	sym.Assert(len(vos.Files) == 1, "not one dump file")
	f := vos.Files[0]
	if f.Fault {
		sym.Assert(f.Closes == 1 && (saw || err != nil || s.failC), "a fault of the dump file is hidden")
		same(f.Data, le(want)[:len(f.Data)], "the dump file does not have the stream")
		sym.Reach("fault")
		return
	}
	sym.Assert(s.failC || err == nil, "an error without cause")
	recorded([]string{"rec_ar8000.s16le", "rec_ar48000.s16le"}[rate/48000], le(want))
	sym.Reach("end")
}

// HBig: frames larger than any buffer.
func HBig() {
	s := &sink[media.PCM16Sample, int16]{rate: 48000}
	w := media.DumpWriterPCM16("rec", s)
	vos.MayFail = sym.Choose("disk", 2) == 1
	var want []int16
	saw := false
	for _, n := range []int{3, 2100, 0, 960, 2} {
		in := make(media.PCM16Sample, n)
		for i := 0; i < n; i += 700 {
			in[i] = sym.I16("s")
		}
		want = append(want, in...)
		err := w.WriteSample(in)
		sym.Assert(err == nil || vos.Files[0].Fault, "an error without cause")
		saw = saw || err != nil
	}
	err := w.Close()
	same(s.all(), want, "the destination gets another stream")
	if f := vos.Files[0]; f.Fault {
		sym.Assert(f.Closes == 1 && (saw || err != nil), "a fault of the dump file is hidden")
		same(f.Data, le(want)[:len(f.Data)], "the dump file does not have the stream")
		return
	}
	sym.Assert(err == nil, "an error without cause")
	recorded("rec_ar48000.s16le", le(want))
}

// HBytes: a dump of encoded frames.
func HBytes() {
	s := &sink[g711.ULawSample, byte]{rate: 8000}
	w := media.DumpWriter[g711.ULawSample]("g711u", "dir/rec", s)
	var want []byte
	for k := 0; k < sym.Bound(3, 4); k++ {
		in := g711.ULawSample(sym.Bytes("b", sym.Choose("len", 4)))
		want = append(want, in...)
		sym.Assert(w.WriteSample(in) == nil, "writing fails")
	}
	sym.Assert(w.Close() == nil && s.closes == 1, "closing fails")
	same(s.all(), want, "the destination gets another stream")
	recorded("dir/rec_ar8000.g711u", want)
}

// HG722: decoders and encoders with dumps behave as without.
func HG722() {
	rate := []int{8000, 16000}[sym.Choose("rate", 2)]
	f := lib.Flags(0)
	if rate == 8000 {
		f = lib.FlagSampleRate8000
	}
	d := &sink[media.PCM16Sample, int16]{rate: rate}
	e := &sink[g722.Sample, byte]{rate: rate}
	dec, enc := g722.Decode(d), g722.Encode(e)
	sym.Assert(dec.SampleRate() == rate && enc.SampleRate() == rate, "the sample rate changed")
	rd, re := lib.NewDecoder(lib.Rate64000, f), lib.NewEncoder(lib.Rate64000, f)
	var din, eout []byte
	var dout, ein []int16
	for k := 0; k < sym.Bound(2, 3); k++ {
		b := g722.Sample(sym.Bytes("b", sym.Choose("blen", 4)))
		buf := make([]int16, 2*len(b))
		din = append(din, b...)
		dout = append(dout, buf[:rd.Decode(buf, append([]byte{}, b...))]...)
		sym.Assert(dec.WriteSample(b) == nil, "decoding fails")
		p := media.PCM16Sample(sym.I16s[int16]("s", 2*sym.Choose("plen", 3)))
		out := make([]byte, len(p))
		ein = append(ein, p...)
		eout = append(eout, out[:re.Encode(out, p)]...)
		sym.Assert(enc.WriteSample(p) == nil, "encoding fails")
	}
	sym.Assert(dec.Close() == nil && enc.Close() == nil && d.closes == 1 && e.closes == 1, "closing fails")
	same(d.all(), dout, "the decoded stream changed")
	same(e.all(), eout, "the encoded stream changed")
	sym.Assert(len(vos.Files) == 4, "not one dump file per stream")
	for i, f := range vos.Files {
		for _, g := range vos.Files[:i] {
			sym.Assert(f.Path != g.Path, "streams share a dump file")
		}
		sym.Assert(f.Closes == 1, "a dump file is not closed once")
	}
	ar := []string{"_ar8000.", "_ar16000."}[rate/16000]
	recorded("sip_g722_dec_1_in"+ar+"g722", din)
	recorded("sip_g722_dec_1_out"+ar+"s16le", le(dout))
	recorded("sip_g722_enc_2_in"+ar+"s16le", le(ein))
	recorded("sip_g722_enc_2_out"+ar+"g722", eout)
}

// HRTP: the RTP side of a codec.
func HRTP() {
	c, ok := sdp.CodecByName(g711.ULawSDPName).(rtp.AudioCodec)
	sym.Assert(ok, "the codec is not registered as an audio codec")
	var buf rtp.Buffer
	typ := sym.U8("typ") & 0x7f
	w := c.EncodeRTP(rtp.NewSeqWriter(&buf).NewStream(typ, 8000))
	out := &sink[media.PCM16Sample, int16]{rate: 8000}
	h := c.DecodeRTP(out, typ)
	var want []byte
	var dec []int16
	for k := 0; k < sym.Bound(2, 3); k++ {
		in := pcm(2)
		b := make([]byte, len(in))
		g711.EncodeULawTo(b, in)
		p := make([]int16, len(in))
		g711.DecodeULawTo(p, b)
		want, dec = append(want, b...), append(dec, p...)
		sym.Assert(w.WriteSample(in) == nil, "encoding fails")
		sym.Assert(len(buf) == k+1 && buf[k].PayloadType == typ && buf[k].Timestamp == uint32(160*k), "a frame is not sent as one packet")
		same(buf[k].Payload, b, "the packet has another payload")
		sym.Assert(h.HandleRTP(&buf[k].Header, append([]byte{}, buf[k].Payload...)) == nil, "decoding fails")
		sym.Assert(len(out.frames) == k+1, "a packet is not delivered as one frame")
		same(out.frames[k], p, "another frame is delivered")
	}
	sym.Assert(w.Close() == nil, "closing fails")
	recorded("sip_rtp_out_1_ar8000.g711u", want)
	f := vos.Find("sip_rtp_in_2_ar8000.g711u")
	sym.Assert(f != nil, "there is no dump file of the received stream")
	sym.Assert(len(f.Data) <= len(want), "the dump file does not have the stream")
	same(f.Data, want[:len(f.Data)], "the dump file does not have the stream")
}

// HResample: the resampling writer.
func HResample() {
	s := &sink[media.PCM16Sample, int16]{rate: 16000}
	w := media.ResampleWriter(s, 48000)
	sym.Assert(w.SampleRate() == 48000, "the sample rate changed")
	vsoxr.Eager = sym.Choose("eager", 2) == 1
	var in []int16
	for k := 0; k < sym.Bound(2, 3); k++ {
		p := pcm(6)
		in = append(in, p...)
		sym.Assert(w.WriteSample(p) == nil, "writing fails")
	}
	sym.Assert(w.Close() == nil && s.closes == 1, "closing fails")
	e := vsoxr.All[0]
	same(e.In, in[:len(e.In)], "the engine gets another stream")
	sym.Assert(len(in)-len(e.In) < 3 && len(s.all()) == e.Produced, "samples are lost")
	recorded("sip_resample_1_in_ar48000.s16le", le(in))
	recorded("sip_resample_1_out_ar16000.s16le", le(s.all()))
}
