package main

import (
	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/zzverif/sym"
)

type sink struct{ got []media.PCM16Sample }

func (s *sink) String() string  { return "sink" }
func (s *sink) SampleRate() int { return 8000 }
func (s *sink) WriteSample(d media.PCM16Sample) error {
	s.got = append(s.got, append(media.PCM16Sample{}, d...))
	return nil
}

func run(name string, enc func([]byte, []int16), dec func([]int16, []byte)) {
	c, ok := sdp.CodecByName(name).(rtp.AudioCodec)
	sym.Assert(ok, "the codec is not registered as an audio codec")
	typ := sym.U8("typ") & 0x7f
	var buf rtp.Buffer
	st := rtp.NewSeqWriter(&buf).NewStream(typ, 8000)
	w := c.EncodeRTP(st)
	out := &sink{}
	h := c.DecodeRTP(out, typ)
	n := sym.Bound(2, 4)
	for k := 0; k < n; k++ {
		sz := []int{0, 1, 2, 3, 160, 240}[sym.Choose("size", 6)]
		in := media.PCM16Sample(sym.I16s[int16]("in", sz))
		sym.Assert(w.WriteSample(append(media.PCM16Sample{}, in...)) == nil, "encoding a frame fails")
		sym.Assert(len(buf) == k+1, "a frame is not sent as exactly one packet")
		p := buf[k]
		sym.Assert(p.PayloadType == typ && !p.Marker, "a packet has the wrong payload type or a marker")
		sym.Assert(p.SequenceNumber == uint16(k) && p.Timestamp == uint32(160*k), "a packet has the wrong sequence number or timestamp")
		sym.Assert(len(p.Payload) == sz, "a packet's payload is not the encoded frame")
		for i := range in {
			var one [1]byte
			enc(one[:], in[i:i+1])
			sym.Assert(p.Payload[i] == one[0], "a packet's payload is not the encoded frame")
		}
	}
	for k, p := range buf {
		sym.Assert(h.HandleRTP(&p.Header, append([]byte{}, p.Payload...)) == nil, "decoding a packet fails")
		sym.Assert(len(out.got) == k+1 && len(out.got[k]) == len(p.Payload), "a packet is not delivered as one frame")
		for i := range p.Payload {
			var one [1]int16
			dec(one[:], p.Payload[i:i+1])
			sym.Assert(out.got[k][i] == one[0], "a delivered frame is not the decoded packet")
		}
	}
	sym.Reach("end")
}

func HULaw() { run(g711.ULawSDPName, g711.EncodeULawTo, g711.DecodeULawTo) }
func HALaw() { run(g711.ALawSDPName, g711.EncodeALawTo, g711.DecodeALawTo) }
