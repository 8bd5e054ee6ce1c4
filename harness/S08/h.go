package main

import (
	"errors"
	"io"

	prtp "github.com/pion/rtp"

	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/srtp"
	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vsrtp"
)

// pkt is a packet in its parts.
type pkt struct {
	marker  bool
	pt      byte
	seq     uint16
	ts      uint32
	ssrc    uint32
	csrc    []uint32
	profile uint16
	ids     []byte
	exts    [][]byte
	payload []byte
	pad     int
	raw     []byte
}

func be32(b []byte, v uint32) []byte { return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }

func packet() *pkt {
	p := &pkt{marker: sym.Bool("marker"), pt: sym.U8("pt") & 127, seq: sym.U16("seq"), ts: sym.U32("ts"), ssrc: sym.U32("ssrc")}
	for i := sym.Choose("csrcs", 3); i > 0; i-- {
		p.csrc = append(p.csrc, sym.U32("csrc"))
	}
	p.payload = sym.Bytes("payload", []int{0, 1, 3, 40}[sym.Choose("len", 4)])
	if p.pad = sym.Choose("pad", 3); p.pad > 0 {
		sym.Assume(len(p.payload) > 0)
	}
	b0 := byte(0x80 | len(p.csrc))
	var ext []byte
	switch sym.Choose("ext", 4) {
	case 1:
		p.profile = 0xBEDE
		n := 1 + sym.Choose("extlen", 3)
		p.ids, p.exts = []byte{5}, [][]byte{sym.Bytes("ext", n)}
		ext = append([]byte{5<<4 | byte(n-1)}, p.exts[0]...)
	case 2:
		p.profile = 0x1000
		p.ids, p.exts = []byte{1, 200}, [][]byte{sym.Bytes("ext", 2), sym.Bytes("ext", 1)}
		ext = append([]byte{1, 2}, p.exts[0]...)
		ext = append(append(ext, 200, 1), p.exts[1]...)
	case 3:
		p.profile = 0x1234
		p.ids, p.exts = []byte{0}, [][]byte{sym.Bytes("ext", 4)}
		ext = p.exts[0]
	}
	if p.profile != 0 {
		b0 |= 0x10
	}
	if p.pad > 0 {
		b0 |= 0x20
	}
	b1 := p.pt
	if p.marker {
		b1 |= 0x80
	}
	p.raw = append(p.raw, b0, b1, byte(p.seq>>8), byte(p.seq))
	p.raw = be32(be32(p.raw, p.ts), p.ssrc)
	for _, c := range p.csrc {
		p.raw = be32(p.raw, c)
	}
	if p.profile != 0 {
		for len(ext)%4 != 0 {
			ext = append(ext, 0)
		}
		p.raw = append(p.raw, byte(p.profile>>8), byte(p.profile), 0, byte(len(ext)/4))
		p.raw = append(p.raw, ext...)
	}
	p.raw = append(p.raw, p.payload...)
	for i := 0; i < p.pad; i++ {
		p.raw = append(p.raw, byte(p.pad))
	}
	return p
}

func (p *pkt) check(h *prtp.Header) {
	sym.Assert(h.Version == 2 && h.Marker == p.marker && h.PayloadType == p.pt && h.SequenceNumber == p.seq && h.Timestamp == p.ts && h.SSRC == p.ssrc, "the header is not the packet's")
	sym.Assert(h.Padding == (p.pad > 0) && h.Extension == (p.profile != 0), "the header flags are not the packet's")
	sym.Assert(len(h.CSRC) == len(p.csrc), "the CSRCs are not the packet's")
	for i, c := range p.csrc {
		sym.Assert(h.CSRC[i] == c, "the CSRCs are not the packet's")
	}
	ids := h.GetExtensionIDs()
	sym.Assert(len(ids) == len(p.ids), "the header extensions are not the packet's")
	if p.profile != 0 {
		sym.Assert(h.ExtensionProfile == p.profile, "the extension profile is not the packet's")
	}
	for i, id := range p.ids {
		sym.Assert(ids[i] == id, "the header extensions are not the packet's")
		sym.Assert(string(h.GetExtension(id)) == string(p.exts[i]), "a header extension is not the packet's")
	}
}

func open(n int, in ...vsrtp.Incoming) (rtp.Session, rtp.ReadStream) {
	vsrtp.Streams = []*vsrtp.ReadStreamSRTP{{SSRC: 77, In: in}}
	s, err := srtp.NewSession(nil, nil, &srtp.Config{})
	sym.Assert(err == nil, "a session could not be opened")
	r, ssrc, err := s.AcceptStream()
	sym.Assert(err == nil && ssrc == 77, "a stream was not accepted with its SSRC")
	return s, r
}

// HRead: packets of every shape, one after the other.
func HRead() {
	p := packet()
	q := &pkt{seq: sym.U16("seq2"), payload: sym.Bytes("payload2", 50)}
	q.raw = append([]byte{0x80, 0, byte(q.seq >> 8), byte(q.seq), 0, 0, 0, 0, 0, 0, 0, 0}, q.payload...)
	_, r := open(2, vsrtp.Incoming{Packet: p.raw}, vsrtp.Incoming{Packet: q.raw})
	buf := make([]byte, max(len(p.raw), len(q.raw))+[]int{0, 20}[sym.Choose("spare", 2)])
	var h prtp.Header
	n, err := r.ReadRTP(&h, buf)
	if err != nil {
		sym.Assert(n == 0, "an error came with data")
		sym.Assert(p.profile != 0 && len(p.payload) == 0, "a valid packet was rejected")
		sym.Reach("quirk")
		return
	}
	sym.Assert(n == len(p.payload), "the length is not the payload's")
	sym.Assert(string(buf[:n]) == string(p.payload), "the payload is not the packet's")
	p.check(&h)
	var h2 prtp.Header
	n, err = r.ReadRTP(&h2, buf)
	sym.Assert(err == nil && n == 50 && string(buf[:n]) == string(q.payload), "the second payload is not the packet's")
	q.check(&h2)
	p.check(&h)
	sym.Reach("end")
}

// HReuse: a header variable used again does not keep parts of the packet before.
func HReuse() {
	p := packet()
	q := &pkt{seq: sym.U16("seq2"), payload: sym.Bytes("payload2", 50)}
	q.raw = append([]byte{0x80, 0, byte(q.seq >> 8), byte(q.seq), 0, 0, 0, 0, 0, 0, 0, 0}, q.payload...)
	_, r := open(2, vsrtp.Incoming{Packet: p.raw}, vsrtp.Incoming{Packet: q.raw})
	buf := make([]byte, 128)
	var h prtp.Header
	r.ReadRTP(&h, buf)
	n, err := r.ReadRTP(&h, buf)
	sym.Assert(err == nil && n == 50 && string(buf[:n]) == string(q.payload), "the payload is not the packet's")
	q.check(&h)
	sym.Reach("end")
}

// HAny: any bytes are delivered as a packet or reported as an error.
func HAny() {
	raw := sym.Bytes("raw", sym.Choose("len", sym.Bound(15, 19)))
	_, r := open(1, vsrtp.Incoming{Packet: raw})
	buf := make([]byte, 32)
	var h prtp.Header
	n, err := r.ReadRTP(&h, buf)
	if err != nil {
		sym.Assert(n == 0, "an error came with data")
	} else {
		sym.Assert(len(raw) >= 12, "a fragment was taken for a packet")
		sym.Assert(n <= len(raw)-12, "the payload is longer than the packet")
		sym.Assert(h.SequenceNumber == uint16(raw[2])<<8|uint16(raw[3]), "the sequence number is not the packet's")
		if raw[0]&0x3f == 0 { // no CSRC, extension or padding
			sym.Assert(n == len(raw)-12 && string(buf[:n]) == string(raw[12:]), "the payload is not the packet's")
		}
		sym.Reach("packet")
	}
	sym.Reach("end")
}

// HErrors: errors are passed on, at any position.
func HErrors() {
	bad := errors.New("bad")
	switch sym.Choose("where", 8) {
	case 0:
		vsrtp.NewErr = bad
		s, err := srtp.NewSession(nil, nil, &srtp.Config{})
		sym.Assert(err == bad && s == nil, "a failed session was returned")
	case 1:
		vsrtp.AcceptErr = bad
		s, _ := srtp.NewSession(nil, nil, &srtp.Config{})
		r, ssrc, err := s.AcceptStream()
		sym.Assert(err == bad && r == nil && ssrc == 0, "a failed accept gave a stream")
	case 2:
		vsrtp.OpenErr = bad
		s, _ := srtp.NewSession(nil, nil, &srtp.Config{})
		w, err := s.OpenWriteStream()
		sym.Assert(err == bad && w == nil, "a failed open gave a stream")
	case 3:
		vsrtp.CloseErr = bad
		s, _ := srtp.NewSession(nil, nil, &srtp.Config{})
		sym.Assert(s.Close() == bad && vsrtp.Closed == 1, "closing did not close the session")
	case 4:
		p := packet()
		ok := sym.Choose("ok", 2)
		in := []vsrtp.Incoming{{Packet: p.raw}, {Err: bad}}
		_, r := open(2, in[1-ok:]...)
		buf := make([]byte, 128)
		var h prtp.Header
		for i := 0; i < ok; i++ {
			r.ReadRTP(&h, buf)
		}
		n, err := r.ReadRTP(&h, buf)
		sym.Assert(err == bad && n == 0, "a read error was not reported")
		n, err = r.ReadRTP(&h, buf)
		sym.Assert(err == io.EOF && n == 0, "the end of the stream was not reported")
	case 5:
		vsrtp.WriteErr = bad
		s, _ := srtp.NewSession(nil, nil, &srtp.Config{})
		w, err := s.OpenWriteStream()
		sym.Assert(err == nil, "a stream could not be opened")
		_, err = w.WriteRTP(&prtp.Header{Version: 2}, []byte{1})
		sym.Assert(err == bad, "a write error was not reported")
	case 6:
		s, _ := srtp.NewSession(nil, nil, &srtp.Config{})
		w, _ := s.OpenWriteStream()
		h := prtp.Header{Version: 2, SequenceNumber: sym.U16("seq"), Timestamp: sym.U32("ts"), SSRC: sym.U32("ssrc"), PayloadType: 8, Marker: sym.Bool("marker")}
		data := sym.Bytes("payload", sym.Choose("len", 3))
		_, err := w.WriteRTP(&h, data)
		sym.Assert(err == nil && len(vsrtp.Out) == 1, "a packet was not written once")
		o := vsrtp.Out[0]
		sym.Assert(o.Raw == nil && o.Header.SequenceNumber == h.SequenceNumber && o.Header.Timestamp == h.Timestamp && o.Header.SSRC == h.SSRC && o.Header.Marker == h.Marker && o.Header.PayloadType == 8 && string(o.Payload) == string(data), "the packet written is another one")
	case 7:
		short := packet()
		_, r := open(1, vsrtp.Incoming{Packet: short.raw})
		var h prtp.Header
		n, err := r.ReadRTP(&h, make([]byte, 11))
		sym.Assert(err != nil && n == 0, "a packet larger than the buffer was not an error")
	}
	sym.Reach("end")
}

// HReal: packets of real sizes with many CSRCs and large extensions, one after
// the other, read and written.
func HReal() {
	n := []int{160, 333, 960, 1200, 1488}[sym.Choose("size", 5)]
	mk := func(k int, size, csrcs, extlen int) *pkt {
		p := &pkt{marker: k%2 == 0, pt: 8, seq: sym.U16("seq"), ts: sym.U32("ts"), ssrc: 77, payload: make([]byte, size)}
		for i := range p.payload {
			p.payload[i] = byte(i*7 + k)
		}
		p.payload[0], p.payload[size-1] = sym.U8("first"), sym.U8("last")
		p.raw = []byte{0x80 | byte(csrcs), 8, byte(p.seq >> 8), byte(p.seq)}
		if p.marker {
			p.raw[1] |= 0x80
		}
		p.raw = be32(be32(p.raw, p.ts), p.ssrc)
		for i := 0; i < csrcs; i++ {
			p.csrc = append(p.csrc, uint32(i)<<24|uint32(k))
			p.raw = be32(p.raw, p.csrc[i])
		}
		if extlen > 0 {
			p.raw[0] |= 0x10
			p.profile = 0x1000
			x := make([]byte, extlen)
			x[0], x[extlen-1] = sym.U8("ext"), sym.U8("ext")
			p.ids, p.exts = []byte{7}, [][]byte{x}
			ext := append([]byte{7, byte(extlen)}, x...)
			for len(ext)%4 != 0 {
				ext = append(ext, 0)
			}
			p.raw = append(p.raw, 0x10, 0, byte(len(ext)/4>>8), byte(len(ext)/4))
			p.raw = append(p.raw, ext...)
		}
		p.raw = append(p.raw, p.payload...)
		return p
	}
	pk := []*pkt{mk(0, n, 15, 255), mk(1, n, 0, 0), mk(2, 1, 3, 40), mk(3, n, 0, 16), mk(4, n/2, 8, 0)}
	var in []vsrtp.Incoming
	for _, p := range pk {
		in = append(in, vsrtp.Incoming{Packet: p.raw})
	}
	_, r := open(len(in), in...)
	buf := make([]byte, 2048)
	hs := make([]prtp.Header, len(pk))
	for i, p := range pk {
		m, err := r.ReadRTP(&hs[i], buf)
		sym.Assert(err == nil && m == len(p.payload), "the length is not the payload's")
		for j, b := range p.payload {
			sym.Assert(buf[j] == b, "the payload is not the packet's")
		}
	}
	for i, p := range pk {
		p.check(&hs[i])
	}
	s, _ := srtp.NewSession(nil, nil, &srtp.Config{})
	w, _ := s.OpenWriteStream()
	for i, p := range pk {
		h := hs[i].Clone()
		_, err := w.WriteRTP(&h, p.payload)
		sym.Assert(err == nil && len(vsrtp.Out) == i+1, "a packet was not written once")
		o := vsrtp.Out[i]
		p.check(&o.Header)
		sym.Assert(len(o.Payload) == len(p.payload), "the packet written is another one")
		for j, b := range p.payload {
			sym.Assert(o.Payload[j] == b, "the packet written is another one")
		}
	}
	sym.Reach("end")
}
