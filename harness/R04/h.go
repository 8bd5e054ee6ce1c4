package main

import (
	"errors"
	"net"
	"time"

	prtp "github.com/pion/rtp"

	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/zzverif/sym"
)

var errWire = errors.New("network unreachable")

type addr struct{}

func (addr) Network() string { return "udp" }
func (addr) String() string  { return "1.2.3.4:5" }

// conn records outgoing datagrams, copying them as a socket does.
type conn struct {
	out [][]byte
	err error
}

func (c *conn) Read(p []byte) (int, error) { select {} }
func (c *conn) Write(p []byte) (int, error) {
	if c.err != nil {
		return 0, c.err
	}
	c.out = append(c.out, append([]byte{}, p...))
	return len(p), nil
}
func (c *conn) Close() error                       { return nil }
func (c *conn) LocalAddr() net.Addr                { return addr{} }
func (c *conn) RemoteAddr() net.Addr               { return addr{} }
func (c *conn) SetDeadline(t time.Time) error      { return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }

type packet struct {
	h       prtp.Header
	extID   []byte
	ext     [][]byte
	payload []byte
}

// padding is the padding flag of the packets (the payload then includes it).
var padding bool

// newPacket makes a packet with symbolic fields; extKind is 0 for none, 1 for
// one-byte, 2 for two-byte and 3 for RFC 3550 extensions.
func newPacket(extKind, csrc, size int) *packet {
	p := &packet{}
	p.h = prtp.Header{
		Version: 2, Marker: sym.Bool("marker"), Padding: padding, PayloadType: sym.U8("pt") & 0x7f,
		SequenceNumber: sym.U16("seq"), Timestamp: sym.U32("ts"), SSRC: sym.U32("ssrc"),
	}
	for i := 0; i < csrc; i++ {
		p.h.CSRC = append(p.h.CSRC, sym.U32("csrc"))
	}
	switch extKind {
	case 1, 2:
		p.h.Extension = true
		p.h.ExtensionProfile = 0xBEDE
		if extKind == 2 {
			p.h.ExtensionProfile = 0x1000
		}
		n := 1 + sym.Choose("exts", 2)
		for i := 0; i < n; i++ {
			e := sym.Bytes("ext", 1+sym.Choose("extLen", 2))
			id := byte(1 + i*3)
			p.ext, p.extID = append(p.ext, e), append(p.extID, id)
			sym.Assert(p.h.SetExtension(id, e) == nil, "setting an extension failed")
		}
	case 3:
		p.h.Extension = true
		p.h.ExtensionProfile = 0x4321
		e := sym.Bytes("ext", 4)
		p.ext, p.extID = append(p.ext, e), append(p.extID, 0)
		sym.Assert(p.h.SetExtension(0, e) == nil, "setting an extension failed")
	}
	p.payload = sym.Bytes("payload", size)
	return p
}

// wire is the packet in RFC 3550 / RFC 8285 format.
func (p *packet) wire() []byte {
	h := &p.h
	b := []byte{0x80 | byte(len(h.CSRC)), h.PayloadType, byte(h.SequenceNumber >> 8), byte(h.SequenceNumber),
		byte(h.Timestamp >> 24), byte(h.Timestamp >> 16), byte(h.Timestamp >> 8), byte(h.Timestamp),
		byte(h.SSRC >> 24), byte(h.SSRC >> 16), byte(h.SSRC >> 8), byte(h.SSRC)}
	if h.Marker {
		b[1] |= 0x80
	}
	if h.Padding {
		b[0] |= 0x20
	}
	for _, v := range h.CSRC {
		b = append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	}
	if h.Extension {
		b[0] |= 0x10
		b = append(b, byte(h.ExtensionProfile>>8), byte(h.ExtensionProfile), 0, 0)
		start := len(b)
		for i, e := range p.ext {
			switch h.ExtensionProfile {
			case 0xBEDE:
				b = append(b, p.extID[i]<<4|byte(len(e)-1))
			case 0x1000:
				b = append(b, p.extID[i], byte(len(e)))
			}
			b = append(b, e...)
		}
		for (len(b)-start)%4 != 0 {
			b = append(b, 0)
		}
		b[start-1] = byte((len(b) - start) / 4)
	}
	return append(b, p.payload...)
}

// check asserts that the datagram is this packet.
func (p *packet) check(b []byte) {
	w := p.wire()
	sym.Assert(len(b) == len(w), "the datagram is not as long as header and payload")
	hsz := len(w) - len(p.payload)
	var dh, dp byte
	for i := range w {
		if i < hsz {
			dh |= w[i] ^ b[i]
		} else {
			dp |= w[i] ^ b[i]
		}
	}
	sym.Assert(dh == 0, "the header on the wire is wrong")
	sym.Assert(dp == 0, "the payload on the wire is wrong")
}

// A sequence of packets of varying sizes.
func HWrite() {
	c := &conn{}
	w, err := rtp.NewSession(nil, c).OpenWriteStream()
	sym.Assert(err == nil && w != nil, "no write stream")
	n := sym.Bound(2, 3)
	for i := 0; i < n; i++ {
		size := []int{3, 0, 9}[sym.Choose("size", 3)]
		padding = sym.Bool("padding")
		ext, csrc := 0, 0
		if i < 2 {
			ext, csrc = sym.Choose("extKind", 4), sym.Choose("csrc", 2)*2
		}
		p := newPacket(ext, csrc, size)
		pay := append([]byte{}, p.payload...)
		k, err := w.WriteRTP(&p.h, pay)
		sym.Assert(err == nil, "a write fails")
		sym.Assert(len(c.out) == i+1, "a write does not issue exactly one datagram")
		sym.Assert(k == len(c.out[i]), "a write reports another size")
		p.check(c.out[i])
		for j := range pay {
			sym.Assert(pay[j] == p.payload[j], "a write changes the caller's payload")
		}
	}
	sym.Reach("end")
}

// Faults are returned, send nothing and do not affect later packets.
func HErrors() {
	c := &conn{}
	w, _ := rtp.NewSession(nil, c).OpenWriteStream()
	first := newPacket(sym.Choose("extKind", 4), 0, 4)
	if sym.Choose("before", 2) == 1 {
		w.WriteRTP(&first.h, first.payload)
		c.out = nil
	}
	p := newPacket(sym.Choose("extKind", 4), 0, 3)
	if sym.Choose("fault", 2) == 0 {
		c.err = errWire
		_, err := w.WriteRTP(&p.h, p.payload)
		sym.Assert(errors.Is(err, errWire), "a connection error is not returned")
		c.err = nil
	} else {
		// an RFC 3550 extension must consist of 32 bit words
		bad := prtp.Header{Version: 2, Extension: true, ExtensionProfile: 0x4321}
		bad.SetExtension(0, sym.Bytes("bad", []int{1, 2, 3, 5}[sym.Choose("badLen", 4)]))
		_, err := w.WriteRTP(&bad, p.payload)
		sym.Assert(err != nil, "an unmarshallable header is not reported")
		sym.Assert(len(c.out) == 0, "something is sent for an unmarshallable header")
	}
	_, err := w.WriteRTP(&p.h, p.payload)
	sym.Assert(err == nil && len(c.out) == 1, "a write after a fault fails")
	p.check(c.out[0])
	sym.Reach("end")
}

// Concurrent writers, also through separately opened streams.
func HConcurrent() {
	sym.Preempt(sym.Bound(1, 2), true)
	c := &conn{}
	s := rtp.NewSession(nil, c)
	p, q := newPacket(0, 0, 2), newPacket(0, 1, 3)
	p.h.SSRC, q.h.SSRC = 1, 2
	done := make(chan bool, 2)
	for _, x := range []*packet{p, q} {
		w, _ := s.OpenWriteStream()
		go func() {
			_, err := w.WriteRTP(&x.h, x.payload)
			sym.Assert(err == nil, "a write fails")
			done <- true
		}()
	}
	<-done
	<-done
	sym.Assert(len(c.out) == 2, "not one datagram per write")
	a, b := c.out[0], c.out[1]
	if a[11] == 2 {
		a, b = b, a
	}
	p.check(a)
	q.check(b)
	sym.Reach("end")
}

// HReal: payloads of real sizes, also beyond the packet size limit of readers.
func HReal() {
	c := &conn{}
	w, _ := rtp.NewSession(nil, c).OpenWriteStream()
	padding = false
	sizes := []int{160, 1200, 33, 1460, 1488, 1501, 4000, 1}
	first := sym.Choose("first", len(sizes))
	for i := 0; i < 10; i++ {
		p := newPacket([]int{0, 3, 0}[i%3], i%2*15, 0)
		p.payload = make([]byte, sizes[(first+3*i)%len(sizes)])
		for j := range p.payload {
			p.payload[j] = byte(i*31 + j)
		}
		p.payload[0], p.payload[len(p.payload)-1] = sym.U8("first"), sym.U8("last")
		n, err := w.WriteRTP(&p.h, p.payload)
		sym.Assert(err == nil, "a write fails")
		sym.Assert(len(c.out) == i+1 && n == len(c.out[i]), "a write does not issue exactly one datagram")
		p.check(c.out[i])
	}
	sym.Reach("end")
}
