package main

import (
	"errors"
	"io"
	"net"
	"time"

	prtp "github.com/pion/rtp"

	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/zzverif/sym"
)

var errConnClosed = errors.New("use of closed connection")

// conn is a connection with scripted incoming datagrams.
type conn struct {
	in     chan []byte
	closed chan struct{}
	closes int
}

func newConn() *conn {
	return &conn{in: make(chan []byte, 16), closed: make(chan struct{})}
}

func (c *conn) Read(p []byte) (int, error) {
	select {
	case <-c.closed:
		return 0, errConnClosed
	default:
	}
	select {
	case b := <-c.in:
		// like a socket: the datagram is cut to the buffer
		return copy(p, b), nil
	case <-c.closed:
		return 0, errConnClosed
	}
}

func (c *conn) Write(p []byte) (int, error) { return len(p), nil }
func (c *conn) Close() error {
	c.closes++
	close(c.closed)
	return nil
}
func (c *conn) LocalAddr() net.Addr                { return nil }
func (c *conn) RemoteAddr() net.Addr               { return nil }
func (c *conn) SetDeadline(t time.Time) error      { return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }

type dgram struct {
	ssrc    uint32
	seq     uint16
	ts      uint32
	pt      byte
	marker  bool
	ext     []byte // four bytes, nil if there is no extension
	payload []byte
}

func newDgram(k int, ssrc uint32, ext bool, size int) *dgram {
	d := &dgram{ssrc: ssrc, seq: sym.U16("seq"), ts: sym.U32("ts"), pt: sym.U8("pt") & 0x7f, marker: sym.U8("mark")&1 == 1}
	if ext {
		d.ext = sym.Bytes("ext", 4)
	}
	d.payload = sym.Bytes("payload", size)
	return d
}

func (d *dgram) wire() []byte {
	b := []byte{0x80, d.pt, byte(d.seq >> 8), byte(d.seq), byte(d.ts >> 24), byte(d.ts >> 16), byte(d.ts >> 8), byte(d.ts),
		byte(d.ssrc >> 24), byte(d.ssrc >> 16), byte(d.ssrc >> 8), byte(d.ssrc)}
	if d.marker {
		b[1] |= 0x80
	}
	if d.ext != nil {
		b[0] |= 0x10
		b = append(b, 0x12, 0x34, 0, 1)
		b = append(b, d.ext...)
	}
	return append(b, d.payload...)
}

type result struct {
	h *prtp.Header
	p []byte
}

// is reports whether the result is exactly the datagram.
func (d *dgram) is(r result) bool {
	h := r.h
	if len(r.p) != len(d.payload) || len(h.CSRC) != 0 || h.Extension != (d.ext != nil) {
		return false
	}
	diff := uint32(h.SequenceNumber^d.seq) | (h.Timestamp ^ d.ts) | uint32(h.PayloadType^d.pt) | (h.SSRC ^ d.ssrc)
	for i, v := range d.payload {
		diff |= uint32(v ^ r.p[i])
	}
	if d.ext != nil {
		if len(h.Extensions) != 1 {
			return false
		}
		e := h.GetExtension(0)
		if len(e) != 4 {
			return false
		}
		for i, v := range d.ext {
			diff |= uint32(v ^ e[i])
		}
	}
	return diff == 0 && h.Version == 2 && !h.Padding && h.Marker == d.marker
}

type stream struct {
	ssrc uint32
	r    rtp.ReadStream
	got  []result
	done bool
}

// accept runs the receive loop, starting a reader for each stream.
func accept(s rtp.Session, out chan<- *stream, fin chan<- bool) {
	for {
		r, ssrc, err := s.AcceptStream()
		if err != nil {
			break
		}
		st := &stream{ssrc: ssrc, r: r}
		out <- st
		go func() {
			for {
				h := new(prtp.Header)
				buf := make([]byte, 8)
				n, err := r.ReadRTP(h, buf)
				if err != nil {
					sym.Assert(err == io.EOF, "a reader is not released with end-of-stream")
					break
				}
				sym.Assert(n >= 0 && n <= len(buf), "a read returns an invalid length")
				st.got = append(st.got, result{h, buf[:n]})
			}
			st.done = true
			fin <- true
		}()
	}
	fin <- true
}

func drain(out chan *stream) []*stream {
	var ss []*stream
	for len(out) > 0 {
		ss = append(ss, <-out)
	}
	for i, s := range ss {
		for _, t := range ss[:i] {
			sym.Assert(t.ssrc != s.ssrc, "an SSRC is accepted twice")
		}
	}
	return ss
}

// check compares what the streams' readers obtained with the datagrams sent.
func check(sent []*dgram, streams []*stream, complete bool) {
	for _, s := range streams {
		k := 0
		var mine []*dgram
		for _, d := range sent {
			if d.ssrc == s.ssrc {
				mine = append(mine, d)
			}
		}
		sym.Assert(len(mine) > 0, "a stream is accepted for an SSRC nobody sent")
		for _, r := range s.got {
			sym.Assert(k < len(mine), "a packet is delivered twice")
			sym.Assert(mine[k].is(r), "a packet is lost, reordered, or its header or payload changed")
			k++
		}
		if complete {
			sym.Assert(k == len(mine), "a packet is lost although few are waiting")
		}
	}
	if complete {
		for _, d := range sent {
			found := false
			for _, s := range streams {
				found = found || s.ssrc == d.ssrc
			}
			sym.Assert(found, "a stream is not accepted")
		}
	}
}

// All packets of all streams reach their readers, in order and intact, when
// fewer packets are waiting than a stream queues.
func HDeliver() {
	sym.Preempt(sym.Bound(1, 2), false)
	c := newConn()
	s := rtp.NewSession(nil, c)
	out := make(chan *stream, 8)
	fin := make(chan bool, 8)
	var sent []*dgram
	n := 3
	for i := 0; i < n; i++ {
		ssrc := uint32(5)
		if i > 1 && sym.Choose("ssrc", 2) == 1 {
			ssrc = 9
		}
		sent = append(sent, newDgram(i, ssrc, i == 1, 1+i%2))
	}
	go accept(s, out, fin)
	for _, d := range sent {
		c.in <- d.wire()
	}
	sym.WaitIdle()
	err := s.Close()
	sym.Assert(err == nil, "closing fails")
	sym.WaitIdle()
	ss := drain(out)
	for _, st := range ss {
		sym.Assert(st.done, "a reader is not released by close")
	}
	sym.Assert(len(fin) == len(ss)+1, "the receive loop does not end on close")
	check(sent, ss, true)
	sym.Reach("end")
}

// The same for one stream and two packets, switching at memory accesses.
func HMemory() {
	sym.Preempt(sym.Bound(1, 2), true)
	c := newConn()
	s := rtp.NewSession(nil, c)
	out := make(chan *stream, 8)
	fin := make(chan bool, 8)
	sent := []*dgram{newDgram(0, 5, false, 1), newDgram(1, 5, true, 1)}
	go accept(s, out, fin)
	for _, d := range sent {
		c.in <- d.wire()
	}
	sym.WaitIdle()
	s.Close()
	sym.WaitIdle()
	ss := drain(out)
	for _, st := range ss {
		sym.Assert(st.done, "a reader is not released by close")
	}
	check(sent, ss, true)
	sym.Reach("end")
}

// Close at any moment releases everybody, and what was read is a prefix.
func HClose() {
	sym.Preempt(sym.Bound(2, 3), false)
	c := newConn()
	s := rtp.NewSession(nil, c)
	out := make(chan *stream, 8)
	fin := make(chan bool, 8)
	var sent []*dgram
	n := 2
	for i := 0; i < n; i++ {
		sent = append(sent, newDgram(i, 5, false, 2))
		c.in <- sent[i].wire()
	}
	go accept(s, out, fin)
	if sym.Choose("late", 2) == 1 {
		sym.WaitIdle()
		sent = append(sent, newDgram(n, 5, true, 1))
		c.in <- sent[n].wire()
	}
	s.Close()
	sym.Assert(s.Close() == nil, "closing again fails")
	sym.WaitIdle()
	sym.Assert(c.closes == 1, "the connection is not closed once")
	ss := drain(out)
	for _, st := range ss {
		sym.Assert(st.done, "a reader is not released by close")
	}
	sym.Assert(len(fin) == len(ss)+1, "the receive loop does not end on close")
	check(sent, ss, false)
	// later reads and accepts fail as well
	for _, st := range ss {
		for {
			_, err := st.r.ReadRTP(new(prtp.Header), make([]byte, 8))
			if err != nil {
				sym.Assert(err == io.EOF, "a read after close does not give end-of-stream")
				break
			}
		}
	}
	_, _, err := s.AcceptStream()
	sym.Assert(err != nil, "a stream is accepted after close")
	sym.Reach("end")
}

// A packet that waits for its reader is not affected by later datagrams, and
// at least ten packets can wait.
func HQueue() {
	c := newConn()
	s := rtp.NewSession(nil, c)
	var sent []*dgram
	n := 1 + sym.Choose("n", 10)
	for i := 0; i < n; i++ {
		sent = append(sent, newDgram(i, 5, i%2 == 0, i%3))
		c.in <- sent[i].wire()
	}
	last := newDgram(n, 9, true, 3)
	c.in <- last.wire()
	r, ssrc, err := s.AcceptStream()
	sym.Assert(err == nil && ssrc == 5, "the first stream is not accepted")
	_, ssrc, err = s.AcceptStream()
	sym.Assert(err == nil && ssrc == 9, "the second stream is not accepted")
	st := &stream{ssrc: 5, r: r}
	for i := 0; i < n; i++ {
		h := new(prtp.Header)
		buf := make([]byte, 8)
		k, err := r.ReadRTP(h, buf)
		sym.Assert(err == nil, "a read fails although packets are waiting")
		st.got = append(st.got, result{h, buf[:k]})
	}
	check(sent, []*stream{st}, true)
	s.Close()
	sym.Reach("end")
}

// Datagrams that are too big or no RTP packets are ignored.
func HIgnore() {
	c := newConn()
	s := rtp.NewSession(nil, c)
	n := sym.Bound(2, 3)
	good := 0
	var sent []*dgram
	for i := 0; i < n; i++ {
		switch sym.Choose("kind", 5) {
		case 0: // larger than the MTU
			c.in <- append(newDgram(i, 7, false, 1).wire(), make([]byte, 1488+sym.Choose("more", 2))...)
		case 1: // truncated header
			b := newDgram(i, 7, true, 0).wire()
			c.in <- b[:sym.Choose("len", len(b))]
		case 2: // padding larger than the packet
			b := newDgram(i, 7, false, 3).wire()
			b[0] |= 0x20
			sym.Assume(b[len(b)-1] > 3)
			c.in <- b
		case 3: // exactly as large as the MTU
			d := newDgram(i, 5, false, 0)
			d.payload = make([]byte, rtp.MTUSize-12)
			d.payload[0], d.payload[len(d.payload)-1] = sym.U8("first"), sym.U8("last")
			sent = append(sent, d)
			c.in <- d.wire()
		case 4:
			sent = append(sent, newDgram(i, 5, false, 2))
			c.in <- sent[good].wire()
		}
		good = len(sent)
	}
	go func() {
		sym.WaitIdle()
		s.Close()
	}()
	r, ssrc, err := s.AcceptStream()
	if good == 0 {
		sym.Assert(err != nil, "a stream is accepted without a valid packet")
		sym.Reach("none")
		return
	}
	sym.Assert(err == nil && ssrc == 5, "the stream of the valid packets is not accepted")
	_, _, err = s.AcceptStream()
	sym.Assert(err != nil, "an invalid packet opens a stream")
	st := &stream{ssrc: 5, r: r}
	for i := 0; i < good; i++ {
		h := new(prtp.Header)
		buf := make([]byte, rtp.MTUSize)
		k, err := r.ReadRTP(h, buf)
		if err != nil {
			break // closed
		}
		st.got = append(st.got, result{h, buf[:k]})
	}
	check(sent, []*stream{st}, false)
	sym.Reach("end")
}

// Many streams with packets of real sizes, and callers that reuse their
// buffers between the reads.
func HMany() {
	const streams, rounds = 24, 4
	c := &conn{in: make(chan []byte, streams*rounds+1), closed: make(chan struct{})}
	s := rtp.NewSession(nil, c)
	x := sym.U8("x")
	var sent [streams][]*dgram
	for k := 0; k < rounds; k++ {
		for i := 0; i < streams; i++ {
			d := &dgram{ssrc: uint32(i)*0x01000001 + 1, seq: uint16(65534 + k), ts: uint32(k) * 160, pt: byte(i), marker: k == 0}
			if (i+k)%3 == 0 {
				d.ext = []byte{x, byte(i), byte(k), 3}
			}
			d.payload = make([]byte, []int{160, 1200, 20, 1400}[(i+k)%4])
			for j := range d.payload {
				d.payload[j] = byte(i*7 + k*31 + j)
			}
			d.payload[0], d.payload[len(d.payload)-1] = x+byte(i), x+byte(k)
			sent[i] = append(sent[i], d)
			c.in <- d.wire()
		}
	}
	end := newDgram(0, 0xffffffff, false, 1)
	c.in <- end.wire()
	var rs []rtp.ReadStream
	for i := 0; i < streams; i++ {
		r, ssrc, err := s.AcceptStream()
		sym.Assert(err == nil && ssrc == sent[i][0].ssrc, "a stream is not accepted in the order of first packets")
		rs = append(rs, r)
	}
	_, ssrc, err := s.AcceptStream()
	sym.Assert(err == nil && ssrc == end.ssrc, "the last stream is not accepted")
	h, buf := new(prtp.Header), make([]byte, rtp.MTUSize)
	for i, r := range rs {
		for k, d := range sent[i] {
			n, err := r.ReadRTP(h, buf)
			sym.Assert(err == nil && n == len(d.payload), "a packet is lost or its payload cut")
			sym.Assert(d.is(result{h, buf[:n]}), "a packet is lost, reordered, or its header or payload changed")
			_ = k
		}
	}
	sym.Assert(s.Close() == nil, "closing fails")
	for _, r := range rs {
		_, err := r.ReadRTP(h, buf)
		sym.Assert(err == io.EOF, "a read after close does not give end-of-stream")
	}
	sym.Reach("end")
}
