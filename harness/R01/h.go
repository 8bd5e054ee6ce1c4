package main

import (
	"errors"

	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/zzverif/sym"
)

var errT = errors.New("transport failed")

type tr struct {
	hs   []rtp.Header
	ps   [][]byte
	fail func() bool
	n    int
}

func (t *tr) String() string { return "t" }
func (t *tr) WriteRTP(h *rtp.Header, p []byte) (int, error) {
	t.n++
	if t.fail != nil && t.fail() {
		return 0, errT
	}
	t.hs = append(t.hs, *h)
	t.ps = append(t.ps, append([]byte{}, p...))
	return len(p), nil
}

func (t *tr) checkSeq() {
	for i, h := range t.hs {
		sym.Assert(h.SequenceNumber == uint16(i), "sequence numbers are not consecutive from zero")
		sym.Assert(h.Version == 2, "a packet has the wrong RTP version")
		sym.Assert(h.SSRC == t.hs[0].SSRC, "the SSRC changes")
		sym.Assert(!h.Padding && !h.Extension && len(h.CSRC) == 0, "a packet has unexpected header fields")
	}
}

// Events with symbolic fields over a transport that rejects some.
func HEvents() {
	t := &tr{}
	w := rtp.NewSeqWriter(t)
	t.fail = func() bool { return sym.Split(sym.Bool("fail")) }
	sent := 0
	for k := 0; k < sym.Bound(4, 6); k++ {
		ev := &rtp.Event{Type: sym.U8("type"), Timestamp: sym.U32("ts"), Marker: sym.Bool("marker"), Payload: sym.Bytes("payload", sym.Choose("size", 3))}
		c := *ev
		pay := append([]byte{}, ev.Payload...)
		err := w.WriteEvent(ev)
		sym.Assert(t.n == k+1, "an event was not handed to the transport exactly once")
		if err != nil {
			sym.Assert(err == errT && len(t.hs) == sent, "a rejected packet reports the wrong error")
			continue
		}
		sym.Assert(len(t.hs) == sent+1, "a rejected packet reports success")
		h := t.hs[sent]
		sym.Assert(h.PayloadType == c.Type && h.Timestamp == c.Timestamp && h.Marker == c.Marker, "a packet does not carry its event's type, timestamp and marker")
		ok := len(t.ps[sent]) == len(pay)
		for i := range pay {
			ok = ok && t.ps[sent][i] == pay[i]
		}
		sym.Assert(ok, "a packet does not carry its event's payload")
		sent++
	}
	t.checkSeq()
	sym.Reach("end")
}

// Streams writing concurrently.
func HConcurrent() {
	sym.Preempt(sym.Bound(2, 3), false)
	t := &tr{}
	w := rtp.NewSeqWriter(t)
	failAt := sym.Choose("failAt", 4)
	t.fail = func() bool { return t.n == failAt+1 }
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		s := w.NewStreamWithDur(byte(i), 160)
		go func() {
			for k := 0; k < 2; k++ {
				if err := s.WritePayload([]byte{byte(i), byte(k)}, i == 1); err != nil {
					sym.Assert(err == errT, "the transport's error is not returned")
				}
			}
			done <- true
		}()
	}
	<-done
	<-done
	want := 4
	if failAt < 4 {
		want = 3
	}
	sym.Assert(t.n == 4 && len(t.hs) == want, "a payload was not handed to the transport exactly once")
	t.checkSeq()
	for i, h := range t.hs {
		p := t.ps[i]
		sym.Assert(len(p) == 2 && p[0] == h.PayloadType && h.Marker == (h.PayloadType == 1), "a packet mixes fields of two streams")
	}
	sym.Reach("end")
}

type counter struct {
	next uint16
	ok   bool
	n    int
}

func (t *counter) String() string { return "t" }
func (t *counter) WriteRTP(h *rtp.Header, p []byte) (int, error) {
	t.ok = t.ok && h.SequenceNumber == t.next
	t.next++
	t.n++
	return len(p), nil
}

// The sequence number wraps from 65535 to 0.
func HWrap() {
	t := &counter{ok: true}
	w := rtp.NewSeqWriter(t)
	ev := &rtp.Event{}
	for i := 0; i < 65540; i++ {
		if w.WriteEvent(ev) != nil {
			sym.Fail("writing fails")
		}
	}
	sym.Assert(t.ok && t.n == 65540, "sequence numbers are not consecutive across the wrap-around")
	sym.Reach("end")
}
