package main

import (
	"errors"

	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/zzverif/sym"
)

var errH = errors.New("handler failed")

type hd struct {
	h    []*rtp.Header
	p    [][]byte
	fail bool
}

func (s *hd) String() string { return "h" }
func (s *hd) HandleRTP(h *rtp.Header, payload []byte) error {
	s.h = append(s.h, h)
	s.p = append(s.p, payload)
	if s.fail {
		return errH
	}
	return nil
}

type ent struct {
	typ byte
	h   int
}

func HHistory() {
	hs := []*hd{{}, {}, {}}
	get := func(i int) rtp.Handler {
		if i < 0 {
			return nil
		}
		return hs[i]
	}
	def := sym.Choose("def", 2) - 1
	m := rtp.NewMux(get(def))
	var reg []ent
	types := [][]byte{{0, 95}, {95, 96}, {96, 255}, {127, 128}}[sym.Choose("types", 4)]
	types = append(types, types[0]^1)
	n := sym.Bound(4, 5)
	for k := 0; k < n; k++ {
		op := 2 // the last operation is always a packet
		if k < n-1 {
			op = sym.Choose("op", 3)
		}
		switch op {
		case 0:
			h := sym.Choose("handler", 3) - 1 // nil removes
			t := types[sym.Choose("type", 2)]
			m.Register(t, get(h))
			reg = append(reg, ent{t, h})
		case 1:
			def = []int{-1, 2}[sym.Choose("def", 2)]
			m.SetDefault(get(def))
		case 2:
			t := types[sym.Choose("pt", 3)]
			cur := -1
			for _, e := range reg {
				if sym.Split(e.typ == t) {
					cur = e.h
				}
			}
			if cur < 0 {
				cur = def
			} else {
				sym.Reach("registered")
			}
			var was [3]int
			for i, h := range hs {
				was[i] = len(h.p)
				h.fail = k == n-1 && sym.Bool("fail")
			}
			hdr := &rtp.Header{Version: 2, PayloadType: t, SequenceNumber: sym.U16("sn"), Timestamp: sym.U32("ts"), SSRC: sym.U32("ssrc"), Marker: sym.Bool("marker")}
			c := *hdr
			pay := sym.Bytes("payload", 3)
			orig := append([]byte{}, pay...)
			err := m.HandleRTP(hdr, pay)
			for i, h := range hs {
				if i == cur {
					ok := len(h.p) == was[i]+1
					sym.Assert(ok, "the handler of the payload type did not get the packet exactly once")
					g, gp := h.h[was[i]], h.p[was[i]]
					sym.Assert(g.Version == 2 && g.PayloadType == c.PayloadType && g.SequenceNumber == c.SequenceNumber && g.Timestamp == c.Timestamp && g.SSRC == c.SSRC && g.Marker == c.Marker && !g.Padding && !g.Extension && len(g.CSRC) == 0, "the mux changed the header")
					sym.Assert(len(gp) == 3 && gp[0] == orig[0] && gp[1] == orig[1] && gp[2] == orig[2], "the mux changed the payload")
					sym.Assert((err != nil) == h.fail, "the handler's error is not returned")
					if h.fail {
						sym.Assert(errors.Is(err, errH), "the handler's error is not returned")
					}
				} else {
					sym.Assert(len(h.p) == was[i], "a packet reached a handler that is not registered for its payload type")
				}
			}
			if cur < 0 {
				sym.Assert(err == nil, "a dropped packet reports an error")
				sym.Reach("dropped")
			}
		}
	}
	sym.Reach("end")
}

// Every registered type against every packet type.
func HTypes() {
	reg, def := &hd{}, &hd{}
	m := rtp.NewMux(def)
	t, pt := sym.U8("type"), sym.U8("pt")
	m.Register(t, reg)
	removed := sym.Choose("remove", 2) == 1
	if removed {
		m.Register(t, nil)
	}
	sym.Assert(m.HandleRTP(&rtp.Header{PayloadType: pt}, nil) == nil, "a handled packet reports an error")
	want, other := def, reg
	if sym.Split(t == pt) && !removed {
		want, other = reg, def
	}
	sym.Assert(len(want.p) == 1 && len(other.p) == 0, "a packet reached another handler than the one registered for its payload type")
	sym.Reach("end")
}

func HNil() {
	var m *rtp.Mux
	sym.Assert(m.HandleRTP(&rtp.Header{PayloadType: sym.U8("pt")}, nil) == nil, "a nil mux fails")
	sym.Reach("end")
}

type hf struct {
	n int
	f func(payload []byte) error
}

func (s *hf) String() string { return "f" }
func (s *hf) HandleRTP(h *rtp.Header, payload []byte) error {
	s.n++
	return s.f(payload)
}

// Handlers may use the mux themselves.
func HReenter() {
	m := rtp.NewMux(nil)
	inner := &hd{}
	t, u := []byte{8, 96}[sym.Choose("type", 2)], []byte{8, 96, 9, 127}[sym.Choose("other", 4)]
	act := sym.Choose("act", 4)
	h := &hf{}
	h.f = func(p []byte) error {
		if len(p) == 0 {
			return errH
		}
		switch act {
		case 0:
			m.Register(u, inner)
		case 1:
			m.Register(t, nil)
			m.SetDefault(inner)
		case 2:
			m.SetDefault(inner)
			m.Register(u, nil)
		case 3:
			return m.HandleRTP(&rtp.Header{PayloadType: t}, p[1:])
		}
		return nil
	}
	m.Register(t, h)
	err := m.HandleRTP(&rtp.Header{PayloadType: t}, []byte{1})
	if act == 3 {
		sym.Assert(err == errH && h.n == 2, "a packet handled within a handler is not dispatched")
		return
	}
	sym.Assert(err == nil && h.n == 1, "a packet is not dispatched once")
	// in every case the inner handler is in force for u now
	e2 := m.HandleRTP(&rtp.Header{PayloadType: u}, []byte{2})
	sym.Assert(e2 == nil && len(inner.p) == 1 && h.n == 1, "a registration made by a handler has no effect")
	sym.Reach("end")
}

// A slow handler does not hold up the mux.
func HSlow() {
	sym.Preempt(sym.Bound(1, 2), false)
	m := rtp.NewMux(nil)
	release := make(chan struct{})
	slow := &hf{f: func([]byte) error { <-release; return errH }}
	other := &hd{}
	t, u := []byte{8, 96}[sym.Choose("type", 2)], []byte{9, 127}[sym.Choose("other", 2)]
	m.Register(t, slow)
	done := make(chan error, 1)
	go func() { done <- m.HandleRTP(&rtp.Header{PayloadType: t}, []byte{1}) }()
	if sym.Choose("wait", 2) == 1 {
		sym.WaitIdle()
	}
	m.Register(u, other)
	m.SetDefault(other)
	sym.Assert(m.HandleRTP(&rtp.Header{PayloadType: u}, []byte{1}) == nil && len(other.p) == 1, "a packet did not reach the handler registered for its payload type")
	m.Register(u, nil)
	sym.Assert(m.HandleRTP(&rtp.Header{PayloadType: u}, []byte{1}) == nil && len(other.p) == 2, "a packet did not reach the default handler")
	close(release)
	sym.Assert(<-done == errH && slow.n == 1, "the handler's error is not returned")
	sym.Reach("end")
}

// A handler for every payload type, in either order of registration.
func HAll() {
	def := &hd{}
	m := rtp.NewMux(def)
	hs := make([]*hd, 256)
	step := []int{1, 255}[sym.Choose("order", 2)]
	for i, t := 0, 0; i < 256; i, t = i+1, (t+step)%256 {
		hs[t] = &hd{}
		m.Register(byte(t), hs[t])
	}
	round := func(n int, gone func(t int) bool) {
		for t := 255; t >= 0; t-- {
			if m.HandleRTP(&rtp.Header{PayloadType: byte(t)}, []byte{byte(t)}) != nil {
				sym.Fail("a handled packet reports an error")
			}
		}
		left := 0
		for t, h := range hs {
			if gone(t) {
				left++
				sym.Assert(len(h.p) == n-1, "a packet reached a removed handler")
				continue
			}
			sym.Assert(len(h.p) == n && h.h[n-1].PayloadType == byte(t) && h.p[n-1][0] == byte(t), "a packet did not reach the handler of its payload type")
		}
		sym.Assert(len(def.p) == left, "a packet did not reach the default handler")
	}
	round(1, func(int) bool { return false })
	for t := 1; t < 256; t += 3 {
		m.Register(byte(t), nil)
	}
	round(2, func(t int) bool { return t%3 == 1 })
	pt := sym.U8("pt")
	before := len(def.p)
	sym.Assert(m.HandleRTP(&rtp.Header{PayloadType: pt}, nil) == nil, "a handled packet reports an error")
	removed := false
	for t := 1; t < 256; t += 3 {
		removed = removed || pt == byte(t)
	}
	sym.Assert(len(def.p) == before+1 == removed, "a packet reached another handler than the one registered for its payload type")
	sym.Reach("end")
}
