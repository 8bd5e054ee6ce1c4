package main

import (
	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/zzverif/sym"
)

type memErr struct{ id int }

func (e *memErr) Error() string { return "member failed" }

type member struct {
	id, rate int
	log      *[]int // ids in call order, +100 for close
	data     []media.PCM16Sample
	failW    bool
	failC    bool
}

func (s *member) String() string  { return "member" }
func (s *member) SampleRate() int { return s.rate }
func (s *member) Close() error {
	*s.log = append(*s.log, s.id+100)
	if s.failC {
		return &memErr{s.id}
	}
	return nil
}
func (s *member) WriteSample(d media.PCM16Sample) error {
	*s.log = append(*s.log, s.id)
	s.data = append(s.data, append(media.PCM16Sample{}, d...))
	if s.failW {
		return &memErr{s.id}
	}
	return nil
}

func HMulti() {
	n := sym.Choose("members", sym.Bound(4, 6))
	var log []int
	var ms []*member
	var w media.MultiWriter[media.PCM16Sample]
	for i := 0; i < n; i++ {
		m := &member{id: i, rate: sym.Int("rate"), log: &log}
		ms = append(ms, m)
		w = append(w, m)
	}
	if n == 0 {
		sym.Assert(w.SampleRate() == 0, "sample rate of an empty multi-writer is not zero")
	} else {
		sym.Assert(w.SampleRate() == ms[0].rate, "sample rate is not the first member's")
	}
	check := func(err error, base int, failed func(*member) bool) {
		sym.Assert(len(log) == n, "a call did not reach every member exactly once")
		for i := 0; i < n && i < len(log); i++ {
			sym.Assert(log[i] == base+i, "members were not called in order")
		}
		any := false
		for _, m := range ms {
			any = any || failed(m)
		}
		sym.Assert((err != nil) == any, "error reported without a failing member, or a member's error swallowed")
		if err != nil {
			e, ok := err.(*memErr)
			sym.Assert(ok, "the returned error is not a member's error")
			if ok {
				sym.Assert(failed(ms[e.id]), "the returned error comes from a member that did not fail")
			}
			sym.Reach("failure")
		}
		log = nil
	}
	for k := 0; k < sym.Bound(1, 2); k++ {
		for _, m := range ms {
			m.failW = sym.Split(sym.Bool("failW"))
			m.data = nil
		}
		in := media.PCM16Sample(sym.I16s[int16]("s", 2))
		err := w.WriteSample(in)
		check(err, 0, func(m *member) bool { return m.failW })
		for _, m := range ms {
			sym.Assert(len(m.data) == 1 && len(m.data[0]) == 2 && m.data[0][0] == in[0] && m.data[0][1] == in[1], "a member received different data")
		}
	}
	for _, m := range ms {
		m.failC = sym.Split(sym.Bool("failC"))
	}
	check(w.Close(), 100, func(m *member) bool { return m.failC })
	sym.Reach("end")
}

// Many members, one or two of which fail.
func HMany() {
	n := sym.Bound(12, 40)
	var log []int
	var ms []*member
	var w media.MultiWriter[media.PCM16Sample]
	for i := 0; i < n; i++ {
		m := &member{id: i, rate: 8000, log: &log}
		ms = append(ms, m)
		w = append(w, m)
	}
	a, b := sym.Choose("a", n), sym.Choose("b", n)
	if sym.Choose("close", 2) == 0 {
		ms[a].failW, ms[b].failW = true, true
		in := media.PCM16Sample(sym.I16s[int16]("s", 3))
		err := w.WriteSample(in)
		e, ok := err.(*memErr)
		sym.Assert(ok && (e.id == a || e.id == b), "the returned error is not that of a failing member")
		sym.Assert(len(log) == n, "a call did not reach every member exactly once")
		for _, m := range ms {
			sym.Assert(len(m.data) == 1 && len(m.data[0]) == 3 && m.data[0][0] == in[0] && m.data[0][2] == in[2], "a member received different data")
		}
	} else {
		ms[a].failC, ms[b].failC = true, true
		e, ok := w.Close().(*memErr)
		sym.Assert(ok && (e.id == a || e.id == b), "the returned error is not that of a failing member")
		sym.Assert(len(log) == n, "a call did not reach every member exactly once")
		for i, l := range log {
			sym.Assert(l == 100+i, "members were not called in order")
		}
	}
	sym.Reach("end")
}
