package main

import (
	"errors"
	"sync"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/zzverif/sym"
)

var errW = errors.New("writer failed")
var errC = errors.New("close failed")

type wr struct {
	id     int
	got    []media.PCM16Sample
	closes int
	failW  bool
	failC  bool
}

func (s *wr) String() string  { return "w" }
func (s *wr) SampleRate() int { return 48000 }
func (s *wr) Close() error {
	s.closes++
	if s.failC {
		return errC
	}
	return nil
}
func (s *wr) WriteSample(d media.PCM16Sample) error {
	s.got = append(s.got, append(media.PCM16Sample{}, d...))
	if s.failW {
		return errW
	}
	return nil
}

func HHistory() {
	sw := media.NewSwitchWriter(48000)
	ws := []*wr{{id: 0}, {id: 1}}
	cur := -1
	enabled := true
	for k := 0; k < sym.Bound(4, 5); k++ {
		n0, n1 := len(ws[0].got), len(ws[1].got)
		c0, c1 := ws[0].closes, ws[1].closes
		switch op := sym.Choose("op", 7); op {
		case 0, 1, 2: // attach
			var w media.PCM16Writer
			if op < 2 {
				w = ws[op]
			}
			old := sw.Swap(w)
			if cur < 0 {
				sym.Assert(old == nil, "attach returned a writer although none was attached")
			} else {
				sym.Assert(old == media.PCM16Writer(ws[cur]), "attach did not return the previously attached writer")
			}
			cur = op
			if op == 2 {
				cur = -1
			}
			sym.Reach("attach")
		case 3:
			sw.Enable()
			enabled = true
		case 4:
			sw.Disable()
			enabled = false
		case 5:
			in := media.PCM16Sample(sym.I16s[int16]("s", 2))
			for _, w := range ws {
				w.failW = sym.Split(sym.Bool("failW"))
			}
			err := sw.WriteSample(in)
			for i, w := range ws {
				was := []int{n0, n1}[i]
				if i == cur && enabled {
					sym.Assert(len(w.got) == was+1, "the sample did not reach the attached writer exactly once")
					if len(w.got) == was+1 {
						g := w.got[was]
						sym.Assert(len(g) == 2 && g[0] == in[0] && g[1] == in[1], "the attached writer received a different sample")
					}
					sym.Assert((err != nil) == w.failW, "the attached writer's error is not returned")
					sym.Reach("routed")
				} else {
					sym.Assert(len(w.got) == was, "a sample reached a writer that is detached or disabled")
				}
			}
			if cur < 0 || !enabled {
				sym.Assert(err == nil, "a dropped sample reports an error")
			}
			n0, n1 = len(ws[0].got), len(ws[1].got)
		case 6:
			for _, w := range ws {
				w.failC = sym.Split(sym.Bool("failC"))
			}
			err := sw.Close()
			for i, w := range ws {
				was := []int{c0, c1}[i]
				if i == cur {
					sym.Assert(w.closes == was+1, "close did not close the attached writer exactly once")
					sym.Assert((err != nil) == w.failC, "the attached writer's close error is not returned")
				} else {
					sym.Assert(w.closes == was, "close closed a writer that is not attached")
				}
			}
			if cur < 0 {
				sym.Assert(err == nil, "close without an attached writer reports an error")
			}
			cur = -1
			c0, c1 = ws[0].closes, ws[1].closes
			sym.Reach("close")
		}
		sym.Assert(len(ws[0].got) == n0 && len(ws[1].got) == n1, "an operation other than write delivered a sample")
		sym.Assert(ws[0].closes == c0 && ws[1].closes == c1, "an operation other than close closed a writer")
		g := sw.Get()
		if cur < 0 {
			sym.Assert(g == nil, "Get reports a writer although none is attached")
		} else {
			sym.Assert(g == media.PCM16Writer(ws[cur]), "Get does not report the attached writer")
		}
		sym.Assert(sw.SampleRate() == 48000, "the sample rate changed")
	}
	sym.Reach("end")
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return false
}

// The sample rate is settable once, only if it was left open.
func HRate() {
	init := sym.Range("init", -3, 3)
	if init == 0 {
		sym.Assert(panics(func() { media.NewSwitchWriter(init) }), "a zero sample rate is accepted")
		return
	}
	sw := media.NewSwitchWriter(init)
	set := init > 0
	cur := init
	for k := 0; k < 2; k++ {
		if !set {
			sym.Assert(panics(func() { sw.SampleRate() }), "reading an unset sample rate does not panic")
			sym.Assert(panics(func() { sw.Swap(&wr{}) }), "attaching with an unset sample rate does not panic")
		} else {
			sym.Assert(sw.SampleRate() == cur, "SampleRate is not the rate that was set")
		}
		r := sym.Range("rate", -2, 1<<31-1)
		p := panics(func() { sw.SetSampleRate(r) })
		if set || r <= 0 {
			sym.Assert(p, "an invalid or second SetSampleRate is accepted")
		} else {
			sym.Assert(!p, "a valid SetSampleRate is refused")
			set, cur = true, r
			sym.Reach("set")
		}
	}
	sym.Reach("end")
}

type cwr struct {
	mu     sync.Mutex
	n      int
	closes int
}

func (s *cwr) String() string  { return "c" }
func (s *cwr) SampleRate() int { return 48000 }
func (s *cwr) Close() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.closes++
	return nil
}
func (s *cwr) WriteSample(d media.PCM16Sample) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n++
	return nil
}

// Operations that run at the same time: every writer ever attached is handed
// back, closed or still attached exactly once, and a written sample reaches
// exactly one of the writers that could be attached.
func HConcurrent() {
	sym.Preempt(sym.Bound(2, 3), false)
	sw := media.NewSwitchWriter(48000)
	ws := []*cwr{{}, {}, {}}
	sw.Swap(ws[0])
	attached := 1
	var mu sync.Mutex
	back := map[media.PCM16Writer]int{}
	writes, nils := 0, 0
	n := sym.Bound(2, 3)
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		op := sym.Choose("op", 5)
		var next media.PCM16Writer
		switch op {
		case 0:
			if attached == len(ws) {
				return
			}
			next = ws[attached]
			attached++
		case 1, 2:
			nils++
		case 3:
			writes++
		case 4:
			nils++ // disables, so that samples may be dropped
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			switch op {
			case 0, 1:
				if old := sw.Swap(next); old != nil {
					mu.Lock()
					back[old]++
					mu.Unlock()
				}
			case 2:
				sw.Close()
			case 3:
				sym.Assert(sw.WriteSample(media.PCM16Sample{1}) == nil, "a write fails")
			case 4:
				sw.Disable()
				sw.Enable()
			}
		}()
	}
	wg.Wait()
	got := 0
	for i, w := range ws {
		c := back[w] + w.closes
		if sw.Get() == media.PCM16Writer(w) {
			c++
		}
		want := 0
		if i < attached {
			want = 1
		}
		sym.Assert(c == want, "a writer that was attached is not handed back, closed or still attached exactly once")
		got += w.n
		if want == 0 {
			sym.Assert(w.n == 0, "a sample reached a writer that was never attached")
		}
	}
	sym.Assert(got <= writes, "a sample reached more than one writer")
	if nils == 0 {
		sym.Assert(got == writes, "a sample was lost while a writer was attached")
	}
	sym.Reach("end")
}

// Of several settings of an open sample rate exactly one is accepted.
func HRateConcurrent() {
	sym.Preempt(sym.Bound(2, 3), false)
	sw := media.NewSwitchWriter(-1)
	ok := make([]bool, 2)
	r := []int{sym.Range("rate", 1, 1<<31-1), sym.Range("rate", 1, 1<<31-1)}
	var wg sync.WaitGroup
	for i := range ok {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ok[i] = !panics(func() { sw.SetSampleRate(r[i]) })
			if ok[i] {
				sym.Assert(sw.SampleRate() == r[i], "the sample rate is not the one that was accepted")
			}
		}()
	}
	wg.Wait()
	sym.Assert(ok[0] != ok[1], "not exactly one of two sample rates is accepted")
	for i := range ok {
		if ok[i] {
			sym.Assert(sw.SampleRate() == r[i], "the sample rate is not the one that was accepted")
		}
	}
	sym.Reach("end")
}

// Many writes of real frames with attaching, detaching and disabling between.
func HLong() {
	sw := media.NewSwitchWriter(48000)
	ws := make([]*wr, 6)
	for i := range ws {
		ws[i] = &wr{id: i}
	}
	x := sym.I16("x")
	cur, enabled := -1, true
	frames := []media.PCM16Sample{make(media.PCM16Sample, 960), make(media.PCM16Sample, 160), make(media.PCM16Sample, 1920), {}}
	for _, f := range frames {
		for i := range f {
			f[i] = x + int16(i)
		}
	}
	want := make([]int, len(ws))
	seed := sym.Choose("seed", 4)
	for k := 0; k < sym.Bound(150, 1000); k++ {
		switch y := (k*7 + k*k*3 + seed*11) % 23; {
		case y < 6:
			var w media.PCM16Writer
			if y > 0 {
				w = ws[(k+y)%6]
			}
			old := sw.Swap(w)
			if cur < 0 {
				sym.Assert(old == nil, "attach returned a writer although none was attached")
			} else {
				sym.Assert(old == media.PCM16Writer(ws[cur]), "attach did not return the previously attached writer")
			}
			cur = -1
			if y > 0 {
				cur = (k + y) % 6
			}
		case y == 6:
			sw.Disable()
			enabled = false
		case y < 10:
			sw.Enable()
			enabled = true
		default:
			f := frames[(k+y)%4]
			if cur >= 0 {
				ws[cur].failW = y == 10
			}
			err := sw.WriteSample(f)
			if cur >= 0 && enabled {
				want[cur]++
				w := ws[cur]
				sym.Assert(len(w.got) == want[cur] && len(w.got[want[cur]-1]) == len(f), "the sample did not reach the attached writer exactly once")
				sym.Assert((err != nil) == w.failW, "the attached writer's error is not returned")
				if g := w.got[want[cur]-1]; len(g) > 0 {
					sym.Assert(g[0] == x && g[len(g)-1] == x+int16(len(g)-1) && g[len(g)/2] == x+int16(len(g)/2), "the attached writer received a different sample")
				}
			} else {
				sym.Assert(err == nil, "a dropped sample reports an error")
			}
		}
		for i, w := range ws {
			sym.Assert(len(w.got) == want[i] && w.closes == 0, "a sample reached a writer that is detached or disabled")
		}
	}
	sym.Reach("end")
}
