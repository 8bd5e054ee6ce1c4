package main

import (
	"io"

	"github.com/livekit/media-sdk/ring"
	"github.com/livekit/media-sdk/zzverif/sym"
)

type model struct {
	cap int
	q   []int16
}

func (m *model) check(b *ring.Buffer[int16]) {
	sym.Assert(b.Len() == len(m.q), "Len disagrees with the number of stored elements")
	sym.Assert(b.Size() == m.cap, "Size changed")
	v, ok := b.TryPeek()
	sym.Assert(ok == (len(m.q) > 0), "TryPeek disagrees about emptiness")
	if ok {
		sym.Assert(v == m.q[0], "TryPeek is not the oldest element")
		sym.Assert(b.Peek() == m.q[0], "Peek is not the oldest element")
	} else {
		sym.Assert(b.Peek() == 0, "Peek of an empty buffer is not zero")
	}
}

func (m *model) drain(b *ring.Buffer[int16]) {
	for len(m.q) > 0 {
		v, ok := b.TryPop()
		sym.Assert(ok, "an element was lost")
		sym.Assert(v == m.q[0], "elements come out changed or out of order")
		m.q = m.q[1:]
	}
	_, ok := b.TryPop()
	sym.Assert(!ok, "an element came out twice")
	n, err := b.Read(make([]int16, 2))
	sym.Assert(n == 0 && err == io.EOF, "Read of an empty buffer is not EOF")
}

func (m *model) op(b *ring.Buffer[int16]) {
	maxLen := m.cap*2 + 1
	switch sym.Choose("op", 5) {
	case 0:
		v := sym.I16("v")
		b.Push(v)
		if len(m.q) == m.cap {
			m.q = m.q[1:]
		}
		m.q = append(m.q, v)
		sym.Reach("push")
	case 1:
		v := sym.I16("v")
		ok := b.TryPush(v)
		sym.Assert(ok == (len(m.q) < m.cap), "TryPush accepts/refuses wrongly")
		if len(m.q) < m.cap {
			m.q = append(m.q, v)
		}
		sym.Reach("trypush")
	case 2:
		if sym.Choose("which", 2) == 0 {
			v, ok := b.TryPop()
			sym.Assert(ok == (len(m.q) > 0), "TryPop disagrees about emptiness")
			if len(m.q) > 0 {
				sym.Assert(v == m.q[0], "TryPop is not the oldest element")
				m.q = m.q[1:]
			}
		} else {
			v := b.Pop()
			if len(m.q) > 0 {
				sym.Assert(v == m.q[0], "Pop is not the oldest element")
				m.q = m.q[1:]
			} else {
				sym.Assert(v == 0, "Pop of an empty buffer is not zero")
			}
		}
		sym.Reach("pop")
	case 3:
		n := sym.Choose("rn", m.cap+2)
		p := make([]int16, n)
		got, err := b.Read(p)
		want := n
		if want > len(m.q) {
			want = len(m.q)
		}
		sym.Assert(got == want, "Read returned a wrong count")
		if n > 0 && len(m.q) == 0 {
			sym.Assert(err == io.EOF, "Read of an empty buffer is not EOF")
		} else {
			sym.Assert(err == nil, "Read failed although elements are stored")
		}
		for i := 0; i < want; i++ {
			sym.Assert(p[i] == m.q[i], "Read returned changed or reordered elements")
		}
		for i := want; i < n; i++ {
			sym.Assert(p[i] == 0, "Read wrote past the returned count")
		}
		m.q = m.q[want:]
		sym.Reach("read")
	case 4:
		n := sym.Choose("wn", maxLen)
		p := sym.I16s[int16]("w", n)
		orig := append([]int16{}, p...)
		got, err := b.Write(p)
		sym.Assert(got == n && err == nil, "Write does not report all elements as accepted")
		m.q = append(append([]int16{}, m.q...), orig...)
		if d := len(m.q) - m.cap; d > 0 {
			m.q = m.q[d:]
		}
		// the caller may reuse its slice
		for i := range p {
			p[i] = ^p[i]
		}
		sym.Reach("write")
	}
	m.check(b)
}

// One or more symbolic operations from every (position, fill) state.
func HStep() {
	c := 1 + sym.Choose("cap", sym.Bound(6, 8))
	m := &model{cap: c}
	b := ring.NewBuffer[int16](c)
	r := sym.Choose("read", c)
	for i := 0; i < r; i++ {
		b.Push(sym.I16("junk"))
		b.Pop()
	}
	l := sym.Choose("len", c+1)
	for i := 0; i < l; i++ {
		v := sym.I16("e")
		b.Push(v)
		m.q = append(m.q, v)
	}
	m.check(b)
	for k := 0; k < sym.Bound(1, 2); k++ {
		m.op(b)
	}
	m.drain(b)
	sym.Reach("end")
}

// Every history of operations from a new buffer.
func HHistory() {
	c := 1 + sym.Choose("cap", sym.Bound(2, 3))
	m := &model{cap: c}
	b := ring.NewBuffer[int16](c)
	for k := 0; k < sym.Bound(3, 4); k++ {
		m.op(b)
	}
	m.drain(b)
	sym.Reach("end")
}

// The size the mixer uses: frames go through a buffer of five frames in
// writes and reads of real sizes, several times around it.
func HFrames() {
	fs := []int{160, 37, 960}[sym.Choose("fs", sym.Bound(2, 3))]
	b := ring.NewBuffer[int16](5 * fs)
	m := &model{cap: 5 * fs}
	sizes := []int{fs, fs/2 + 1, 3 * fs, 1, 6*fs + 3, 2*fs - 1}
	rd := []int{fs, 2*fs + 7, 5 * fs}
	first := sym.Choose("first", len(sizes))
	for k := 0; k < 12; k++ {
		n := sizes[(k*5+first)%len(sizes)]
		w := make([]int16, n)
		for i := range w {
			w[i] = int16(k*7919 + i)
		}
		w[0], w[n-1] = sym.I16("w0"), sym.I16("w1")
		got, err := b.Write(w)
		sym.Assert(got == n && err == nil, "Write does not report all elements as accepted")
		m.q = append(append([]int16{}, m.q...), w...)
		if d := len(m.q) - m.cap; d > 0 {
			m.q = m.q[d:]
		}
		m.check(b)
		if k%4 == 3 {
			continue
		}
		p := make([]int16, rd[k%3])
		want := min(len(p), len(m.q))
		got, err = b.Read(p)
		sym.Assert(got == want && err == nil, "Read returned a wrong count")
		for i := 0; i < want; i++ {
			sym.Assert(p[i] == m.q[i], "Read returned changed or reordered elements")
		}
		m.q = m.q[want:]
		m.check(b)
	}
	m.drain(b)
	sym.Reach("end")
}

// HMany: element by element through large buffers, then bulk.
func HMany() {
	c := []int{256, 257, 1000, 5003}[sym.Choose("cap", 4)]
	b := ring.NewBuffer[int16](c)
	m := &model{cap: c}
	at := sym.Choose("at", 3) * c / 3
	next := int16(0)
	val := func(i int) int16 {
		next++
		if i == at {
			return sym.I16("v")
		}
		return next
	}
	for i := 0; i < at; i++ { // start anywhere
		b.Push(1)
		b.Pop()
	}
	for i := 0; i < c; i++ {
		v := val(i)
		sym.Assert(b.TryPush(v), "TryPush refuses although there is space")
		m.q = append(m.q, v)
	}
	sym.Assert(!b.TryPush(5), "TryPush accepts although the buffer is full")
	for i := 0; i < c/2; i++ {
		v := val(i)
		b.Push(v)
		m.q = append(m.q[1:], v)
	}
	m.check(b)
	p := make([]int16, c-3)
	n, err := b.Read(p)
	sym.Assert(n == c-3 && err == nil, "Read returned a wrong count")
	for i, v := range p {
		sym.Assert(v == m.q[i], "Read returned changed or reordered elements")
	}
	m.q = m.q[c-3:]
	w := make([]int16, c-1)
	for i := range w {
		w[i] = val(i)
	}
	n, err = b.Write(w)
	sym.Assert(n == c-1 && err == nil, "Write does not report all elements as accepted")
	m.q = append(m.q, w...)
	m.q = m.q[len(m.q)-c:]
	m.check(b)
	m.drain(b)
	sym.Reach("end")
}
