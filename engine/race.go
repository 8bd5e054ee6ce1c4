package main

import (
	"fmt"
	"strings"
)

// Data races are found by happens-before: every goroutine carries a vector
// clock, synchronisation operations join clocks, and two accesses to the same
// memory cell, at least one of them a write, that are not ordered by the clocks
// are a race in the explored execution.

type vclock []uint32

func (v *vclock) join(w vclock) {
	for len(*v) < len(w) {
		*v = append(*v, 0)
	}
	for i, x := range w {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v vclock) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

type raceAcc struct {
	g     int
	c     uint32
	where string
	repo  bool
}

type shadow struct {
	w     raceAcc
	hasW  bool
	reads []raceAcc
}

type hbKey struct {
	o *Obj
	i int
	r bool // released by readers of an RWMutex
}

type raceState struct {
	vc   []vclock
	sync map[any]*vclock
	sh   map[*Obj]map[int]*shadow
	maps map[*MapObj]*shadow

	yields bool // memory accesses are scheduling points
}

func (m *Machine) racesOn(g *G) {
	m.race = &raceState{sync: map[any]*vclock{}, sh: map[*Obj]map[int]*shadow{}, maps: map[*MapObj]*shadow{}}
	m.race.yields = m.memYield
	m.memYield = true
	m.race.clock(g)
}

func (r *raceState) clock(g *G) *vclock {
	for len(r.vc) <= g.id {
		n := len(r.vc)
		v := make(vclock, n+1)
		v[n] = 1
		r.vc = append(r.vc, v)
	}
	return &r.vc[g.id]
}

func (m *Machine) hbSpawn(g, n *G) {
	if m.race == nil || g == nil {
		return
	}
	m.race.clock(n)
	m.race.clock(n).join(*m.race.clock(g))
	(*m.race.clock(g))[g.id]++
}

func (m *Machine) hbAcq(g *G, k any) {
	if m.race == nil || g == nil {
		return
	}
	if s := m.race.sync[k]; s != nil {
		m.race.clock(g).join(*s)
	}
}

func (m *Machine) hbRel(g *G, k any) {
	if m.race == nil || g == nil {
		return
	}
	s := m.race.sync[k]
	if s == nil {
		s = new(vclock)
		m.race.sync[k] = s
	}
	c := m.race.clock(g)
	s.join(*c)
	(*c)[g.id]++
}

func (m *Machine) hbBoth(g *G, k any) {
	m.hbAcq(g, k)
	m.hbRel(g, k)
}

// hbAll orders everything so far before what g does next.
func (m *Machine) hbAll(g *G) {
	if m.race == nil || g == nil {
		return
	}
	for i := range m.race.vc {
		if i != g.id {
			m.race.clock(g).join(m.race.vc[i])
			m.race.vc[i][i]++
		}
	}
}

// raceSite is the innermost function of the code under test or of the harness.
func (m *Machine) raceSite(g *G) (string, bool) {
	for fr := g.fr; fr != nil; fr = fr.caller {
		fn := fr.c.fn
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		if o := fn.Origin(); o != nil {
			fn = o
		}
		p := ""
		if fn.Pkg != nil {
			p = fn.Pkg.Pkg.Path()
		} else if fn.Object() != nil && fn.Object().Pkg() != nil {
			p = fn.Object().Pkg().Path()
		}
		if strings.Contains(p, "/zzverif/") {
			return fr.c.name, false
		}
		if strings.HasPrefix(p, m.P.repoMod) {
			return fr.c.name, true
		}
	}
	return "?", false
}

func (m *Machine) raceAccess(g *G, o *Obj, off, n int, write bool) {
	where, repo := m.raceSite(g)
	mm := m.race.sh[o]
	if mm == nil {
		mm = map[int]*shadow{}
		m.race.sh[o] = mm
	}
	for i := off; i < off+n; i++ {
		s := mm[i]
		if s == nil {
			s = &shadow{}
			mm[i] = s
		}
		m.raceCheck(g, s, where, repo, write)
	}
}

func (m *Machine) raceCheck(g *G, s *shadow, where string, repo, write bool) {
	c := *m.race.clock(g)
	bad := func(q raceAcc, how string) {
		if q.g == g.id || c.at(q.g) >= q.c || !q.repo && !repo {
			return
		}
		now := "read"
		if write {
			now = "write"
		}
		m.violation(fmt.Sprintf("data race: %s in %s and %s in %s", how, q.where, now, where), m.model)
		panic(&pathEnd{"violated"})
	}
	if s.hasW {
		bad(s.w, "write")
	}
	if write {
		for _, q := range s.reads {
			bad(q, "read")
		}
		s.w, s.hasW, s.reads = raceAcc{g.id, c[g.id], where, repo}, true, nil
		return
	}
	for i := range s.reads {
		if s.reads[i].g == g.id {
			s.reads[i] = raceAcc{g.id, c[g.id], where, repo}
			return
		}
	}
	s.reads = append(s.reads, raceAcc{g.id, c[g.id], where, repo})
}
