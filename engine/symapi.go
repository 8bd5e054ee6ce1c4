package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

var symAPI map[string]intrinsic

func (m *Machine) fresh(name string, w int) *Expr {
	m.noSpec("fresh symbol")
	k := m.names[name]
	m.names[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	return m.pathVar(name, w)
}

// pathVar creates an input variable of the current path.
func (m *Machine) pathVar(name string, w int) *Expr {
	// the width is part of the internal name: models travel between workers
	e := m.x.Var(name+"@"+strconv.Itoa(w), w)
	m.vars = append(m.vars, pvar{name, e.name})
	return e
}

type pvar struct{ plain, actual string }

// export projects a model on the inputs of the current path.
func (m *Machine) export(md Model) Model {
	r := Model{}
	for _, v := range m.vars {
		if k, ok := md[v.actual]; ok {
			r[v.plain] = k
		}
	}
	return r
}

// aux returns the auxiliary variable standing for a function of e.
func (m *Machine) aux(kind string, e *Expr, w int) (*Expr, bool) {
	k := fmt.Sprintf("aux:%s:%d", kind, e.id)
	if v, ok := m.store_[k]; ok {
		return v.(*Expr), false
	}
	v := m.fresh("!"+kind, w)
	m.store_[k] = v
	return v, true
}

// remodel re-establishes a model of the current path condition.
func (m *Machine) remodel() {
	if m.replaying() {
		return
	}
	r, md := m.query(nil)
	if r == Sat {
		m.setModel(md)
	} else {
		panic(&pathEnd{"infeasible"})
	}
}

func (m *Machine) assume(v Val) {
	if v.R == nil {
		if v.N == 0 {
			panic(&pathEnd{"assume"})
		}
		return
	}
	c := v.R.(*Expr)
	if !m.replaying() && !m.evalB(c) {
		r, md := m.query(c)
		if r != Sat {
			panic(&pathEnd{"assume"})
		}
		m.setModel(md)
	}
	m.addPC(c)
}

func (m *Machine) assert(v Val, msg string, fr *Frame) {
	m.stats.Asserts++
	if v.R == nil {
		if v.N == 0 {
			m.violation(msg, m.model)
			panic(&pathEnd{"violated"})
		}
		return
	}
	c := v.R.(*Expr)
	if m.replaying() {
		// already decided when this prefix was first explored; restrict to ok
		m.addPC(c)
		return
	}
	if !m.evalB(c) {
		m.violation(msg, m.model)
		r, md := m.query(c)
		if r != Sat {
			panic(&pathEnd{"violated"})
		}
		m.setModel(md)
		m.addPC(c)
		return
	}
	r, md := m.query(m.x.Not(c))
	switch r {
	case Sat:
		m.violation(msg, md)
		m.addPC(c)
	case Unsat:
		m.stats.Disch++
		m.addPC(c)
	default:
		m.E.note("undecided assertion: " + msg)
		m.addPC(c)
	}
}

func (m *Machine) violation(msg string, md Model) {
	if m.specDepth > 0 {
		panic(&specAbort{"violation"})
	}
	m.E.violation(m, msg, m.export(md))
}

func symInt(w int, signed bool) intrinsic {
	return func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
		return Val{R: m.fresh(m.concS(a[0]), w)}
	}
}

func initSymAPI() {
	symAPI = map[string]intrinsic{
		"Bool": symInt(wBool, false),
		"U8":   symInt(8, false), "U16": symInt(16, false), "U32": symInt(32, false), "U64": symInt(64, false),
		"I8": symInt(8, true), "I16": symInt(16, true), "I32": symInt(32, true), "I64": symInt(64, true), "Int": symInt(64, true),
		"F64": symInt(wF64, true),
		"Range": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			lo, hi := m.concInt(a[1], tInt()), m.concInt(a[2], tInt())
			return m.symRange(m.concS(a[0]), lo, hi)
		},
		"Choose": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			n := m.concInt(a[1], tInt())
			v := m.symRange(m.concS(a[0]), 0, n-1)
			if v.R == nil {
				return v
			}
			return KV(m.concretize(v.R.(*Expr)))
		},
		"Concrete": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			if e := a[0].sym(); e != nil {
				return KV(m.concretize(e))
			}
			return a[0]
		},
		"Split": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			if e := a[0].sym(); e != nil {
				return BV(m.branch(e))
			}
			return a[0]
		},
		"Bytes": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			return m.symSlice(m.concS(a[0]), m.concInt(a[1], tInt()), tByte())
		},
		"Str": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			s := m.symSlice(m.concS(a[0]), m.concInt(a[1], tInt()), tByte())
			if sl, ok := s.R.(*SliceV); ok {
				return mkStr(append([]Val{}, sl.o.cells...))
			}
			return SV("")
		},
		"I16s": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			return m.symSlice(m.concS(a[0]), m.concInt(a[1], tInt()), TI(types.Typ[types.Int16]))
		},
		"Assume": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			m.noSpec("assume")
			m.assume(a[0])
			return Val{}
		},
		"Assert": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			m.assert(a[0], m.concS(a[1]), fr)
			return Val{}
		},
		"Fail": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			m.stats.Asserts++
			m.violation(m.concS(a[0]), m.model)
			panic(&pathEnd{"violated"})
		},
		"Reach": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			m.noSpec("reach")
			m.E.reach(m.concS(a[0]))
			return Val{}
		},
		"Observe": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			m.noSpec("observe")
			o := Obs{Name: m.concS(a[0])}
			for _, v := range m.variadic(a[1]) {
				ifc, _ := v.R.(*Iface)
				if ifc == nil {
					o.Vals = append(o.Vals, SV("<nil>"))
					o.Ws = append(o.Ws, tStr())
					continue
				}
				iv := ifc.v
				if s, ok := iv.R.(*SliceV); ok { // snapshot
					iv = Val{R: &Agg{append([]Val{}, s.o.cells[s.off:s.off+s.len*ifc.t.elem.n]...)}}
				}
				o.Vals = append(o.Vals, iv)
				o.Ws = append(o.Ws, ifc.t)
			}
			m.obs = append(m.obs, o)
			return Val{}
		},
		"Bound": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			v := a[0]
			if m.P.tier == "thorough" {
				v = a[1]
			}
			return v
		},
		"Preempt": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			m.preempt = m.concInt(a[0], tInt())
			m.memYield = a[1].N != 0
			return Val{}
		},
		// Races turns the data-race monitor on.
		"Races": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			m.racesOn(g)
			return Val{}
		},
		"NoMerge": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			m.noMerge = a[0].N != 0
			return Val{}
		},
		"Engine": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val { return BV(true) },
		"Yield": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			m.gosched(g)
			return Val{}
		},
		// WaitIdle blocks until no other goroutine can run.
		"WaitIdle": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			m.noSpec("waitidle")
			for {
				var o []*G
				for _, q := range m.runnable() {
					if q != g {
						o = append(o, q)
					}
				}
				if len(o) == 0 {
					m.hbAll(g)
					return Val{}
				}
				k := m.choose(len(o))
				m.switchTo(g, o[k])
			}
		},
		// Blocked reports how many goroutines other than the caller are still alive.
		"Alive": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			n := 0
			for _, q := range m.gs {
				if q != g && !q.done {
					n++
				}
			}
			return IV(n)
		},
	}
}

func (m *Machine) symRange(name string, lo, hi int) Val {
	n := uint64(hi - lo)
	if hi <= lo {
		return KV(uint64(lo))
	}
	w := bits.Len64(n)
	v := m.fresh(name, w)
	if n+1 != 1<<uint(w) {
		m.addPC(m.x.Ule(v, m.x.K(n, w)))
	}
	return EV(m.x.Add(m.x.Zext(v, 64), m.x.K(uint64(lo), 64)))
}

func (m *Machine) symSlice(name string, n int, et *TInfo) Val {
	s := m.mkSlice(et, n, n)
	o := s.R.(*SliceV).o
	m.noSpec("fresh")
	k := m.names[name]
	m.names[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	for i := 0; i < n; i++ {
		o.cells[i] = Val{R: m.pathVar(fmt.Sprintf("%s[%d]", name, i), et.w)}
	}
	return s
}

// renderObs evaluates observations under a model in the native print format.
func (m *Machine) renderObs(md Model) []string {
	m.setModel(md)
	var out []string
	ev := func(v Val, t *TInfo) string {
		k := v.N
		if e := v.sym(); e != nil {
			k = m.x.Eval(e, md)
		}
		switch {
		case t.kind == KBool:
			return fmt.Sprint(k != 0)
		case t.kind == KFloat:
			return fmt.Sprintf("%x", k)
		case t.signed:
			return fmt.Sprint(sx(k, t.w))
		}
		return fmt.Sprint(k)
	}
	for _, o := range m.obs {
		s := "OBS " + o.Name
		for i, v := range o.Vals {
			t := o.Ws[i]
			switch {
			case t.scalar():
				s += " " + ev(v, t)
			case t.kind == KString:
				b := strBytes(v)
				bs := make([]byte, len(b))
				for k, c := range b {
					bs[k] = byte(c.N)
					if e := c.sym(); e != nil {
						bs[k] = byte(m.x.Eval(e, md))
					}
				}
				s += fmt.Sprintf(" %q", bs)
			case (t.kind == KSlice || t.kind == KArray) && t.elem.scalar():
				s += " ["
				if a, ok := v.R.(*Agg); ok {
					for k, c := range a.c {
						if k > 0 {
							s += " "
						}
						s += ev(c, t.elem)
					}
				}
				s += "]"
			default:
				s += " <" + t.String() + ">"
			}
		}
		out = append(out, s)
	}
	return out
}

func initCStubs() {}
