package main

import (
	"fmt"
	"go/token"
	"math"

	"golang.org/x/tools/go/ssa"
)

// Val is one machine value. R==nil means a concrete scalar in N (zero-extended
// bits) or the nil/zero value of a reference type.
type Val struct {
	N uint64
	R any
}

type Obj struct {
	id     uint64
	cells  []Val
	name   string
	et     *TInfo // element type: cell i belongs to a value of type et at i mod et.n
	frozen bool
	// concurrency bookkeeping
	owner  int
	site   token.Pos
	shared bool
}

type SymIx struct {
	idx    *Expr // 64-bit, known to be in [0,n)
	stride int
	n      int
}

type Ptr struct {
	o   *Obj
	off int
	ix  *SymIx
}

type SliceV struct {
	o              *Obj
	off, len, cap_ int // off in cells; len/cap in elements
}

type SymStr struct{ b []Val }

type Iface struct {
	t *TInfo
	v Val
}

type Closure struct {
	fn   *ssa.Function
	env  []Val
	nat  func(m *Machine, g *G, args []Val) Val // native function value
	name string
}

type Agg struct{ c []Val }
type Tuple struct{ v []Val }

type mapEnt struct {
	k, v Val
}
type MapObj struct {
	id     uint64
	frozen bool
	kt     *TInfo
	vt     *TInfo
	ents   []*mapEnt // insertion order; nil = deleted
	idx    map[any]int
	n      int
	symk   bool // contains symbolic keys
}

type IterObj struct {
	m     *MapObj
	keys  []*mapEnt
	pos   int
	str   []Val
	isStr bool
}

func KV(n uint64) Val { return Val{N: n} }
func BV(b bool) Val   { return Val{N: b2u(b)} }
func SV(s string) Val { return Val{R: s} }
func IV(i int) Val    { return Val{N: uint64(i)} }
func EV(e *Expr) Val {
	if e.op == OConst {
		return Val{N: e.k}
	}
	return Val{R: e}
}
func FV(f float64) Val { return Val{N: math.Float64bits(f)} }

func (v Val) sym() *Expr {
	e, _ := v.R.(*Expr)
	return e
}
func (v Val) isNil() bool { return v.R == nil }

func (m *Machine) ex(v Val, w int) *Expr {
	if v.R == nil {
		return m.x.K(v.N, w)
	}
	if e, ok := v.R.(*Expr); ok {
		if e.w != w {
			panic(unsup("expr width %d, want %d", e.w, w))
		}
		return e
	}
	panic(unsup("scalar expected, got %T", v.R))
}

func (p *Ptr) String() string {
	return fmt.Sprintf("&%s#%d+%d", p.o.name, p.o.id, p.off)
}

// ---- strings

func strLen(v Val) int {
	switch s := v.R.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	case *SliceV:
		return s.len
	}
	panic(unsup("strLen of %T", v.R))
}

func strBytes(v Val) []Val {
	switch s := v.R.(type) {
	case nil:
		return nil
	case string:
		out := make([]Val, len(s))
		for i := 0; i < len(s); i++ {
			out[i].N = uint64(s[i])
		}
		return out
	case *SymStr:
		return s.b
	case *SliceV:
		out := make([]Val, s.len)
		copy(out, s.o.cells[s.off:s.off+s.len])
		return out
	}
	panic(unsup("strBytes of %T", v.R))
}

func mkStr(b []Val) Val {
	for _, c := range b {
		if c.R != nil {
			return Val{R: &SymStr{b}}
		}
	}
	bs := make([]byte, len(b))
	for i, c := range b {
		bs[i] = byte(c.N)
	}
	return Val{R: string(bs)}
}

func concStr(v Val) (string, bool) {
	switch s := v.R.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	case *SliceV:
		r := mkStr(strBytes(v))
		q, ok := r.R.(string)
		return q, ok
	}
	return "", false
}

// ---- zero values / aggregates

func zeroVal(t *TInfo) Val {
	if t.agg() {
		return Val{R: &Agg{make([]Val, t.n)}}
	}
	if t.kind == KTuple {
		tv := &Tuple{make([]Val, len(t.fields))}
		for i, f := range t.fields {
			tv.v[i] = zeroVal(f)
		}
		return Val{R: tv}
	}
	return Val{}
}

// cellsOf flattens a register value of type t.
func cellsOf(v Val, t *TInfo) []Val {
	if t.agg() {
		if v.R == nil {
			return make([]Val, t.n)
		}
		return v.R.(*Agg).c
	}
	return []Val{v}
}

func fromCells(c []Val, t *TInfo) Val {
	if t.agg() {
		cc := make([]Val, t.n)
		copy(cc, c[:t.n])
		return Val{R: &Agg{cc}}
	}
	return c[0]
}

// ---- merging

// mergeTyped merges two register values of type t under condition c.
func (m *Machine) mergeTyped(c *Expr, a, b Val, t *TInfo) (Val, bool) {
	switch {
	case t.scalar():
		if a == b {
			return a, true
		}
		return EV(m.x.Ite(c, m.ex(a, t.w), m.ex(b, t.w))), true
	case t.agg():
		if t.n == 0 {
			return a, true
		}
		ca, cb := cellsOf(a, t), cellsOf(b, t)
		if &ca[:1][0] == &cb[:1][0] {
			return a, true
		}
		out := make([]Val, len(ca))
		if !m.mergeCells(c, ca, cb, out, t) {
			return Val{}, false
		}
		return Val{R: &Agg{out}}, true
	case t.kind == KTuple:
		ta, tb := a.R.(*Tuple), b.R.(*Tuple)
		out := make([]Val, len(ta.v))
		for i := range ta.v {
			v, ok := m.mergeTyped(c, ta.v[i], tb.v[i], t.fields[i])
			if !ok {
				return Val{}, false
			}
			out[i] = v
		}
		return Val{R: &Tuple{out}}, true
	}
	return m.mergeRef(c, a, b)
}

func (m *Machine) mergeCells(c *Expr, a, b, out []Val, t *TInfo) bool {
	switch t.kind {
	case KStruct:
		for i, f := range t.fields {
			o := t.offs[i]
			if !m.mergeCells(c, a[o:o+f.n], b[o:o+f.n], out[o:o+f.n], f) {
				return false
			}
		}
		return true
	case KArray:
		en := t.elem.n
		for i := 0; i < t.alen; i++ {
			if !m.mergeCells(c, a[i*en:i*en+en], b[i*en:i*en+en], out[i*en:i*en+en], t.elem) {
				return false
			}
		}
		return true
	}
	v, ok := m.mergeTyped(c, a[0], b[0], t)
	out[0] = v
	return ok
}

// leaf returns the scalar type of cell i of an object.
func (o *Obj) leaf(i int) *TInfo {
	t := o.et
	if t == nil || t.n == 0 {
		return nil
	}
	i %= t.n
	for {
		switch t.kind {
		case KStruct:
			k := len(t.offs) - 1
			for t.offs[k] > i || t.fields[k].n == 0 {
				k--
			}
			i -= t.offs[k]
			t = t.fields[k]
		case KArray:
			i %= t.elem.n
			t = t.elem
		default:
			return t
		}
	}
}

// mergeCell merges two heap cells of leaf type t (may be nil if unknown).
func (m *Machine) mergeCell(c *Expr, a, b Val, t *TInfo) (Val, bool) {
	if a == b {
		return a, true
	}
	w := -1
	if e := a.sym(); e != nil {
		w = e.w
	} else if e := b.sym(); e != nil {
		w = e.w
	} else if t != nil && t.scalar() {
		w = t.w
	}
	if w >= 0 {
		for _, v := range []Val{a, b} {
			if _, ok := v.R.(*Expr); !ok && v.R != nil {
				return Val{}, false
			}
		}
		return EV(m.x.Ite(c, m.ex(a, w), m.ex(b, w))), true
	}
	if a.R == nil && b.R == nil {
		return Val{}, false
	}
	return m.mergeRef(c, a, b)
}

func (m *Machine) mergeRef(c *Expr, a, b Val) (Val, bool) {
	switch p := a.R.(type) {
	case nil:
		if b.R == nil {
			return a, a.N == b.N
		}
		if s, ok := b.R.(string); ok && s == "" {
			return b, true
		}
		return Val{}, false
	case string:
		if p == "" && b.R == nil {
			return a, true
		}
		switch q := b.R.(type) {
		case string:
			if p == q {
				return a, true
			}
			if len(p) == len(q) {
				return m.mergeStr(c, a, b)
			}
		case *SymStr:
			if len(p) == len(q.b) {
				return m.mergeStr(c, a, b)
			}
		}
		return Val{}, false
	case *SymStr:
		if strLenAny(b) == len(p.b) {
			return m.mergeStr(c, a, b)
		}
		return Val{}, false
	case *Ptr:
		q, ok := b.R.(*Ptr)
		if ok && p.o == q.o && p.off == q.off && p.ix == q.ix {
			return a, true
		}
		return Val{}, false
	case *SliceV:
		q, ok := b.R.(*SliceV)
		if ok && *p == *q {
			return a, true
		}
		return Val{}, false
	case *Iface:
		q, ok := b.R.(*Iface)
		if !ok || p.t != q.t {
			return Val{}, false
		}
		if p == q {
			return a, true
		}
		v, ok := m.mergeTyped(c, p.v, q.v, p.t)
		if !ok {
			return Val{}, false
		}
		return Val{R: &Iface{p.t, v}}, true
	case *Closure:
		q, ok := b.R.(*Closure)
		if ok && p == q {
			return a, true
		}
		if ok && p.fn == q.fn && p.fn != nil && len(p.env) == 0 && len(q.env) == 0 {
			return a, true
		}
		return Val{}, false
	}
	if a == b {
		return a, true
	}
	return Val{}, false
}

func strLenAny(v Val) int {
	switch v.R.(type) {
	case nil, string, *SymStr:
		return strLen(v)
	}
	return -1
}

func (m *Machine) mergeStr(c *Expr, a, b Val) (Val, bool) {
	x, y := strBytes(a), strBytes(b)
	out := make([]Val, len(x))
	for i := range x {
		out[i] = EV(m.x.Ite(c, m.ex(x[i], 8), m.ex(y[i], 8)))
	}
	return mkStr(out), true
}
