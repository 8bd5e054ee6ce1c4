package main

// Hash-consed bit-vector / boolean / floating-point expressions with a
// simplifying constructor layer, concrete evaluation and SMT-LIB printing.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // k = hi<<8|lo
	OSext
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
	// floating point
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OFAbs
	OFSqrt
	OFRound // k: rounding mode: 0 RNE 1 RTZ 2 RTN 3 RTP 4 RNA
	OF2F
	OS2F
	OU2F
	OF2S
	OF2U
	OFBits // float from bits (to_fp)
)

// sorts: w==0 bool, 1..64 bv, wF32/wF64 floats
const (
	wBool = 0
	wF32  = 232
	wF64  = 264
)

type Expr struct {
	op      Op
	w       int
	a, b, c *Expr
	k       uint64
	name    string
	id      uint32
	// evaluation cache
	ev    uint64
	epoch uint32
	// smt definition state
	defd [2]uint32 // solver generation in which a definition was emitted
	size uint32
	zm   uint64
	zmOK bool
	kl   uint32 // number of constant leaves of an ite tree (0: not such a tree)
}

type ekey struct {
	op      Op
	w       int
	a, b, c uint32
	k       uint64
	name    string
}

type Ctx struct {
	tab   map[ekey]*Expr
	nid   uint32
	T, F  *Expr
	epoch uint32
	vars  map[string]*Expr
	tabs  map[*Expr]*lookup
}

// lookup remembers that an ite tree reads a table of constants.
type lookup struct {
	idx  *Expr // 64 bits, below len(vals) wherever the tree is used
	vals []*Expr
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[ekey]*Expr{}, vars: map[string]*Expr{}, tabs: map[*Expr]*lookup{}}
	c.T = c.mk(OConst, wBool, nil, nil, nil, 1, "")
	c.F = c.mk(OConst, wBool, nil, nil, nil, 0, "")
	return c
}

func eid(e *Expr) uint32 {
	if e == nil {
		return 0
	}
	return e.id
}

func (x *Ctx) mk(op Op, w int, a, b, c *Expr, k uint64, name string) *Expr {
	key := ekey{op, w, eid(a), eid(b), eid(c), k, name}
	if e, ok := x.tab[key]; ok {
		return e
	}
	x.nid++
	e := &Expr{op: op, w: w, a: a, b: b, c: c, k: k, name: name, id: x.nid}
	s := uint64(1)
	for _, q := range []*Expr{a, b, c} {
		if q != nil {
			s += uint64(q.size)
		}
	}
	if s > 1<<31 {
		s = 1 << 31
	}
	e.size = uint32(s)
	if op == OIte && w > 0 && w <= 64 {
		if l, r := b.leaves(), c.leaves(); l > 0 && r > 0 && l+r <= 4096 {
			e.kl = l + r
		}
	}
	x.tab[key] = e
	return e
}

func (e *Expr) leaves() uint32 {
	if e.op == OConst {
		return 1
	}
	return e.kl
}

// mapLeaves applies f to the constant leaves of an ite tree.
func (x *Ctx) mapLeaves(e *Expr, f func(k *Expr) *Expr) *Expr {
	if t, ok := x.tabs[e]; ok {
		vals := make([]*Expr, len(t.vals))
		for i, v := range t.vals {
			if vals[i] = f(v); !vals[i].isK() || vals[i].w < 1 || vals[i].w > 64 {
				return x.mapLeaves1(e, f)
			}
		}
		return x.table(t.idx, vals, func() *Expr { return x.mapLeaves1(e, f) })
	}
	return x.mapLeaves1(e, f)
}

// table is the expression of a table of constants; a table that maps every
// index to itself is the index.
func (x *Ctx) table(idx *Expr, vals []*Expr, tree func() *Expr) *Expr {
	w := vals[0].w
	id := len(vals) > 2
	for i, v := range vals {
		if v.k != uint64(i)&mask(w) {
			id = false
			break
		}
	}
	if id {
		return x.Extract(idx, w-1, 0)
	}
	e := tree()
	if e.kl > 2 {
		x.tabs[e] = &lookup{idx, vals}
	}
	return e
}

func (x *Ctx) mapLeaves1(e *Expr, f func(k *Expr) *Expr) *Expr {
	memo := map[*Expr]*Expr{}
	var rec func(e *Expr) *Expr
	rec = func(e *Expr) *Expr {
		if e.op == OConst {
			return f(e)
		}
		if r, ok := memo[e]; ok {
			return r
		}
		r := x.Ite(e.a, rec(e.b), rec(e.c))
		memo[e] = r
		return r
	}
	return rec(e)
}

// tree2 distributes a binary operation with one constant operand over a
// constant ite tree.
func (x *Ctx) tree2(a, b *Expr, f func(a, b *Expr) *Expr) *Expr {
	if a.kl > 0 && b.op == OConst {
		return x.mapLeaves(a, func(k *Expr) *Expr { return f(k, b) })
	}
	if b.kl > 0 && a.op == OConst {
		return x.mapLeaves(b, func(k *Expr) *Expr { return f(a, k) })
	}
	return nil
}

func (x *Ctx) Var(name string, w int) *Expr {
	if e, ok := x.vars[name]; ok {
		if e.w != w {
			panic("var width mismatch " + name)
		}
		return e
	}
	e := x.mk(OVar, w, nil, nil, nil, 0, name)
	x.vars[name] = e
	return e
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}
func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func (x *Ctx) K(v uint64, w int) *Expr {
	if w == wBool {
		if v != 0 {
			return x.T
		}
		return x.F
	}
	if w <= 64 {
		v &= mask(w)
	}
	return x.mk(OConst, w, nil, nil, nil, v, "")
}
func (x *Ctx) B(b bool) *Expr {
	if b {
		return x.T
	}
	return x.F
}
func (e *Expr) isK() bool          { return e.op == OConst }
func (e *Expr) isKv(v uint64) bool { return e.op == OConst && e.k == v }

func (x *Ctx) Not(a *Expr) *Expr {
	if a.isK() {
		return x.B(a.k == 0)
	}
	switch a.op {
	case OBNot:
		return a.a
	case OUlt:
		return x.mk(OUle, wBool, a.b, a.a, nil, 0, "")
	case OUle:
		return x.mk(OUlt, wBool, a.b, a.a, nil, 0, "")
	case OSlt:
		return x.mk(OSle, wBool, a.b, a.a, nil, 0, "")
	case OSle:
		return x.mk(OSlt, wBool, a.b, a.a, nil, 0, "")
	}
	return x.mk(OBNot, wBool, a, nil, nil, 0, "")
}

func (x *Ctx) And(a, b *Expr) *Expr {
	if a == b {
		return a
	}
	if a.isK() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isK() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return x.F
	}
	if b.op == OBAnd && (b.a == a || b.b == a) {
		return b
	}
	if a.op == OBAnd && (a.a == b || a.b == b) {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OBAnd, wBool, a, b, nil, 0, "")
}
func (x *Ctx) Or(a, b *Expr) *Expr {
	if a == b {
		return a
	}
	if a.isK() {
		if a.k != 0 {
			return a
		}
		return b
	}
	if b.isK() {
		if b.k != 0 {
			return b
		}
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return x.T
	}
	if b.op == OBOr && (b.a == a || b.b == a) {
		return b
	}
	if a.op == OBOr && (a.a == b || a.b == b) {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OBOr, wBool, a, b, nil, 0, "")
}

func (x *Ctx) Ite(c, a, b *Expr) *Expr {
	if c.isK() {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == OBNot {
		return x.Ite(c.a, b, a)
	}
	if a.w == wBool {
		if a.isK() && b.isK() {
			if a.k != 0 {
				return c
			}
			return x.Not(c)
		}
		if a.isK() {
			if a.k != 0 {
				return x.Or(c, b)
			}
			return x.And(x.Not(c), b)
		}
		if b.isK() {
			if b.k != 0 {
				return x.Or(x.Not(c), a)
			}
			return x.And(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	// ite(c, a, ite(d, a, e)) = ite(c|d, a, e)
	if b.op == OIte && b.b == a {
		return x.Ite(x.Or(c, b.a), a, b.c)
	}
	if a.op == OIte && a.c == b {
		return x.Ite(x.And(c, a.a), a.b, b)
	}
	return x.mk(OIte, a.w, c, a, b, 0, "")
}

// ---- bit-vector structure helpers

type piece struct {
	e *Expr
	w int
}

// pieces returns the concatenation parts of e, most significant first.
func (x *Ctx) pieces(e *Expr, out []*Expr) []*Expr {
	if e.op == OConcat {
		out = x.pieces(e.a, out)
		return x.pieces(e.b, out)
	}
	return append(out, e)
}

func (x *Ctx) Concat(a, b *Expr) *Expr {
	w := a.w + b.w
	if w > 64 {
		panic("concat too wide")
	}
	if a.isK() && b.isK() {
		return x.K(a.k<<uint(b.w)|b.k, w)
	}
	// right-associate: concat(concat(p,q),b) -> concat(p, concat(q,b))
	if a.op == OConcat {
		return x.Concat(a.a, x.Concat(a.b, b))
	}
	if b.op == OConcat {
		if a.isK() && b.a.isK() {
			return x.Concat(x.K(a.k<<uint(b.a.w)|b.a.k, a.w+b.a.w), b.b)
		}
		if m := x.joinExtract(a, b.a); m != nil {
			return x.Concat(m, b.b)
		}
	}
	if m := x.joinExtract(a, b); m != nil {
		return m
	}
	if a.op == OIte && b.isK() && a.b.isK() && a.c.isK() {
		return x.Ite(a.a, x.Concat(a.b, b), x.Concat(a.c, b))
	}
	return x.mk(OConcat, w, a, b, nil, 0, "")
}

func (x *Ctx) joinExtract(a, b *Expr) *Expr {
	if a.op == OExtract && b.op == OExtract && a.a == b.a {
		al := int(a.k & 0xff)
		bh := int(b.k >> 8)
		if al == bh+1 {
			return x.Extract(a.a, int(a.k>>8), int(b.k&0xff))
		}
	}
	return nil
}

func (x *Ctx) Extract(e *Expr, hi, lo int) *Expr {
	if e.kl > 0 && (lo > 0 || hi < e.w-1) {
		return x.mapLeaves(e, func(k *Expr) *Expr { return x.Extract(k, hi, lo) })
	}
	w := hi - lo + 1
	if w == e.w {
		return e
	}
	if w <= 0 || hi >= e.w {
		panic(fmt.Sprintf("bad extract %d %d of %d", hi, lo, e.w))
	}
	switch e.op {
	case OConst:
		return x.K(e.k>>uint(lo), w)
	case OExtract:
		l := int(e.k & 0xff)
		return x.Extract(e.a, hi+l, lo+l)
	case OConcat:
		bw := e.b.w
		if hi < bw {
			return x.Extract(e.b, hi, lo)
		}
		if lo >= bw {
			return x.Extract(e.a, hi-bw, lo-bw)
		}
		return x.Concat(x.Extract(e.a, hi-bw, 0), x.Extract(e.b, bw-1, lo))
	case OSext:
		iw := e.a.w
		if hi < iw {
			return x.Extract(e.a, hi, lo)
		}
		if lo == 0 {
			return x.Sext(e.a, w)
		}
		if lo < iw {
			return x.Sext(x.Extract(e.a, iw-1, lo), w)
		}
		return x.Sext(x.Extract(e.a, iw-1, iw-1), w)
	case OIte:
		if e.b.isK() || e.c.isK() {
			return x.Ite(e.a, x.Extract(e.b, hi, lo), x.Extract(e.c, hi, lo))
		}
	case OAnd, OOr, OXor:
		if e.a.isK() || e.b.isK() || lo == 0 {
			return x.bitop(e.op, x.Extract(e.a, hi, lo), x.Extract(e.b, hi, lo))
		}
	case OAdd:
		if lo == 0 {
			return x.Add(x.Extract(e.a, hi, 0), x.Extract(e.b, hi, 0))
		}
	case OMul:
		if lo == 0 {
			return x.Mul(x.Extract(e.a, hi, 0), x.Extract(e.b, hi, 0))
		}
	}
	return x.mk(OExtract, w, e, nil, nil, uint64(hi)<<8|uint64(lo), "")
}

func (x *Ctx) Zext(e *Expr, w int) *Expr {
	if e.kl > 0 && w > e.w {
		return x.mapLeaves(e, func(k *Expr) *Expr { return x.Zext(k, w) })
	}
	if w == e.w {
		return e
	}
	if w < e.w {
		return x.Extract(e, w-1, 0)
	}
	if e.op == OIte && e.b.isK() && e.c.isK() {
		return x.Ite(e.a, x.Zext(e.b, w), x.Zext(e.c, w))
	}
	return x.Concat(x.K(0, w-e.w), e)
}
func (x *Ctx) Sext(e *Expr, w int) *Expr {
	if e.kl > 0 && w > e.w {
		return x.mapLeaves(e, func(k *Expr) *Expr { return x.Sext(k, w) })
	}
	if w == e.w {
		return e
	}
	if w < e.w {
		return x.Extract(e, w-1, 0)
	}
	if e.isK() {
		return x.K(uint64(sx(e.k, e.w)), w)
	}
	if e.op == OSext {
		return x.Sext(e.a, w)
	}
	if e.op == OConcat && e.a.isK() && e.a.k>>(uint(e.a.w)-1) == 0 {
		return x.Zext(e, w)
	}
	if e.op == OIte && e.b.isK() && e.c.isK() {
		return x.Ite(e.a, x.Sext(e.b, w), x.Sext(e.c, w))
	}
	return x.mk(OSext, w, e, nil, nil, 0, "")
}

// cuts: bit positions where e's piece structure changes
func (x *Ctx) zeroMask(e *Expr) uint64 { // bits known to be zero
	if e.op == OConst {
		return ^e.k & mask(e.w)
	}
	if !e.zmOK {
		e.zm = x.zeroMask1(e)
		e.zmOK = true
	}
	return e.zm
}
func (x *Ctx) zeroMask1(e *Expr) uint64 {
	switch e.op {
	case OConst:
		return ^e.k & mask(e.w)
	case OConcat:
		return x.zeroMask(e.a)<<uint(e.b.w) | x.zeroMask(e.b)
	case OAnd:
		return x.zeroMask(e.a) | x.zeroMask(e.b)
	case OOr, OXor:
		return x.zeroMask(e.a) & x.zeroMask(e.b)
	case OIte:
		return x.zeroMask(e.b) & x.zeroMask(e.c)
	case OURem:
		if e.b.isK() && e.b.k != 0 {
			return mask(e.w) &^ mask(bits.Len64(e.b.k-1))
		}
	case OUDiv:
		if e.b.isK() && e.b.k != 0 {
			m := (mask(e.w) &^ x.zeroMask(e.a)) // max value
			return mask(e.w) &^ mask(bits.Len64(mask(bits.Len64(m))/e.b.k))
		}
	}
	return 0
}

func (x *Ctx) bitop(op Op, a, b *Expr) *Expr {
	if r := x.tree2(a, b, func(a, b *Expr) *Expr { return x.bitop(op, a, b) }); r != nil {
		return r
	}
	w := a.w
	if a.isK() && b.isK() {
		switch op {
		case OAnd:
			return x.K(a.k&b.k, w)
		case OOr:
			return x.K(a.k|b.k, w)
		default:
			return x.K(a.k^b.k, w)
		}
	}
	if a.isK() {
		a, b = b, a
	}
	if a == b {
		if op == OXor {
			return x.K(0, w)
		}
		return a
	}
	if op == OXor {
		// (y ^ b) ^ b = y
		for _, p := range [][2]*Expr{{a, b}, {b, a}} {
			if u, v := p[0], p[1]; u.op == OXor {
				if u.a == v {
					return u.b
				}
				if u.b == v {
					return u.a
				}
				if u.b.isK() && u.a.op == OXor && (u.a.a == v || u.a.b == v) {
					return x.bitop(op, x.bitop(op, u.a, v), u.b)
				}
			}
		}
	}
	if b.isK() {
		switch {
		case b.k == 0:
			if op == OAnd {
				return b
			}
			return a
		case b.k == mask(w):
			if op == OAnd {
				return a
			}
			if op == OOr {
				return b
			}
			if a.op == OXor && a.b.isKv(mask(w)) {
				return a.a
			}
		}
		if a.op == op && a.b.isK() { // re-associate constants
			return x.bitop(op, a.a, x.bitop(op, a.b, b))
		}
		if a.op == OIte && a.b.isK() && a.c.isK() {
			return x.Ite(a.a, x.bitop(op, a.b, b), x.bitop(op, a.c, b))
		}
		if op == OAnd {
			// few-run masks become concatenations of extracts
			if n := runs(b.k, w); n <= 4 {
				var res *Expr
				lo := 0
				for lo < w {
					bit := b.k >> uint(lo) & 1
					hi := lo
					for hi+1 < w && b.k>>uint(hi+1)&1 == bit {
						hi++
					}
					var p *Expr
					if bit == 1 {
						p = x.Extract(a, hi, lo)
					} else {
						p = x.K(0, hi-lo+1)
					}
					if res == nil {
						res = p
					} else {
						res = x.Concat(p, res)
					}
					lo = hi + 1
				}
				return res
			}
		}
		if op == OOr {
			if n := runs(b.k, w); n <= 4 {
				var res *Expr
				lo := 0
				for lo < w {
					bit := b.k >> uint(lo) & 1
					hi := lo
					for hi+1 < w && b.k>>uint(hi+1)&1 == bit {
						hi++
					}
					var p *Expr
					if bit == 0 {
						p = x.Extract(a, hi, lo)
					} else {
						p = x.K(mask(hi-lo+1), hi-lo+1)
					}
					if res == nil {
						res = p
					} else {
						res = x.Concat(p, res)
					}
					lo = hi + 1
				}
				return res
			}
		}
	}
	if a.op == OConcat || b.op == OConcat {
		if r := x.piecewise(op, a, b); r != nil {
			return r
		}
	}
	if a.id > b.id && !b.isK() {
		a, b = b, a
	}
	return x.mk(op, w, a, b, nil, 0, "")
}

func runs(k uint64, w int) int {
	n := 1
	for i := 1; i < w; i++ {
		if (k>>uint(i))&1 != (k>>uint(i-1))&1 {
			n++
		}
	}
	return n
}

// piecewise splits a bitwise operation along concat boundaries when a part
// simplifies (a constant zero/ones operand).
func (x *Ctx) piecewise(op Op, a, b *Expr) *Expr {
	cut := map[int]bool{}
	add := func(e *Expr) {
		pos := 0
		ps := x.pieces(e, nil)
		for i := len(ps) - 1; i >= 0; i-- {
			pos += ps[i].w
			cut[pos] = true
		}
	}
	add(a)
	add(b)
	// does it pay off? every piece must have a constant on one side at 0/ones
	var res *Expr
	lo := 0
	gain := false
	type pr struct{ p, q *Expr }
	var prs []pr
	for hi := 1; hi <= a.w; hi++ {
		if !cut[hi] && hi != a.w {
			continue
		}
		p, q := x.Extract(a, hi-1, lo), x.Extract(b, hi-1, lo)
		if p.isK() || q.isK() {
			gain = true
		}
		prs = append(prs, pr{p, q})
		lo = hi
	}
	if !gain || len(prs) < 2 {
		return nil
	}
	for _, r := range prs {
		e := x.bitop(op, r.p, r.q)
		if res == nil {
			res = e
		} else {
			res = x.Concat(e, res)
		}
	}
	return res
}

func (x *Ctx) BAnd(a, b *Expr) *Expr { return x.bitop(OAnd, a, b) }
func (x *Ctx) BOr(a, b *Expr) *Expr  { return x.bitop(OOr, a, b) }
func (x *Ctx) BXor(a, b *Expr) *Expr { return x.bitop(OXor, a, b) }
func (x *Ctx) BNot(a *Expr) *Expr    { return x.bitop(OXor, a, x.K(mask(a.w), a.w)) }

func (x *Ctx) Add(a, b *Expr) *Expr {
	if r := x.tree2(a, b, x.Add); r != nil {
		return r
	}
	w := a.w
	if a.isK() && b.isK() {
		return x.K(a.k+b.k, w)
	}
	if a.isK() {
		a, b = b, a
	}
	if b.isK() {
		if b.k == 0 {
			return a
		}
		if a.op == OAdd && a.b.isK() {
			return x.Add(a.a, x.K(a.b.k+b.k, w))
		}
		if a.op == OIte && a.b.isK() && a.c.isK() {
			return x.Ite(a.a, x.Add(a.b, b), x.Add(a.c, b))
		}
	}
	if r := x.linAdd(a, b); r != nil {
		return r
	}
	// disjoint bits: add = or
	if (a.op == OConcat || b.op == OConcat) && (x.zeroMask(a)|x.zeroMask(b)) == mask(w) {
		return x.BOr(a, b)
	}
	if a.id > b.id && !b.isK() {
		a, b = b, a
	}
	return x.mk(OAdd, w, a, b, nil, 0, "")
}

type linTerm struct {
	t *Expr
	k uint64
}

// linTerms flattens e = sum of coeff*term + const (nested left sums only).
func (x *Ctx) linTerms(e *Expr, k uint64, ts []linTerm, c *uint64) ([]linTerm, bool) {
	if len(ts) > 24 {
		return nil, false
	}
	switch {
	case e.isK():
		*c += e.k * k
		return ts, true
	case e.op == OAdd:
		ts, ok := x.linTerms(e.a, k, ts, c)
		if !ok {
			return nil, false
		}
		return x.linTerms(e.b, k, ts, c)
	case e.op == OMul && e.b.isK():
		return append(ts, linTerm{e.a, e.b.k * k}), true
	case e.op == OConcat && e.b.isKv(0):
		n := uint(e.b.w)
		if q := e.a; q.op == OExtract && q.k&0xff == 0 && q.a.w == e.w {
			return append(ts, linTerm{q.a, k << n}), true
		}
		if z := x.zeroMask(e.a); z>>(uint(e.a.w)-1)&1 == 1 { // narrow value: nothing is shifted out
			return append(ts, linTerm{x.Zext(e.a, e.w), k << n}), true
		}
	}
	return append(ts, linTerm{e, k}), true
}

// linAdd adds two linear sums in normal form, nil if there is nothing to gain.
func (x *Ctx) linAdd(a, b *Expr) *Expr {
	lin := func(e *Expr) bool { return e.op == OAdd || (e.op == OMul && e.b.isK()) }
	if a != b && !lin(a) && !lin(b) {
		return nil
	}
	if b.isK() && a.op == OMul {
		return nil
	}
	w := a.w
	var c uint64
	ts, ok := x.linTerms(a, 1, nil, &c)
	if ok {
		ts, ok = x.linTerms(b, 1, ts, &c)
	}
	if !ok {
		return nil
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].t.id < ts[j].t.id })
	var out []linTerm
	for _, t := range ts {
		if n := len(out); n > 0 && out[n-1].t == t.t {
			out[n-1].k += t.k
		} else {
			out = append(out, t)
		}
	}
	var r *Expr
	for _, t := range out {
		k := t.k & mask(w)
		if k == 0 {
			continue
		}
		e := t.t
		if k != 1 {
			e = x.Mul(e, x.K(k, w))
			if e.op != OMul && e.op != OConcat {
				return nil // keep termination obvious
			}
		}
		switch {
		case r == nil:
			r = e
		case (r.op == OConcat || e.op == OConcat) && (x.zeroMask(r)|x.zeroMask(e)) == mask(w):
			r = x.BOr(r, e)
		default:
			r = x.mk(OAdd, w, r, e, nil, 0, "")
		}
	}
	if r == nil {
		return x.K(c, w)
	}
	if c &= mask(w); c != 0 {
		if r.isK() {
			return x.K(r.k+c, w)
		}
		r = x.mk(OAdd, w, r, x.K(c, w), nil, 0, "")
	}
	return r
}

func (x *Ctx) isNeg(a *Expr) *Expr { // a = -r  => r
	if a.op == OMul && a.b.isKv(mask(a.w)) {
		return a.a
	}
	return nil
}
func (x *Ctx) Neg(a *Expr) *Expr { return x.Mul(a, x.K(mask(a.w), a.w)) }
func (x *Ctx) Sub(a, b *Expr) *Expr {
	if a == b {
		return x.K(0, a.w)
	}
	if b.isK() {
		return x.Add(a, x.K(-b.k, a.w))
	}
	return x.Add(a, x.Neg(b))
}
func (x *Ctx) Mul(a, b *Expr) *Expr {
	if r := x.tree2(a, b, x.Mul); r != nil {
		return r
	}
	w := a.w
	if a.isK() && b.isK() {
		return x.K(a.k*b.k, w)
	}
	if a.isK() {
		a, b = b, a
	}
	if b.isK() {
		if b.k == 0 {
			return b
		}
		if b.k == 1 {
			return a
		}
		if a.op == OMul && a.b.isK() {
			return x.Mul(a.a, x.K(a.b.k*b.k, w))
		}
		if a.op == OAdd && (a.b.isK() || b.isKv(mask(w))) {
			return x.Add(x.Mul(a.a, b), x.Mul(a.b, b))
		}
		if a.op == OIte && a.b.isK() && a.c.isK() {
			return x.Ite(a.a, x.Mul(a.b, b), x.Mul(a.c, b))
		}
		if bits.OnesCount64(b.k) == 1 {
			return x.Shl(a, x.K(uint64(bits.TrailingZeros64(b.k)), w))
		}
	}
	if a.id > b.id && !b.isK() {
		a, b = b, a
	}
	return x.mk(OMul, w, a, b, nil, 0, "")
}

func (x *Ctx) Shl(a, s *Expr) *Expr {
	if r := x.tree2(a, s, x.Shl); r != nil {
		return r
	}
	w := a.w
	if s.isK() {
		if s.k >= uint64(w) {
			return x.K(0, w)
		}
		if s.k == 0 {
			return a
		}
		n := int(s.k)
		return x.Concat(x.Extract(a, w-1-n, 0), x.K(0, n))
	}
	return x.mk(OShl, w, a, s, nil, 0, "")
}
func (x *Ctx) Lshr(a, s *Expr) *Expr {
	if r := x.tree2(a, s, x.Lshr); r != nil {
		return r
	}
	w := a.w
	if s.isK() {
		if s.k >= uint64(w) {
			return x.K(0, w)
		}
		if s.k == 0 {
			return a
		}
		n := int(s.k)
		return x.Zext(x.Extract(a, w-1, n), w)
	}
	return x.mk(OLshr, w, a, s, nil, 0, "")
}
func (x *Ctx) Ashr(a, s *Expr) *Expr {
	if r := x.tree2(a, s, x.Ashr); r != nil {
		return r
	}
	w := a.w
	if s.isK() {
		n := int(s.k)
		if s.k >= uint64(w) {
			n = w - 1
		}
		if n == 0 {
			return a
		}
		return x.Sext(x.Extract(a, w-1, n), w)
	}
	return x.mk(OAshr, w, a, s, nil, 0, "")
}

func (x *Ctx) DivRem(op Op, a, b *Expr) *Expr {
	w := a.w
	if a.isK() && b.isK() && b.k != 0 {
		return x.K(evalBin(op, a.k, b.k, w), w)
	}
	if b.isK() && b.k != 0 {
		if b.k == 1 {
			if op == OUDiv || op == OSDiv {
				return a
			}
			return x.K(0, w)
		}
		pow2 := bits.OnesCount64(b.k) == 1
		n := bits.TrailingZeros64(b.k)
		// signed with known non-negative dividend and positive divisor = unsigned
		if (op == OSDiv || op == OSRem) && sx(b.k, w) > 0 && x.zeroMask(a)>>(uint(w)-1)&1 == 1 {
			if op == OSDiv {
				op = OUDiv
			} else {
				op = OURem
			}
		}
		if pow2 && op == OUDiv {
			return x.Lshr(a, x.K(uint64(n), w))
		}
		if pow2 && op == OURem {
			return x.BAnd(a, x.K(b.k-1, w))
		}
		if pow2 && op == OSDiv && sx(b.k, w) > 0 {
			// round toward zero: (a + (a<0 ? 2^n-1 : 0)) >> n
			adj := x.Ite(x.Slt(a, x.K(0, w)), x.K(b.k-1, w), x.K(0, w))
			return x.Ashr(x.Add(a, adj), x.K(uint64(n), w))
		}
		if a.op == OIte && a.b.isK() && a.c.isK() {
			return x.Ite(a.a, x.DivRem(op, a.b, b), x.DivRem(op, a.c, b))
		}
		// narrow unsigned division when the dividend has leading zeros
		if op == OUDiv || op == OURem {
			zm := x.zeroMask(a)
			lead := bits.LeadingZeros64(^(zm | ^mask(w)))
			uw := 64 - lead // used width
			if uw < 1 {
				return x.K(0, w)
			}
			if bw := bits.Len64(b.k); bw > uw {
				if op == OUDiv {
					return x.K(0, w)
				}
				return a
			}
			if uw < w {
				return x.Zext(x.DivRem(op, x.Extract(a, uw-1, 0), x.K(b.k, uw)), w)
			}
		}
	}
	return x.mk(op, w, a, b, nil, 0, "")
}

func (x *Ctx) Eq(a, b *Expr) *Expr {
	if r := x.tree2(a, b, x.Eq); r != nil {
		return r
	}
	if a == b {
		if a.w == wF32 || a.w == wF64 {
			panic("Eq on floats")
		}
		return x.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.isK() && b.isK() {
		return x.B(a.k == b.k)
	}
	if a.w == wBool {
		if a.isK() {
			a, b = b, a
		}
		if b.isK() {
			if b.k != 0 {
				return a
			}
			return x.Not(a)
		}
		return x.mk(OEq, wBool, minE(a, b), maxE(a, b), nil, 0, "")
	}
	if a.isK() {
		a, b = b, a
	}
	if b.isK() {
		switch a.op {
		case OIte:
			if a.b.isK() || a.c.isK() || a.size < 2000 {
				return x.Ite(a.a, x.Eq(a.b, b), x.Eq(a.c, b))
			}
		case OConcat:
			bw := a.b.w
			return x.And(x.Eq(a.a, x.K(b.k>>uint(bw), a.a.w)), x.Eq(a.b, x.K(b.k, bw)))
		case OSext:
			lo := x.K(b.k, a.a.w)
			if x.K(uint64(sx(lo.k, lo.w)), a.w) != b {
				return x.F
			}
			return x.Eq(a.a, lo)
		case OAdd:
			if a.b.isK() {
				return x.Eq(a.a, x.K(b.k-a.b.k, a.w))
			}
		case OXor:
			if a.b.isK() {
				return x.Eq(a.a, x.K(b.k^a.b.k, a.w))
			}
		case OMul:
			if a.b.isKv(mask(a.w)) {
				return x.Eq(a.a, x.K(-b.k, a.w))
			}
		case OUDiv:
			if a.b.isK() && a.b.k > 1 && b.k < mask(a.w) {
				return x.And(x.Ult(a, x.K(b.k+1, a.w)), x.Not(x.Ult(a, b)))
			}
		case OSDiv:
			if a.b.isK() && sx(a.b.k, a.w) > 1 && sx(b.k, b.w) < int64(mask(a.w)>>1) {
				return x.And(x.Slt(a, x.K(b.k+1, a.w)), x.Not(x.Slt(a, b)))
			}
		}
	} else {
		if a.op == OConcat && b.op == OConcat && a.b.w == b.b.w {
			return x.And(x.Eq(a.a, b.a), x.Eq(a.b, b.b))
		}
		if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
			return x.Eq(a.a, b.a)
		}
		// x+c == y+c'
		if a.op == OAdd && b.op == OAdd && a.b == b.b {
			return x.Eq(a.a, b.a)
		}
		if a.op == OAdd && (a.a == b || a.b == b) {
			o := a.a
			if a.a == b {
				o = a.b
			}
			return x.Eq(o, x.K(0, a.w))
		}
		if b.op == OAdd && (b.a == a || b.b == a) {
			o := b.a
			if b.a == a {
				o = b.b
			}
			return x.Eq(o, x.K(0, a.w))
		}
		if a.op == OIte && b.op == OIte && a.a == b.a {
			return x.Ite(a.a, x.Eq(a.b, b.b), x.Eq(a.c, b.c))
		}
	}
	return x.mk(OEq, wBool, minE(a, b), maxE(a, b), nil, 0, "")
}
func minE(a, b *Expr) *Expr {
	if a.id < b.id {
		return a
	}
	return b
}
func maxE(a, b *Expr) *Expr {
	if a.id < b.id {
		return b
	}
	return a
}

func (x *Ctx) Ult(a, b *Expr) *Expr {
	if r := x.tree2(a, b, x.Ult); r != nil {
		return r
	}
	if a == b {
		return x.F
	}
	if a.isK() && b.isK() {
		return x.B(a.k < b.k)
	}
	if b.isKv(0) {
		return x.F
	}
	if a.isK() && a.k == mask(a.w) {
		return x.F
	}
	// constants against zero-extended values
	if b.isK() {
		if um := mask(a.w) &^ x.zeroMask(a); um < b.k {
			return x.T
		}
		if a.op == OConcat && a.a.isKv(0) {
			return x.Ult(a.b, x.K(b.k, a.b.w)) // b.k <= max of a.b here
		}
		if a.op == OUDiv && a.b.isK() && a.b.k > 1 { // v/d < c  iff  v < c*d
			if b.k > mask(a.w)/a.b.k {
				return x.T
			}
			return x.Ult(a.a, x.K(b.k*a.b.k, a.w))
		}
		if b.k == 1 {
			return x.Eq(a, x.K(0, a.w))
		}
		if a.op == OIte && (a.b.isK() || a.c.isK()) {
			return x.Ite(a.a, x.Ult(a.b, b), x.Ult(a.c, b))
		}
	}
	if a.isK() {
		if um := mask(b.w) &^ x.zeroMask(b); um <= a.k {
			return x.F
		}
		if b.op == OConcat && b.a.isKv(0) {
			return x.Ult(x.K(a.k, b.b.w), b.b)
		}
		if b.op == OUDiv && b.b.isK() && b.b.k > 1 {
			return x.Not(x.Ult(b, x.K(a.k+1, a.w))) // a.k is not the maximum here
		}
		if a.k == 0 {
			return x.Not(x.Eq(b, a))
		}
		if b.op == OIte && (b.b.isK() || b.c.isK()) {
			return x.Ite(b.a, x.Ult(a, b.b), x.Ult(a, b.c))
		}
	}
	if a.op == OConcat && b.op == OConcat && a.a.isKv(0) && b.a.isKv(0) {
		w := a.b.w
		if b.b.w > w {
			w = b.b.w
		}
		return x.Ult(x.Extract(a, w-1, 0), x.Extract(b, w-1, 0))
	}
	return x.mk(OUlt, wBool, a, b, nil, 0, "")
}
func (x *Ctx) Ule(a, b *Expr) *Expr { return x.Not(x.Ult(b, a)) }

func (x *Ctx) Slt(a, b *Expr) *Expr {
	if r := x.tree2(a, b, x.Slt); r != nil {
		return r
	}
	if a == b {
		return x.F
	}
	w := a.w
	if a.isK() && b.isK() {
		return x.B(sx(a.k, w) < sx(b.k, w))
	}
	sign := uint64(1) << uint(w-1)
	na := x.zeroMask(a)&sign != 0
	nb := x.zeroMask(b)&sign != 0
	if na && nb {
		return x.Ult(a, b)
	}
	if na && b.isK() { // b negative constant
		return x.F
	}
	if nb && a.isK() {
		return x.T
	}
	if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
		return x.Slt(a.a, b.a)
	}
	if a.op == OSext && b.isK() {
		lo := x.K(b.k, a.a.w)
		if x.Sext(lo, w) == b {
			return x.Slt(a.a, lo)
		}
		return x.B(sx(b.k, w) > 0)
	}
	if b.op == OSext && a.isK() {
		lo := x.K(a.k, b.a.w)
		if x.Sext(lo, w) == a {
			return x.Slt(lo, b.a)
		}
		return x.B(sx(a.k, w) < 0)
	}
	// quotients by a constant against constants
	if b.isK() && a.op == OSDiv && a.b.isK() && sx(a.b.k, w) > 1 {
		c, d := sx(b.k, w), sx(a.b.k, w)
		max := int64(mask(w) >> 1)
		if c >= 1 { // trunc(v/d) < c  iff  v < c*d
			if c > max/d {
				return x.T
			}
			return x.Slt(a.a, x.K(uint64(c*d), w))
		}
		// trunc(v/d) <= c-1  iff  v <= (c-1)*d  for c-1 < 0
		if c <= -(max / d) {
			if c-1 < (-max-1)/d {
				return x.F
			}
		}
		return x.Sle(a.a, x.K(uint64((c-1)*d), w))
	}
	if a.isK() && b.op == OSDiv && b.b.isK() && sx(b.b.k, w) > 1 {
		if sx(a.k, w) == int64(mask(w)>>1) {
			return x.F
		}
		return x.Not(x.Slt(b, x.K(a.k+1, w)))
	}
	if b.isK() && a.op == OIte && (a.b.isK() || a.c.isK()) {
		return x.Ite(a.a, x.Slt(a.b, b), x.Slt(a.c, b))
	}
	if a.isK() && b.op == OIte && (b.b.isK() || b.c.isK()) {
		return x.Ite(b.a, x.Slt(a, b.b), x.Slt(a, b.c))
	}
	return x.mk(OSlt, wBool, a, b, nil, 0, "")
}
func (x *Ctx) Sle(a, b *Expr) *Expr { return x.Not(x.Slt(b, a)) }

// ---- floating point

func fval(k uint64, w int) float64 {
	if w == wF32 {
		return float64(math.Float32frombits(uint32(k)))
	}
	return math.Float64frombits(k)
}
func fbits(f float64, w int) uint64 {
	if w == wF32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}
func (x *Ctx) FK(f float64, w int) *Expr { return x.K(fbits(f, w), w) }

func (x *Ctx) FBin(op Op, a, b *Expr) *Expr {
	w := a.w
	rw := w
	if op == OFLt || op == OFLe || op == OFEq {
		rw = wBool
	}
	if a.isK() && b.isK() {
		return x.K(evalFBin(op, a.k, b.k, w), rw)
	}
	return x.mk(op, rw, a, b, nil, 0, "")
}
func evalFBin(op Op, a, b uint64, w int) uint64 {
	if w == wF32 {
		p, q := math.Float32frombits(uint32(a)), math.Float32frombits(uint32(b))
		switch op {
		case OFAdd:
			return uint64(math.Float32bits(p + q))
		case OFSub:
			return uint64(math.Float32bits(p - q))
		case OFMul:
			return uint64(math.Float32bits(p * q))
		case OFDiv:
			return uint64(math.Float32bits(p / q))
		}
	}
	p, q := fval(a, w), fval(b, w)
	switch op {
	case OFAdd:
		return fbits(p+q, w)
	case OFSub:
		return fbits(p-q, w)
	case OFMul:
		return fbits(p*q, w)
	case OFDiv:
		return fbits(p/q, w)
	case OFLt:
		return b2u(p < q)
	case OFLe:
		return b2u(p <= q)
	case OFEq:
		return b2u(p == q)
	}
	panic("fbin")
}
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
func (x *Ctx) FUn(op Op, a *Expr, rw int, k uint64) *Expr {
	if a.isK() {
		return x.K(evalFUn(op, a.k, a.w, rw, k), rw)
	}
	return x.mk(op, rw, a, nil, nil, k, "")
}
func evalFUn(op Op, v uint64, w, rw int, k uint64) uint64 {
	switch op {
	case OFNeg:
		return fbits(-fval(v, w), rw)
	case OFAbs:
		return fbits(math.Abs(fval(v, w)), rw)
	case OFSqrt:
		return fbits(math.Sqrt(fval(v, w)), rw)
	case OFRound:
		f := fval(v, w)
		switch k {
		case 0:
			f = math.RoundToEven(f)
		case 1:
			f = math.Trunc(f)
		case 2:
			f = math.Floor(f)
		case 3:
			f = math.Ceil(f)
		case 4:
			f = math.Round(f)
		}
		return fbits(f, rw)
	case OF2F:
		return fbits(fval(v, w), rw)
	case OS2F:
		i := sx(v, w)
		if rw == wF32 {
			return uint64(math.Float32bits(float32(i)))
		}
		return math.Float64bits(float64(i))
	case OU2F:
		if rw == wF32 {
			return uint64(math.Float32bits(float32(v)))
		}
		return math.Float64bits(float64(v))
	case OF2S:
		return f2s(fval(v, w), rw)
	case OF2U:
		return uint64(fval(v, w)) & mask(rw)
	case OFBits:
		return v
	}
	panic("fun")
}

// f2s follows the amd64 conversion for out-of-range values.
func f2s(f float64, w int) uint64 {
	if w == 64 {
		return uint64(int64(f))
	}
	if w == 32 {
		return uint64(uint32(int32(f)))
	}
	return uint64(int64(int32(f))) & mask(w)
}

func evalBin(op Op, a, b uint64, w int) uint64 {
	switch op {
	case OAdd:
		return (a + b) & mask(w)
	case OMul:
		return (a * b) & mask(w)
	case OUDiv:
		if b == 0 {
			return mask(w)
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		if b == 0 {
			if sx(a, w) < 0 {
				return 1
			}
			return mask(w)
		}
		if sx(b, w) == -1 {
			return -a & mask(w)
		}
		return uint64(sx(a, w)/sx(b, w)) & mask(w)
	case OSRem:
		if b == 0 {
			return a
		}
		if sx(b, w) == -1 {
			return 0
		}
		return uint64(sx(a, w)%sx(b, w)) & mask(w)
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b & mask(w)
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w - 1)
		}
		return uint64(sx(a, w)>>b) & mask(w)
	}
	panic("evalBin")
}

type Model map[string]uint64

// NewEpoch invalidates the evaluation cache (call when the model changes).
func (x *Ctx) NewEpoch() { x.epoch++ }

func (x *Ctx) Eval(e *Expr, m Model) uint64 {
	if e.op == OConst {
		return e.k
	}
	if e.epoch == x.epoch {
		return e.ev
	}
	var v uint64
	switch e.op {
	case OVar:
		v = m[e.name]
		if e.w <= 64 && e.w > 0 {
			v &= mask(e.w)
		}
	case OAdd, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLshr, OAshr:
		v = evalBin(e.op, x.Eval(e.a, m), x.Eval(e.b, m), e.w)
	case OConcat:
		v = x.Eval(e.a, m)<<uint(e.b.w) | x.Eval(e.b, m)
	case OExtract:
		v = x.Eval(e.a, m) >> (e.k & 0xff) & mask(e.w)
	case OSext:
		v = uint64(sx(x.Eval(e.a, m), e.a.w)) & mask(e.w)
	case OIte:
		if x.Eval(e.a, m) != 0 {
			v = x.Eval(e.b, m)
		} else {
			v = x.Eval(e.c, m)
		}
	case OEq:
		v = b2u(x.Eval(e.a, m) == x.Eval(e.b, m))
	case OUlt:
		v = b2u(x.Eval(e.a, m) < x.Eval(e.b, m))
	case OUle:
		v = b2u(x.Eval(e.a, m) <= x.Eval(e.b, m))
	case OSlt:
		v = b2u(sx(x.Eval(e.a, m), e.a.w) < sx(x.Eval(e.b, m), e.a.w))
	case OSle:
		v = b2u(sx(x.Eval(e.a, m), e.a.w) <= sx(x.Eval(e.b, m), e.a.w))
	case OBAnd:
		v = x.Eval(e.a, m) & x.Eval(e.b, m)
	case OBOr:
		v = x.Eval(e.a, m) | x.Eval(e.b, m)
	case OBNot:
		v = 1 - x.Eval(e.a, m)
	case OFAdd, OFSub, OFMul, OFDiv, OFLt, OFLe, OFEq:
		v = evalFBin(e.op, x.Eval(e.a, m), x.Eval(e.b, m), e.a.w)
	default:
		v = evalFUn(e.op, x.Eval(e.a, m), e.a.w, e.w, e.k)
	}
	e.ev, e.epoch = v, x.epoch
	return v
}

// ---- SMT-LIB

func sortName(w int) string {
	switch w {
	case wBool:
		return "Bool"
	case wF32:
		return "(_ FloatingPoint 8 24)"
	case wF64:
		return "(_ FloatingPoint 11 53)"
	}
	return "(_ BitVec " + strconv.Itoa(w) + ")"
}

func constSMT(k uint64, w int) string {
	switch w {
	case wBool:
		if k != 0 {
			return "true"
		}
		return "false"
	case wF32:
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", uint32(k))
	case wF64:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", k)
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, k)
	}
	return fmt.Sprintf("#b%0*b", w, k)
}

func quoteVar(n string) string { return "|" + n + "|" }

var opSMT = map[Op]string{OAdd: "bvadd", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat",
	OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBAnd: "and", OBOr: "or", OBNot: "not",
	OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq"}

var rmName = []string{"RNE", "RTZ", "RTN", "RTP", "RNA"}

// shallow prints one node given its operands' names.
func (e *Expr) shallow(ref func(*Expr) string) string {
	if e.op == OAdd {
		// negative multiples as subtraction: much smaller circuits
		neg := func(q *Expr) *Expr {
			if q.op == OMul && q.b.isK() && q.b.k>>(uint(q.w)-1) == 1 {
				return q
			}
			return nil
		}
		p, q := e.a, neg(e.b)
		if q == nil {
			p, q = e.b, neg(e.a)
		}
		if q != nil {
			k := -q.b.k & mask(q.w)
			m := ref(q.a)
			if k != 1 {
				m = "(bvmul " + m + " " + constSMT(k, q.w) + ")"
			}
			return "(bvsub " + ref(p) + " " + m + ")"
		}
	}
	if e.op == OMul && e.b.isKv(mask(e.w)) {
		return "(bvneg " + ref(e.a) + ")"
	}
	var sb strings.Builder
	sb.WriteByte('(')
	toFp := func(w int) string {
		if w == wF32 {
			return "(_ to_fp 8 24)"
		}
		return "(_ to_fp 11 53)"
	}
	switch e.op {
	case OExtract:
		fmt.Fprintf(&sb, "(_ extract %d %d)", e.k>>8, e.k&0xff)
	case OSext:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", e.w-e.a.w)
	case OFAdd:
		sb.WriteString("fp.add RNE")
	case OFSub:
		sb.WriteString("fp.sub RNE")
	case OFMul:
		sb.WriteString("fp.mul RNE")
	case OFDiv:
		sb.WriteString("fp.div RNE")
	case OFNeg:
		sb.WriteString("fp.neg")
	case OFAbs:
		sb.WriteString("fp.abs")
	case OFSqrt:
		sb.WriteString("fp.sqrt RNE")
	case OFRound:
		sb.WriteString("fp.roundToIntegral " + rmName[e.k])
	case OF2F:
		sb.WriteString(toFp(e.w) + " RNE")
	case OS2F:
		sb.WriteString(toFp(e.w) + " RNE")
	case OU2F:
		if e.w == wF32 {
			sb.WriteString("(_ to_fp_unsigned 8 24) RNE")
		} else {
			sb.WriteString("(_ to_fp_unsigned 11 53) RNE")
		}
	case OF2S:
		fmt.Fprintf(&sb, "(_ fp.to_sbv %d) RTZ", e.w)
	case OF2U:
		fmt.Fprintf(&sb, "(_ fp.to_ubv %d) RTZ", e.w)
	case OFBits:
		sb.WriteString(toFp(e.w))
	default:
		sb.WriteString(opSMT[e.op])
	}
	for _, q := range []*Expr{e.a, e.b, e.c} {
		if q != nil {
			sb.WriteByte(' ')
			sb.WriteString(ref(q))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

// String gives a readable (tree) form, truncated.
func (e *Expr) String() string {
	d := 0
	var f func(e *Expr) string
	f = func(e *Expr) string {
		switch e.op {
		case OConst:
			return constSMT(e.k, e.w)
		case OVar:
			return e.name
		}
		if d > 6 {
			return "…"
		}
		d++
		s := e.shallow(f)
		d--
		return s
	}
	return f(e)
}
