package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	kind uint8 // 0 reg, 1 const, 2 global, 3 free var
	i    int
	v    Val
	t    *TInfo
}

type cInstr struct {
	in      ssa.Instruction
	dst     int
	a, b, c opnd
	args    []opnd
	t       *TInfo // result type
	t2      *TInfo // auxiliary type
	call    *ssa.CallCommon
	fn      *ssa.Function // static callee
	cf      *cFunc
	idx     int
	merge   *mergeInfo
	pos     token.Pos
}

type mergeInfo struct {
	ok    bool
	join  *cBlock // nil: function exit
	fails atomic.Int32
	wins  atomic.Int32
}

type cBlock struct {
	idx     int
	phis    []*cPhi
	ins     []*cInstr
	succs   []*cBlock
	preds   []*cBlock
	covered atomic.Bool
}

type cPhi struct {
	dst   int
	edges []opnd
	t     *TInfo
}

type cFunc struct {
	fn       *ssa.Function
	once     sync.Once
	blocks   []*cBlock
	recover_ *cBlock
	nregs    int
	intr     intrinsic
	hasDefer bool
	name     string
	res      *TInfo
	called   atomic.Int64
	params   int
	namedRes []opnd
}

func (P *Program) cfunc(fn *ssa.Function) *cFunc {
	if c, ok := P.cfuncs.Load(fn); ok {
		cf := c.(*cFunc)
		cf.once.Do(func() { P.compile(cf) })
		return cf
	}
	c, _ := P.cfuncs.LoadOrStore(fn, &cFunc{fn: fn})
	cf := c.(*cFunc)
	cf.once.Do(func() { P.compile(cf) })
	return cf
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (P *Program) compile(cf *cFunc) {
	fn := cf.fn
	cf.name = fn.String()
	cf.intr = lookupIntrinsic(fn)
	cf.res = TI(fn.Signature.Results())
	if fn.Signature.Results().Len() == 1 {
		cf.res = TI(fn.Signature.Results().At(0).Type())
	}
	if fn.Blocks == nil {
		return
	}
	regs := map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		regs[p] = n
		n++
	}
	cf.params = n
	free := map[ssa.Value]int{}
	for i, f := range fn.FreeVars {
		free[f] = i
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				regs[v] = n
				n++
			}
		}
	}
	cf.nregs = n
	op := func(v ssa.Value) opnd {
		if v == nil {
			return opnd{kind: 1}
		}
		switch q := v.(type) {
		case *ssa.Const:
			return opnd{kind: 1, v: constVal(q), t: TI(q.Type())}
		case *ssa.Global:
			return opnd{kind: 2, i: P.globalIdx(q), t: TI(q.Type())}
		case *ssa.Function:
			return opnd{kind: 1, v: Val{R: P.fnVal(q)}, t: TI(q.Type())}
		case *ssa.FreeVar:
			return opnd{kind: 3, i: free[q], t: TI(q.Type())}
		case *ssa.Builtin:
			return opnd{kind: 1}
		}
		return opnd{kind: 0, i: regs[v], t: TI(v.Type())}
	}
	bm := map[*ssa.BasicBlock]*cBlock{}
	for _, b := range fn.Blocks {
		cb := &cBlock{idx: len(cf.blocks)}
		bm[b] = cb
		cf.blocks = append(cf.blocks, cb)
	}
	if fn.Recover != nil {
		cf.recover_ = bm[fn.Recover]
		if cf.recover_ == nil {
			cb := &cBlock{idx: len(cf.blocks)}
			bm[fn.Recover] = cb
			cf.blocks = append(cf.blocks, cb)
			cf.recover_ = cb
		}
	}
	blocks := fn.Blocks
	for _, b := range blocks {
		cb := bm[b]
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, bm[s])
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, bm[s])
		}
		for _, in := range b.Instrs {
			ci := &cInstr{in: in, dst: -1, pos: in.Pos()}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
				ci.t = TI(v.Type())
			}
			switch q := in.(type) {
			case *ssa.Phi:
				ph := &cPhi{dst: ci.dst, t: ci.t}
				for _, e := range q.Edges {
					ph.edges = append(ph.edges, op(e))
				}
				cb.phis = append(cb.phis, ph)
				continue
			case *ssa.DebugRef:
				continue
			case *ssa.Alloc:
				ci.t2 = TI(q.Type().Underlying().(*types.Pointer).Elem())
			case *ssa.BinOp:
				ci.a, ci.b = op(q.X), op(q.Y)
				ci.t2 = TI(q.X.Type())
			case *ssa.UnOp:
				ci.a = op(q.X)
				ci.t2 = TI(q.X.Type())
			case *ssa.Call:
				P.compCall(ci, &q.Call, op)
			case *ssa.Defer:
				P.compCall(ci, &q.Call, op)
				cf.hasDefer = true
			case *ssa.Go:
				P.compCall(ci, &q.Call, op)
			case *ssa.ChangeInterface:
				ci.a = op(q.X)
			case *ssa.ChangeType:
				ci.a = op(q.X)
			case *ssa.Convert:
				ci.a = op(q.X)
				ci.t2 = TI(q.X.Type())
			case *ssa.MultiConvert:
				ci.a = op(q.X)
				ci.t2 = TI(q.X.Type())
			case *ssa.Extract:
				ci.a = op(q.Tuple)
				ci.idx = q.Index
			case *ssa.Field:
				ci.a = op(q.X)
				st := TI(q.X.Type())
				ci.idx = st.offs[q.Field]
			case *ssa.FieldAddr:
				ci.a = op(q.X)
				st := TI(q.X.Type().Underlying().(*types.Pointer).Elem())
				ci.idx = st.offs[q.Field]
			case *ssa.Index:
				ci.a, ci.b = op(q.X), op(q.Index)
				ci.t2 = TI(q.X.Type())
			case *ssa.IndexAddr:
				ci.a, ci.b = op(q.X), op(q.Index)
				ci.t2 = TI(q.X.Type())
			case *ssa.Lookup:
				ci.a, ci.b = op(q.X), op(q.Index)
				ci.t2 = TI(q.X.Type())
			case *ssa.MakeChan:
				ci.a = op(q.Size)
			case *ssa.MakeClosure:
				ci.fn = q.Fn.(*ssa.Function)
				for _, b := range q.Bindings {
					ci.args = append(ci.args, op(b))
				}
			case *ssa.MakeInterface:
				ci.a = op(q.X)
				ci.t2 = TI(q.X.Type())
			case *ssa.MakeMap:
			case *ssa.MakeSlice:
				ci.a, ci.b = op(q.Len), op(q.Cap)
			case *ssa.MapUpdate:
				ci.a, ci.b, ci.c = op(q.Map), op(q.Key), op(q.Value)
				ci.t2 = TI(q.Map.Type())
			case *ssa.Next:
				ci.a = op(q.Iter)
			case *ssa.Range:
				ci.a = op(q.X)
				ci.t2 = TI(q.X.Type())
			case *ssa.Panic:
				ci.a = op(q.X)
			case *ssa.Return:
				for _, r := range q.Results {
					ci.args = append(ci.args, op(r))
				}
			case *ssa.Select:
				for _, s := range q.States {
					ci.args = append(ci.args, op(s.Chan))
					if s.Send != nil {
						ci.args = append(ci.args, op(s.Send))
					} else {
						ci.args = append(ci.args, opnd{kind: 1})
					}
				}
			case *ssa.Send:
				ci.a, ci.b = op(q.Chan), op(q.X)
			case *ssa.Slice:
				ci.a = op(q.X)
				ci.b = op(q.Low)
				ci.c = op(q.High)
				ci.args = []opnd{op(q.Max)}
				ci.t2 = TI(q.X.Type())
			case *ssa.SliceToArrayPointer:
				ci.a = op(q.X)
			case *ssa.Store:
				ci.a, ci.b = op(q.Addr), op(q.Val)
				ci.t2 = TI(q.Val.Type())
			case *ssa.TypeAssert:
				ci.a = op(q.X)
				ci.t2 = TI(q.AssertedType)
			case *ssa.If:
				ci.a = op(q.Cond)
				ci.merge = &mergeInfo{}
			case *ssa.Jump, *ssa.RunDefers:
			default:
				panic(fmt.Sprintf("unknown instruction %T", in))
			}
			cb.ins = append(cb.ins, ci)
		}
	}
	P.analyseMerges(cf)
}

func (P *Program) compCall(ci *cInstr, c *ssa.CallCommon, op func(ssa.Value) opnd) {
	ci.call = c
	if c.IsInvoke() {
		ci.a = op(c.Value)
	} else if f, ok := c.Value.(*ssa.Function); ok {
		ci.fn = f
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		ci.a = op(c.Value)
	}
	for _, a := range c.Args {
		ci.args = append(ci.args, op(a))
	}
}

var fnVals sync.Map

func (P *Program) fnVal(f *ssa.Function) *Closure {
	if c, ok := fnVals.Load(f); ok {
		return c.(*Closure)
	}
	c, _ := fnVals.LoadOrStore(f, &Closure{fn: f})
	return c.(*Closure)
}

func constVal(c *ssa.Const) Val {
	t := TI(c.Type())
	if c.Value == nil {
		return zeroVal(t)
	}
	switch t.kind {
	case KBool:
		return BV(constant.BoolVal(c.Value))
	case KInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return KV(uint64(i) & mask(t.w))
		}
		u, _ := constant.Uint64Val(v)
		return KV(u & mask(t.w))
	case KFloat:
		f, _ := constant.Float64Val(c.Value)
		if t.w == wF32 {
			f32, _ := constant.Float32Val(c.Value)
			return KV(uint64(math.Float32bits(f32)))
		}
		return KV(math.Float64bits(f))
	case KString:
		return SV(constant.StringVal(c.Value))
	case KComplex:
		return Val{}
	case KUnsafe:
		return Val{}
	}
	return Val{}
}

// ---- post-dominators and merge regions

func (P *Program) analyseMerges(cf *cFunc) {
	n := len(cf.blocks)
	exit := n
	succ := make([][]int, n+1)
	alive := make([]bool, n+1)
	for i, b := range cf.blocks {
		if len(b.ins) == 0 {
			continue
		}
		switch b.ins[len(b.ins)-1].in.(type) {
		case *ssa.Return:
			succ[i] = []int{exit}
		case *ssa.Panic:
		default:
			for _, s := range b.succs {
				succ[i] = append(succ[i], s.idx)
			}
		}
	}
	// blocks that can reach exit
	pred := make([][]int, n+1)
	for i := range succ {
		for _, s := range succ[i] {
			pred[s] = append(pred[s], i)
		}
	}
	alive[exit] = true
	st := []int{exit}
	for len(st) > 0 {
		v := st[len(st)-1]
		st = st[:len(st)-1]
		for _, p := range pred[v] {
			if !alive[p] {
				alive[p] = true
				st = append(st, p)
			}
		}
	}
	// iterative post-dominator sets (small functions)
	if n > 600 {
		return
	}
	words := (n + 64) / 64
	pd := make([][]uint64, n+1)
	for i := range pd {
		pd[i] = make([]uint64, words)
		if i != exit {
			for k := range pd[i] {
				pd[i][k] = ^uint64(0)
			}
		} else {
			pd[i][exit/64] |= 1 << uint(exit%64)
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			if !alive[i] {
				continue
			}
			nw := make([]uint64, words)
			for k := range nw {
				nw[k] = ^uint64(0)
			}
			for _, s := range succ[i] {
				if !alive[s] {
					continue
				}
				for k := range nw {
					nw[k] &= pd[s][k]
				}
			}
			nw[i/64] |= 1 << uint(i%64)
			for k := range nw {
				if nw[k] != pd[i][k] {
					ch = true
				}
			}
			pd[i] = nw
		}
	}
	count := func(b []uint64) int {
		c := 0
		for i := 0; i <= n; i++ {
			if b[i/64]>>uint(i%64)&1 != 0 {
				c++
			}
		}
		return c
	}
	for i, b := range cf.blocks {
		if len(b.ins) == 0 || !alive[i] {
			continue
		}
		ci := b.ins[len(b.ins)-1]
		if ci.merge == nil {
			continue
		}
		if !alive[b.succs[0].idx] || !alive[b.succs[1].idx] {
			continue // one arm panics
		}
		// immediate post-dominator: the one with the most post-dominators
		best, bc := -1, -1
		for j := 0; j <= n; j++ {
			if j != i && pd[i][j/64]>>uint(j%64)&1 != 0 {
				if c := count(pd[j]); c > bc {
					best, bc = j, c
				}
			}
		}
		if best < 0 {
			continue
		}
		if best == exit && cf.hasDefer {
			continue
		}
		// region must not contain a cycle
		if P.cyclic(succ, i, best) {
			continue
		}
		ci.merge.ok = true
		if best != exit {
			ci.merge.join = cf.blocks[best]
		}
	}
}

// cyclic reports whether block i is reachable from its successors without
// passing the join (i.e. the branch controls a loop).
func (P *Program) cyclic(succ [][]int, i, join int) bool {
	seen := map[int]bool{}
	var dfs func(v int) bool
	dfs = func(v int) bool {
		if v == i {
			return true
		}
		if v == join || seen[v] {
			return false
		}
		seen[v] = true
		for _, s := range succ[v] {
			if dfs(s) {
				return true
			}
		}
		return false
	}
	for _, s := range succ[i] {
		if dfs(s) {
			return true
		}
	}
	return false
}

func isRepoFn(P *Program, fn *ssa.Function) bool {
	if fn.Pkg == nil {
		if o := fn.Origin(); o != nil && o != fn {
			return isRepoFn(P, o)
		}
		if fn.Parent() != nil {
			return isRepoFn(P, fn.Parent())
		}
		return false
	}
	p := fn.Pkg.Pkg.Path()
	return strings.HasPrefix(p, P.repoMod) && !strings.Contains(p, "/zzverif/")
}
