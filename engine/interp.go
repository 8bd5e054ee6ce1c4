package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (m *Machine) get(fr *Frame, o *opnd) Val {
	switch o.kind {
	case 0:
		return fr.regs[o.i]
	case 1:
		return o.v
	case 2:
		return m.global(o.i)
	}
	return fr.env[o.i]
}

const maxDepth = 2000

func (m *Machine) callFn(g *G, caller *Frame, fn *ssa.Function, args []Val, env []Val) Val {
	cf := m.P.cfunc(fn)
	return m.callCF(g, caller, cf, args, env)
}

func (m *Machine) callCF(g *G, caller *Frame, cf *cFunc, args []Val, env []Val) Val {
	if cf.intr != nil {
		m.steps++
		if v := cf.intr(m, g, caller, cf.fn, args); v.R != any(fallThrough) {
			return v
		}
	}
	fn := cf.fn
	if len(cf.blocks) == 0 {
		panic(unsup("external function %s", cf.name))
	}
	if fn.Synthetic == "package initializer" {
		if caller != nil {
			if m.P.isLazy(fn.Pkg) {
				return Val{}
			}
			m.ensureInit(fn.Pkg)
			return Val{}
		}
	} else if fn.Pkg != nil && m.pkgState[fn.Pkg] == 0 {
		m.ensureInit(fn.Pkg)
	}
	fr := &Frame{c: cf, regs: make([]Val, cf.nregs), env: env, caller: caller}
	copy(fr.regs, args)
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > maxDepth {
			panic(&pathEnd{"stack depth"})
		}
	}
	cf.called.Add(1)
	if m.memYield && g != nil {
		g.fr = fr
		defer func() { g.fr = caller }()
	}
	if !cf.hasDefer {
		r := m.run(g, fr, cf.blocks[0], nil)
		return r.val
	}
	return m.runWithDefers(g, fr)
}

// isLazy: packages outside the code under test are initialised on demand.
func (P *Program) isLazy(p *ssa.Package) bool {
	path := p.Pkg.Path()
	return !(len(path) >= len(P.repoMod) && path[:len(P.repoMod)] == P.repoMod)
}

func (m *Machine) runWithDefers(g *G, fr *Frame) (res Val) {
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(*targetPanic)
			if !ok {
				panic(r)
			}
			if m.specDepth > 0 {
				panic(r)
			}
			fr.panicking = tp
			m.runDefers(g, fr)
			if fr.panicking != nil {
				panic(fr.panicking)
			}
			// recovered
			if fr.c.recover_ != nil {
				res = m.run(g, fr, fr.c.recover_, nil).val
			} else {
				res = zeroVal(fr.c.res)
			}
		}()
		res = m.run(g, fr, fr.c.blocks[0], nil).val
	}()
	return res
}

func (m *Machine) runDefers(g *G, fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if tp, ok := r.(*targetPanic); ok {
						fr.panicking = tp // replaces
						return
					}
					panic(r)
				}
			}()
			if d.bi != nil {
				m.builtin(g, fr, d.bi, d.call, d.args, nil)
				return
			}
			m.callValue(g, fr, d.fn, d.args)
		}()
	}
}

// callValue calls a func value. The callee frame's caller is fr; recover()
// looks at caller frames' panicking state.
func (m *Machine) callValue(g *G, fr *Frame, f Val, args []Val) Val {
	c, ok := f.R.(*Closure)
	if !ok {
		if f.R == nil {
			m.rtPanic("invalid memory address or nil pointer dereference (nil func)")
		}
		panic(unsup("call of %T", f.R))
	}
	if c.nat != nil {
		return c.nat(m, g, args)
	}
	return m.callFn(g, fr, c.fn, args, c.env)
}

type runRes struct {
	val    Val
	phis   []Val // set when stopped at a join block
	atJoin bool
}

// run executes from block b. If stop != nil execution ends on entry to stop,
// returning its phi values.
func (m *Machine) run(g *G, fr *Frame, b *cBlock, stop *cBlock) runRes {
	return m.runFrom(g, fr, b, nil, stop)
}

func (m *Machine) evalPhis(fr *Frame, b, prev *cBlock) []Val {
	if len(b.phis) == 0 {
		return nil
	}
	k := -1
	for i, p := range b.preds {
		if p == prev {
			k = i
			break
		}
	}
	out := make([]Val, len(b.phis))
	for i, ph := range b.phis {
		out[i] = m.get(fr, &ph.edges[k])
	}
	return out
}

func (m *Machine) setPhis(fr *Frame, b *cBlock, v []Val) {
	for i, ph := range b.phis {
		fr.regs[ph.dst] = v[i]
	}
}

func (m *Machine) runFrom(g *G, fr *Frame, b *cBlock, prev *cBlock, stop *cBlock) runRes {
	first := true
blocks:
	for {
		if !first || prev != nil {
			if b == stop {
				return runRes{phis: m.evalPhis(fr, b, prev), atJoin: true}
			}
			if len(b.phis) > 0 {
				m.setPhis(fr, b, m.evalPhis(fr, b, prev))
			}
		}
		first = false
	body:
		if !b.covered.Load() {
			b.covered.Store(true)
		}
		m.steps += int64(len(b.ins))
		m.stats.Instr += int64(len(b.ins))
		if m.specDepth > 0 {
			m.specSteps -= len(b.ins)
			if m.specSteps < 0 {
				panic(&specAbort{"steps"})
			}
		}
		if m.steps > m.P.maxSteps || m.steps&0xfff < int64(len(b.ins)) {
			m.checkLimits()
		}
		for _, ci := range b.ins {
			switch in := ci.in.(type) {
			case *ssa.Jump:
				prev, b = b, b.succs[0]
				continue blocks
			case *ssa.If:
				c := m.get(fr, &ci.a)
				if c.R == nil {
					prev = b
					if c.N != 0 {
						b = b.succs[0]
					} else {
						b = b.succs[1]
					}
					continue blocks
				}
				d := m.decideIf(g, fr, ci, b, c.R.(*Expr))
				switch d.kind {
				case 0, 1:
					prev = b
					b = b.succs[d.kind]
					continue blocks
				case 2: // merged at join block
					j := ci.merge.join
					if j == stop {
						return runRes{phis: d.vals, atJoin: true}
					}
					m.setPhis(fr, j, d.vals)
					b = j
					goto body
				case 3: // merged return
					return runRes{val: d.vals[0]}
				}
			case *ssa.Return:
				var v Val
				switch len(ci.args) {
				case 0:
				case 1:
					v = m.get(fr, &ci.args[0])
				default:
					t := &Tuple{make([]Val, len(ci.args))}
					for i := range ci.args {
						t.v[i] = m.get(fr, &ci.args[i])
					}
					v = Val{R: t}
				}
				return runRes{val: v}
			case *ssa.Panic:
				v := m.get(fr, &ci.a)
				panic(&targetPanic{v: v, msg: "panic: " + m.showPanic(v), pos: m.posOf(fr, ci)})
			case *ssa.RunDefers:
				if len(fr.defers) > 0 {
					m.noSpec("defer")
					m.runDefers(g, fr)
					if fr.panicking != nil {
						p := fr.panicking
						fr.panicking = nil
						panic(p)
					}
				}
			default:
				m.exec(g, fr, ci, in)
			}
		}
		panic(fmt.Sprintf("fell off block %d of %s", b.idx, fr.c.name))
	}
}

func (m *Machine) posOf(fr *Frame, ci *cInstr) string {
	p := m.P.prog.Fset.Position(ci.pos)
	return fmt.Sprintf("%s:%d (%s)", p.Filename, p.Line, fr.c.name)
}

type ifRes struct {
	kind int
	vals []Val
}

// decideIf resolves a symbolic branch: forced, merged or forked.
func (m *Machine) decideIf(g *G, fr *Frame, ci *cInstr, blk *cBlock, c *Expr) ifRes {
	sd := func(b bool) ifRes {
		if b {
			return ifRes{kind: 0}
		}
		return ifRes{kind: 1}
	}
	mi := ci.merge
	if m.replaying() {
		if m.prefix[len(m.trace)] != dMerge {
			return sd(m.branch(c))
		}
		m.trace = append(m.trace, dMerge)
		var md [2]Model
		md[0], md[1] = m.model, m.model
		res, ok := m.merge(g, fr, ci, blk, c, md)
		if !ok {
			panic("trace mismatch: merge failed on replay in " + fr.c.name)
		}
		return res
	}
	m.stats.Branches++
	tv := m.evalB(c)
	oc := c
	if tv {
		oc = m.x.Not(c)
	}
	r, md := m.query(oc)
	if r != Sat {
		d := int32(dF)
		if tv {
			d = dT
		}
		if r == Unknown {
			d += 2
			m.addPC(m.x.Not(oc))
		}
		m.trace = append(m.trace, d)
		return sd(tv)
	}
	if mi.ok && !m.noMerge && m.P.mergeOn && (mi.fails.Load() < 4 || mi.wins.Load()*2 > mi.fails.Load()) {
		tl := len(m.trace)
		m.trace = append(m.trace, dMerge)
		var mds [2]Model
		if tv {
			mds = [2]Model{m.model, md}
		} else {
			mds = [2]Model{md, m.model}
		}
		save := m.model
		res, ok := m.merge(g, fr, ci, blk, c, mds)
		m.setModel(save)
		if ok {
			mi.wins.Add(1)
			m.stats.Merges++
			return res
		}
		mi.fails.Add(1)
		m.trace = m.trace[:tl]
	}
	return sd(m.forkBranch(c, tv, md))
}

type cellKey struct {
	o *Obj
	i int
}

// merge executes both arms of a branch speculatively and joins the results.
func (m *Machine) merge(g *G, fr *Frame, ci *cInstr, blk *cBlock, c *Expr, mds [2]Model) (res ifRes, ok bool) {
	pcLen := len(m.pc)
	jstart := len(m.journal)
	saveMark, saveSteps := m.specMark, m.specSteps
	saveModel := m.model
	nd := len(fr.defers)
	var diffs [2]map[cellKey]Val
	var outs [2]runRes
	if m.specDepth == 0 {
		m.specSteps = 20000
	}
	m.specDepth++
	if m.nextObj > m.specMark {
		m.specMark = m.nextObj
	}
	restore := func() {
		m.undoTo(jstart)
		m.pc = m.pc[:pcLen]
		m.setModel(saveModel)
		m.specDepth--
		m.specMark = saveMark
		if m.specDepth == 0 {
			m.specSteps = saveSteps
		}
		fr.defers = fr.defers[:nd]
	}
	failed := func() (bad bool) {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case *specAbort, *targetPanic, *pathEnd:
					bad = true
				default:
					panic(r)
				}
			}
		}()
		for arm := 0; arm < 2; arm++ {
			cond := c
			if arm == 1 {
				cond = m.x.Not(c)
			}
			m.pc = append(m.pc[:pcLen:pcLen], cond)
			m.setModel(mds[arm])
			outs[arm] = m.runFrom(g, fr, blk.succs[arm], blk, ci.merge.join)
			d := map[cellKey]Val{}
			for _, j := range m.journal[jstart:] {
				if j.undo != nil {
					return true
				}
				d[cellKey{j.o, j.i}] = j.o.cells[j.i]
			}
			diffs[arm] = d
			m.undoTo(jstart)
		}
		return false
	}()
	restore()
	if failed {
		return ifRes{}, false
	}
	// merge phi / return values
	var vals []Val
	if ci.merge.join != nil {
		if !outs[0].atJoin || !outs[1].atJoin {
			return ifRes{}, false
		}
		vals = make([]Val, len(outs[0].phis))
		for i := range vals {
			v, ok := m.mergeTyped(c, outs[0].phis[i], outs[1].phis[i], ci.merge.join.phis[i].t)
			if !ok {
				return ifRes{}, false
			}
			vals[i] = v
		}
		res = ifRes{kind: 2, vals: vals}
	} else {
		if outs[0].atJoin || outs[1].atJoin {
			return ifRes{}, false
		}
		var v Val
		if len(fr.c.res.fields) > 0 || fr.c.res.kind != KTuple {
			var ok bool
			v, ok = m.mergeTyped(c, outs[0].val, outs[1].val, fr.c.res)
			if !ok {
				return ifRes{}, false
			}
		}
		res = ifRes{kind: 3, vals: []Val{v}}
	}
	// merge heap
	type upd struct {
		k cellKey
		v Val
	}
	var ups []upd
	for arm := 0; arm < 2; arm++ {
		for k, va := range diffs[arm] {
			if arm == 1 {
				if _, dup := diffs[0][k]; dup {
					continue
				}
			}
			vb, okb := diffs[1-arm][k]
			if !okb {
				vb = k.o.cells[k.i]
			}
			t, f := va, vb
			if arm == 1 {
				t, f = vb, va
			}
			v, ok := m.mergeCell(c, t, f, k.o.leaf(k.i))
			if !ok {
				return ifRes{}, false
			}
			ups = append(ups, upd{k, v})
		}
	}
	for _, u := range ups {
		m.setCell(u.k.o, u.k.i, u.v)
	}
	return res, true
}

func (m *Machine) showPanic(v Val) string {
	if v.R == nil {
		return "nil"
	}
	ifc, ok := v.R.(*Iface)
	if !ok {
		return fmt.Sprintf("%T", v.R)
	}
	if ifc.t.kind == KString {
		if s, ok := concStr(ifc.v); ok {
			return s
		}
	}
	if e, ok := m.errText(v); ok {
		return e
	}
	if ifc.v.R == nil && ifc.t.scalar() {
		return fmt.Sprintf("%s(%d)", ifc.t, ifc.v.N)
	}
	return ifc.t.String()
}

func (m *Machine) exec(g *G, fr *Frame, ci *cInstr, in ssa.Instruction) {
	switch q := in.(type) {
	case *ssa.Alloc:
		m.site = ci.pos
		fr.regs[ci.dst] = Val{R: &Ptr{o: m.newObj(ci.t2, ci.t2.n, q.Comment)}}
	case *ssa.BinOp:
		fr.regs[ci.dst] = m.binop(g, q.Op, ci.t2, m.get(fr, &ci.a), m.get(fr, &ci.b), ci.b.t)
	case *ssa.UnOp:
		fr.regs[ci.dst] = m.unop(g, fr, q, ci)
	case *ssa.Call:
		v := m.doCall(g, fr, ci)
		fr.regs[ci.dst] = v
	case *ssa.Defer:
		m.noSpec("defer")
		if b, ok := ci.call.Value.(*ssa.Builtin); ok && !ci.call.IsInvoke() {
			fr.defers = append(fr.defers, deferred{bi: b, call: ci.call, args: m.args(fr, ci)})
			return
		}
		f, args := m.prepCall(g, fr, ci)
		fr.defers = append(fr.defers, deferred{fn: f, args: args})
	case *ssa.Go:
		m.noSpec("go")
		f, args := m.prepCall(g, fr, ci)
		m.spawn(g, f, args, m.posOf(fr, ci))
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = m.get(fr, &ci.a)
	case *ssa.ChangeType:
		fr.regs[ci.dst] = m.get(fr, &ci.a)
	case *ssa.Convert:
		fr.regs[ci.dst] = m.convert(m.get(fr, &ci.a), ci.t2, ci.t)
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = m.convert(m.get(fr, &ci.a), ci.t2, ci.t)
	case *ssa.Extract:
		t := m.get(fr, &ci.a).R.(*Tuple)
		fr.regs[ci.dst] = t.v[ci.idx]
	case *ssa.Field:
		a := m.get(fr, &ci.a)
		if ci.t.n == 0 {
			fr.regs[ci.dst] = zeroVal(ci.t)
			return
		}
		if a.R == nil {
			fr.regs[ci.dst] = zeroVal(ci.t)
			return
		}
		fr.regs[ci.dst] = fromCells(a.R.(*Agg).c[ci.idx:], ci.t)
	case *ssa.FieldAddr:
		a := m.get(fr, &ci.a)
		p, ok := a.R.(*Ptr)
		if !ok {
			if a.R == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			panic(unsup("field address of %T", a.R))
		}
		if ci.idx == 0 {
			fr.regs[ci.dst] = a
		} else {
			fr.regs[ci.dst] = Val{R: &Ptr{p.o, p.off + ci.idx, p.ix}}
		}
	case *ssa.Index:
		m.execIndex(g, fr, ci)
	case *ssa.IndexAddr:
		m.execIndexAddr(g, fr, ci)
	case *ssa.Lookup:
		m.execLookup(g, fr, ci, q.CommaOk)
	case *ssa.MakeChan:
		n := m.concInt(m.get(fr, &ci.a), ci.a.t)
		if n < 0 {
			m.rtPanic("makechan: size out of range")
		}
		m.nextObj++
		fr.regs[ci.dst] = Val{R: &ChanObj{id: m.nextObj, cap_: n, et: ci.t.elem, frozen: m.initMode > 0}}
	case *ssa.MakeClosure:
		c := &Closure{fn: ci.fn}
		for i := range ci.args {
			c.env = append(c.env, m.get(fr, &ci.args[i]))
		}
		fr.regs[ci.dst] = Val{R: c}
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = Val{R: &Iface{ci.t2, m.get(fr, &ci.a)}}
	case *ssa.MakeMap:
		fr.regs[ci.dst] = Val{R: m.newMap(ci.t)}
	case *ssa.MakeSlice:
		m.site = ci.pos
		n := m.lenArg(m.get(fr, &ci.a), ci.a.t, "len")
		c := n
		if ci.b.kind != 0 || ci.b.i != ci.a.i || ci.a.kind != 0 {
			c = m.lenArg(m.get(fr, &ci.b), ci.b.t, "cap")
		}
		if c < n {
			m.rtPanic("makeslice: cap out of range")
		}
		fr.regs[ci.dst] = m.mkSlice(ci.t.elem, n, c)
	case *ssa.MapUpdate:
		m.noSpecMap(m.get(fr, &ci.a))
		m.mapSet(g, m.get(fr, &ci.a), m.get(fr, &ci.b), m.get(fr, &ci.c))
	case *ssa.Next:
		fr.regs[ci.dst] = m.iterNext(g, m.get(fr, &ci.a), q.IsString)
	case *ssa.Range:
		x := m.get(fr, &ci.a)
		if ci.t2.kind == KString {
			fr.regs[ci.dst] = Val{R: &IterObj{isStr: true, str: strBytes(x)}}
		} else {
			it := &IterObj{}
			if mo, ok := x.R.(*MapObj); ok {
				it.m = mo
				for _, e := range mo.ents {
					if e != nil {
						it.keys = append(it.keys, e)
					}
				}
			}
			fr.regs[ci.dst] = Val{R: it}
		}
	case *ssa.Select:
		fr.regs[ci.dst] = m.execSelect(g, fr, ci, q)
	case *ssa.Send:
		m.chanSend(g, m.get(fr, &ci.a), m.get(fr, &ci.b))
	case *ssa.Slice:
		m.execSlice(g, fr, ci, q)
	case *ssa.SliceToArrayPointer:
		a := m.get(fr, &ci.a)
		n := ci.t.elem.alen
		s, _ := a.R.(*SliceV)
		if s == nil {
			if n > 0 {
				m.rtPanic("cannot convert slice to array pointer: length mismatch")
			}
			fr.regs[ci.dst] = Val{}
			return
		}
		if s.len < n {
			m.rtPanic("cannot convert slice to array pointer: length mismatch")
		}
		fr.regs[ci.dst] = Val{R: &Ptr{o: s.o, off: s.off}}
	case *ssa.Store:
		m.storeTo(g, m.get(fr, &ci.a), m.get(fr, &ci.b), ci.t2)
	case *ssa.TypeAssert:
		m.execTypeAssert(fr, ci, q)
	default:
		panic(unsup("instruction %T", in))
	}
}

func (m *Machine) lenArg(v Val, t *TInfo, what string) int {
	if e := v.sym(); e != nil {
		if t.signed {
			m.check(m.x.Not(m.x.Slt(e, m.x.K(0, e.w))), "makeslice: "+what+" out of range")
		}
		m.check(m.x.Ult(e, m.x.K(1<<24&mask(e.w)|b2u(e.w < 25)*mask(e.w), e.w)), "makeslice: "+what+" out of range (huge)")
	}
	n := m.concInt(v, t)
	if n < 0 || n > 1<<26 {
		m.rtPanic("makeslice: " + what + " out of range")
	}
	return n
}

func (m *Machine) mkSlice(et *TInfo, n, c int) Val {
	o := m.newObj(et, c*et.n, "slice")
	return Val{R: &SliceV{o: o, off: 0, len: n, cap_: c}}
}

func (m *Machine) sliceFrom(et *TInfo, vals []Val) Val {
	s := m.mkSlice(et, len(vals), len(vals))
	o := s.R.(*SliceV).o
	for i, v := range vals {
		copy(o.cells[i*et.n:], cellsOf(v, et))
	}
	return s
}

func (m *Machine) args(fr *Frame, ci *cInstr) []Val {
	a := make([]Val, len(ci.args))
	for i := range ci.args {
		a[i] = m.get(fr, &ci.args[i])
	}
	return a
}

func (m *Machine) prepCall(g *G, fr *Frame, ci *cInstr) (Val, []Val) {
	if ci.call.IsInvoke() {
		recv := m.get(fr, &ci.a)
		fn, rv := m.lookupMethod(recv, ci.call.Method)
		return Val{R: m.P.fnVal(fn)}, append([]Val{rv}, m.args(fr, ci)...)
	}
	if ci.fn != nil {
		return Val{R: m.P.fnVal(ci.fn)}, m.args(fr, ci)
	}
	if b, ok := ci.call.Value.(*ssa.Builtin); ok {
		call := ci.call
		return Val{R: &Closure{nat: func(m *Machine, g *G, args []Val) Val {
			return m.builtin(g, fr, b, call, args, nil)
		}}}, m.args(fr, ci)
	}
	return m.get(fr, &ci.a), m.args(fr, ci)
}

func (m *Machine) doCall(g *G, fr *Frame, ci *cInstr) Val {
	if ci.fn != nil {
		if ci.cf == nil {
			ci.cf = m.P.cfunc(ci.fn) // benign race: same value
		}
		args := make([]Val, len(ci.args))
		for i := range ci.args {
			args[i] = m.get(fr, &ci.args[i])
		}
		return m.callCF(g, fr, ci.cf, args, nil)
	}
	if ci.call.IsInvoke() {
		recv := m.get(fr, &ci.a)
		fn, rv := m.lookupMethod(recv, ci.call.Method)
		args := make([]Val, len(ci.args)+1)
		args[0] = rv
		for i := range ci.args {
			args[i+1] = m.get(fr, &ci.args[i])
		}
		return m.callFn(g, fr, fn, args, nil)
	}
	if b, ok := ci.call.Value.(*ssa.Builtin); ok {
		m.site = ci.pos
		return m.builtin(g, fr, b, ci.call, m.args(fr, ci), ci)
	}
	return m.callValue(g, fr, m.get(fr, &ci.a), m.args(fr, ci))
}

type methKey struct {
	t *TInfo
	f *types.Func
}

func (m *Machine) lookupMethod(recv Val, meth *types.Func) (*ssa.Function, Val) {
	ifc, ok := recv.R.(*Iface)
	if !ok {
		if recv.R == nil {
			m.rtPanic("invalid memory address or nil pointer dereference (method " + meth.Name() + " on nil interface)")
		}
		panic(unsup("invoke on %T", recv.R))
	}
	k := methKey{ifc.t, meth}
	if f, ok := m.P.mcache.Load(k); ok {
		return f.(*ssa.Function), ifc.v
	}
	f := m.P.prog.LookupMethod(ifc.t.typ, meth.Pkg(), meth.Name())
	if f == nil {
		panic(unsup("no method %s on %s", meth.Name(), ifc.t))
	}
	m.P.mcache.Store(k, f)
	return f, ifc.v
}

// methodOf finds a method by name on an interface value, nil if absent.
func (m *Machine) methodOf(v Val, name string) *ssa.Function {
	ifc, ok := v.R.(*Iface)
	if !ok {
		return nil
	}
	ms := m.P.prog.MethodSets.MethodSet(ifc.t.typ)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name {
			return m.P.prog.MethodValue(s)
		}
	}
	return nil
}

func (m *Machine) unop(g *G, fr *Frame, q *ssa.UnOp, ci *cInstr) Val {
	a := m.get(fr, &ci.a)
	switch q.Op {
	case token.MUL:
		return m.load(g, a, ci.t)
	case token.ARROW:
		v, ok := m.chanRecv(g, a)
		if q.CommaOk {
			return Val{R: &Tuple{[]Val{v, BV(ok)}}}
		}
		return v
	case token.NOT:
		if a.R == nil {
			return KV(1 - a.N)
		}
		return EV(m.x.Not(a.R.(*Expr)))
	case token.SUB:
		if ci.t.kind == KFloat {
			if a.R == nil {
				return KV(evalFUn(OFNeg, a.N, ci.t.w, ci.t.w, 0))
			}
			return EV(m.x.FUn(OFNeg, a.R.(*Expr), ci.t.w, 0))
		}
		if a.R == nil {
			return KV(-a.N & mask(ci.t.w))
		}
		return EV(m.x.Neg(a.R.(*Expr)))
	case token.XOR:
		if a.R == nil {
			return KV(^a.N & mask(ci.t.w))
		}
		return EV(m.x.BNot(a.R.(*Expr)))
	}
	panic(unsup("unop %s", q.Op))
}

func (m *Machine) binop(g *G, op token.Token, t *TInfo, a, b Val, bt *TInfo) Val {
	switch t.kind {
	case KInt:
		return m.intop(op, t, a, b, bt)
	case KBool:
		if a.R == nil && b.R == nil {
			switch op {
			case token.EQL:
				return BV(a.N == b.N)
			case token.NEQ:
				return BV(a.N != b.N)
			case token.AND:
				return KV(a.N & b.N)
			case token.OR:
				return KV(a.N | b.N)
			}
		}
		x, y := m.ex(a, wBool), m.ex(b, wBool)
		switch op {
		case token.EQL:
			return EV(m.x.Eq(x, y))
		case token.NEQ:
			return EV(m.x.Not(m.x.Eq(x, y)))
		case token.AND:
			return EV(m.x.And(x, y))
		case token.OR:
			return EV(m.x.Or(x, y))
		}
	case KFloat:
		return m.floatop(op, t, a, b)
	case KString:
		switch op {
		case token.ADD:
			sa, oka := concStr(a)
			sb, okb := concStr(b)
			if oka && okb {
				return SV(sa + sb)
			}
			return mkStr(append(append([]Val{}, strBytes(a)...), strBytes(b)...))
		case token.EQL:
			return EV(m.eqStr(a, b))
		case token.NEQ:
			return EV(m.x.Not(m.eqStr(a, b)))
		case token.LSS:
			return EV(m.ltStr(a, b))
		case token.GTR:
			return EV(m.ltStr(b, a))
		case token.LEQ:
			return EV(m.x.Not(m.ltStr(b, a)))
		case token.GEQ:
			return EV(m.x.Not(m.ltStr(a, b)))
		}
	}
	switch op {
	case token.EQL:
		return EV(m.eq(t, bt, a, b))
	case token.NEQ:
		return EV(m.x.Not(m.eq(t, bt, a, b)))
	}
	panic(unsup("binop %s on %s", op, t))
}

func (m *Machine) intop(op token.Token, t *TInfo, a, b Val, bt *TInfo) Val {
	w := t.w
	if op == token.SHL || op == token.SHR {
		return m.shift(op, t, a, b, bt)
	}
	if a.R == nil && b.R == nil {
		x, y := a.N, b.N
		switch op {
		case token.ADD:
			return KV((x + y) & mask(w))
		case token.SUB:
			return KV((x - y) & mask(w))
		case token.MUL:
			return KV((x * y) & mask(w))
		case token.QUO:
			if y == 0 {
				m.rtPanic("integer divide by zero")
			}
			if t.signed {
				return KV(evalBin(OSDiv, x, y, w))
			}
			return KV(x / y)
		case token.REM:
			if y == 0 {
				m.rtPanic("integer divide by zero")
			}
			if t.signed {
				return KV(evalBin(OSRem, x, y, w))
			}
			return KV(x % y)
		case token.AND:
			return KV(x & y)
		case token.OR:
			return KV(x | y)
		case token.XOR:
			return KV(x ^ y)
		case token.AND_NOT:
			return KV(x &^ y)
		case token.EQL:
			return BV(x == y)
		case token.NEQ:
			return BV(x != y)
		}
		if t.signed {
			p, q := sx(x, w), sx(y, w)
			switch op {
			case token.LSS:
				return BV(p < q)
			case token.LEQ:
				return BV(p <= q)
			case token.GTR:
				return BV(p > q)
			case token.GEQ:
				return BV(p >= q)
			}
		}
		switch op {
		case token.LSS:
			return BV(x < y)
		case token.LEQ:
			return BV(x <= y)
		case token.GTR:
			return BV(x > y)
		case token.GEQ:
			return BV(x >= y)
		}
		panic(unsup("int op %s", op))
	}
	c := m.x
	x, y := m.ex(a, w), m.ex(b, w)
	switch op {
	case token.ADD:
		return EV(c.Add(x, y))
	case token.SUB:
		return EV(c.Sub(x, y))
	case token.MUL:
		return EV(c.Mul(x, y))
	case token.QUO, token.REM:
		m.check(c.Not(c.Eq(y, c.K(0, w))), "integer divide by zero")
		o := OUDiv
		if op == token.QUO && t.signed {
			o = OSDiv
		} else if op == token.REM {
			o = OURem
			if t.signed {
				o = OSRem
			}
		}
		return EV(c.DivRem(o, x, y))
	case token.AND:
		return EV(c.BAnd(x, y))
	case token.OR:
		return EV(c.BOr(x, y))
	case token.XOR:
		return EV(c.BXor(x, y))
	case token.AND_NOT:
		return EV(c.BAnd(x, c.BNot(y)))
	case token.EQL:
		return EV(c.Eq(x, y))
	case token.NEQ:
		return EV(c.Not(c.Eq(x, y)))
	}
	lt := c.Ult
	if t.signed {
		lt = c.Slt
	}
	switch op {
	case token.LSS:
		return EV(lt(x, y))
	case token.GTR:
		return EV(lt(y, x))
	case token.LEQ:
		return EV(c.Not(lt(y, x)))
	case token.GEQ:
		return EV(c.Not(lt(x, y)))
	}
	panic(unsup("int op %s", op))
}

func (m *Machine) shift(op token.Token, t *TInfo, a, b Val, bt *TInfo) Val {
	w := t.w
	c := m.x
	if b.R == nil {
		n := b.N
		if bt.signed && sx(n, bt.w) < 0 {
			m.rtPanic("negative shift amount")
		}
		if a.R == nil {
			switch {
			case op == token.SHL:
				if n >= 64 {
					return KV(0)
				}
				return KV(a.N << n & mask(w))
			case t.signed:
				if n > 63 {
					n = 63
				}
				return KV(uint64(sx(a.N, w)>>n) & mask(w))
			default:
				if n >= 64 {
					return KV(0)
				}
				return KV(a.N >> n)
			}
		}
		x := m.ex(a, w)
		if n >= uint64(w) {
			if op == token.SHR && t.signed {
				return EV(c.Ashr(x, c.K(uint64(w-1), w)))
			}
			return KV(0)
		}
		s := c.K(n, w)
		switch {
		case op == token.SHL:
			return EV(c.Shl(x, s))
		case t.signed:
			return EV(c.Ashr(x, s))
		}
		return EV(c.Lshr(x, s))
	}
	s := m.ex(b, bt.w)
	if bt.signed {
		m.check(c.Not(c.Slt(s, c.K(0, bt.w))), "negative shift amount")
	}
	x := m.ex(a, w)
	big := c.F
	if bt.w > w {
		big = c.Not(c.Ult(s, c.K(uint64(w), bt.w)))
		s = c.Extract(s, w-1, 0)
	} else {
		s = c.Zext(s, w)
	}
	var r, rb *Expr
	switch {
	case op == token.SHL:
		r, rb = c.Shl(x, s), c.K(0, w)
	case t.signed:
		r, rb = c.Ashr(x, s), c.Ashr(x, c.K(uint64(w-1), w))
	default:
		r, rb = c.Lshr(x, s), c.K(0, w)
	}
	return EV(c.Ite(big, rb, r))
}

func (m *Machine) floatop(op token.Token, t *TInfo, a, b Val) Val {
	c := m.x
	x, y := m.ex(a, t.w), m.ex(b, t.w)
	switch op {
	case token.ADD:
		return EV(c.FBin(OFAdd, x, y))
	case token.SUB:
		return EV(c.FBin(OFSub, x, y))
	case token.MUL:
		return EV(c.FBin(OFMul, x, y))
	case token.QUO:
		return EV(c.FBin(OFDiv, x, y))
	case token.EQL:
		return EV(c.FBin(OFEq, x, y))
	case token.NEQ:
		return EV(c.Not(c.FBin(OFEq, x, y)))
	case token.LSS:
		return EV(c.FBin(OFLt, x, y))
	case token.GTR:
		return EV(c.FBin(OFLt, y, x))
	case token.LEQ:
		return EV(c.FBin(OFLe, x, y))
	case token.GEQ:
		return EV(c.FBin(OFLe, y, x))
	}
	panic(unsup("float op %s", op))
}

func (m *Machine) eqStr(a, b Val) *Expr {
	sa, oka := concStr(a)
	sb, okb := concStr(b)
	if oka && okb {
		return m.x.B(sa == sb)
	}
	if strLen(a) != strLen(b) {
		return m.x.F
	}
	x, y := strBytes(a), strBytes(b)
	r := m.x.T
	for i := range x {
		r = m.x.And(r, m.x.Eq(m.ex(x[i], 8), m.ex(y[i], 8)))
	}
	return r
}

func (m *Machine) ltStr(a, b Val) *Expr {
	sa, oka := concStr(a)
	sb, okb := concStr(b)
	if oka && okb {
		return m.x.B(sa < sb)
	}
	x, y := strBytes(a), strBytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := m.x.B(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		p, q := m.ex(x[i], 8), m.ex(y[i], 8)
		r = m.x.Or(m.x.Ult(p, q), m.x.And(m.x.Eq(p, q), r))
	}
	return r
}

// eq compares two values of (possibly differing interface/concrete) types.
func (m *Machine) eq(ta, tb *TInfo, a, b Val) *Expr {
	if tb != nil && ta != tb && (ta.kind == KIface) != (tb.kind == KIface) {
		if ta.kind == KIface {
			b = Val{R: &Iface{tb, b}}
		} else {
			a = Val{R: &Iface{ta, a}}
			ta = tb
		}
	}
	switch ta.kind {
	case KBool, KInt:
		return m.x.Eq(m.ex(a, ta.w), m.ex(b, ta.w))
	case KFloat:
		return m.x.FBin(OFEq, m.ex(a, ta.w), m.ex(b, ta.w))
	case KString:
		return m.eqStr(a, b)
	case KIface:
		if a.R == nil || b.R == nil {
			return m.x.B(a.R == nil && b.R == nil)
		}
		p, q := a.R.(*Iface), b.R.(*Iface)
		if p.t != q.t {
			return m.x.F
		}
		if !types.Comparable(p.t.typ) {
			m.rtPanic("comparing uncomparable type " + p.t.String())
		}
		return m.eq(p.t, nil, p.v, q.v)
	case KStruct:
		r := m.x.T
		ca, cb := cellsOf(a, ta), cellsOf(b, ta)
		st := ta.typ.Underlying().(*types.Struct)
		for i, f := range ta.fields {
			if st.Field(i).Name() == "_" || f.n == 0 {
				continue
			}
			r = m.x.And(r, m.eq(f, nil, fromCells(ca[ta.offs[i]:], f), fromCells(cb[ta.offs[i]:], f)))
		}
		return r
	case KArray:
		r := m.x.T
		ca, cb := cellsOf(a, ta), cellsOf(b, ta)
		en := ta.elem.n
		for i := 0; i < ta.alen && en > 0; i++ {
			r = m.x.And(r, m.eq(ta.elem, nil, fromCells(ca[i*en:], ta.elem), fromCells(cb[i*en:], ta.elem)))
		}
		return r
	}
	return m.x.B(m.refEq(a, b))
}

func (m *Machine) refEq(a, b Val) bool {
	if a.R == nil || b.R == nil {
		return a.R == nil && b.R == nil && a.N == b.N
	}
	if p, ok := a.R.(*Ptr); ok {
		q, ok := b.R.(*Ptr)
		if !ok || p.o != q.o {
			return false
		}
		p, q = m.concPtr(p), m.concPtr(q)
		return p.off == q.off
	}
	return a.R == b.R
}

func (m *Machine) convert(v Val, from, to *TInfo) Val {
	switch {
	case from.kind == KInt && to.kind == KInt:
		if v.R == nil {
			if from.signed {
				return KV(uint64(sx(v.N, from.w)) & mask(to.w))
			}
			return KV(v.N & mask(to.w))
		}
		if _, ok := v.R.(*Expr); !ok {
			return v // pointer carried through uintptr
		}
		e := m.ex(v, from.w)
		if to.w <= from.w {
			return EV(m.x.Extract(e, to.w-1, 0))
		}
		if from.signed {
			return EV(m.x.Sext(e, to.w))
		}
		return EV(m.x.Zext(e, to.w))
	case from.kind == KInt && to.kind == KFloat:
		op := OU2F
		if from.signed {
			op = OS2F
		}
		if v.R == nil {
			return KV(evalFUn(op, v.N, from.w, to.w, 0))
		}
		return EV(m.x.FUn(op, m.ex(v, from.w), to.w, 0))
	case from.kind == KFloat && to.kind == KInt:
		op := OF2U
		if to.signed {
			op = OF2S
		}
		if v.R == nil {
			return KV(evalFUn(op, v.N, from.w, to.w, 0) & mask(to.w))
		}
		return EV(m.x.FUn(op, m.ex(v, from.w), to.w, 0))
	case from.kind == KFloat && to.kind == KFloat:
		if from.w == to.w {
			return v
		}
		if v.R == nil {
			return KV(evalFUn(OF2F, v.N, from.w, to.w, 0))
		}
		return EV(m.x.FUn(OF2F, m.ex(v, from.w), to.w, 0))
	case to.kind == KString && from.kind == KInt:
		r := rune(m.concInt(v, from))
		return SV(string(r))
	case to.kind == KString && from.kind == KString:
		return v
	case to.kind == KString && from.kind == KSlice:
		s, _ := v.R.(*SliceV)
		if s == nil {
			return SV("")
		}
		if from.elem.w == 8 {
			return mkStr(append([]Val{}, s.o.cells[s.off:s.off+s.len]...))
		}
		var sb []byte
		for i := 0; i < s.len; i++ {
			c := s.o.cells[s.off+i]
			if e := c.sym(); e != nil {
				k := m.concretize(e)
				sb = utf8.AppendRune(sb, rune(int32(k)))
			} else {
				sb = utf8.AppendRune(sb, rune(int32(c.N)))
			}
		}
		return SV(string(sb))
	case to.kind == KSlice && from.kind == KString:
		if to.elem.w == 8 {
			b := strBytes(v)
			s := m.mkSlice(to.elem, len(b), roundupsize(len(b)))
			copy(s.R.(*SliceV).o.cells, b)
			return s
		}
		var out []Val
		it := Val{R: &IterObj{isStr: true, str: strBytes(v)}}
		for {
			t := m.iterNext(m.cur, it, true).R.(*Tuple)
			if t.v[0].N == 0 {
				break
			}
			out = append(out, t.v[2])
		}
		return m.sliceFrom(to.elem, out)
	case to.kind == KUnsafe || from.kind == KUnsafe:
		return v
	case to.kind == KPtr && from.kind == KPtr:
		return v
	}
	return v
}

func (m *Machine) idxExpr(v Val, t *TInfo) *Expr {
	e := m.ex(v, t.w)
	if t.signed {
		return m.x.Sext(e, 64)
	}
	return m.x.Zext(e, 64)
}

func (m *Machine) execIndexAddr(g *G, fr *Frame, ci *cInstr) {
	a := m.get(fr, &ci.a)
	iv := m.get(fr, &ci.b)
	var o *Obj
	var off, n int
	var base *SymIx
	et := ci.t.elem
	if ci.t2.kind == KSlice {
		if s, ok := a.R.(*SliceV); ok {
			o, off, n = s.o, s.off, s.len
		} else if a.R != nil {
			panic(unsup("index of %T", a.R))
		}
	} else {
		p, ok := a.R.(*Ptr)
		if !ok {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		o, off, n = p.o, p.off, ci.t2.elem.alen
		base = p.ix
	}
	if iv.R == nil {
		i := int64(iv.N)
		if ci.b.t.signed {
			i = sx(iv.N, ci.b.t.w)
		}
		if i < 0 || i >= int64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		fr.regs[ci.dst] = Val{R: &Ptr{o, off + int(i)*et.n, base}}
		return
	}
	idx := m.idxExpr(iv, ci.b.t)
	m.check(m.x.Ult(idx, m.x.K(uint64(n), 64)), fmt.Sprintf("index out of range with length %d", n))
	if base != nil {
		b := m.concretize(base.idx)
		off += int(b) * base.stride
	}
	if idx.isK() {
		fr.regs[ci.dst] = Val{R: &Ptr{o, off + int(idx.k)*et.n, nil}}
		return
	}
	if n == 1 {
		fr.regs[ci.dst] = Val{R: &Ptr{o, off, nil}}
		return
	}
	fr.regs[ci.dst] = Val{R: &Ptr{o, off, &SymIx{idx, et.n, n}}}
}

func (m *Machine) execIndex(g *G, fr *Frame, ci *cInstr) {
	a := m.get(fr, &ci.a)
	iv := m.get(fr, &ci.b)
	if ci.t2.kind == KString {
		fr.regs[ci.dst] = m.strIndex(a, iv, ci.b.t)
		return
	}
	n := ci.t2.alen
	et := ci.t2.elem
	c := cellsOf(a, ci.t2)
	if iv.R == nil {
		i := int(sx(iv.N, ci.b.t.w))
		if !ci.b.t.signed {
			i = int(iv.N)
		}
		if i < 0 || i >= n {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		fr.regs[ci.dst] = fromCells(c[i*et.n:], et)
		return
	}
	idx := m.idxExpr(iv, ci.b.t)
	m.check(m.x.Ult(idx, m.x.K(uint64(n), 64)), fmt.Sprintf("index out of range with length %d", n))
	tmp := &Obj{cells: c, name: "tmp", et: et}
	fr.regs[ci.dst] = m.load(g, Val{R: &Ptr{tmp, 0, &SymIx{idx, et.n, n}}}, et)
}

func (m *Machine) strIndex(a, iv Val, it *TInfo) Val {
	n := strLen(a)
	if iv.R == nil {
		i := int64(iv.N)
		if it.signed {
			i = sx(iv.N, it.w)
		}
		if i < 0 || i >= int64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		switch s := a.R.(type) {
		case string:
			return KV(uint64(s[i]))
		default:
			return strBytes(a)[i]
		}
	}
	idx := m.idxExpr(iv, it)
	m.check(m.x.Ult(idx, m.x.K(uint64(n), 64)), fmt.Sprintf("index out of range with length %d", n))
	tmp := &Obj{cells: strBytes(a), name: "str", et: tByte()}
	v, _ := m.selCell(&Ptr{tmp, 0, &SymIx{idx, 1, n}}, 0, tByte())
	return v
}

func tByte() *TInfo { return TI(types.Typ[types.Uint8]) }
func tInt() *TInfo  { return TI(types.Typ[types.Int]) }
func tStr() *TInfo  { return TI(types.Typ[types.String]) }

// sliceBound resolves an optional bound to a concrete int, checking range.
func (m *Machine) execSlice(g *G, fr *Frame, ci *cInstr, q *ssa.Slice) {
	a := m.get(fr, &ci.a)
	var o *Obj
	var off, ln, cp, en int
	isStr := false
	switch ci.t2.kind {
	case KString:
		isStr = true
		ln = strLen(a)
		cp = ln
		en = 1
	case KSlice:
		en = ci.t2.elem.n
		if s, ok := a.R.(*SliceV); ok {
			o, off, ln, cp = s.o, s.off, s.len, s.cap_
		} else if a.R != nil {
			panic(unsup("slice of %T", a.R))
		}
	case KPtr:
		p, ok := a.R.(*Ptr)
		if !ok {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		p = m.concPtr(p)
		en = ci.t2.elem.elem.n
		o, off, ln = p.o, p.off, ci.t2.elem.alen
		cp = ln
	}
	lo, hi, mx := KV(0), IV(ln), IV(cp)
	lt, ht, mt := tInt(), tInt(), tInt()
	if q.Low != nil {
		lo, lt = m.get(fr, &ci.b), ci.b.t
	}
	if q.High != nil {
		hi, ht = m.get(fr, &ci.c), ci.c.t
	}
	if q.Max != nil {
		mx, mt = m.get(fr, &ci.args[0]), ci.args[0].t
	}
	// all concrete?
	if lo.R != nil || hi.R != nil || mx.R != nil {
		le, he, me := m.idxExpr(lo, lt), m.idxExpr(hi, ht), m.idxExpr(mx, mt)
		ce := m.x.K(uint64(cp), 64)
		if q.Max == nil {
			me = ce
		}
		ok := m.x.And(m.x.Ule(le, he), m.x.And(m.x.Ule(he, me), m.x.Ule(me, ce)))
		m.check(ok, fmt.Sprintf("slice bounds out of range with capacity %d", cp))
		if lo.R != nil {
			lo, lt = KV(m.concretize(le)), tInt()
		}
		if hi.R != nil {
			hi, ht = KV(m.concretize(he)), tInt()
		}
		if mx.R != nil {
			mx, mt = KV(m.concretize(me)), tInt()
		}
	}
	l, h, x := m.concInt(lo, lt), m.concInt(hi, ht), m.concInt(mx, mt)
	if l < 0 || h < l || x < h || x > cp {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, x, cp))
	}
	if isStr {
		if s, ok := a.R.(string); ok {
			fr.regs[ci.dst] = SV(s[l:h])
			return
		}
		fr.regs[ci.dst] = mkStr(strBytes(a)[l:h])
		return
	}
	if o == nil {
		fr.regs[ci.dst] = Val{}
		return
	}
	fr.regs[ci.dst] = Val{R: &SliceV{o: o, off: off + l*en, len: h - l, cap_: x - l}}
}

func (m *Machine) execTypeAssert(fr *Frame, ci *cInstr, q *ssa.TypeAssert) {
	a := m.get(fr, &ci.a)
	ifc, _ := a.R.(*Iface)
	ok := false
	var v Val
	if ifc != nil {
		if ci.t2.kind == KIface {
			ok = m.P.implements(ifc.t, ci.t2)
			v = a
		} else if ifc.t == ci.t2 {
			ok = true
			v = ifc.v
		}
	}
	if !ok {
		v = zeroVal(ci.t2)
	}
	if q.CommaOk {
		fr.regs[ci.dst] = Val{R: &Tuple{[]Val{v, BV(ok)}}}
		return
	}
	if !ok {
		d := "nil"
		if ifc != nil {
			d = ifc.t.String()
		}
		m.rtPanic("interface conversion: interface is " + d + ", not " + ci.t2.String())
	}
	fr.regs[ci.dst] = v
}

type implKey struct{ t, i *TInfo }

func (P *Program) implements(t, i *TInfo) bool {
	k := implKey{t, i}
	if v, ok := P.mcache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t.typ, i.typ.Underlying().(*types.Interface))
	P.mcache.Store(k, r)
	return r
}

// ---- maps

func (m *Machine) newMap(t *TInfo) *MapObj {
	m.nextObj++
	return &MapObj{id: m.nextObj, kt: t.key, vt: t.elem, idx: map[any]int{}, frozen: m.initMode > 0}
}

// mapKey returns a Go-comparable key if the value is fully concrete.
func mapKey(v Val, t *TInfo) (any, bool) {
	switch t.kind {
	case KBool, KInt:
		if v.R != nil {
			return nil, false
		}
		return v.N, true
	case KFloat:
		if v.R != nil {
			return nil, false
		}
		return fval(v.N, t.w), true
	case KString:
		s, ok := concStr(v)
		return s, ok
	case KIface:
		if v.R == nil {
			return nil, true
		}
		i := v.R.(*Iface)
		k, ok := mapKey(i.v, i.t)
		return [2]any{i.t, k}, ok
	case KPtr, KUnsafe:
		if v.R == nil {
			return nil, true
		}
		p, ok := v.R.(*Ptr)
		if !ok {
			return v.R, true
		}
		if p.ix != nil {
			return nil, false
		}
		return [2]any{p.o, p.off}, true
	case KStruct, KArray:
		s := ""
		c := cellsOf(v, t)
		if t.kind == KStruct {
			for i, f := range t.fields {
				if f.n == 0 {
					continue
				}
				k, ok := mapKey(fromCells(c[t.offs[i]:], f), f)
				if !ok {
					return nil, false
				}
				s += fmt.Sprintf("%T:%v|", k, k)
			}
		} else {
			for i := 0; i < t.alen; i++ {
				k, ok := mapKey(fromCells(c[i*t.elem.n:], t.elem), t.elem)
				if !ok {
					return nil, false
				}
				s += fmt.Sprintf("%T:%v|", k, k)
			}
		}
		return s, true
	}
	return v.R, true
}

// mapFind returns the entry equal to key (forking on symbolic equality).
func (m *Machine) mapFind(mo *MapObj, key Val) (*mapEnt, int) {
	if mo == nil {
		return nil, -1
	}
	if mo.kt.kind == KIface && key.R != nil {
		if !types.Comparable(key.R.(*Iface).t.typ) {
			m.rtPanic("hash of unhashable type " + key.R.(*Iface).t.String())
		}
	}
	k, ok := mapKey(key, mo.kt)
	if ok && !mo.symk {
		if i, ok := mo.idx[k]; ok {
			return mo.ents[i], i
		}
		return nil, -1
	}
	if ok {
		if i, ok := mo.idx[k]; ok {
			return mo.ents[i], i
		}
	}
	for i, e := range mo.ents {
		if e == nil {
			continue
		}
		if ok {
			if _, c := mapKey(e.k, mo.kt); c {
				continue
			}
		}
		if m.branch(m.eq(mo.kt, nil, e.k, key)) {
			return e, i
		}
	}
	return nil, -1
}

// mapSelect tries to answer a lookup as an ite without forking.
func (m *Machine) mapSelect(mo *MapObj, key Val) (Val, *Expr, bool) {
	if mo == nil || !mo.vt.scalar() {
		return Val{}, nil, false
	}
	w := mo.vt.w
	val := m.x.K(0, w)
	found := m.x.F
	for i := len(mo.ents) - 1; i >= 0; i-- {
		e := mo.ents[i]
		if e == nil {
			continue
		}
		c := m.eq(mo.kt, nil, e.k, key)
		val = m.x.Ite(c, m.ex(e.v, w), val)
		found = m.x.Or(c, found)
	}
	return EV(val), found, true
}

func (m *Machine) execLookup(g *G, fr *Frame, ci *cInstr, commaOk bool) {
	a := m.get(fr, &ci.a)
	k := m.get(fr, &ci.b)
	if ci.t2.kind == KString {
		fr.regs[ci.dst] = m.strIndex(a, k, ci.b.t)
		return
	}
	mo, _ := a.R.(*MapObj)
	vt := ci.t2.elem
	if mo != nil && m.memYield {
		m.mapAccess(g, mo, false)
	}
	if mo != nil {
		if _, conc := mapKey(k, mo.kt); !conc || mo.symk {
			if v, f, ok := m.mapSelect(mo, k); ok {
				if commaOk {
					fr.regs[ci.dst] = Val{R: &Tuple{[]Val{v, EV(f)}}}
				} else {
					fr.regs[ci.dst] = v
				}
				return
			}
		}
	}
	e, _ := m.mapFind(mo, k)
	v := zeroVal(vt)
	if e != nil {
		v = e.v
	}
	if commaOk {
		fr.regs[ci.dst] = Val{R: &Tuple{[]Val{v, BV(e != nil)}}}
	} else {
		fr.regs[ci.dst] = v
	}
}

func (m *Machine) noSpecMap(v Val) {
	if m.specDepth > 0 {
		if mo, ok := v.R.(*MapObj); ok && mo.id > m.specMark {
			return
		}
		panic(&specAbort{"map"})
	}
}

func (m *Machine) mapTouch(mo *MapObj) {
	if mo.frozen && m.initMode == 0 {
		ents := append([]*mapEnt{}, mo.ents...)
		for i, e := range ents {
			if e != nil {
				c := *e
				ents[i] = &c
			}
		}
		idx := map[any]int{}
		for k, v := range mo.idx {
			idx[k] = v
		}
		n, sk := mo.n, mo.symk
		m.journal = append(m.journal, jent{undo: func() { mo.ents, mo.idx, mo.n, mo.symk = ents, idx, n, sk }})
	}
}

func (m *Machine) mapSet(g *G, mv, key, val Val) {
	mo, _ := mv.R.(*MapObj)
	if mo == nil {
		panic(&targetPanic{msg: "assignment to entry in nil map", rt: true, v: m.rtErr("assignment to entry in nil map")})
	}
	if m.memYield {
		m.mapAccess(g, mo, true)
	}
	e, _ := m.mapFind(mo, key)
	m.mapTouch(mo)
	if e != nil {
		// the entry may have been copied by mapTouch's journal; edit live one
		e.v = val
		return
	}
	if k, ok := mapKey(key, mo.kt); ok {
		mo.idx[k] = len(mo.ents)
	} else {
		mo.symk = true
	}
	mo.ents = append(mo.ents, &mapEnt{key, val})
	mo.n++
}

func (m *Machine) mapDelete(g *G, mv, key Val) {
	mo, _ := mv.R.(*MapObj)
	if mo == nil {
		return
	}
	if m.memYield {
		m.mapAccess(g, mo, true)
	}
	e, i := m.mapFind(mo, key)
	if e == nil {
		return
	}
	m.mapTouch(mo)
	if k, ok := mapKey(e.k, mo.kt); ok {
		delete(mo.idx, k)
	}
	mo.ents[i] = nil
	mo.n--
}

func (m *Machine) iterNext(g *G, itv Val, isStr bool) Val {
	it := itv.R.(*IterObj)
	if it.isStr {
		if it.pos >= len(it.str) {
			return Val{R: &Tuple{[]Val{BV(false), IV(0), KV(0)}}}
		}
		p := it.pos
		r, n := m.decodeRune(g, it.str[p:])
		m.noSpecIter()
		it.pos += n
		return Val{R: &Tuple{[]Val{BV(true), IV(p), r}}}
	}
	m.noSpecIter()
	for it.pos < len(it.keys) {
		e := it.keys[it.pos]
		it.pos++
		// still present?
		live := false
		for _, q := range it.m.ents {
			if q == e {
				live = true
			}
		}
		if !live {
			continue
		}
		return Val{R: &Tuple{[]Val{BV(true), e.k, e.v}}}
	}
	return Val{R: &Tuple{[]Val{BV(false), zeroVal(orInt(it.m, true)), zeroVal(orInt(it.m, false))}}}
}

func (m *Machine) noSpecIter() { m.noSpec("iterator") }

func orInt(mo *MapObj, key bool) *TInfo {
	if mo == nil {
		return tInt()
	}
	if key {
		return mo.kt
	}
	return mo.vt
}

func (m *Machine) decodeRune(g *G, b []Val) (Val, int) {
	c := b[0]
	if c.R == nil {
		if c.N < 0x80 {
			return KV(c.N), 1
		}
	} else if m.branch(m.x.Ult(c.R.(*Expr), m.x.K(0x80, 8))) {
		return EV(m.x.Zext(c.R.(*Expr), 32)), 1
	}
	n := len(b)
	if n > 4 {
		n = 4
	}
	s := mkStr(append([]Val{}, b[:n]...))
	if cs, ok := s.R.(string); ok {
		r, k := utf8.DecodeRuneInString(cs)
		return KV(uint64(uint32(r))), k
	}
	fn := m.P.fnByName("unicode/utf8", "DecodeRuneInString")
	t := m.callFn(g, nil, fn, []Val{s}, nil).R.(*Tuple)
	return t.v[0], m.concInt(t.v[1], tInt())
}

func (P *Program) fnByName(pkg, name string) *ssa.Function {
	p := P.prog.ImportedPackage(pkg)
	if p == nil {
		panic(unsup("package %s not loaded", pkg))
	}
	return p.Func(name)
}

// ---- builtins

func (m *Machine) builtin(g *G, fr *Frame, b *ssa.Builtin, call *ssa.CallCommon, args []Val, ci *cInstr) Val {
	switch b.Name() {
	case "len", "cap":
		a := args[0]
		switch q := a.R.(type) {
		case nil:
			t := TI(call.Args[0].Type())
			if t.kind == KArray {
				return IV(t.alen)
			}
			if t.kind == KPtr {
				return IV(t.elem.alen)
			}
			return IV(0)
		case string, *SymStr:
			return IV(strLen(a))
		case *SliceV:
			if b.Name() == "cap" {
				return IV(q.cap_)
			}
			return IV(q.len)
		case *MapObj:
			if m.memYield {
				m.mapAccess(g, q, false)
			}
			return IV(q.n)
		case *ChanObj:
			if b.Name() == "cap" {
				return IV(q.cap_)
			}
			return IV(len(q.buf))
		case *Agg:
			return IV(TI(call.Args[0].Type()).alen)
		case *Ptr:
			return IV(TI(call.Args[0].Type()).elem.alen)
		}
	case "append":
		return m.append_(g, args[0], args[1], TI(call.Args[0].Type()))
	case "copy":
		return m.copy_(g, args[0], args[1], TI(call.Args[0].Type()).elem)
	case "delete":
		m.noSpecMap(args[0])
		m.mapDelete(g, args[0], args[1])
		return Val{}
	case "clear":
		t := TI(call.Args[0].Type())
		if t.kind == KMap {
			m.noSpecMap(args[0])
			if mo, _ := args[0].R.(*MapObj); mo != nil {
				m.mapTouch(mo)
				mo.ents, mo.idx, mo.n, mo.symk = nil, map[any]int{}, 0, false
			}
			return Val{}
		}
		if s, _ := args[0].R.(*SliceV); s != nil {
			for i := 0; i < s.len*t.elem.n; i++ {
				m.setCell(s.o, s.off+i, Val{})
			}
		}
		return Val{}
	case "panic":
		panic(&targetPanic{v: args[0], msg: "panic: " + m.showPanic(args[0])})
	case "print", "println":
		return Val{}
	case "recover":
		// fr is the frame executing recover; its caller is the panicking frame
		if fr.caller != nil && fr.caller.panicking != nil {
			p := fr.caller.panicking
			fr.caller.panicking = nil
			if p.v.R == nil {
				return m.rtErr(p.msg)
			}
			return p.v
		}
		return Val{}
	case "close":
		m.chanClose(g, args[0])
		return Val{}
	case "min", "max":
		t := TI(call.Args[0].Type())
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			c := m.binop(g, op, t, a, r, t)
			if c.R == nil {
				if c.N != 0 {
					r = a
				}
				continue
			}
			v, ok := m.mergeTyped(c.R.(*Expr), a, r, t)
			if !ok {
				if m.branch(c.R.(*Expr)) {
					v = a
				} else {
					v = r
				}
			}
			r = v
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].R == nil {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		n := m.concInt(args[1], TI(call.Args[1].Type()))
		if n == 0 {
			return SV("")
		}
		p := m.concPtr(args[0].R.(*Ptr))
		return mkStr(append([]Val{}, p.o.cells[p.off:p.off+n]...))
	case "StringData":
		bs := strBytes(args[0])
		if len(bs) == 0 {
			return Val{}
		}
		o := m.newObj(tByte(), len(bs), "strdata")
		copy(o.cells, bs)
		return Val{R: &Ptr{o: o}}
	case "Slice":
		n := m.concInt(args[1], TI(call.Args[1].Type()))
		p, _ := args[0].R.(*Ptr)
		if p == nil {
			return Val{}
		}
		p = m.concPtr(p)
		return Val{R: &SliceV{o: p.o, off: p.off, len: n, cap_: n}}
	case "SliceData":
		s, _ := args[0].R.(*SliceV)
		if s == nil {
			return Val{}
		}
		return Val{R: &Ptr{o: s.o, off: s.off}}
	case "Add":
		p, _ := args[0].R.(*Ptr)
		n := m.concInt(args[1], TI(call.Args[1].Type()))
		if n == 0 {
			return args[0]
		}
		if p != nil && p.o.et != nil && p.o.et.w == 8 {
			return Val{R: &Ptr{o: p.o, off: p.off + n}}
		}
		panic(unsup("unsafe.Add"))
	}
	panic(unsup("builtin %s", b.Name()))
}

func (m *Machine) append_(g *G, sv, xv Val, t *TInfo) Val {
	et := t.elem
	en := et.n
	var src []Val
	var n int
	switch x := xv.R.(type) {
	case nil:
		return sv
	case string, *SymStr:
		src = strBytes(xv)
		n = len(src)
	case *SliceV:
		n = x.len
		if m.memYield && n > 0 {
			m.memAccess(g, &Ptr{o: x.o, off: x.off}, n*en, false)
		}
		src = x.o.cells[x.off : x.off+n*en]
	}
	s, _ := sv.R.(*SliceV)
	if n == 0 {
		return sv
	}
	ln, cp := 0, 0
	if s != nil {
		ln, cp = s.len, s.cap_
	}
	if ln+n <= cp {
		if m.memYield {
			m.memAccess(g, &Ptr{o: s.o, off: s.off + ln*en}, n*en, true)
		}
		tmp := append([]Val{}, src...)
		for i, v := range tmp {
			m.setCell(s.o, s.off+ln*en+i, v)
		}
		return Val{R: &SliceV{o: s.o, off: s.off, len: ln + n, cap_: cp}}
	}
	nc := growCap(ln+n, cp, sizeOf(et))
	o := m.newObj(et, nc*en, "append")
	if s != nil {
		if m.memYield && ln > 0 {
			m.memAccess(g, &Ptr{o: s.o, off: s.off}, ln*en, false)
		}
		copy(o.cells, s.o.cells[s.off:s.off+ln*en])
	}
	copy(o.cells[ln*en:], src)
	return Val{R: &SliceV{o: o, off: 0, len: ln + n, cap_: nc}}
}

func (m *Machine) copy_(g *G, dv, sv Val, et *TInfo) Val {
	d, _ := dv.R.(*SliceV)
	if d == nil {
		return IV(0)
	}
	en := et.n
	var src []Val
	n := 0
	switch x := sv.R.(type) {
	case nil:
		return IV(0)
	case string, *SymStr:
		src = strBytes(sv)
		n = len(src)
		if d.len < n {
			n = d.len
		}
	case *SliceV:
		n = x.len
		if d.len < n {
			n = d.len
		}
		if m.memYield && n > 0 {
			m.memAccess(g, &Ptr{o: x.o, off: x.off}, n*en, false)
		}
		src = append([]Val{}, x.o.cells[x.off:x.off+n*en]...)
	}
	if m.memYield && n > 0 {
		m.memAccess(g, &Ptr{o: d.o, off: d.off}, n*en, true)
	}
	for i := 0; i < n*en; i++ {
		if d.o.cells[d.off+i] != src[i] {
			m.setCell(d.o, d.off+i, src[i])
		}
	}
	return IV(n)
}

var std64 = types.SizesFor("gc", "amd64")

func sizeOf(t *TInfo) int { return int(std64.Sizeof(t.typ)) }

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n <= 32768-8 || n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

func growCap(need, old, esz int) int {
	nc := old
	dbl := old + old
	if need > dbl {
		nc = need
	} else if old < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if esz == 0 {
		return nc
	}
	return roundupsize(nc*esz) / esz
}

var _ = math.Pi
