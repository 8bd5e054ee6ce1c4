package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Program is the shared, immutable part: SSA and configuration.
type Program struct {
	prog    *ssa.Program
	mainPkg *ssa.Package
	repoMod string // module path of the code under test
	cfuncs  sync.Map
	globals map[*ssa.Global]int
	glist   []*ssa.Global
	gmu     sync.Mutex
	mcache  sync.Map // method lookups
	tier    string
	seed    int64

	maxSteps  int64
	mergeOn   bool
	orderPkgs []*ssa.Package
}

type jent struct {
	o    *Obj
	i    int
	old  Val
	undo func()
}

type targetPanic struct {
	v   Val // interface value (Iface) or nil
	msg string
	rt  bool // runtime error
	pos string
}
type pathEnd struct{ reason string }
type specAbort struct{ why string }
type unsupErr struct{ msg string }
type killPath struct{}

func unsup(f string, a ...any) *unsupErr { return &unsupErr{fmt.Sprintf(f, a...)} }

// Machine is one worker's interpreter state.
type Machine struct {
	P *Program
	E *Explorer
	x *Ctx
	s *Solver

	globals  []Val // pointers to global objects, by index
	pkgState map[*ssa.Package]int
	nextObj  uint64
	initMode int
	journal  []jent

	specMark  uint64
	specDepth int
	specSteps int

	// path state
	pc          []*Expr
	model       Model
	trace       []int32
	prefix      []int32
	names       map[string]int
	vars        []pvar
	steps       int64
	gs          []*G
	cur         *G
	killing     bool
	ngor        int
	preempt     int // remaining preemptions
	noMerge     bool
	memYield    bool
	race        *raceState
	site        token.Pos
	schedLog    []string
	obs         []Obs
	reached     map[string]bool
	expectPanic bool
	store_      map[string]any // per-path scratch for intrinsics
	done        chan any
	unknownN    int
	inited      bool
	uf          int
	stats       PathStats
	deadlockOK  bool
}

type PathStats struct {
	Instr    int64
	Branches int64
	Merges   int64
	Asserts  int64
	Disch    int64
}

type Obs struct {
	Name string
	Vals []Val
	Ws   []*TInfo
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
	bi   *ssa.Builtin
}

type Frame struct {
	c         *cFunc
	regs      []Val
	env       []Val
	defers    []deferred
	panicking *targetPanic
	recovered bool
	caller    *Frame
	depth     int
	inDefer   *Frame // frame whose deferred call this is
	result    Val
}

func NewMachine(P *Program, E *Explorer) *Machine {
	m := &Machine{P: P, E: E, x: NewCtx(), pkgState: map[*ssa.Package]int{}, nextObj: 1}
	m.s = NewSolver(m.x, solverTimeout)
	if m.E != nil {
		m.s.stop = m.E.stopped
	}
	return m
}

var solverTimeout = 600 * time.Millisecond

// ---- memory

func (m *Machine) newObj(et *TInfo, n int, name string) *Obj {
	m.nextObj++
	o := &Obj{id: m.nextObj, cells: make([]Val, n), name: name, et: et, frozen: m.initMode > 0}
	if m.cur != nil {
		o.owner = m.cur.id
	}
	if m.memYield {
		o.site = m.site
		o.shared = m.E.isShared(m.site)
	}
	return o
}

func (m *Machine) setCell(o *Obj, i int, v Val) {
	if (o.frozen && m.initMode == 0) || (o.id <= m.specMark) {
		m.journal = append(m.journal, jent{o: o, i: i, old: o.cells[i]})
	}
	o.cells[i] = v
}

func (m *Machine) undoTo(n int) {
	for k := len(m.journal) - 1; k >= n; k-- {
		j := &m.journal[k]
		if j.undo != nil {
			j.undo()
		} else {
			j.o.cells[j.i] = j.old
		}
		*j = jent{}
	}
	m.journal = m.journal[:n]
}

// sideEffect must be called before a non-cell mutation with an undo action.
func (m *Machine) sideEffect(frozen bool, id uint64, undo func()) {
	if m.specDepth > 0 && id <= m.specMark {
		panic(&specAbort{"side effect"})
	}
	if frozen && m.initMode == 0 {
		m.journal = append(m.journal, jent{undo: undo})
	}
}

func (m *Machine) noSpec(why string) {
	if m.specDepth > 0 {
		panic(&specAbort{why})
	}
}

func (m *Machine) ptrTo(t *TInfo, name string) Val {
	return Val{R: &Ptr{o: m.newObj(t, t.n, name)}}
}

func (m *Machine) load(g *G, pv Val, t *TInfo) Val {
	p, ok := pv.R.(*Ptr)
	if !ok {
		if pv.R == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		panic(unsup("load through %T", pv.R))
	}
	if m.memYield {
		m.memAccess(g, p, t.n, false)
	}
	if p.ix == nil {
		if p.off+t.n > len(p.o.cells) || p.off < 0 {
			panic(unsup("out-of-object load %s n=%d of %d", p, t.n, len(p.o.cells)))
		}
		if t.agg() {
			return fromCells(p.o.cells[p.off:p.off+t.n], t)
		}
		v := p.o.cells[p.off]
		if t.kind == KString {
			if s, ok := v.R.(*SliceV); ok {
				return mkStr(strBytes(Val{R: s}))
			}
		}
		return v
	}
	// symbolic index
	if t.agg() {
		out := make([]Val, t.n)
		for j := 0; j < t.n; j++ {
			v, ok := m.selCell(p, j, nil)
			if !ok {
				return m.load(g, Val{R: m.concPtr(p)}, t)
			}
			out[j] = v
		}
		return Val{R: &Agg{out}}
	}
	v, ok := m.selCell(p, 0, t)
	if !ok {
		return m.selGroups(p)
	}
	return v
}

// selCell reads cell off+j through a symbolic index as an ite tree.
func (m *Machine) selCell(p *Ptr, j int, t *TInfo) (Val, bool) {
	n, st := p.ix.n, p.ix.stride
	cell := func(i int) Val { return p.o.cells[p.off+i*st+j] }
	w := -1
	same := true
	first := cell(0)
	for i := 0; i < n; i++ {
		c := cell(i)
		if e := c.sym(); e != nil {
			w = e.w
		} else if c.R != nil {
			w = -2
		}
		if c != first {
			same = false
		}
	}
	if same {
		return first, true
	}
	if w == -2 {
		return Val{}, false
	}
	if w == -1 {
		lt := t
		if lt == nil {
			lt = p.o.leaf(p.off + j)
		}
		if lt == nil || !lt.scalar() {
			return Val{}, false
		}
		w = lt.w
	}
	// run-length compress, then build a balanced comparison tree
	type run struct {
		lo int
		e  *Expr
	}
	var rs []run
	for i := 0; i < n; i++ {
		e := m.ex(cell(i), w)
		if len(rs) == 0 || rs[len(rs)-1].e != e {
			rs = append(rs, run{i, e})
		}
	}
	idx := p.ix.idx
	if idx.kl > 0 {
		return EV(m.x.mapLeaves(idx, func(k *Expr) *Expr {
			if k.k < uint64(n) {
				return m.ex(cell(int(k.k)), w)
			}
			return m.ex(cell(n-1), w)
		})), true
	}
	var build func(a, b int) *Expr
	build = func(a, b int) *Expr {
		if b-a == 1 {
			return rs[a].e
		}
		mid := (a + b) / 2
		return m.x.Ite(m.x.Ult(idx, m.x.K(uint64(rs[mid].lo), 64)), build(a, mid), build(mid, b))
	}
	if n > 2 && n <= 4096 && w <= 64 {
		vals := make([]*Expr, n)
		for i := range vals {
			if vals[i] = m.ex(cell(i), w); !vals[i].isK() {
				vals = nil
				break
			}
		}
		if vals != nil {
			return EV(m.x.table(idx, vals, func() *Expr { return build(0, len(rs)) })), true
		}
	}
	return EV(build(0, len(rs))), true
}

// selGroups forks over the distinct values behind a symbolic index.
func (m *Machine) selGroups(p *Ptr) Val {
	type grp struct {
		v    Val
		cond *Expr
	}
	var gs []*grp
	n, st := p.ix.n, p.ix.stride
	lo := 0
	for i := 1; i <= n; i++ {
		if i < n && p.o.cells[p.off+i*st] == p.o.cells[p.off+lo*st] {
			continue
		}
		v := p.o.cells[p.off+lo*st]
		c := m.x.And(m.x.Not(m.x.Ult(p.ix.idx, m.x.K(uint64(lo), 64))), m.x.Ult(p.ix.idx, m.x.K(uint64(i), 64)))
		found := false
		for _, q := range gs {
			if q.v == v {
				q.cond = m.x.Or(q.cond, c)
				found = true
			}
		}
		if !found {
			gs = append(gs, &grp{v, c})
		}
		lo = i
	}
	for k, q := range gs {
		if k == len(gs)-1 || m.branch(q.cond) {
			return q.v
		}
	}
	panic("unreachable")
}

func (m *Machine) concPtr(p *Ptr) *Ptr {
	if p.ix == nil {
		return p
	}
	i := m.concretize(p.ix.idx)
	return &Ptr{o: p.o, off: p.off + int(i)*p.ix.stride}
}

func (m *Machine) storeTo(g *G, pv Val, v Val, t *TInfo) {
	p, ok := pv.R.(*Ptr)
	if !ok {
		if pv.R == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		panic(unsup("store through %T", pv.R))
	}
	if m.memYield {
		m.memAccess(g, p, t.n, true)
	}
	if p.ix != nil {
		if t.scalar() {
			old := p.o
			ok := true
			for i := 0; i < p.ix.n; i++ {
				c := old.cells[p.off+i*p.ix.stride]
				if c.R != nil && c.sym() == nil {
					ok = false
				}
			}
			if ok {
				ve := m.ex(v, t.w)
				for i := 0; i < p.ix.n; i++ {
					k := p.off + i*p.ix.stride
					c := m.x.Eq(p.ix.idx, m.x.K(uint64(i), 64))
					m.setCell(old, k, EV(m.x.Ite(c, ve, m.ex(old.cells[k], t.w))))
				}
				return
			}
		}
		p = m.concPtr(p)
	}
	if p.off+t.n > len(p.o.cells) || p.off < 0 {
		panic(unsup("out-of-object store %s", p))
	}
	if t.agg() {
		if t.n == 0 {
			return
		}
		c := cellsOf(v, t)
		for i := 0; i < t.n; i++ {
			if p.o.cells[p.off+i] != c[i] {
				m.setCell(p.o, p.off+i, c[i])
			}
		}
		return
	}
	m.setCell(p.o, p.off, v)
}

// ---- globals and lazy package initialisation

func (P *Program) globalIdx(gl *ssa.Global) int {
	P.gmu.Lock()
	defer P.gmu.Unlock()
	if i, ok := P.globals[gl]; ok {
		return i
	}
	i := len(P.glist)
	P.globals[gl] = i
	P.glist = append(P.glist, gl)
	return i
}

func (m *Machine) global(i int) Val {
	for i >= len(m.globals) {
		m.globals = append(m.globals, make([]Val, i+16-len(m.globals))...)
	}
	if m.globals[i].R != nil {
		if m.pkgState[nil] == 0 {
		}
		return m.globals[i]
	}
	m.P.gmu.Lock()
	gl := m.P.glist[i]
	m.P.gmu.Unlock()
	m.ensureInit(gl.Pkg)
	if m.globals[i].R != nil {
		return m.globals[i]
	}
	return m.mkGlobal(gl, i)
}

func (m *Machine) mkGlobal(gl *ssa.Global, i int) Val {
	t := TI(gl.Type().(*types.Pointer).Elem())
	m.initMode++
	o := m.newObj(t, t.n, gl.String())
	m.initMode--
	o.shared = true
	m.globals[i] = Val{R: &Ptr{o: o}}
	return m.globals[i]
}

// ensureInit runs a package's variable initialisers (once, lazily).
func (m *Machine) ensureInit(pkg *ssa.Package) {
	if pkg == nil || m.pkgState[pkg] != 0 {
		return
	}
	m.pkgState[pkg] = 1
	if skipInit[pkg.Pkg.Path()] {
		return
	}
	// allocate all globals first so that address-of works during init
	fn := pkg.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	m.initMode++
	saveSpecM, saveSpecD, saveY := m.specMark, m.specDepth, m.memYield
	saveSteps := m.steps
	m.specMark, m.specDepth, m.memYield = 0, 0, false
	m.steps = 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case *unsupErr:
					if pkg.Pkg.Path() != "errors" { // its last initialiser (errorType) is unused: errors.As is an intrinsic
						m.E.note("init of " + pkg.Pkg.Path() + " incomplete: " + e.msg)
					}
				case *targetPanic:
					m.E.note("init of " + pkg.Pkg.Path() + " panicked: " + e.msg)
				case *pathEnd:
					m.E.note("init of " + pkg.Pkg.Path() + " ended: " + e.reason)
				default:
					panic(r)
				}
			}
		}()
		m.callFn(m.cur, nil, fn, nil, nil)
	}()
	m.steps = saveSteps
	m.specMark, m.specDepth, m.memYield = saveSpecM, saveSpecD, saveY
	m.initMode--
	m.pkgState[pkg] = 2
}

var skipInit = map[string]bool{"runtime": true, "internal/godebug": true, "internal/cpu": true, "os": true, "reflect": true, "syscall": true}

// ---- decisions

const (
	dF     = 0 // false, forced
	dT     = 1
	dTakeF = 2 // false, constraint added
	dTakeT = 3
	dMerge = 4
)

func (m *Machine) replaying() bool { return len(m.trace) < len(m.prefix) }

func (m *Machine) setModel(md Model) {
	m.model = md
	m.x.NewEpoch()
}

func (m *Machine) evalB(e *Expr) bool { return m.x.Eval(e, m.model) != 0 }

func (m *Machine) addPC(c *Expr) {
	if c.isK() {
		return
	}
	m.pc = append(m.pc, c)
}

func (m *Machine) checkLimits() {
	if m.steps > m.P.maxSteps {
		panic(&pathEnd{"step-limit"})
	}
	if m.E != nil && m.E.stopped() {
		panic(&pathEnd{"deadline"})
	}
}

// query decides pc ∧ c.
func (m *Machine) query(c *Expr) (Result, Model) {
	r, md := m.s.Check(m.pc, c)
	if r == Unknown {
		m.checkLimits()
		m.unknownN++
		m.E.unknown()
	}
	return r, md
}

// branch decides a symbolic condition by forking (no merge).
func (m *Machine) branch(c *Expr) bool {
	if c.isK() {
		return c.k != 0
	}
	if m.replaying() {
		d := m.prefix[len(m.trace)]
		m.trace = append(m.trace, d)
		switch d {
		case dF:
			return false
		case dT:
			return true
		case dTakeF:
			m.addPC(m.x.Not(c))
			return false
		case dTakeT:
			m.addPC(c)
			return true
		}
		panic(fmt.Sprintf("trace mismatch: decision %d at branch", d))
	}
	m.stats.Branches++
	tv := m.evalB(c)
	oc := c
	if tv {
		oc = m.x.Not(c)
	}
	r, md := m.query(oc)
	if r != Sat {
		if tv {
			m.trace = append(m.trace, dT)
		} else {
			m.trace = append(m.trace, dF)
		}
		if r == Unknown { // other side undecided: keep the constraint explicit
			m.trace[len(m.trace)-1] += 2
			m.addPC(m.x.Not(oc))
		}
		return tv
	}
	return m.forkBranch(c, tv, md)
}

func (m *Machine) forkBranch(c *Expr, tv bool, other Model) bool {
	if m.specDepth > 0 {
		panic(&specAbort{"fork"})
	}
	d, od := int32(dTakeF), int32(dTakeT)
	if tv {
		d, od = od, d
	}
	m.E.push(m, m.trace, od, other)
	m.trace = append(m.trace, d)
	if tv {
		m.addPC(c)
	} else {
		m.addPC(m.x.Not(c))
	}
	return tv
}

// choose makes an n-way nondeterministic choice (no constraint).
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.replaying() {
		d := m.prefix[len(m.trace)]
		m.trace = append(m.trace, d)
		return int(d)
	}
	m.noSpec("choice")
	for i := n - 1; i >= 1; i-- {
		m.E.push(m, m.trace, int32(i), m.model)
	}
	m.trace = append(m.trace, 0)
	return 0
}

// concretize forks over the feasible values of e.
func (m *Machine) concretize(e *Expr) uint64 {
	for {
		if e.isK() {
			return e.k
		}
		var v uint64
		if m.replaying() {
			// candidate value recorded in the trace
			v = uint64(uint32(m.prefix[len(m.trace)])) | uint64(uint32(m.prefix[len(m.trace)+1]))<<32
			m.trace = append(m.trace, m.prefix[len(m.trace)], m.prefix[len(m.trace)+1])
		} else {
			v = m.x.Eval(e, m.model)
			if m.specDepth == 0 {
				if vals := m.candidates(e); vals != nil {
					return m.enumerate(e, v, vals)
				}
			}
			m.trace = append(m.trace, int32(uint32(v)), int32(uint32(v>>32)))
		}
		if m.branch(m.x.Eq(e, m.x.K(v, e.w))) {
			return v
		}
	}
}

// candidates lists a superset of the values of e when it is small.
func (m *Machine) candidates(e *Expr) []uint64 { //nolint
	var vals []uint64
	if e.kl > 0 && e.kl <= 1024 {
		set := map[uint64]bool{}
		m.x.mapLeaves(e, func(k *Expr) *Expr { set[k.k] = true; return k })
		for v := range set {
			vals = append(vals, v)
		}
		sort.Slice(vals, func(i, j int) bool { return vals[i] < vals[j] })
		return vals
	}
	unk := mask(e.w) &^ m.x.zeroMask(e)
	if bits.OnesCount64(unk) > 8 {
		return nil
	}
	for v := unk; ; v = (v - 1) & unk {
		vals = append(vals, v)
		if v == 0 {
			break
		}
	}
	for i, j := 0, len(vals)-1; i < j; i, j = i+1, j-1 {
		vals[i], vals[j] = vals[j], vals[i]
	}
	return vals
}

// enumerate forks over the feasible candidates, each path constrained by its
// own value only.
func (m *Machine) enumerate(e *Expr, cur uint64, vals []uint64) uint64 {
	m.stats.Branches++
	type alt struct {
		v  uint64
		md Model
	}
	var alts []alt
	unk := false
	block := m.x.Not(m.x.Eq(e, m.x.K(cur, e.w)))
	if e.kl > 0 {
		for _, v := range vals {
			c := m.x.Eq(e, m.x.K(v, e.w))
			if v == cur || (c.isK() && c.k == 0) {
				continue
			}
			switch r, md := m.query(c); r {
			case Sat:
				alts = append(alts, alt{v, md})
			case Unknown:
				unk = true
			}
		}
		vals = nil
	}
	for range vals {
		r, md := m.query(block)
		if r == Unknown {
			unk = true
		}
		if r != Sat {
			break
		}
		old := m.model
		m.setModel(md)
		v := m.x.Eval(e, md)
		m.setModel(old)
		alts = append(alts, alt{v, md})
		block = m.x.And(block, m.x.Not(m.x.Eq(e, m.x.K(v, e.w))))
	}
	sort.Slice(alts, func(i, j int) bool { return alts[i].v < alts[j].v })
	if unk {
		m.E.note("undecided case of a value enumeration")
	}
	for i := len(alts) - 1; i >= 0; i-- {
		a := alts[i]
		p := append(append([]int32{}, m.trace...), int32(uint32(a.v)), int32(uint32(a.v>>32)))
		m.E.push(m, p, dTakeT, a.md)
	}
	c := m.x.Eq(e, m.x.K(cur, e.w))
	m.trace = append(m.trace, int32(uint32(cur)), int32(uint32(cur>>32)))
	if len(alts) == 0 && !unk {
		m.trace = append(m.trace, dT)
		return cur
	}
	m.trace = append(m.trace, dTakeT)
	m.addPC(c)
	return cur
}

func (m *Machine) concInt(v Val, t *TInfo) int {
	if v.R == nil {
		if t.signed {
			return int(sx(v.N, t.w))
		}
		return int(v.N)
	}
	k := m.concretize(m.ex(v, t.w))
	if t.signed {
		return int(sx(k, t.w))
	}
	return int(k)
}

// ---- panics

func (m *Machine) rtPanic(msg string) {
	panic(&targetPanic{msg: "runtime error: " + msg, rt: true, v: m.rtErr("runtime error: " + msg)})
}

func (m *Machine) rtErr(msg string) Val {
	// runtime errors are represented by the harness-visible type runtime.Error
	// through a plain error string carrier
	return m.mkError(msg)
}

// check panics in the target if cond can be false (forking).
func (m *Machine) check(ok *Expr, msg string) {
	if ok.isK() && ok.k != 0 {
		return
	}
	if !m.branch(ok) {
		m.rtPanic(msg)
	}
}

var gidCounter atomic.Int64
