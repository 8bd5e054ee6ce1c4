package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val

type ftMark struct{}

var fallThrough = &ftMark{}

func ft() Val { return Val{R: fallThrough} }

func tup(v ...Val) Val { return Val{R: &Tuple{v}} }

func lookupIntrinsic(fn *ssa.Function) intrinsic {
	n := fnName(fn)
	if i, ok := intrinsics[n]; ok {
		return i
	}
	if fn.Pkg != nil || fn.Origin() != nil {
		// generic instances: strip type arguments
		if k := strings.IndexByte(n, '['); k >= 0 {
			e := strings.LastIndexByte(n, ']')
			if i, ok := intrinsics[n[:k]+n[e+1:]]; ok {
				return i
			}
		}
	}
	if k := strings.Index(n, "/zzverif/sym."); k >= 0 {
		name := n[k+len("/zzverif/sym."):]
		if e := strings.IndexByte(name, '['); e >= 0 {
			name = name[:e]
		}
		if i, ok := symAPI[name]; ok {
			return i
		}
	}
	if k := strings.LastIndex(n, "._Cfunc_"); k >= 0 {
		if i, ok := cfuncs[n[k+len("._Cfunc_"):]]; ok {
			return i
		}
	}
	if fn.Pkg != nil {
		p := fn.Pkg.Pkg.Path()
		if strings.HasPrefix(p, "internal/race") || strings.HasPrefix(p, "internal/msan") || strings.HasPrefix(p, "internal/asan") {
			return func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val { return zeroVal(TIres(fn)) }
		}
	}
	return nil
}

func TIres(fn *ssa.Function) *TInfo {
	r := fn.Signature.Results()
	if r.Len() == 1 {
		return TI(r.At(0).Type())
	}
	return TI(r)
}

func nop(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val   { return zeroVal(TIres(fn)) }
func ident(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val { return a[0] }

var cfuncs = map[string]intrinsic{}
var intrinsics map[string]intrinsic

func (m *Machine) cell(v Val) (*Obj, int) {
	p, ok := v.R.(*Ptr)
	if !ok {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	p = m.concPtr(p)
	return p.o, p.off
}

func (m *Machine) mkError(msg string) Val {
	p := m.P.prog.ImportedPackage("errors")
	t := TI(types.NewPointer(p.Pkg.Scope().Lookup("errorString").Type()))
	o := m.newObj(t.elem, 1, "error")
	o.cells[0] = SV(msg)
	return Val{R: &Iface{t, Val{R: &Ptr{o: o}}}}
}

// errText renders an error value if that is possible without side effects.
func (m *Machine) errText(v Val) (string, bool) {
	ifc, ok := v.R.(*Iface)
	if !ok {
		return "", false
	}
	if p, ok := ifc.v.R.(*Ptr); ok && ifc.t.kind == KPtr && p.o != nil && ifc.t.elem.n >= 1 && p.ix == nil {
		if s, ok := concStr(p.o.cells[p.off]); ok && ifc.t.elem.kind == KStruct && len(ifc.t.elem.fields) > 0 && ifc.t.elem.fields[0].kind == KString {
			return s, true
		}
	}
	return "", false
}

func (m *Machine) isErrIface(t *TInfo) bool {
	return m.P.implements(t, TI(types.Universe.Lookup("error").Type()))
}

// ---- formatting

func (m *Machine) format(g *G, fr *Frame, f string, args []Val, lossy bool) []Val {
	var out []Val
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, KV(uint64(s[i])))
		}
	}
	ai := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				lit(f[i:])
				break
			}
			lit(f[i : i+j])
			i += j
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.[]*", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			lit("%!(NOVERB)")
			break
		}
		verb := f[j]
		spec := f[i : j+1]
		i = j + 1
		if verb == '%' {
			lit("%")
			continue
		}
		if strings.ContainsAny(spec, "*[") {
			panic(unsup("format spec %s", spec))
		}
		if ai >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[ai]
		ai++
		out = append(out, m.fmtArg(g, fr, spec, verb, a, lossy)...)
	}
	return out
}

func lits(s string) []Val { return strBytes(SV(s)) }

func (m *Machine) fmtArg(g *G, fr *Frame, spec string, verb byte, a Val, lossy bool) []Val {
	ifc, ok := a.R.(*Iface)
	if !ok {
		if verb == 'v' {
			return lits("<nil>")
		}
		return lits("%!" + string(verb) + "(<nil>)")
	}
	t := ifc.t
	if verb == 'T' {
		return lits(t.String())
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		for _, mn := range []string{"Error", "String"} {
			fn := m.methodOf(a, mn)
			if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 || TI(fn.Signature.Results().At(0).Type()).kind != KString {
				continue
			}
			if lossy {
				if s, ok := m.errText(a); ok {
					return lits(s)
				}
				return lits("<" + t.String() + ">")
			}
			v := m.callFn(g, fr, fn, []Val{ifc.v}, nil)
			if verb == 'q' {
				if s, ok := concStr(v); ok {
					return lits(strconv.Quote(s))
				}
			}
			return strBytes(v)
		}
	}
	if verb == 'w' {
		spec = strings.Replace(spec, "w", "v", 1)
	}
	switch t.kind {
	case KInt, KBool, KFloat:
		v := ifc.v
		if e := v.sym(); e != nil {
			if lossy {
				return lits("<sym>")
			}
			v = KV(m.concretize(e))
		}
		switch {
		case t.kind == KBool:
			return lits(fmt.Sprintf(spec, v.N != 0))
		case t.kind == KFloat:
			if t.w == wF32 {
				return lits(fmt.Sprintf(spec, float32(fval(v.N, t.w))))
			}
			return lits(fmt.Sprintf(spec, fval(v.N, t.w)))
		case t.signed:
			switch t.w {
			case 8:
				return lits(fmt.Sprintf(spec, int8(v.N)))
			case 16:
				return lits(fmt.Sprintf(spec, int16(v.N)))
			case 32:
				return lits(fmt.Sprintf(spec, int32(v.N)))
			}
			return lits(fmt.Sprintf(spec, int64(v.N)))
		default:
			switch t.w {
			case 8:
				return lits(fmt.Sprintf(spec, uint8(v.N)))
			case 16:
				return lits(fmt.Sprintf(spec, uint16(v.N)))
			case 32:
				return lits(fmt.Sprintf(spec, uint32(v.N)))
			}
			return lits(fmt.Sprintf(spec, v.N))
		}
	case KString:
		if s, ok := concStr(ifc.v); ok {
			return lits(fmt.Sprintf(spec, s))
		}
		if spec == "%s" || spec == "%v" || lossy {
			return strBytes(ifc.v)
		}
	case KSlice:
		if t.elem.kind == KInt && t.elem.w == 8 {
			b := strBytes(ifc.v)
			conc := make([]byte, len(b))
			for i, c := range b {
				if e := c.sym(); e != nil {
					if verb == 's' {
						return b
					}
					if lossy {
						return lits("<sym>")
					}
					conc[i] = byte(m.concretize(e))
				} else {
					conc[i] = byte(c.N)
				}
			}
			return lits(fmt.Sprintf(spec, conc))
		}
		if verb == 'v' || verb == 's' || verb == 'd' || verb == 'q' {
			out := lits("[")
			if s, ok := ifc.v.R.(*SliceV); ok {
				for i := 0; i < s.len; i++ {
					if i > 0 {
						out = append(out, lits(" ")...)
					}
					ev := fromCells(s.o.cells[s.off+i*t.elem.n:], t.elem)
					if t.elem.kind != KIface {
						ev = Val{R: &Iface{t.elem, ev}}
					}
					out = append(out, m.fmtArg(g, fr, spec, verb, ev, lossy)...)
				}
			}
			return append(out, lits("]")...)
		}
	}
	if lossy {
		return lits("<" + t.String() + ">")
	}
	switch t.kind {
	case KPtr, KFunc, KChan, KMap, KUnsafe, KSlice, KStruct, KArray:
		return lits("<" + t.String() + ">")
	}
	panic(unsup("format %s of %s", spec, t))
}

func (m *Machine) variadic(v Val) []Val {
	s, ok := v.R.(*SliceV)
	if !ok {
		return nil
	}
	return append([]Val{}, s.o.cells[s.off:s.off+s.len]...)
}

func (m *Machine) sprint(g *G, fr *Frame, args []Val, ln bool, lossy bool) []Val {
	var out []Val
	prevStr := true
	for i, a := range args {
		ifc, _ := a.R.(*Iface)
		isStr := ifc != nil && ifc.t.kind == KString
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = append(out, KV(' '))
		}
		prevStr = isStr
		out = append(out, m.fmtArg(g, fr, "%v", 'v', a, lossy)...)
	}
	if ln {
		out = append(out, KV('\n'))
	}
	return out
}

func (m *Machine) errorf(g *G, fr *Frame, f string, args []Val) Val {
	var wrapped []Val
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j < len(f) {
			if f[j] == '%' {
				i = j
				continue
			}
			if f[j] == 'w' && ai < len(args) && args[ai].R != nil && m.isErrIface(args[ai].R.(*Iface).t) {
				wrapped = append(wrapped, args[ai])
			}
			ai++
		}
		i = j
	}
	msg := mkStr(m.format(g, fr, f, args, true))
	fp := m.P.prog.ImportedPackage("fmt")
	switch len(wrapped) {
	case 0:
		p := m.P.prog.ImportedPackage("errors")
		t := TI(types.NewPointer(p.Pkg.Scope().Lookup("errorString").Type()))
		o := m.newObj(t.elem, 1, "error")
		o.cells[0] = msg
		return Val{R: &Iface{t, Val{R: &Ptr{o: o}}}}
	case 1:
		t := TI(types.NewPointer(fp.Pkg.Scope().Lookup("wrapError").Type()))
		o := m.newObj(t.elem, t.elem.n, "wrapError")
		o.cells[0], o.cells[1] = msg, wrapped[0]
		return Val{R: &Iface{t, Val{R: &Ptr{o: o}}}}
	}
	t := TI(types.NewPointer(fp.Pkg.Scope().Lookup("wrapErrors").Type()))
	o := m.newObj(t.elem, t.elem.n, "wrapErrors")
	o.cells[0], o.cells[1] = msg, m.sliceFrom(TI(types.Universe.Lookup("error").Type()), wrapped)
	return Val{R: &Iface{t, Val{R: &Ptr{o: o}}}}
}

// ---- errors.Is / As

func (m *Machine) unwrap(g *G, fr *Frame, err Val) []Val {
	fn := m.methodOf(err, "Unwrap")
	if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
		return nil
	}
	r := m.callFn(g, fr, fn, []Val{err.R.(*Iface).v}, nil)
	if TI(fn.Signature.Results().At(0).Type()).kind == KSlice {
		return m.variadic(r)
	}
	if r.R == nil {
		return nil
	}
	return []Val{r}
}

func (m *Machine) errorsIs(g *G, fr *Frame, err, target Val) bool {
	if err.R == nil || target.R == nil {
		return err.R == nil && target.R == nil
	}
	e, t := err.R.(*Iface), target.R.(*Iface)
	if e.t == t.t && types.Comparable(t.t.typ) && m.branch(m.eq(e.t, nil, e.v, t.v)) {
		return true
	}
	if fn := m.methodOf(err, "Is"); fn != nil && fn.Signature.Params().Len() == 1 {
		r := m.callFn(g, fr, fn, []Val{e.v, target}, nil)
		if r.R != nil {
			if m.branch(r.R.(*Expr)) {
				return true
			}
		} else if r.N != 0 {
			return true
		}
	}
	for _, u := range m.unwrap(g, fr, err) {
		if m.errorsIs(g, fr, u, target) {
			return true
		}
	}
	return false
}

func (m *Machine) errorsAs(g *G, fr *Frame, err Val, target *Iface) bool {
	if err.R == nil {
		return false
	}
	e := err.R.(*Iface)
	tt := target.t.elem
	if tt.kind == KIface {
		if m.P.implements(e.t, tt) {
			m.storeTo(g, target.v, err, tt)
			return true
		}
	} else if e.t == tt {
		m.storeTo(g, target.v, e.v, tt)
		return true
	}
	for _, u := range m.unwrap(g, fr, err) {
		if m.errorsAs(g, fr, u, target) {
			return true
		}
	}
	return false
}

// ---- helpers for byte searches

func (m *Machine) bytesOf(v Val) []Val {
	switch s := v.R.(type) {
	case nil:
		return nil
	case *SliceV:
		return s.o.cells[s.off : s.off+s.len]
	}
	return strBytes(v)
}

func (m *Machine) eqByte(a, b Val) bool {
	if a.R == nil && b.R == nil {
		return a.N == b.N
	}
	return m.branch(m.x.Eq(m.ex(a, 8), m.ex(b, 8)))
}

func (m *Machine) indexByte(b []Val, c Val) Val {
	for i, q := range b {
		if m.eqByte(q, c) {
			return IV(i)
		}
	}
	return KV(^uint64(0))
}

func (m *Machine) indexBytes(b, s []Val) Val {
	for i := 0; i+len(s) <= len(b); i++ {
		r := m.x.T
		for j := range s {
			r = m.x.And(r, m.x.Eq(m.ex(b[i+j], 8), m.ex(s[j], 8)))
			if r == m.x.F {
				break
			}
		}
		if m.branch(r) {
			return IV(i)
		}
	}
	return KV(^uint64(0))
}

func (m *Machine) compareBytes(a, b []Val) Val {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if m.eqByte(a[i], b[i]) {
			continue
		}
		if m.branch(m.x.Ult(m.ex(a[i], 8), m.ex(b[i], 8))) {
			return KV(^uint64(0))
		}
		return KV(1)
	}
	switch {
	case len(a) < len(b):
		return KV(^uint64(0))
	case len(a) > len(b):
		return KV(1)
	}
	return KV(0)
}

func atomicOp(name string, f func(m *Machine, fn *ssa.Function, o *Obj, i int, a []Val) Val) intrinsic {
	return func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
		o, i := m.cell(a[0])
		if g != nil && len(m.gs) > 1 {
			m.noSpec("atomic")
			m.yield(g)
		}
		if m.race != nil {
			m.hbBoth(g, hbKey{o, i, false})
		}
		return f(m, fn, o, i, a)
	}
}

func lockIntr(rw string) intrinsic {
	return func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
		o, i := m.cell(a[0])
		multi := g != nil && len(m.gs) > 1
		if multi {
			m.noSpec("lock")
		}
		st := func(k int) uint64 { return o.cells[i+k].N }
		fatal := func(s string) { panic(&targetPanic{msg: "fatal error: " + s, rt: true, v: m.rtErr(s)}) }
		switch rw {
		case "Lock":
			if multi {
				m.yield(g)
			}
			m.block(g, "mutex lock at "+frPos(m, fr), func() bool { return st(0) == 0 })
			m.hbAcq(g, hbKey{o, i, false})
			m.setCell(o, i, KV(1))
		case "TryLock":
			if multi {
				m.yield(g)
			}
			if st(0) != 0 {
				return BV(false)
			}
			m.hbAcq(g, hbKey{o, i, false})
			m.setCell(o, i, KV(1))
			return BV(true)
		case "Unlock":
			if st(0) == 0 {
				fatal("sync: unlock of unlocked mutex")
			}
			m.hbRel(g, hbKey{o, i, false})
			m.setCell(o, i, KV(0))
			if multi {
				m.yield(g)
			}
		case "WLock":
			if multi {
				m.yield(g)
			}
			m.block(g, "rwmutex lock at "+frPos(m, fr), func() bool { return st(0) == 0 && st(1) == 0 })
			m.hbAcq(g, hbKey{o, i, false})
			m.hbAcq(g, hbKey{o, i, true})
			m.setCell(o, i, KV(1))
		case "WUnlock":
			if st(0) == 0 {
				fatal("sync: Unlock of unlocked RWMutex")
			}
			m.hbRel(g, hbKey{o, i, false})
			m.setCell(o, i, KV(0))
			if multi {
				m.yield(g)
			}
		case "RLock":
			if multi {
				m.yield(g)
			}
			m.block(g, "rwmutex rlock at "+frPos(m, fr), func() bool { return st(0) == 0 })
			m.hbAcq(g, hbKey{o, i, false})
			m.setCell(o, i+1, KV(st(1)+1))
		case "RUnlock":
			if st(1) == 0 {
				fatal("sync: RUnlock of unlocked RWMutex")
			}
			m.hbRel(g, hbKey{o, i, true})
			m.setCell(o, i+1, KV(st(1)-1))
			if multi {
				m.yield(g)
			}
		}
		return Val{}
	}
}

func frPos(m *Machine, fr *Frame) string {
	if fr == nil {
		return "?"
	}
	return fr.c.name
}

func f1(conc func(float64) float64, sym func(m *Machine, e *Expr) *Expr) intrinsic {
	return func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
		if e := a[0].sym(); e != nil {
			if sym == nil {
				panic(unsup("symbolic %s", fn))
			}
			return EV(sym(m, e))
		}
		return FV(conc(math.Float64frombits(a[0].N)))
	}
}

func frnd(k uint64) func(m *Machine, e *Expr) *Expr {
	return func(m *Machine, e *Expr) *Expr { return m.x.FUn(OFRound, e, wF64, k) }
}

// trig models sin/cos of a symbolic argument as an arbitrary value in [-1,1]
// that is a function of the argument (same expression, same value).
func trig(name string) func(m *Machine, e *Expr) *Expr {
	return func(m *Machine, e *Expr) *Expr {
		v, isNew := m.aux(name, e, wF64)
		if !isNew {
			return v
		}
		m.addPC(m.x.And(m.x.FBin(OFLe, m.x.FK(-1, wF64), v), m.x.FBin(OFLe, v, m.x.FK(1, wF64))))
		return v
	}
}

const hasMono = uint64(1) << 63

// timeMono reports whether the Time cells carry a monotonic reading.
func timeMono(v Val) bool {
	a, ok := v.R.(*Agg)
	if !ok || a.c[0].R != nil {
		return false
	}
	return a.c[0].N&hasMono != 0
}

func timeExt(m *Machine, v Val) *Expr { return m.ex(v.R.(*Agg).c[1], 64) }

func timeCmp(f func(m *Machine, a, b *Expr) Val) intrinsic {
	return func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
		if timeMono(a[0]) && timeMono(a[1]) {
			return f(m, timeExt(m, a[0]), timeExt(m, a[1]))
		}
		return ft()
	}
}

func init() {
	intrinsics = map[string]intrinsic{
		// sync
		"(*sync.Mutex).Lock":               lockIntr("Lock"),
		"(*sync.Mutex).TryLock":            lockIntr("TryLock"),
		"(*sync.Mutex).Unlock":             lockIntr("Unlock"),
		"(*internal/sync.Mutex).Lock":      lockIntr("Lock"),
		"(*internal/sync.Mutex).TryLock":   lockIntr("TryLock"),
		"(*internal/sync.Mutex).Unlock":    lockIntr("Unlock"),
		"(*sync.RWMutex).Lock":             lockIntr("WLock"),
		"(*sync.RWMutex).Unlock":           lockIntr("WUnlock"),
		"(*sync.RWMutex).RLock":            lockIntr("RLock"),
		"(*sync.RWMutex).RUnlock":          lockIntr("RUnlock"),
		"(*sync.Once).Do":                  onceDo,
		"(*sync.WaitGroup).Add":            wgAdd,
		"(*sync.WaitGroup).Done":           wgAdd,
		"(*sync.WaitGroup).Wait":           wgWait,
		"(*sync.Pool).Get":                 poolGet,
		"(*sync.Pool).Put":                 poolPut,
		"sync.runtime_registerPoolCleanup": nop,
		// runtime
		"runtime.Gosched":            func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val { m.gosched(g); return Val{} },
		"runtime.GOMAXPROCS":         func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val { return IV(4) },
		"runtime.NumCPU":             func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val { return IV(4) },
		"runtime.KeepAlive":          nop,
		"runtime.SetFinalizer":       nop,
		"runtime.AddCleanup": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val { return zeroVal(TIres(fn)) },
		"runtime.Callers":            nop,
		"runtime.Caller":             nop,
		"runtime.GC":                 nop,
		"runtime/debug.SetGCPercent": nop,
		"internal/abi.NoEscape":      ident,
		"internal/abi.Escape":        ident,
		"strings.noescape":           ident,
		"internal/bytealg.MakeNoZero": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			n := m.concInt(a[0], tInt())
			return m.mkSlice(tByte(), n, roundupsize(n))
		},
		"unique.runtime_registerUniqueMapCleanup": nop,
		"unique.Make":               uniqueMake,
		"math/rand/v2.runtime_rand": rand64,
		"math/rand.runtime_rand":    rand64,
		// seeded generators: any seed, any sequence
		"(*math/rand.rngSource).Seed":   nop,
		"(*math/rand.rngSource).Uint64": rand64,
		"(*math/rand.rngSource).Int63": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			return Val{R: m.x.Lshr(m.fresh("!rand", 64), m.x.K(1, 64))}
		},
		"(*crypto/rand.reader).Read": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			sl, _ := a[1].R.(*SliceV)
			n := 0
			if sl != nil {
				n = sl.len
				for i := 0; i < n; i++ {
					m.setCell(sl.o, sl.off+i, Val{R: m.fresh("!rand", 8)})
				}
			}
			return tup(IV(n), Val{})
		},
		"internal/godebug.New": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			t := TIres(fn)
			return Val{R: &Ptr{o: m.newObj(t.elem, t.elem.n, "godebug")}}
		},
		"(*internal/godebug.Setting).Value":         func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val { return SV("") },
		"(*internal/godebug.Setting).IncNonDefault": nop,
		"(*internal/godebug.Setting).Name":          func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val { return SV("") },
		"syscall.runtime_envs":                      nop,
		"os.Getenv":                                 func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val { return SV("") },
		"os.LookupEnv":                              func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val { return tup(SV(""), BV(false)) },
		"syscall.Getenv":                            func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val { return tup(SV(""), BV(false)) },

		// bytealg
		"internal/bytealg.IndexByte": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			return m.indexByte(m.bytesOf(a[0]), a[1])
		},
		"internal/bytealg.IndexByteString": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			return m.indexByte(strBytes(a[0]), a[1])
		},
		"strings.IndexByte": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			return m.indexByte(strBytes(a[0]), a[1])
		},
		"bytes.IndexByte": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			return m.indexByte(m.bytesOf(a[0]), a[1])
		},
		"strings.Index": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			return m.indexBytes(strBytes(a[0]), strBytes(a[1]))
		},
		"bytes.Index": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			return m.indexBytes(m.bytesOf(a[0]), m.bytesOf(a[1]))
		},
		"internal/bytealg.Count":       byteCount,
		"internal/bytealg.CountString": byteCount,
		"internal/bytealg.Compare": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			return m.compareBytes(m.bytesOf(a[0]), m.bytesOf(a[1]))
		},
		"internal/bytealg.CompareString": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			return m.compareBytes(m.bytesOf(a[0]), m.bytesOf(a[1]))
		},
		"bytes.Equal": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			return EV(m.eqStr(mkStr(append([]Val{}, m.bytesOf(a[0])...)), mkStr(append([]Val{}, m.bytesOf(a[1])...))))
		},

		// fmt
		"fmt.Sprintf": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			return mkStr(m.format(g, fr, m.concS(a[0]), m.variadic(a[1]), false))
		},
		"fmt.Errorf": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			return m.errorf(g, fr, m.concS(a[0]), m.variadic(a[1]))
		},
		"fmt.Sprint": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			return mkStr(m.sprint(g, fr, m.variadic(a[0]), false, false))
		},
		"fmt.Sprintln": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			return mkStr(m.sprint(g, fr, m.variadic(a[0]), true, false))
		},
		"fmt.Printf": nop, "fmt.Println": nop, "fmt.Print": nop,
		"fmt.Appendf": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			return m.append_(g, a[0], mkStr(m.format(g, fr, m.concS(a[1]), m.variadic(a[2]), false)), TI(types.NewSlice(types.Typ[types.Uint8])))
		},
		"fmt.Fprintf": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			return m.fprint(g, fr, a[0], m.format(g, fr, m.concS(a[1]), m.variadic(a[2]), false))
		},
		"fmt.Fprint": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			return m.fprint(g, fr, a[0], m.sprint(g, fr, m.variadic(a[1]), false, false))
		},
		"fmt.Fprintln": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			return m.fprint(g, fr, a[0], m.sprint(g, fr, m.variadic(a[1]), true, false))
		},
		"errors.Is": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			return BV(m.errorsIs(g, fr, a[0], a[1]))
		},
		"errors.As": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			return BV(m.errorsAs(g, fr, a[0], a[1].R.(*Iface)))
		},
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,

		// math
		"math.Floor": f1(math.Floor, frnd(2)), "math.Ceil": f1(math.Ceil, frnd(3)), "math.Trunc": f1(math.Trunc, frnd(1)),
		"math.Round": f1(math.Round, frnd(4)), "math.RoundToEven": f1(math.RoundToEven, frnd(0)),
		"math.Abs":  f1(math.Abs, func(m *Machine, e *Expr) *Expr { return m.x.FUn(OFAbs, e, wF64, 0) }),
		"math.Sqrt": f1(math.Sqrt, func(m *Machine, e *Expr) *Expr { return m.x.FUn(OFSqrt, e, wF64, 0) }),
		"math.Sin":  f1(math.Sin, trig("sin")), "math.Cos": f1(math.Cos, trig("cos")),
		"math.Log": f1(math.Log, nil), "math.Exp": f1(math.Exp, nil), "math.Log2": f1(math.Log2, nil), "math.Log10": f1(math.Log10, nil),
		"math.Float64bits": fToBits, "math.Float32bits": fToBits,
		"math.Float64frombits": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			if e := a[0].sym(); e != nil {
				return EV(m.x.FUn(OFBits, e, wF64, 0))
			}
			return a[0]
		},
		"math.Float32frombits": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			if e := a[0].sym(); e != nil {
				return EV(m.x.FUn(OFBits, e, wF32, 0))
			}
			return a[0]
		},
		"math.Pow": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			if a[0].R != nil || a[1].R != nil {
				panic(unsup("symbolic math.Pow"))
			}
			return FV(math.Pow(math.Float64frombits(a[0].N), math.Float64frombits(a[1].N)))
		},

		// time
		"time.Now": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			return Val{R: &Agg{[]Val{KV(hasMono | (4400000000 << 30)), KV(1 << 40), {}}}}
		},
		"time.runtimeNano": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val { return KV(1 << 40) },
		"time.now": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			return tup(KV(1600000000), KV(0), KV(1<<40))
		},
		"time.runtimeNow": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			return tup(KV(1600000000), KV(0), KV(1<<40))
		},
		"(time.Time).Add": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			if !timeMono(a[0]) {
				return ft()
			}
			c := a[0].R.(*Agg).c
			return Val{R: &Agg{[]Val{c[0], EV(m.x.Add(m.ex(c[1], 64), m.ex(a[1], 64))), c[2]}}}
		},
		"(time.Time).Sub":    timeCmp(func(m *Machine, a, b *Expr) Val { return EV(m.x.Sub(a, b)) }),
		"(time.Time).Before": timeCmp(func(m *Machine, a, b *Expr) Val { return EV(m.x.Slt(a, b)) }),
		"(time.Time).After":  timeCmp(func(m *Machine, a, b *Expr) Val { return EV(m.x.Slt(b, a)) }),
		"(time.Time).Equal":  timeCmp(func(m *Machine, a, b *Expr) Val { return EV(m.x.Eq(a, b)) }),
		"(time.Time).Compare": timeCmp(func(m *Machine, a, b *Expr) Val {
			return EV(m.x.Ite(m.x.Slt(a, b), m.x.K(^uint64(0), 64), m.x.Ite(m.x.Eq(a, b), m.x.K(0, 64), m.x.K(1, 64))))
		}),
		"(time.Time).IsZero": func(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
			if timeMono(a[0]) {
				return BV(false)
			}
			return ft()
		},
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Bool", "Uintptr", "Pointer"} {
		p := "(*sync/atomic." + ty + ")."
		intrinsics[p+"Load"] = atomicOp("Load", func(m *Machine, fn *ssa.Function, o *Obj, i int, a []Val) Val {
			v := o.cells[i]
			if strings.HasPrefix(fn.Signature.Recv().Type().String(), "*sync/atomic.Bool") {
				return m.u32bool(v)
			}
			return v
		})
		intrinsics[p+"Store"] = atomicOp("Store", func(m *Machine, fn *ssa.Function, o *Obj, i int, a []Val) Val {
			m.setCell(o, i, m.boolu32(fn, a[1]))
			return Val{}
		})
		intrinsics[p+"Swap"] = atomicOp("Swap", func(m *Machine, fn *ssa.Function, o *Obj, i int, a []Val) Val {
			old := o.cells[i]
			m.setCell(o, i, m.boolu32(fn, a[1]))
			if strings.HasPrefix(fn.Signature.Recv().Type().String(), "*sync/atomic.Bool") {
				return m.u32bool(old)
			}
			return old
		})
		intrinsics[p+"CompareAndSwap"] = atomicOp("CAS", func(m *Machine, fn *ssa.Function, o *Obj, i int, a []Val) Val {
			return m.cas(fn, o, i, m.boolu32(fn, a[1]), m.boolu32(fn, a[2]), TI(fn.Signature.Params().At(0).Type()))
		})
		w := 64
		if strings.HasSuffix(ty, "32") {
			w = 32
		}
		intrinsics[p+"Add"] = atomicOp("Add", func(m *Machine, fn *ssa.Function, o *Obj, i int, a []Val) Val {
			v := EV(m.x.Add(m.ex(o.cells[i], w), m.ex(a[1], w)))
			m.setCell(o, i, v)
			return v
		})
	}
	// typed atomics keep their value in the last cell; fix up offsets
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		f := "sync/atomic."
		w := 64
		if strings.HasSuffix(ty, "32") {
			w = 32
		}
		intrinsics[f+"Load"+ty] = atomicOp("Load", func(m *Machine, fn *ssa.Function, o *Obj, i int, a []Val) Val { return o.cells[i] })
		intrinsics[f+"Store"+ty] = atomicOp("Store", func(m *Machine, fn *ssa.Function, o *Obj, i int, a []Val) Val {
			m.setCell(o, i, a[1])
			return Val{}
		})
		intrinsics[f+"Swap"+ty] = atomicOp("Swap", func(m *Machine, fn *ssa.Function, o *Obj, i int, a []Val) Val {
			old := o.cells[i]
			m.setCell(o, i, a[1])
			return old
		})
		intrinsics[f+"Add"+ty] = atomicOp("Add", func(m *Machine, fn *ssa.Function, o *Obj, i int, a []Val) Val {
			v := EV(m.x.Add(m.ex(o.cells[i], w), m.ex(a[1], w)))
			m.setCell(o, i, v)
			return v
		})
		intrinsics[f+"CompareAndSwap"+ty] = atomicOp("CAS", func(m *Machine, fn *ssa.Function, o *Obj, i int, a []Val) Val {
			return m.cas(fn, o, i, a[1], a[2], TI(fn.Signature.Params().At(1).Type()))
		})
	}
	intrinsics["(*sync/atomic.Value).Load"] = atomicOp("Load", func(m *Machine, fn *ssa.Function, o *Obj, i int, a []Val) Val { return o.cells[i] })
	intrinsics["(*sync/atomic.Value).Store"] = atomicOp("Store", func(m *Machine, fn *ssa.Function, o *Obj, i int, a []Val) Val {
		if a[1].R == nil {
			panic(&targetPanic{msg: "sync/atomic: store of nil value into Value", v: m.rtErr("sync/atomic: store of nil value into Value")})
		}
		m.setCell(o, i, a[1])
		return Val{}
	})
	initSymAPI()
	initCStubs()
}

func (m *Machine) boolu32(fn *ssa.Function, v Val) Val {
	if strings.HasPrefix(fn.Signature.Recv().Type().String(), "*sync/atomic.Bool") {
		if e := v.sym(); e != nil {
			return EV(m.x.Ite(e, m.x.K(1, 32), m.x.K(0, 32)))
		}
	}
	return v
}
func (m *Machine) u32bool(v Val) Val {
	if e := v.sym(); e != nil {
		return EV(m.x.Not(m.x.Eq(e, m.x.K(0, 32))))
	}
	return BV(v.N != 0)
}

func (m *Machine) cas(fn *ssa.Function, o *Obj, i int, old, nw Val, t *TInfo) Val {
	cur := o.cells[i]
	var c *Expr
	if cur.R == nil && old.R == nil {
		c = m.x.B(cur.N == old.N)
	} else if e1, e2 := cur.sym(), old.sym(); e1 != nil || e2 != nil {
		w := 0
		if e1 != nil {
			w = e1.w
		} else {
			w = e2.w
		}
		c = m.x.Eq(m.ex(cur, w), m.ex(old, w))
	} else {
		c = m.x.B(m.refEq(cur, old))
	}
	if m.branch(c) {
		m.setCell(o, i, nw)
		return BV(true)
	}
	return BV(false)
}

func (m *Machine) concS(v Val) string {
	s, ok := concStr(v)
	if !ok {
		panic(unsup("symbolic format string"))
	}
	return s
}

func (m *Machine) fprint(g *G, fr *Frame, w Val, b []Val) Val {
	fn := m.methodOf(w, "Write")
	if fn == nil {
		panic(unsup("fprint target"))
	}
	return m.callFn(g, fr, fn, []Val{w.R.(*Iface).v, m.sliceFrom(tByte(), b)}, nil)
}

func byteCount(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
	n := m.x.K(0, 64)
	for _, q := range m.bytesOf(a[0]) {
		n = m.x.Add(n, m.x.Ite(m.x.Eq(m.ex(q, 8), m.ex(a[1], 8)), m.x.K(1, 64), m.x.K(0, 64)))
	}
	return EV(n)
}

func fToBits(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
	e := a[0].sym()
	if e == nil {
		return a[0]
	}
	if e.op == OFBits {
		return EV(e.a)
	}
	w := 64
	if e.w == wF32 {
		w = 32
	}
	v, isNew := m.aux("fbits", e, w)
	if isNew {
		m.addPC(m.x.FBin(OFEq, m.x.FUn(OFBits, v, e.w, 0), e))
		m.remodel()
	}
	return EV(v)
}

func onceDo(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
	o, i := m.cell(a[0])
	if g != nil && len(m.gs) > 1 {
		m.noSpec("once")
		m.yield(g)
	}
	if o.cells[i].N == 2 {
		m.hbAcq(g, hbKey{o, i, false})
		return Val{}
	}
	if o.cells[i].N == 1 {
		m.block(g, "sync.Once", func() bool { return o.cells[i].N == 2 })
		m.hbAcq(g, hbKey{o, i, false})
		return Val{}
	}
	m.setCell(o, i, KV(1))
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(*targetPanic); ok {
					m.setCell(o, i, KV(2))
				}
				panic(r)
			}
		}()
		m.callValue(g, fr, a[1], nil)
	}()
	m.hbRel(g, hbKey{o, i, false})
	m.setCell(o, i, KV(2))
	return Val{}
}

func wgAdd(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
	o, i := m.cell(a[0])
	d := int64(-1)
	if fn.Name() == "Add" {
		d = int64(m.concInt(a[1], tInt()))
	}
	if g != nil && len(m.gs) > 1 {
		m.noSpec("wg")
	}
	n := int64(o.cells[i].N) + d
	if n < 0 {
		panic(&targetPanic{msg: "sync: negative WaitGroup counter", v: m.rtErr("sync: negative WaitGroup counter")})
	}
	m.hbRel(g, hbKey{o, i, false})
	m.setCell(o, i, KV(uint64(n)))
	m.yield(g)
	return Val{}
}

func wgWait(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
	o, i := m.cell(a[0])
	m.block(g, "WaitGroup.Wait", func() bool { return o.cells[i].N == 0 })
	m.hbAcq(g, hbKey{o, i, false})
	return Val{}
}

// sync.Pool is modelled as a LIFO free list (per pool, per path).
func poolGet(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
	m.noSpec("pool")
	p := a[0].R.(*Ptr)
	k := fmt.Sprintf("pool:%d:%d", p.o.id, p.off)
	l, _ := m.store_[k].([]Val)
	if len(l) > 0 {
		v := l[len(l)-1]
		m.store_[k] = l[: len(l)-1 : len(l)-1]
		return v
	}
	pt := TI(fn.Signature.Recv().Type()).elem
	nf := p.o.cells[p.off+pt.offs[len(pt.offs)-1]]
	if nf.R == nil {
		return Val{}
	}
	return m.callValue(g, fr, nf, nil)
}

func poolPut(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
	m.noSpec("pool")
	if a[1].R == nil {
		return Val{}
	}
	p := a[0].R.(*Ptr)
	k := fmt.Sprintf("pool:%d:%d", p.o.id, p.off)
	l, _ := m.store_[k].([]Val)
	m.store_[k] = append(l[:len(l):len(l)], a[1])
	return Val{}
}

func uniqueMake(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
	rt := TIres(fn) // Handle[T] struct{ value *T }
	pt := rt.fields[0]
	k, ok := mapKey(a[0], pt.elem)
	if !ok {
		panic(unsup("unique.Make of symbolic value"))
	}
	key := fmt.Sprintf("%d:%v", pt.id, k)
	if m.E.uniq(m)[key].R == nil {
		m.initMode++
		o := m.newObj(pt.elem, pt.elem.n, "unique")
		m.initMode--
		copy(o.cells, cellsOf(a[0], pt.elem))
		m.E.uniq(m)[key] = Val{R: &Ptr{o: o}}
	}
	return Val{R: &Agg{[]Val{m.E.uniq(m)[key]}}}
}

func sortSlice(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
	m.noSpec("sort")
	ifc := a[0].R.(*Iface)
	s, ok := ifc.v.R.(*SliceV)
	if !ok {
		return Val{}
	}
	en := ifc.t.elem.n
	swap := func(i, j int) {
		for k := 0; k < en; k++ {
			x, y := s.o.cells[s.off+i*en+k], s.o.cells[s.off+j*en+k]
			m.setCell(s.o, s.off+i*en+k, y)
			m.setCell(s.o, s.off+j*en+k, x)
		}
	}
	for i := 1; i < s.len; i++ {
		for j := i; j > 0; j-- {
			r := m.callValue(g, fr, a[1], []Val{IV(j), IV(j - 1)})
			lt := r.N != 0
			if e := r.sym(); e != nil {
				lt = m.branch(e)
			}
			if !lt {
				break
			}
			swap(j, j-1)
		}
	}
	return Val{}
}

// rand64 is the runtime's random source: any value.
func rand64(m *Machine, g *G, fr *Frame, fn *ssa.Function, a []Val) Val {
	if m.initMode > 0 {
		return KV(0x9e3779b97f4a7c15)
	}
	return Val{R: m.fresh("!rand", 64)}
}
