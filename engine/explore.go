package main

import (
	"fmt"
	"go/token"
	"go/types"
	"maps"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Item struct {
	prefix []int32
	model  Model
}

type Violation struct {
	Harness   string
	Msg       string
	Model     Model
	Trace     []int32
	Sched     []string
	Kind      string // assert, panic, deadlock, hang
	Conc      bool
	Confirmed bool
	How       string
}

type PathSample struct {
	Harness string
	Model   Model
	Obs     []string
	Conc    bool
}

type Explorer struct {
	P        *Program
	ms       []*Machine
	fn       *ssa.Function
	name     string
	queues   [][]Item
	mu       sync.Mutex
	cond     *sync.Cond
	active   int
	stop     atomic.Bool
	deadline time.Time
	maxPaths int64

	Paths, Completed, Pruned, Incomplete    int64
	notes                                   map[string]int
	viols                                   []*Violation
	violKeys                                map[string]bool
	reached                                 map[string]int64
	unknowns                                atomic.Int64
	samples                                 []PathSample
	nsample                                 int
	firstViol                               time.Time
	restart                                 atomic.Bool
	shared                                  map[token.Pos]bool
	sharedNext                              []token.Pos
	uniqM                                   map[*Machine]map[string]Val
	Instr, Branches, Merges, Asserts, Disch int64
	timedOut                                bool
	hangs                                   []*Violation
	maxPC                                   int
}

func NewExplorer(P *Program, workers int) *Explorer {
	e := &Explorer{P: P, notes: map[string]int{}, violKeys: map[string]bool{}, reached: map[string]int64{}, shared: map[token.Pos]bool{}, uniqM: map[*Machine]map[string]Val{}}
	e.cond = sync.NewCond(&e.mu)
	for i := 0; i < workers; i++ {
		m := NewMachine(P, e)
		e.ms = append(e.ms, m)
		e.uniqM[m] = map[string]Val{}
	}
	return e
}

func (e *Explorer) uniq(m *Machine) map[string]Val { return e.uniqM[m] }
func (e *Explorer) stopped() bool {
	if e.stop.Load() {
		return true
	}
	if time.Now().After(e.deadline) {
		e.mu.Lock()
		e.timedOut = true
		e.mu.Unlock()
		return true
	}
	return false
}
func (e *Explorer) note(s string) {
	e.mu.Lock()
	e.notes[s]++
	e.mu.Unlock()
}
func (e *Explorer) unknown() { e.unknowns.Add(1) }
func (e *Explorer) reach(l string) {
	e.mu.Lock()
	e.reached[e.name+"/"+l]++
	e.mu.Unlock()
}

// shared is fixed during one exploration run; sites found to be shared
// meanwhile are added for the next one.
func (e *Explorer) isShared(p token.Pos) bool { return e.shared[p] }
func (e *Explorer) shareSite(p token.Pos) bool {
	if e.shared[p] {
		return false
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	e.sharedNext = append(e.sharedNext, p)
	e.restart.Store(true)
	e.stop.Store(true)
	return true
}

func (e *Explorer) push(m *Machine, trace []int32, alt int32, md Model) {
	p := make([]int32, len(trace)+1)
	copy(p, trace)
	p[len(trace)] = alt
	e.mu.Lock()
	w := 0
	for i, q := range e.ms {
		if q == m {
			w = i
		}
	}
	e.queues[w] = append(e.queues[w], Item{p, md})
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Explorer) take(w int) (Item, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop.Load() || (e.maxPaths > 0 && e.Paths >= e.maxPaths) {
			if e.maxPaths > 0 && e.Paths >= e.maxPaths {
				for _, q := range e.queues {
					if len(q) > 0 {
						e.timedOut = true
					}
				}
			}
			e.cond.Broadcast()
			return Item{}, false
		}
		if n := len(e.queues[w]); n > 0 {
			it := e.queues[w][n-1]
			e.queues[w] = e.queues[w][:n-1]
			e.active++
			e.Paths++
			return it, true
		}
		best := -1
		for i := range e.queues {
			if len(e.queues[i]) > 0 && (best < 0 || len(e.queues[i][0].prefix) < len(e.queues[best][0].prefix)) {
				best = i
			}
		}
		if best >= 0 {
			it := e.queues[best][0]
			e.queues[best] = e.queues[best][1:]
			e.active++
			e.Paths++
			return it, true
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return Item{}, false
		}
		e.cond.Wait()
	}
}

func (e *Explorer) violation(m *Machine, msg string, md Model) {
	e.mu.Lock()
	defer e.mu.Unlock()
	k := e.name + "|" + msg
	if e.violKeys[k] {
		return
	}
	e.violKeys[k] = true
	if e.firstViol.IsZero() {
		e.firstViol = time.Now()
	}
	e.viols = append(e.viols, &Violation{Harness: e.name, Msg: msg, Model: md, Trace: append([]int32{}, m.trace...), Sched: append([]string{}, m.schedLog...), Kind: "assert", Conc: len(m.gs) > 1})
	if len(e.viols) >= 6 {
		e.stop.Store(true)
	}
}

// Run explores one harness function exhaustively within the limits.
func (e *Explorer) Run(fn *ssa.Function, budget time.Duration, maxPaths int64) {
	e.fn, e.name = fn, fn.Name()
	e.deadline = time.Now().Add(budget)
	e.maxPaths = maxPaths
	notes0, reached0 := maps.Clone(e.notes), maps.Clone(e.reached)
	for {
		e.queues = make([][]Item, len(e.ms))
		e.queues[0] = []Item{{nil, Model{}}}
		e.stop.Store(false)
		e.restart.Store(false)
		e.Paths, e.Completed, e.Pruned, e.Incomplete = 0, 0, 0, 0
		var wg sync.WaitGroup
		for i, m := range e.ms {
			wg.Add(1)
			go func(i int, m *Machine) {
				defer wg.Done()
				e.worker(i, m)
			}(i, m)
		}
		wg.Wait()
		if !e.restart.Load() || time.Now().After(e.deadline) {
			break
		}
		// start over: what was found out so far is found out again
		e.notes = maps.Clone(notes0)
		e.reached = maps.Clone(reached0)
		for _, p := range e.sharedNext {
			e.shared[p] = true
		}
		e.sharedNext = nil
	}
}

func (e *Explorer) worker(i int, m *Machine) {
	for {
		it, ok := e.take(i)
		if !ok {
			return
		}
		e.runItem(m, it)
		e.mu.Lock()
		e.active--
		fv := e.firstViol
		e.mu.Unlock()
		e.cond.Broadcast()
		if !fv.IsZero() && time.Since(fv) > 4*time.Second {
			e.stop.Store(true)
		}
		if time.Now().After(e.deadline) {
			e.mu.Lock()
			for _, q := range e.queues {
				if len(q) > 0 {
					e.timedOut = true
				}
			}
			e.mu.Unlock()
			e.stop.Store(true)
			e.cond.Broadcast()
		}
	}
}

func (m *Machine) initOnce() {
	if m.inited {
		return
	}
	m.inited = true
	m.setModel(Model{})
	m.store_ = map[string]any{}
	m.names = map[string]int{}
	for _, p := range initOrder(m.P.prog, m.P.mainPkg) {
		if !m.P.isLazy(p) {
			m.ensureInit(p)
		}
	}
	m.ensureInit(m.P.mainPkg)
}

// initOrder is the order in which Go (since 1.21) initialises packages: among
// those whose imports are all initialised, the one with the least import path.
func initOrder(prog *ssa.Program, main *ssa.Package) []*ssa.Package {
	users := map[*types.Package][]*types.Package{}
	waits := map[*types.Package]int{}
	var ready []*types.Package
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if _, ok := waits[p]; ok {
			return
		}
		waits[p] = len(p.Imports())
		if waits[p] == 0 {
			ready = append(ready, p)
		}
		for _, q := range p.Imports() {
			users[q] = append(users[q], p)
			visit(q)
		}
	}
	visit(main.Pkg)
	var out []*ssa.Package
	for len(ready) > 0 {
		k := 0
		for i, p := range ready {
			if p.Path() < ready[k].Path() {
				k = i
			}
		}
		p := ready[k]
		ready = append(ready[:k], ready[k+1:]...)
		if sp := prog.Package(p); sp != nil && p != main.Pkg {
			out = append(out, sp)
		}
		for _, q := range users[p] {
			if waits[q]--; waits[q] == 0 {
				ready = append(ready, q)
			}
		}
	}
	return out
}

func (e *Explorer) runItem(m *Machine, it Item) {
	m.initOnce()
	m.pc = nil
	m.trace = nil
	m.prefix = it.prefix
	md := Model{}
	for k, v := range it.model {
		md[k] = v
	}
	m.setModel(md)
	m.names = map[string]int{}
	m.vars = nil
	m.store_ = map[string]any{}
	m.steps = 0
	m.gs = nil
	m.schedLog = nil
	m.obs = nil
	m.killing = false
	m.preempt, m.memYield, m.noMerge, m.race = 0, false, false, nil
	m.specDepth, m.specMark = 0, 0
	m.done = make(chan any, 8)
	st0 := m.stats
	g0 := m.newG(Val{R: m.P.fnVal(e.fn)}, nil)
	go m.gmain(g0)
	m.cur = g0
	g0.wake <- struct{}{}
	r := <-m.done
	m.killing = true
	for _, g := range m.gs {
		select {
		case g.wake <- struct{}{}:
		default:
		}
	}
	for _, g := range m.gs {
		<-g.exited
	}
	m.undoTo(0)
	m.cur = nil
	m.specDepth, m.specMark = 0, 0
	m.initMode = 0
	concurrent := len(m.gs) > 1
	e.mu.Lock()
	e.Instr += m.stats.Instr - st0.Instr
	e.Branches += m.stats.Branches - st0.Branches
	e.Merges += m.stats.Merges - st0.Merges
	e.Asserts += m.stats.Asserts - st0.Asserts
	e.Disch += m.stats.Disch - st0.Disch
	if len(m.pc) > e.maxPC {
		e.maxPC = len(m.pc)
	}
	e.mu.Unlock()
	switch q := r.(type) {
	case nil:
		e.mu.Lock()
		e.Completed++
		want := false
		n := e.Completed
		// reservoir-like deterministic sampling: powers of two spread
		if e.nsample < 6 || n&(n-1) == 0 {
			want = true
			e.nsample++
		}
		e.mu.Unlock()
		if want {
			s := PathSample{Harness: e.name, Model: m.export(m.model), Conc: concurrent}
			s.Obs = m.renderObs(cloneModel(m.model))
			e.mu.Lock()
			e.samples = append(e.samples, s)
			e.mu.Unlock()
		}
	case *pathEnd:
		switch {
		case q.reason == "assume" || q.reason == "infeasible" || q.reason == "violated" || q.reason == "restart":
			e.mu.Lock()
			e.Pruned++
			e.mu.Unlock()
		case len(q.reason) > 8 && q.reason[:8] == "deadlock":
			e.endViolation(m, q.reason, "deadlock")
		case q.reason == "step-limit" || q.reason == "stack depth":
			e.mu.Lock()
			e.Incomplete++
			if len(e.hangs) < 3 {
				e.hangs = append(e.hangs, &Violation{Harness: e.name, Msg: "execution does not terminate (" + q.reason + ")", Model: m.export(m.model), Kind: "hang", Conc: concurrent})
			}
			e.mu.Unlock()
			e.note(q.reason)
		default:
			e.mu.Lock()
			e.Incomplete++
			e.mu.Unlock()
			e.note(q.reason)
		}
	case *targetPanic:
		e.endViolation(m, q.msg, "panic")
	case *unsupErr:
		e.mu.Lock()
		e.Incomplete++
		e.mu.Unlock()
		e.note("unsupported: " + q.msg)
	default:
		e.mu.Lock()
		e.Incomplete++
		e.mu.Unlock()
		e.note(fmt.Sprintf("internal error: %v", r))
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "internal: %v\n%s\n", r, lastStack.Load())
		}
	}
}

var lastStack atomic.Value

func saveStack() { lastStack.Store(string(debug.Stack())) }

func (e *Explorer) endViolation(m *Machine, msg, kind string) {
	e.violation(m, msg, m.export(m.model))
	e.mu.Lock()
	for _, v := range e.viols {
		if v.Msg == msg && v.Harness == e.name {
			v.Kind = kind
		}
	}
	e.mu.Unlock()
}

func cloneModel(m Model) Model {
	r := Model{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (e *Explorer) noteList() []string {
	var out []string
	for k, n := range e.notes {
		out = append(out, fmt.Sprintf("%s (x%d)", k, n))
	}
	sort.Strings(out)
	return out
}

func (e *Explorer) Close() {
	for _, m := range e.ms {
		m.s.Close()
	}
}
