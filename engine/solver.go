package main

// Incremental SMT solver process (z3 -in by default) with an assertion stack
// kept aligned with the longest common prefix of consecutive queries.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Solver decides queries with a portfolio: two incremental processes (z3 and
// cvc5) tried in an adaptive order with short time limits, and, for what both
// give up on, from-scratch runs with longer limits. Answers are cached per
// path condition, which the schedules of one harness share.
type Solver struct {
	x     *Ctx
	be    [2]*backend
	first int
	stop  func() bool // the time budget is used up
	cache map[uint64][]cached

	// statistics
	Queries, SatN, UnsatN, UnknownN int
	Time                            time.Duration
	MaxTime                         time.Duration
	CacheHits                       int
	Hard                            int
	CrossN, BadModels               int
	CrossBad                        int
}

type cached struct {
	pc    []*Expr
	extra *Expr
	res   Result
	m     Model
}

type backend struct {
	slot    int
	cmdline []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	stack   []*Expr
	gen     uint32
	ndefs   int
	names   []*Expr // declared vars in this generation
	timeout time.Duration
	log     io.Writer
	fails   int
}

func NewSolver(x *Ctx, timeout time.Duration) *Solver {
	s := &Solver{x: x, cache: map[uint64][]cached{}}
	for i := range s.be {
		b := &backend{slot: i, timeout: timeout}
		if i == 0 {
			b.cmdline = []string{"z3", "-in", "-smt2"}
		} else {
			b.cmdline = []string{"cvc5", "--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", 2*timeout.Milliseconds()), "-"}
		}
		if p := os.Getenv("VERIF_SMTLOG"); p != "" {
			f, _ := os.Create(fmt.Sprintf("%s.%d.%p.smt2", p, i, s))
			b.log = f
		}
		s.be[i] = b
	}
	if solverBin == "cvc5" {
		s.first = 1
	}
	return s
}

func (s *Solver) Close() {
	for _, b := range s.be {
		b.Close()
	}
}

// holds evaluates the query under the model a solver returned.
func (s *Solver) holds(pc []*Expr, extra *Expr, m Model) bool {
	s.x.NewEpoch()
	defer s.x.NewEpoch()
	for _, e := range pc {
		if s.x.Eval(e, m) == 0 {
			return false
		}
	}
	return extra == nil || s.x.Eval(extra, m) != 0
}

// Check decides pc ∧ extra. On Sat it returns a model for all variables.
func (s *Solver) Check(pc []*Expr, extra *Expr) (Result, Model) {
	if extra != nil && extra.isK() && extra.k == 0 {
		return Unsat, nil
	}
	h := uint64(14695981039346656037)
	for _, e := range pc {
		h = (h ^ uint64(e.id)) * 1099511628211
	}
	if extra != nil {
		h = (h ^ uint64(extra.id)<<1) * 1099511628211
	}
look:
	for _, c := range s.cache[h] {
		if c.extra != extra || len(c.pc) != len(pc) {
			continue
		}
		for i := range pc {
			if pc[i] != c.pc[i] {
				continue look
			}
		}
		s.CacheHits++
		return c.res, c.m
	}
	if s.stop != nil && s.stop() {
		return Unknown, nil
	}
	t0 := time.Now()
	s.Queries++
	res := Unknown
	var m Model
	lead := s.first
	for k := 0; k < 2 && res == Unknown; k++ {
		i := (lead + k) % 2
		res, m = s.be[i].check(pc, extra)
		if res == Sat && !s.holds(pc, extra, m) {
			s.BadModels++
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "solver", i, "returned a wrong model")
			}
			s.be[i].Close()
			res = Unknown
		}
		if k == 1 && res != Unknown {
			// the other backend had to help: it gets the lead when it is
			// the more reliable one
			s.be[lead].fails++
			if s.be[lead].fails >= 3 && s.be[lead].fails > 3*s.be[i].fails {
				s.first = i
			}
		}
	}
	if res == Unknown && (s.stop == nil || !s.stop()) {
		if r2, m2 := s.hard(pc, extra); r2 != Unknown {
			res, m = r2, m2
			s.Hard++
		}
	}
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxTime {
		s.MaxTime = d
	}
	switch res {
	case Sat:
		s.SatN++
	case Unsat:
		s.UnsatN++
	default:
		s.UnknownN++
	}
	if len(pc) < 4096 {
		s.cache[h] = append(s.cache[h], cached{append([]*Expr(nil), pc...), extra, res, m})
	}
	return res, m
}

var solverBin = "z3"

func (s *backend) start() {
	s.cmd = exec.Command(s.cmdline[0], s.cmdline[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.gen++
	s.stack = nil
	s.ndefs = 0
	s.names = nil
	s.send("(set-option :global-declarations true)")
	s.send("(set-option :produce-models true)")
	if s.slot == 0 {
		s.send(fmt.Sprintf("(set-option :timeout %d)", s.timeout.Milliseconds()))
	} else {
		s.send("(set-logic ALL)")
	}
}

func (s *backend) Close() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.inc.Close()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *backend) send(l string) {
	s.in.WriteString(l)
	s.in.WriteByte('\n')
	if s.log != nil {
		fmt.Fprintln(s.log, l)
	}
}

var genBase uint32

// define emits declarations/definitions for all nodes below e.
func (s *backend) define(e *Expr) {
	if e.op == OConst || e.defd[s.slot] == s.gen {
		return
	}
	// iterative post-order
	type fr struct {
		e *Expr
		i int
	}
	st := []fr{{e, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.e.op == OConst || f.e.defd[s.slot] == s.gen {
			st = st[:len(st)-1]
			continue
		}
		var ch *Expr
		for f.i < 3 && ch == nil {
			switch f.i {
			case 0:
				ch = f.e.a
			case 1:
				ch = f.e.b
			case 2:
				ch = f.e.c
			}
			f.i++
		}
		if ch != nil {
			st = append(st, fr{ch, 0})
			continue
		}
		n := f.e
		n.defd[s.slot] = s.gen
		s.ndefs++
		if n.op == OVar {
			s.send("(declare-const " + quoteVar(n.name) + " " + sortName(n.w) + ")")
			s.names = append(s.names, n)
		} else {
			s.send("(define-fun e" + strconv.Itoa(int(n.id)) + " () " + sortName(n.w) + " " + n.shallow(s.ref) + ")")
		}
		st = st[:len(st)-1]
	}
}

func (s *backend) ref(e *Expr) string {
	switch e.op {
	case OConst:
		return constSMT(e.k, e.w)
	case OVar:
		return quoteVar(e.name)
	}
	return "e" + strconv.Itoa(int(e.id))
}

func (s *backend) sync(pc []*Expr) {
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		s.send("(pop " + strconv.Itoa(d) + ")")
		s.stack = s.stack[:n]
	}
	for _, e := range pc[n:] {
		s.define(e)
		s.send("(push 1)")
		s.send("(assert " + s.ref(e) + ")")
		s.stack = append(s.stack, e)
	}
}

func (s *backend) check(pc []*Expr, extra *Expr) (Result, Model) {
	if s.cmd != nil && s.ndefs > 400000 {
		s.Close()
	}
	if s.cmd == nil {
		s.start()
	}
	s.sync(pc)
	if extra != nil {
		s.define(extra)
		s.send("(push 1)")
		s.send("(assert " + s.ref(extra) + ")")
	}
	s.send("(check-sat)")
	line := s.readLine()
	var res Result
	var m Model
	switch line {
	case "sat":
		res = Sat
		m = s.getModel()
	case "unsat":
		res = Unsat
	default:
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "solver error:", line)
			s.Close()
		}
		res = Unknown
	}
	if s.cmd != nil && extra != nil {
		s.send("(pop 1)")
	}
	return res, m
}

func (s *backend) readLine() string {
	s.in.Flush()
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.Close()
			return "unknown"
		}
		line = strings.TrimSpace(line)
		if line == "" {
			continue
		}
		return line
	}
}

func (s *backend) getModel() Model {
	m := Model{}
	if len(s.names) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, n := range s.names {
		sb.WriteString(quoteVar(n.name))
		sb.WriteByte(' ')
	}
	sb.WriteString("))")
	s.send(sb.String())
	s.in.Flush()
	parseValues(readSexp(s.out), m)
	return m
}

func readSexp(r *bufio.Reader) string {
	var sb strings.Builder
	depth := 0
	inq := false
	for {
		c, err := r.ReadByte()
		if err != nil {
			return sb.String()
		}
		sb.WriteByte(c)
		if c == '|' {
			inq = !inq
		}
		if inq {
			continue
		}
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				return sb.String()
			}
		}
	}
}

// parseValues reads "((|a| #x00) (|b| true) (|f| (fp #b0 #b.. #b..)))".
func parseValues(t string, m Model) {
	i := strings.IndexByte(t, '(') + 1
	for i < len(t) {
		if t[i] != '(' {
			i++
			continue
		}
		i++
		for t[i] == ' ' || t[i] == '\n' {
			i++
		}
		var name string
		if t[i] == '|' {
			j := strings.IndexByte(t[i+1:], '|') + i + 1
			name = t[i+1 : j]
			i = j + 1
		} else {
			j := i
			for t[j] != ' ' && t[j] != '\n' {
				j++
			}
			name = t[i:j]
			i = j
		}
		for t[i] == ' ' || t[i] == '\n' {
			i++
		}
		// value until matching close paren
		st := i
		d := 0
		for i < len(t) {
			if t[i] == '(' {
				d++
			} else if t[i] == ')' {
				if d == 0 {
					break
				}
				d--
			}
			i++
		}
		m[name] = parseVal(strings.TrimSpace(t[st:i]))
		i++
	}
}

func parseVal(v string) uint64 {
	switch {
	case v == "true":
		return 1
	case v == "false":
		return 0
	case strings.HasPrefix(v, "#x"):
		n, _ := strconv.ParseUint(v[2:], 16, 64)
		return n
	case strings.HasPrefix(v, "#b"):
		n, _ := strconv.ParseUint(v[2:], 2, 64)
		return n
	case strings.HasPrefix(v, "(fp "):
		f := strings.Fields(strings.Trim(v, "()"))
		var bits string
		for _, p := range f[1:] {
			if strings.HasPrefix(p, "#b") {
				bits += p[2:]
			} else {
				n, _ := strconv.ParseUint(p[2:], 16, 64)
				bits += fmt.Sprintf("%0*b", 4*(len(p)-2), n)
			}
		}
		n, _ := strconv.ParseUint(bits, 2, 64)
		return n
	case strings.HasPrefix(v, "(_ "):
		f := strings.Fields(strings.Trim(v, "()"))
		is32 := len(f) == 4 && f[2] == "8"
		switch f[1] {
		case "+zero":
			return 0
		case "-zero":
			if is32 {
				return 1 << 31
			}
			return 1 << 63
		case "+oo":
			if is32 {
				return 0x7f800000
			}
			return 0x7ff0000000000000
		case "-oo":
			if is32 {
				return 0xff800000
			}
			return 0xfff0000000000000
		case "NaN":
			if is32 {
				return 0x7fc00000
			}
			return 0x7ff8000000000001
		}
	}
	return 0
}

// hard retries a query the incremental solver gave up on, from scratch, with
// non-incremental tactics of the available solvers.
func (s *Solver) hard(pc []*Expr, extra *Expr) (Result, Model) {
	script, vars := s.Script(pc, extra)
	for _, c := range [][]string{
		{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", int(hardTimeout.Seconds()))},
		{"cvc5", "--produce-models", fmt.Sprintf("--tlimit=%d", hardTimeout.Milliseconds()), "--lang=smt2", "-"},
	} {
		r, m := runOnce(c, script, vars)
		if r != Unknown {
			return r, m
		}
	}
	return Unknown, nil
}

var hardTimeout = 20 * time.Second

func runOnce(c []string, script string, vars []*Expr) (Result, Model) {
	cmd := exec.Command(c[0], c[1:]...)
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.Output()
	o := string(out)
	if strings.HasPrefix(o, "unsat") {
		return Unsat, nil
	}
	if strings.HasPrefix(o, "sat") {
		m := Model{}
		if i := strings.IndexByte(o, '\n'); i >= 0 {
			parseValues(o[i:], m)
		}
		return Sat, m
	}
	return Unknown, nil
}

// Script writes a self-contained SMT-LIB query.
func (s *Solver) Script(pc []*Expr, extra *Expr) (string, []*Expr) {
	var sb strings.Builder
	seen := map[*Expr]bool{}
	var vars []*Expr
	fp := false
	var visit func(e *Expr)
	visit = func(e *Expr) {
		if e == nil || e.op == OConst || seen[e] {
			return
		}
		seen[e] = true
		if e.w == wF32 || e.w == wF64 {
			fp = true
		}
		if e.op == OVar {
			vars = append(vars, e)
			sb.WriteString("(declare-const " + quoteVar(e.name) + " " + sortName(e.w) + ")\n")
			return
		}
		visit(e.a)
		visit(e.b)
		visit(e.c)
		sb.WriteString("(define-fun e" + strconv.Itoa(int(e.id)) + " () " + sortName(e.w) + " " + e.shallow((*backend)(nil).ref) + ")\n")
	}
	for _, e := range pc {
		visit(e)
		sb.WriteString("(assert " + (*backend)(nil).ref(e) + ")\n")
	}
	if extra != nil {
		visit(extra)
		sb.WriteString("(assert " + (*backend)(nil).ref(extra) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(quoteVar(v.name) + " ")
		}
		sb.WriteString("))\n")
	}
	logic := "QF_BV"
	if fp {
		logic = "QF_BVFP"
	}
	return "(set-logic " + logic + ")\n(set-option :produce-models true)\n" + sb.String(), vars
}
