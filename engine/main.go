package main

// Command engine decides one property of /verif/properties.jsonl by symbolic
// execution of the real code (go/ssa of /repo's current tree) and SMT solving.
//
//	engine check <ID> [quick|thorough]
//	engine replay <file>
//	engine list <ID>

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repoDir = d
	}
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: engine check <ID> [tier] | replay <file>")
		os.Exit(2)
	}
	for _, kv := range repoEnv() {
		if i := strings.IndexByte(kv, '='); i > 0 {
			os.Setenv(kv[:i], kv[i+1:]) // go/packages resolves "go" through PATH
		}
	}
	switch os.Args[1] {
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(check(os.Args[2], tier))
	case "replay":
		os.Exit(replay(os.Args[2]))
	default:
		os.Exit(2)
	}
}

type harnessReport struct {
	Name       string           `json:"harness"`
	Paths      int64            `json:"paths_completed"`
	Pruned     int64            `json:"paths_pruned"`
	Incomplete int64            `json:"paths_not_modelled"`
	Asserts    int64            `json:"assertions_evaluated"`
	Discharged int64            `json:"assertions_discharged_unsat"`
	Branches   int64            `json:"symbolic_branches"`
	Merges     int64            `json:"state_merges"`
	Instr      int64            `json:"ssa_instructions"`
	MaxPC      int              `json:"longest_path_condition"`
	Queries    int              `json:"solver_queries"`
	SatN       int              `json:"sat"`
	UnsatN     int              `json:"unsat"`
	UnknownN   int              `json:"unknown"`
	Hard       int              `json:"second_solver_decisions"`
	SolverS    float64          `json:"solver_seconds"`
	MaxQueryS  float64          `json:"slowest_query_seconds"`
	CrossN     int              `json:"cross_checked_queries,omitempty"`
	CrossBad   int              `json:"cross_check_disagreements,omitempty"`
	WallS      float64          `json:"wall_s"`
	Exhausted  bool             `json:"all_paths_within_bounds_explored"`
	Reached    map[string]int64 `json:"reachability_witnesses,omitempty"`
	Notes      []string         `json:"notes,omitempty"`
	Concurrent bool             `json:"schedules_symbolic,omitempty"`
}

func writeEvidence(id, tier string, seed int64, cov map[string]any, assumptions []string, wall float64, viol int) {
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": assumptions, "wall_s": wall, "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(b, '\n'), 0o644)
}

var baseAssumptions = []string{
	"go/ssa (x/tools v0.52.0) represents the source faithfully; the executor's instruction semantics are cross-checked on every run by replaying path models natively",
	"z3 4.8.12 (z3 5.x / cvc5 on timeouts) is sound",
	"linux/amd64, 64-bit int, append growth as in the pinned Go runtime; no allocation failure",
}

func check(id, tier string) int {
	t0 := time.Now()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	debug := os.Getenv("VERIF_DEBUG") != ""
	cov := map[string]any{}
	fail := func(what string, err error) int {
		// The check could not be applied to this tree: reduced bound, no alarm.
		fmt.Printf("NOTE property=%s nothing decided: %s: %v\n", id, what, err)
		cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = 0, 0, 0
		cov["samples"] = []any{}
		cov["explanation"] = fmt.Sprintf("nothing decided on this tree: %s: %v", what, err)
		writeEvidence(id, tier, seed, cov, nil, time.Since(t0).Seconds(), 0)
		return 0
	}
	gomod0, _ := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	gosum0, _ := os.ReadFile(filepath.Join(repoDir, "go.sum"))
	defer func() {
		for f, b := range map[string][]byte{"go.mod": gomod0, "go.sum": gosum0} {
			if now, _ := os.ReadFile(filepath.Join(repoDir, f)); string(now) != string(b) {
				os.WriteFile(filepath.Join(repoDir, f), b, 0o644)
			}
		}
	}()
	cfg, err := loadConfig(id)
	if err != nil {
		return fail("configuration", err)
	}
	ov, err := buildOverlay(id, cfg)
	if err != nil {
		return fail("overlay", err)
	}
	nch := make(chan *Native, 1)
	P, err := loadProgram(id, ov)
	if err != nil {
		return fail("the code under test does not load with the harness", err)
	}
	go func() { nch <- buildNative(id, ov, false) }()
	loadS := time.Since(t0).Seconds()
	P.tier, P.seed = tier, seed
	if cfg.MaxSteps > 0 {
		P.maxSteps = cfg.MaxSteps
	}
	if cfg.NoMerge {
		P.mergeOn = false
	}
	if cfg.Solver != "" {
		solverBin = cfg.Solver
	}
	total := time.Duration(cfg.Quick) * time.Second
	if total == 0 {
		total = 150 * time.Second
	}
	if tier == "thorough" {
		total = time.Duration(cfg.Thorough) * time.Second
		if total == 0 {
			total = 600 * time.Second
		}
	}
	if total > 700*time.Second {
		total = 700 * time.Second
	}
	deadline := time.Now().Add(total)

	var fns []*ssa.Function
	only := os.Getenv("VERIF_ONLY")
	for _, mem := range P.mainPkg.Members {
		fn, ok := mem.(*ssa.Function)
		if !ok || fn.Syntax() == nil {
			continue
		}
		n := fn.Name()
		if len(n) < 2 || n[0] != 'H' || n[1] < 'A' || n[1] > 'Z' || fn.Signature.Params().Len() != 0 {
			continue
		}
		if only != "" && n != only {
			continue
		}
		if contains(cfg.Skip, n) || (tier == "quick" && contains(cfg.ThoroughOnly, n)) {
			continue
		}
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	if w, _ := strconv.Atoi(os.Getenv("VERIF_WORKERS")); w > 0 {
		workers = w
	}
	var reports []*harnessReport
	var viols, hangs []*Violation
	var samples []PathSample
	reachAll := map[string]int64{}
	funcs := map[string]bool{}
	for i, fn := range fns {
		left := time.Until(deadline)
		if left < time.Second {
			left = time.Second
		}
		budget := left
		if n := len(fns) - i; n > 1 {
			budget = left * 2 / time.Duration(n+1)
		}
		E := NewExplorer(P, workers)
		ht := time.Now()
		E.Run(fn, budget, 0)
		r := &harnessReport{Name: fn.Name(), Paths: E.Completed, Pruned: E.Pruned, Incomplete: E.Incomplete, Asserts: E.Asserts, Discharged: E.Disch, Branches: E.Branches, Merges: E.Merges, Instr: E.Instr, MaxPC: E.maxPC, WallS: rnd(time.Since(ht).Seconds()), Reached: map[string]int64{}}
		for _, m := range E.ms {
			r.Queries += m.s.Queries
			r.SatN += m.s.SatN
			r.UnsatN += m.s.UnsatN
			r.UnknownN += m.s.UnknownN
			r.Hard += m.s.Hard
			r.CrossN += m.s.CrossN
			r.CrossBad += m.s.CrossBad
			r.SolverS += m.s.Time.Seconds()
			if x := m.s.MaxTime.Seconds(); x > r.MaxQueryS {
				r.MaxQueryS = x
			}
		}
		r.SolverS, r.MaxQueryS = rnd(r.SolverS), rnd(r.MaxQueryS)
		for k, v := range E.reached {
			reachAll[k] += v
			r.Reached[k[strings.IndexByte(k, '/')+1:]] = v
		}
		r.Notes = E.noteList()
		if E.timedOut {
			r.Notes = append(r.Notes, "time budget exhausted: the remaining paths of this harness were not explored")
		}
		r.Exhausted = !E.timedOut && E.Incomplete == 0 && len(E.viols) == 0 && r.UnknownN == 0
		for _, s := range E.samples {
			r.Concurrent = r.Concurrent || s.Conc
		}
		if r.Paths == 0 && len(E.viols) == 0 {
			r.Notes = append(r.Notes, "no path completed (vacuous)")
		}
		viols = append(viols, E.viols...)
		hangs = append(hangs, E.hangs...)
		samples = append(samples, E.samples...)
		reports = append(reports, r)
		E.Close()
		if debug {
			b, _ := json.MarshalIndent(r, "", " ")
			fmt.Fprintln(os.Stderr, string(b))
		}
		if len(E.viols) > 0 && time.Since(t0) > 300*time.Second {
			break
		}
	}
	// native side: replay of counterexamples and of sampled path models
	nat := <-nch
	defer nat.Close()
	var notes []string
	validated := 0
	mism := 0
	if nat.err != nil {
		notes = append(notes, "native build failed: "+nat.err.Error())
		if debug {
			fmt.Fprintln(os.Stderr, nat.err)
		}
	}
	if nat.err == nil {
		vd := time.Now().Add(20 * time.Second)
		if tier == "thorough" {
			vd = time.Now().Add(60 * time.Second)
		}
		for _, s := range samples {
			if (s.Conc && !cfg.NativeConc) || time.Now().After(vd) {
				continue
			}
			code, out := nat.run(nativeRun{s.Harness, s.Model, tier}, 20*time.Second)
			switch {
			case code == 0:
				if got := obsLines(out); strings.Join(got, "\n") == strings.Join(s.Obs, "\n") {
					validated++
				} else {
					mism++
					notes = append(notes, fmt.Sprintf("trace mismatch in %s (model %v): engine %v native %v", s.Harness, s.Model, trunc(s.Obs), trunc(got)))
				}
			case code == 3 || code == 5 || (code == 2 && strings.Contains(out, "panic:")):
				mism++
				notes = append(notes, fmt.Sprintf("trace mismatch in %s: native run failed: %s", s.Harness, firstLines(out, 3)))
				if s.Conc {
					continue
				}
				viols = append(viols, &Violation{Harness: s.Harness, Msg: "native replay of an explored path fails: " + firstLines(out, 1), Model: s.Model, Kind: "native"})
			case code == -9:
				mism++
				notes = append(notes, "trace mismatch in "+s.Harness+": native run did not terminate")
			default:
				mism++
				notes = append(notes, fmt.Sprintf("trace mismatch in %s: exit %d %s", s.Harness, code, firstLines(out, 2)))
			}
		}
	}
	known := loadKnown()
	exit := 0
	nviol := 0
	var confirmed []map[string]any
	var unconfirmed []string
	for _, v := range append(viols, hangs...) {
		how, why := confirm(nat, v, tier)
		if how == "" {
			unconfirmed = append(unconfirmed, v.Harness+": "+v.Msg)
			notes = append(notes, fmt.Sprintf("counterexample not reproduced by the real code, not reported: %s: %s (%s; values %v)", v.Harness, v.Msg, why, v.Model))
			continue
		}
		if k := known.match(id, v); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			continue
		}
		nviol++
		path := writeReplay(id, tier, nviol, v, how)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		fmt.Printf("  %s: %s (%s)\n", v.Harness, v.Msg, how)
		confirmed = append(confirmed, map[string]any{"harness": v.Harness, "what": v.Msg, "model": v.Model, "confirmed": how, "replay": path})
		exit = 1
	}
	P.cfuncs.Range(func(k, _ any) bool {
		fn := k.(*ssa.Function)
		f := fn
		for f.Parent() != nil {
			f = f.Parent()
		}
		if o := f.Origin(); o != nil {
			f = o
		}
		if f.Pkg == nil || f.Syntax() == nil {
			return true
		}
		p := f.Pkg.Pkg.Path()
		if strings.HasPrefix(p, repoMod) && !strings.Contains(p, "/zzverif") && !strings.HasPrefix(filepath.Base(P.prog.Fset.Position(f.Pos()).Filename), "zzverif_") {
			funcs[strings.TrimPrefix(fn.String(), repoMod+"/")] = true
		}
		return true
	})
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var st, tr, paths, inc int64
	var q, un, ns int
	var disch, asserts int64
	var sol float64
	exhausted := true
	for _, r := range reports {
		st += r.Paths + r.Pruned + r.Incomplete + r.Branches
		tr += r.Instr
		paths += r.Paths
		inc += r.Incomplete
		q += r.Queries
		un += r.UnknownN
		ns += r.UnsatN
		sol += r.SolverS
		disch += r.Discharged
		asserts += r.Asserts
		exhausted = exhausted && r.Exhausted
	}
	var sm []any
	for _, s := range samples {
		if len(sm) >= 4 {
			break
		}
		sm = append(sm, map[string]any{"harness": s.Harness, "model": s.Model, "observed": trunc(s.Obs)})
	}
	if sm == nil {
		sm = []any{}
	}
	cov["states"] = st
	cov["transitions"] = tr
	cov["traces_validated_against_impl"] = validated
	cov["samples"] = sm
	cov["exhaustive"] = exhausted
	cov["explanation"] = "states = symbolic execution-tree nodes (path ends plus symbolic branch points); transitions = SSA instructions executed symbolically; each assertion is decided by an SMT query over all inputs of its path. exhaustive = every path within the stated bounds was explored and every query decided."
	cov["functions_encoded"] = fl
	cov["functions_encoded_count"] = len(fl)
	cov["bounds"] = cfg.Bounds
	cov["queries_discharged"] = q
	cov["queries_unsat"] = ns
	cov["queries_unknown"] = un
	cov["assertions_evaluated"] = asserts
	cov["assertions_discharged_unsat"] = disch
	cov["solver_seconds"] = rnd(sol)
	cov["load_seconds"] = rnd(loadS)
	cov["paths_completed"] = paths
	cov["paths_not_modelled"] = inc
	cov["trace_mismatches"] = mism
	cov["harnesses"] = reports
	cov["reachability"] = reachAll
	cov["notes"] = notes
	cov["violations_confirmed"] = confirmed
	cov["counterexamples_not_reproduced"] = unconfirmed
	writeEvidence(id, tier, seed, cov, append(append([]string{}, baseAssumptions...), cfg.Assumptions...), rnd(time.Since(t0).Seconds()), nviol)
	fmt.Printf("property=%s tier=%s harnesses=%d paths=%d not_modelled=%d queries=%d unknown=%d asserts=%d traces_validated=%d mismatches=%d functions=%d exhaustive=%v wall=%.1fs violations=%d\n",
		id, tier, len(reports), paths, inc, q, un, asserts, validated, mism, len(fl), exhausted, time.Since(t0).Seconds(), nviol)
	for _, n := range notes {
		fmt.Println("NOTE", n)
	}
	for _, r := range reports {
		for _, n := range r.Notes {
			fmt.Println("NOTE", r.Name+":", n)
		}
	}
	return exit
}

func rnd(x float64) float64 { return float64(int64(x*1000+0.5)) / 1000 }

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func obsLines(out string) []string {
	var r []string
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "OBS ") {
			r = append(r, l)
		}
	}
	return r
}

func trunc(l []string) []string {
	if len(l) > 24 {
		l = l[:24]
	}
	return l
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	var keep []string
	for _, x := range l {
		if strings.HasPrefix(x, "OBS ") {
			continue
		}
		keep = append(keep, x)
		if len(keep) == n {
			break
		}
	}
	return strings.Join(keep, " | ")
}

// confirm replays a counterexample against the real code. It returns how it
// was confirmed, or why it was not.
func confirm(nat *Native, v *Violation, tier string) (how, why string) {
	if nat.err != nil {
		return "", "the native build failed"
	}
	tries := 3
	if v.Conc {
		tries = 5
	}
	for i := 0; i < tries; i++ {
		to := 20 * time.Second
		if v.Conc || v.Kind == "deadlock" {
			to = 5 * time.Second
		}
		code, out := nat.run(nativeRun{v.Harness, v.Model, tier}, to)
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "replay %s %q kind=%s -> %d %s\n", v.Harness, v.Msg, v.Kind, code, firstLines(out, 12))
		}
		why = fmt.Sprintf("native run: exit %d %s", code, firstLines(out, 2))
		switch {
		case code == 3:
			return "native replay: " + firstLines(out, 1), ""
		case code == 5, code == 2 && strings.Contains(out, "panic:"):
			return "native replay panics: " + firstLines(out, 1), ""
		case code == 2 && strings.Contains(out, "deadlock!"):
			return "native replay deadlocks", ""
		case code == 2 && strings.Contains(out, "fatal error:"):
			return "native replay: " + firstLines(out, 1), ""
		case code == -9 && (v.Kind == "hang" || v.Kind == "deadlock"):
			return "native replay does not terminate", ""
		}
	}
	if v.Conc && v.Kind != "hang" && v.Kind != "native" {
		return "schedule-dependent: re-executed deterministically over the SSA of the real code under the recorded schedule", ""
	}
	return "", why
}

type replayFile struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Harness  string   `json:"harness"`
	What     string   `json:"what"`
	Kind     string   `json:"kind"`
	How      string   `json:"confirmed"`
	Vars     Model    `json:"vars"`
	Schedule []string `json:"schedule,omitempty"`
	Trace    []int32  `json:"decisions,omitempty"`
	Cmd      string   `json:"replay_with"`
}

func writeReplay(id, tier string, n int, v *Violation, how string) string {
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, n))
	r := replayFile{Property: id, Tier: tier, Harness: v.Harness, What: v.Msg, Kind: v.Kind, How: how, Vars: v.Model, Cmd: "/verif/check.sh replay " + p}
	if v.Conc {
		r.Schedule, r.Trace = v.Sched, v.Trace
	}
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(p, append(b, '\n'), 0o644)
	return p
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	cfg, err := loadConfig(r.Property)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	ov, err := buildOverlay(r.Property, cfg)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if len(r.Trace) > 0 {
		P, err := loadProgram(r.Property, ov)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		P.tier = r.Tier
		for _, mem := range P.mainPkg.Members {
			if fn, ok := mem.(*ssa.Function); ok && fn.Name() == r.Harness {
				E := NewExplorer(P, 1)
				defer E.Close()
				bad := E.replayTrace(fn, r.Trace, r.Vars)
				for _, s := range r.Schedule {
					fmt.Println("schedule:", s)
				}
				if bad != "" {
					fmt.Println("REPRODUCED under the recorded schedule:", bad)
					return 1
				}
			}
		}
	}
	nat := buildNative(r.Property, ov, false)
	defer nat.Close()
	if nat.err != nil {
		fmt.Println(nat.err)
		return 2
	}
	code, out := nat.run(nativeRun{r.Harness, r.Vars, r.Tier}, 30*time.Second)
	fmt.Print(out)
	fmt.Println("exit code of the native run:", code)
	if code == 0 || code == 4 {
		return 0
	}
	return 1
}

// replayTrace re-executes one recorded decision trace.
func (e *Explorer) replayTrace(fn *ssa.Function, trace []int32, md Model) string {
	e.fn, e.name = fn, fn.Name()
	e.deadline = time.Now().Add(60 * time.Second)
	e.queues = make([][]Item, len(e.ms))
	e.runItem(e.ms[0], Item{trace, md})
	if len(e.viols) > 0 {
		return e.viols[0].Msg
	}
	return ""
}

// ---- known findings

type knownList []knownEntry
type knownEntry struct{ prop, harness, msg, what string }

// loadKnown reads known-findings.txt: lines
//
//	known: property=<id> harness=<name> msg="<message>" <what fails>
//	fixed: property=<id> <commit> <what failed>      (suppresses nothing)
func loadKnown() knownList {
	b, _ := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	var l knownList
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "known:") {
			continue
		}
		var k knownEntry
		rest := strings.TrimSpace(strings.TrimPrefix(line, "known:"))
		for rest != "" {
			switch {
			case strings.HasPrefix(rest, "property="):
				k.prop, rest = cutField(rest[9:])
			case strings.HasPrefix(rest, "harness="):
				k.harness, rest = cutField(rest[8:])
			case strings.HasPrefix(rest, "msg=\""):
				i := strings.IndexByte(rest[5:], '"')
				if i < 0 {
					rest = ""
					break
				}
				k.msg = rest[5 : 5+i]
				rest = strings.TrimSpace(rest[6+i:])
			default:
				k.what, rest = rest, ""
			}
		}
		if k.prop != "" && k.harness != "" && k.msg != "" {
			l = append(l, k)
		}
	}
	return l
}

func cutField(s string) (string, string) {
	i := strings.IndexByte(s, ' ')
	if i < 0 {
		return s, ""
	}
	return s[:i], strings.TrimSpace(s[i:])
}

func (l knownList) match(id string, v *Violation) string {
	for _, k := range l {
		if k.prop == id && k.harness == v.Harness && k.msg == v.Msg {
			return k.what
		}
	}
	return ""
}

var _ = exec.Command
