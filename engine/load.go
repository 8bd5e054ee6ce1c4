package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// HConfig is harness/<ID>/config.json.
type HConfig struct {
	// Rewrite maps import paths to replacement packages, applied to the
	// non-test files of the listed packages (directories relative to /repo,
	// "" = root).
	Rewrite     map[string]string `json:"rewrite"`
	RewritePkgs []string          `json:"rewritePkgs"`
	// Deps: rewritten copies of module dependencies: import path -> rewrite
	RewriteDeps []string `json:"rewriteDeps"`
	// CgoStub maps a repo directory to the lib package standing in for its C
	// library: C.name becomes <lib>.C_name in the files importing "C".
	CgoStub map[string]string `json:"cgoStub"`
	// InPkg maps a repo directory to harness files placed inside that package.
	InPkg map[string][]string `json:"inpkg"`
	// Harnesses with per-harness settings
	Quick        int      `json:"quickSeconds"`
	Thorough     int      `json:"thoroughSeconds"`
	Skip         []string `json:"skip"`
	ThoroughOnly []string `json:"thoroughOnly"`
	Bounds       []string `json:"bounds"`
	Assumptions  []string `json:"assumptions"`
	MaxSteps     int64    `json:"maxSteps"`
	NoMerge      bool     `json:"noMerge"`
	Solver       string   `json:"solver"`
	// NativeConc: goroutine schedules do not matter to the outcome (the harness
	// waits for quiescence after each step), so path models are also replayed natively.
	NativeConc bool `json:"nativeConc"`
	Schedules  bool `json:"schedules"`
}

const repoMod = "github.com/livekit/media-sdk"

var repoDir = "/repo"
var verifDir = "/verif"

func loadConfig(id string) (*HConfig, error) {
	c := &HConfig{}
	b, err := os.ReadFile(filepath.Join(verifDir, "harness", id, "config.json"))
	if err != nil {
		if os.IsNotExist(err) {
			return c, nil
		}
		return nil, err
	}
	return c, json.Unmarshal(b, c)
}

// buildOverlay maps virtual paths under /repo to file contents.
func buildOverlay(id string, cfg *HConfig) (map[string][]byte, error) {
	ov := map[string][]byte{}
	hd := filepath.Join(verifDir, "harness")
	addDir := func(src, dst string) error {
		ents, err := os.ReadDir(src)
		if err != nil {
			return err
		}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(src, e.Name()))
			if err != nil {
				return err
			}
			ov[filepath.Join(dst, e.Name())] = b
		}
		return nil
	}
	// shared stub packages
	ents, err := os.ReadDir(filepath.Join(hd, "lib"))
	if err != nil {
		return nil, err
	}
	for _, e := range ents {
		if e.IsDir() {
			if err := addDir(filepath.Join(hd, "lib", e.Name()), filepath.Join(repoDir, "zzverif", e.Name())); err != nil {
				return nil, err
			}
		}
	}
	pk := "h_" + strings.ToLower(id)
	if err := addDir(filepath.Join(hd, id), filepath.Join(repoDir, "zzverif", pk)); err != nil {
		return nil, err
	}
	for dir, files := range cfg.InPkg {
		for _, f := range files {
			b, err := os.ReadFile(filepath.Join(hd, id, "inpkg", f))
			if err != nil {
				return nil, err
			}
			ov[filepath.Join(repoDir, dir, "zzverif_"+strings.TrimSuffix(f, ".txt"))] = b
		}
	}
	// native entry point
	var names []string
	fset := token.NewFileSet()
	for p, b := range ov {
		if !strings.HasPrefix(p, filepath.Join(repoDir, "zzverif", pk)) {
			continue
		}
		f, err := parser.ParseFile(fset, p, b, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		for _, d := range f.Decls {
			if n := harnessDecl(d); n != "" {
				names = append(names, n)
			}
		}
	}
	sort.Strings(names)
	mainSrc := "package main\n\nimport \"" + repoMod + "/zzverif/sym\"\n\nfunc main() {\n\tsym.Main(map[string]func(){\n"
	for _, n := range names {
		mainSrc += "\t\t" + strconv.Quote(n) + ": " + n + ",\n"
	}
	mainSrc += "\t})\n}\n"
	ov[filepath.Join(repoDir, "zzverif", pk, "zz_main.go")] = []byte(mainSrc)
	// import rewriting
	for _, dir := range cfg.RewritePkgs {
		d := filepath.Join(repoDir, dir)
		ents, err := os.ReadDir(d)
		if err != nil {
			continue
		}
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(d, n))
			if err != nil {
				return nil, err
			}
			nb, ch, err := rewriteImports(b, cfg.Rewrite)
			if err != nil {
				return nil, err
			}
			if ch {
				ov[filepath.Join(d, n)] = nb
			}
		}
	}
	for dir, lib := range cfg.CgoStub {
		d := filepath.Join(repoDir, dir)
		ents, err := os.ReadDir(d)
		if err != nil {
			continue
		}
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			f := filepath.Join(d, n)
			b, ok := ov[f]
			if !ok {
				if b, err = os.ReadFile(f); err != nil {
					return nil, err
				}
			}
			nb, ch, err := stubCgo(b, lib)
			if err != nil {
				return nil, err
			}
			if ch {
				ov[f] = nb
			}
		}
	}
	return ov, nil
}

// stubCgo replaces import "C" and every C.name by the stand-in package.
func stubCgo(src []byte, lib string) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.SkipObjectResolution)
	if err != nil {
		return nil, false, err
	}
	type ed struct {
		lo, hi int
		s      string
	}
	var eds []ed
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	for _, im := range f.Imports {
		if im.Path.Value == "\"C\"" {
			eds = append(eds, ed{off(im.Path.Pos()), off(im.Path.End()), "zzcgo " + strconv.Quote(repoMod+"/zzverif/"+lib)})
		}
	}
	if len(eds) == 0 {
		return src, false, nil
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if se, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := se.X.(*ast.Ident); ok && id.Name == "C" {
				eds = append(eds, ed{off(se.Pos()), off(se.End()), "zzcgo.C_" + se.Sel.Name})
			}
		}
		return true
	})
	sort.Slice(eds, func(i, j int) bool { return eds[i].lo < eds[j].lo })
	out, pos := "", 0
	for _, e := range eds {
		out += string(src[pos:e.lo]) + e.s
		pos = e.hi
	}
	return []byte(out + string(src[pos:])), true, nil
}

// rewriteImports replaces import paths textually, keeping line structure and
// adding an explicit name so that selectors keep resolving.
func rewriteImports(src []byte, rw map[string]string) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ImportsOnly)
	if err != nil {
		return nil, false, err
	}
	type ed struct {
		lo, hi int
		s      string
	}
	var eds []ed
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		to, ok := rw[p]
		if !ok {
			continue
		}
		name := ""
		if im.Name == nil {
			name = guessName(p) + " "
		}
		lo := fset.Position(im.Path.Pos()).Offset
		eds = append(eds, ed{lo, lo + len(im.Path.Value), name + strconv.Quote(repoMod+"/zzverif/"+to)})
	}
	if len(eds) == 0 {
		return src, false, nil
	}
	out := ""
	pos := 0
	for _, e := range eds {
		out += string(src[pos:e.lo]) + e.s
		pos = e.hi
	}
	out += string(src[pos:])
	return []byte(out), true, nil
}

func guessName(p string) string {
	b := filepath.Base(p)
	if strings.HasPrefix(b, "v") && len(b) <= 3 {
		if _, err := strconv.Atoi(b[1:]); err == nil {
			b = filepath.Base(filepath.Dir(p))
		}
	}
	if i := strings.LastIndexByte(b, '.'); i > 0 {
		b = b[:i]
	}
	return b
}

func repoEnv() []string {
	env := os.Environ()
	out := env[:0:0]
	for _, e := range env {
		k := e[:strings.IndexByte(e, '=')]
		switch k {
		case "PATH", "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "CGO_ENABLED", "HOME", "GOPATH", "GOMODCACHE", "GOCACHE", "GOROOT":
			continue
		}
		out = append(out, e)
	}
	return append(out,
		"PATH=/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=1", "HOME=/root",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE="+goCache())
}

func goCache() string {
	if c := os.Getenv("VERIF_GOCACHE"); c != "" {
		return c
	}
	return "/root/.cache/go-build"
}

func loadProgram(id string, ov map[string][]byte) (*Program, error) {
	pat := repoMod + "/zzverif/h_" + strings.ToLower(id)
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Overlay: ov, Env: repoEnv()}
	ps, err := packages.Load(cfg, pat)
	if err != nil {
		return nil, err
	}
	if len(ps) != 1 {
		return nil, fmt.Errorf("harness package not found")
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, p.PkgPath+": "+e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, mainPkg: pkgs[0], repoMod: repoMod, globals: map[*ssa.Global]int{}, maxSteps: 30_000_000, mergeOn: true}
	return P, nil
}
