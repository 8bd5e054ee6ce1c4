package main

import (
	"fmt"
	"go/importer"
	"go/token"
	"go/types"
	"os"
	"strings"
)

func main() {
	path, pkg := os.Args[1], os.Args[2]
	skip := map[string]bool{}
	for _, s := range os.Args[3:] {
		skip[s] = true
	}
	p, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import(path)
	if err != nil {
		panic(err)
	}
	base := p.Name()
	var ty, co, va []string
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if !o.Exported() || skip[n] {
			continue
		}
		switch o := o.(type) {
		case *types.TypeName:
			ty = append(ty, fmt.Sprintf("\t%s = %s.%s\n", n, base, n))
		case *types.Const:
			co = append(co, fmt.Sprintf("\t%s = %s.%s\n", n, base, n))
		case *types.Var:
			va = append(va, fmt.Sprintf("\t%s = %s.%s\n", n, base, n))
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams() != nil {
				continue
			}
			va = append(va, fmt.Sprintf("\t%s = %s.%s\n", n, base, n))
		}
	}
	fmt.Printf("package %s\n\n// The rest of package %s, unchanged.\n\nimport %q\n\n", pkg, path, path)
	if len(ty) > 0 {
		fmt.Printf("type (\n%s)\n\n", strings.Join(ty, ""))
	}
	if len(co) > 0 {
		fmt.Printf("const (\n%s)\n\n", strings.Join(co, ""))
	}
	if len(va) > 0 {
		fmt.Printf("var (\n%s)\n", strings.Join(va, ""))
	}
}
