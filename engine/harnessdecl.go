package main

import (
	"go/ast"
	"unicode"
)

// harnessDecl returns the name of a harness entry point: func H<Upper>...().
func harnessDecl(d ast.Decl) string {
	f, ok := d.(*ast.FuncDecl)
	if !ok || f.Recv != nil || f.Type.Params.NumFields() != 0 || f.Type.Results.NumFields() != 0 {
		return ""
	}
	n := f.Name.Name
	if len(n) < 2 || n[0] != 'H' || !unicode.IsUpper(rune(n[1])) {
		return ""
	}
	return n
}
