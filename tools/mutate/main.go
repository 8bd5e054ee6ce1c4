// mutate lists and applies small source mutations: mutate FILE -> count and
// descriptions; mutate FILE N -> mutated source on stdout.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	pos   token.Pos
	desc  string
	apply func()
}

func main() {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var ms []mut
	add := func(p token.Pos, d string, a func()) { ms = append(ms, mut{p, d, a}) }
	swap := map[token.Token][]token.Token{
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
		token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR},
		token.LAND: {token.LOR}, token.LOR: {token.LAND},
		token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL},
		token.REM: {token.QUO}, token.AND: {token.OR}, token.OR: {token.AND}, token.SHL: {token.SHR}, token.SHR: {token.SHL},
	}
	zero := func() ast.Expr { return ast.NewIdent("false") }
	var fn string
	var inConst bool
	var walk func(n ast.Node) bool
	list := func(l []ast.Stmt) {
		for i := range l {
			i := i
			switch s := l[i].(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt, *ast.GoStmt:
				add(l[i].Pos(), "delete stmt", func() { l[i] = &ast.EmptyStmt{} })
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					add(s.Pos(), "delete assign", func() {
						// keep variables used
						var es []ast.Expr
						for range s.Rhs {
							es = append(es, ast.NewIdent("_"))
						}
						l[i] = &ast.AssignStmt{Lhs: es, Tok: token.ASSIGN, Rhs: s.Rhs}
					})
				}
			case *ast.BranchStmt:
				if s.Tok == token.CONTINUE || s.Tok == token.BREAK {
					add(s.Pos(), "delete "+s.Tok.String(), func() { l[i] = &ast.EmptyStmt{} })
				}
			}
		}
	}
	walk = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			fn = x.Name.Name
			if fn == "String" || fn == "init" {
				return false
			}
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.BinaryExpr:
			for _, t := range swap[x.Op] {
				t := t
				o := x.Op
				add(x.OpPos, fmt.Sprintf("%s -> %s", o, t), func() { x.Op = t })
			}
		case *ast.IfStmt:
			add(x.Pos(), "if false", func() { x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LAND, Y: zero()} })
			add(x.Pos(), "if true", func() { x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LOR, Y: ast.NewIdent("true")} })
		case *ast.BasicLit:
			if x.Kind == token.INT && !inConst {
				v, err := strconv.ParseInt(x.Value, 0, 64)
				if err == nil {
					o := x.Value
					add(x.Pos(), o+" -> +1", func() { x.Value = strconv.FormatInt(v+1, 10) })
					if v > 0 {
						add(x.Pos(), o+" -> -1", func() { x.Value = strconv.FormatInt(v-1, 10) })
					}
				}
			}
		case *ast.ReturnStmt:
			for i, r := range x.Results {
				i := i
				if id, ok := r.(*ast.Ident); ok && (id.Name == "err" || id.Name == "last" || id.Name == "err2") {
					add(id.Pos(), "return nil error", func() { x.Results[i] = ast.NewIdent("nil") })
				}
				if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
					nn := map[string]string{"true": "false", "false": "true"}[id.Name]
					add(id.Pos(), "return "+nn, func() { x.Results[i] = ast.NewIdent(nn) })
				}
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				add(x.Pos(), "slice low dropped", func() { x.Low = nil })
			}
			if x.High != nil && !x.Slice3 {
				add(x.Pos(), "slice high dropped", func() { x.High = nil })
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.Pos(), "! dropped", func() { x.Op = token.ADD; x.X = &ast.ParenExpr{X: x.X} })
			}
		}
		return true
	}
	for _, d := range f.Decls {
		fn = ""
		ast.Inspect(d, walk)
	}
	if len(os.Args) == 2 {
		for i, m := range ms {
			fmt.Printf("%d\t%d\t%s\n", i, fset.Position(m.pos).Line, m.desc)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	if ms[n].desc == "! dropped" {
		// handled textually: replace '!' by a blank
		b, _ := os.ReadFile(os.Args[1])
		o := fset.Position(ms[n].pos).Offset
		b[o] = ' '
		os.Stdout.Write(b)
		return
	}
	ms[n].apply()
	var out bytes.Buffer
	printer.Fprint(&out, fset, f)
	os.Stdout.Write(out.Bytes())
}
