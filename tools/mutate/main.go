// Command mutate lists or applies single-place changes of a Go file
// (used to look for changes no check notices).
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	pos  token.Pos
	what string
	do   func()
}

func main() {
	file := os.Args[1]
	n := -1
	if len(os.Args) > 2 {
		n, _ = strconv.Atoi(os.Args[2])
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var ms []mut
	add := func(p token.Pos, what string, do func()) { ms = append(ms, mut{p, what, do}) }
	swap := map[token.Token][]token.Token{
		token.LSS: {token.LEQ, token.GEQ}, token.GTR: {token.GEQ, token.LEQ}, token.LEQ: {token.LSS, token.GTR}, token.GEQ: {token.GTR, token.LSS},
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.ADD: {token.SUB}, token.SUB: {token.ADD},
		token.MUL: {token.ADD}, token.QUO: {token.MUL}, token.REM: {token.QUO},
		token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.SHL: {token.SHR}, token.SHR: {token.SHL},
	}
	isSlog := func(e ast.Expr) bool {
		c, ok := e.(*ast.CallExpr)
		if !ok {
			return false
		}
		s, ok := c.Fun.(*ast.SelectorExpr)
		if !ok {
			return false
		}
		x, ok := s.X.(*ast.Ident)
		return ok && (x.Name == "slog" || x.Name == "logger")
	}
	isErrCheck := func(e ast.Expr) bool {
		b, ok := e.(*ast.BinaryExpr)
		if !ok || b.Op != token.NEQ {
			return false
		}
		x, ok := b.X.(*ast.Ident)
		return ok && x.Name == "err"
	}
	ast.Inspect(f, func(node ast.Node) bool {
		switch x := node.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BinaryExpr:
			for _, t := range swap[x.Op] {
				old := x.Op
				add(x.OpPos, fmt.Sprintf("%s -> %s", old, t), func() { x.Op = t })
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.ParseInt(x.Value, 0, 64)
				if err == nil {
					add(x.Pos(), fmt.Sprintf("%d -> %d", v, v+1), func() { x.Value = fmt.Sprint(v + 1) })
					if v > 0 {
						add(x.Pos(), fmt.Sprintf("%d -> %d", v, v-1), func() { x.Value = fmt.Sprint(v - 1) })
					}
				}
			}
		case *ast.IfStmt:
			if isErrCheck(x.Cond) {
				add(x.Pos(), "ignore error", func() { x.Cond = &ast.BinaryExpr{X: x.Cond, Op: token.LAND, Y: ast.NewIdent("false")} })
			} else {
				add(x.Pos(), "if false", func() { x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LAND, Y: ast.NewIdent("false")} })
				add(x.Pos(), "if true", func() { x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LOR, Y: ast.NewIdent("true")} })
			}
		case *ast.BlockStmt:
			for i, s := range x.List {
				del := false
				switch t := s.(type) {
				case *ast.ExprStmt:
					del = !isSlog(t.X)
				case *ast.AssignStmt:
					del = t.Tok != token.DEFINE
				case *ast.IncDecStmt:
					del = true
				case *ast.BranchStmt:
					del = true
				}
				if del {
					add(s.Pos(), "delete statement", func() { x.List[i] = &ast.EmptyStmt{Semicolon: s.Pos()} })
				}
				if b, ok := s.(*ast.BranchStmt); ok && (b.Tok == token.BREAK || b.Tok == token.CONTINUE) {
					add(s.Pos(), "break <-> continue", func() {
						if b.Tok == token.BREAK {
							b.Tok = token.CONTINUE
						} else {
							b.Tok = token.BREAK
						}
					})
				}
			}
		case *ast.CaseClause:
			for i, s := range x.Body {
				if t, ok := s.(*ast.AssignStmt); ok && t.Tok != token.DEFINE {
					add(s.Pos(), "delete statement", func() { x.Body[i] = &ast.EmptyStmt{Semicolon: s.Pos()} })
				}
			}
		case *ast.AssignStmt:
			if x.Tok == token.ADD_ASSIGN {
				add(x.TokPos, "+= -> =", func() { x.Tok = token.ASSIGN })
				add(x.TokPos, "+= -> -=", func() { x.Tok = token.SUB_ASSIGN })
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.Pos(), "drop !", func() { x.Op = token.ADD; x.X = &ast.UnaryExpr{Op: token.NOT, X: &ast.UnaryExpr{Op: token.NOT, X: x.X}}; x.Op = token.NOT; x.X = &ast.UnaryExpr{Op: token.NOT, X: x.X.(*ast.UnaryExpr).X.(*ast.UnaryExpr).X} })
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				old := x.Low
				add(x.Pos(), "low+1", func() { x.Low = &ast.BinaryExpr{X: old, Op: token.ADD, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}} })
			}
			if x.High != nil {
				old := x.High
				add(x.Pos(), "high-1", func() { x.High = &ast.BinaryExpr{X: old, Op: token.SUB, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}} })
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "uint64" {
				add(x.Pos(), "uint64 via uint32", func() { x.Args[0] = &ast.CallExpr{Fun: ast.NewIdent("uint32"), Args: x.Args} })
			}
			if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "uint32" || id.Name == "int") {
				add(x.Pos(), id.Name+" via uint16", func() { x.Args[0] = &ast.CallExpr{Fun: ast.NewIdent("uint16"), Args: x.Args[:1:1]} })
			}
		}
		return true
	})
	if n < 0 {
		for i, m := range ms {
			p := fset.Position(m.pos)
			fmt.Printf("%d\t%d\t%s\n", i, p.Line, m.what)
		}
		return
	}
	ms[n].do()
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		panic(err)
	}
	os.Stdout.Write(b.Bytes())
}
