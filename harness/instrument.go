package main

import (
	"bytes"
	_ "embed"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

//go:embed embed/point.go.txt
var pointSrc []byte

// instrument writes copies of the first two versions to dir, with a scheduling
// point before every statement and package sync replaced. It works on syntax
// alone, whatever the code looks like.
func instrument(repo, dir string, split bool) error {
	if err := os.MkdirAll(filepath.Join(dir, "point"), 0o755); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(dir, "point", "point.go"), pointSrc, 0o644); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(dir, "point", "go.mod"), []byte("module sched.local/point\n\ngo 1.20\n"), 0o644); err != nil {
		return err
	}
	for _, v := range []string{"v1", "v2"} {
		out := filepath.Join(dir, v)
		if err := os.MkdirAll(out, 0o755); err != nil {
			return err
		}
		mod, err := os.ReadFile(filepath.Join(repo, v, "go.mod"))
		if err != nil {
			return err
		}
		gov := regexp.MustCompile(`(?m)^go .*$`).FindString(string(mod))
		if err := os.WriteFile(filepath.Join(out, "go.mod"), []byte("module sched.local/"+v+"\n\n"+gov+"\n"), 0o644); err != nil {
			return err
		}
		files, _ := filepath.Glob(filepath.Join(repo, v, "*.go"))
		for _, f := range files {
			base := filepath.Base(f)
			if strings.HasSuffix(base, "_test.go") || strings.HasPrefix(base, "_") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			res, err := instrumentFile(f, src, split)
			if err != nil {
				return err
			}
			if err := os.WriteFile(filepath.Join(out, base), res, 0o644); err != nil {
				return err
			}
		}
	}
	return nil
}

func instrumentFile(name string, src []byte, split bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, 0) // comments dropped on purpose, including directives
	if err != nil {
		return nil, err
	}
	if bytes.Contains(src, []byte("//go:build")) || bytes.Contains(src, []byte("import \"C\"")) {
		return nil, fmt.Errorf("%s has build constraints", name)
	}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			im := s.(*ast.ImportSpec)
			if p, _ := strconv.Unquote(im.Path.Value); p == "sync" {
				if im.Name == nil {
					im.Name = ast.NewIdent("sync")
				}
				im.Path.Value = strconv.Quote("sched.local/point")
			}
		}
	}
	in := &inst{halve: split}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			if split {
				in.copies(fd.Body)
			}
			in.block(fd.Body)
		}
	}
	if in.n > 0 {
		spec := &ast.ImportSpec{Name: ast.NewIdent("verifpoint"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"sched.local/point"`}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
	var b bytes.Buffer
	if err := format.Node(&b, token.NewFileSet(), f); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}

type inst struct {
	n     int
	halve bool // split read-modify-write statements
}

func (in *inst) at() ast.Stmt {
	in.n++
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("verifpoint"), Sel: ast.NewIdent("At")}}}
}

func (in *inst) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = in.list(b.List)
	}
}

func (in *inst) list(l []ast.Stmt) (out []ast.Stmt) {
	for _, s := range l {
		out = append(out, in.at())
		out = append(out, in.stmt(s)...)
	}
	return
}

// stmt instruments inside s and returns what stands in its place.
func (in *inst) stmt(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case *ast.BlockStmt:
		in.block(x)
	case *ast.IfStmt:
		in.block(x.Body)
		if x.Else != nil {
			in.stmt(x.Else)
		}
	case *ast.ForStmt:
		in.block(x.Body)
	case *ast.RangeStmt:
		in.block(x.Body)
	case *ast.SwitchStmt:
		in.block2(x.Body)
	case *ast.TypeSwitchStmt:
		in.block2(x.Body)
	case *ast.SelectStmt:
		in.block2(x.Body)
	case *ast.LabeledStmt:
		switch x.Stmt.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
			in.stmt(x.Stmt)
		default:
			rest := in.stmt(x.Stmt)
			x.Stmt = in.at()
			return append([]ast.Stmt{x}, rest...)
		}
	case *ast.AssignStmt:
		in.lits(x)
		if op, ok := opAssign[x.Tok]; ok && in.halve && len(x.Lhs) == 1 && splittable(x.Lhs[0]) {
			return in.split(x.Lhs[0], op, x.Rhs[0])
		}
	case *ast.IncDecStmt:
		if in.halve && splittable(x.X) {
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			return in.split(x.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"})
		}
	default:
		in.lits(s)
	}
	return []ast.Stmt{s}
}

// copies makes the builtin copy a sequence of steps rather than one.
func (in *inst) copies(b *ast.BlockStmt) {
	ast.Inspect(b, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok && len(c.Args) == 2 {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "copy" {
				in.n++
				c.Fun = &ast.SelectorExpr{X: ast.NewIdent("verifpoint"), Sel: ast.NewIdent("Copy")}
			}
		}
		return true
	})
}

// lits instruments function literals inside a simple statement.
func (in *inst) lits(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		if f, ok := n.(*ast.FuncLit); ok {
			in.block(f.Body)
			return false
		}
		return true
	})
}

func (in *inst) block2(b *ast.BlockStmt) {
	for _, c := range b.List {
		switch y := c.(type) {
		case *ast.CaseClause:
			y.Body = in.list(y.Body)
		case *ast.CommClause:
			y.Body = in.list(y.Body)
		}
	}
}

var opAssign = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND,
	token.XOR_ASSIGN: token.XOR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

// splittable: a shared location, i.e. something reached through a selector.
func splittable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.SelectorExpr:
		return true
	case *ast.IndexExpr:
		_, ok := x.X.(*ast.SelectorExpr)
		return ok
	}
	return false
}

// split turns lhs op= rhs into a load, a scheduling point and a store.
func (in *inst) split(lhs ast.Expr, op token.Token, rhs ast.Expr) []ast.Stmt {
	id := ast.NewIdent
	return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{id("verifp")}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: lhs}}},
		&ast.AssignStmt{Lhs: []ast.Expr{id("verifv")}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.StarExpr{X: id("verifp")}}},
		in.at(),
		&ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: id("verifp")}}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: id("verifv"), Op: op, Y: &ast.ParenExpr{X: rhs}}}},
	}}}
}
