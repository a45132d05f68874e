package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

// fixImports gives every generated file in dir the imports it uses, of those that the
// templates and files of the third version have among them: a template that says the
// same things in another place has other imports. Files that do not parse stay as they are.
func fixImports(repo, dir string) error {
	paths := map[string]string{} // name used in the code -> import spec
	src, _ := filepath.Glob(filepath.Join(repo, "v3", "*.go"))
	for _, p := range src {
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.ImportsOnly)
		if f == nil || err != nil && len(f.Imports) == 0 || strings.HasSuffix(p, "_test.go") {
			continue
		}
		for _, s := range f.Imports {
			paths[importName(s)] = importText(s)
		}
	}
	declared := map[string]bool{}
	files := map[string]*ast.File{}
	sets := map[string]*token.FileSet{}
	all, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, p := range all {
		if strings.HasPrefix(filepath.Base(p), "_") {
			continue
		}
		set := token.NewFileSet()
		f, err := parser.ParseFile(set, p, nil, parser.ParseComments)
		if err != nil {
			continue
		}
		for name := range f.Scope.Objects {
			declared[name] = true
		}
		if strings.HasSuffix(p, ".generated.go") {
			files[p], sets[p] = f, set
		}
	}
	for p, f := range files {
		used := map[string]bool{}
		free := map[*ast.Ident]bool{}
		for _, id := range f.Unresolved {
			free[id] = true
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok && free[id] && !declared[id.Name] {
					used[id.Name] = true
				}
			}
			return true
		})
		txt, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		var drop [][2]int
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.IMPORT {
				continue
			}
			for _, s := range g.Specs {
				im := s.(*ast.ImportSpec)
				n := importName(im)
				if n == "_" || n == "." {
					used[n+im.Path.Value] = true
					paths[n+im.Path.Value] = importText(im)
				} else {
					paths[n] = importText(im)
				}
			}
			drop = append(drop, [2]int{sets[p].Position(g.Pos()).Offset, sets[p].Position(g.End()).Offset})
		}
		for i := len(drop) - 1; i >= 0; i-- {
			txt = append(txt[:drop[i][0]:drop[i][0]], txt[drop[i][1]:]...)
		}
		var im bytes.Buffer
		for n := range used {
			if paths[n] != "" {
				fmt.Fprintf(&im, "\nimport %s\n", paths[n])
			}
		}
		end := sets[p].Position(f.Name.End()).Offset
		out := append(append(append([]byte{}, txt[:end]...), '\n'), append(im.Bytes(), txt[end:]...)...)
		if s, err := format.Source(out); err == nil {
			out = s
		}
		if err := os.WriteFile(p, out, 0o644); err != nil {
			return err
		}
	}
	return nil
}

func importText(s *ast.ImportSpec) string {
	if s.Name != nil {
		return s.Name.Name + " " + s.Path.Value
	}
	return s.Path.Value
}

var majorVersion = regexp.MustCompile(`^v[0-9]+$`)

func importName(s *ast.ImportSpec) string {
	if s.Name != nil {
		return s.Name.Name
	}
	p, _ := strconv.Unquote(s.Path.Value)
	b := path.Base(p)
	if majorVersion.MatchString(b) && b != p {
		b = path.Base(path.Dir(p))
	}
	return b
}
