package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type instrStats struct {
	Files  []string
	Points int
}

// instrumentedDirs are the library packages whose statements become preemption
// points.
var instrumentedDirs = []string{"", "gorwp", "topology"}

// instrument inserts a call of runtime.SimYield before every statement of the
// library's own code, on the same source line, so positions stay as they are.
func instrument(repo, dir string, replace map[string]string) (*instrStats, error) {
	st := &instrStats{}
	for _, d := range instrumentedDirs {
		ents, err := os.ReadDir(filepath.Join(repo, d))
		if err != nil {
			return nil, err
		}
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || strings.HasSuffix(n, ".pb.go") {
				continue
			}
			path := filepath.Join(repo, d, n)
			src, err := os.ReadFile(path)
			if err != nil {
				return nil, err
			}
			out, pts, err := instrumentFile(path, src)
			if err != nil {
				return nil, err
			}
			if pts == 0 {
				continue
			}
			dst := filepath.Join(dir, "lib", d, n)
			if err := writeFile(dst, out); err != nil {
				return nil, err
			}
			replace[path] = dst
			st.Files = append(st.Files, filepath.Join(d, n))
			st.Points += pts
		}
	}
	if st.Points == 0 {
		return nil, fmt.Errorf("no statement instrumented in %s", repo)
	}
	return st, nil
}

func instrumentFile(path string, src []byte) (string, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return "", 0, err
	}
	for _, imp := range f.Imports {
		if imp.Path.Value == `"C"` {
			return "", 0, nil
		}
	}
	type ins struct {
		off int
		txt string
	}
	var inss []ins
	pts := 0
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	addStmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			inss = append(inss, ins{off(s.Pos()), "_simrt.SimYield(); "})
			pts++
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			addStmts(n.List)
			if len(n.List) == 0 {
				inss = append(inss, ins{off(n.Lbrace) + 1, " _simrt.SimYield() "})
				pts++
			}
		case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
			// their bodies are blocks holding clauses only; an empty body must
			// stay empty
			var b *ast.BlockStmt
			switch n := n.(type) {
			case *ast.SwitchStmt:
				b = n.Body
			case *ast.TypeSwitchStmt:
				b = n.Body
			case *ast.SelectStmt:
				b = n.Body
			}
			if len(b.List) == 0 {
				return false
			}
		case *ast.CaseClause:
			addStmts(n.Body)
		case *ast.CommClause:
			addStmts(n.Body)
		}
		return true
	})
	if pts == 0 {
		return "", 0, nil
	}
	// package clause: add the import on the same line
	inss = append(inss, ins{off(f.Name.End()), `; import _simrt "runtime"`})
	sort.SliceStable(inss, func(i, j int) bool { return inss[i].off < inss[j].off })
	var b strings.Builder
	last := 0
	for _, i := range inss {
		b.Write(src[last:i.off])
		b.WriteString(i.txt)
		last = i.off
	}
	b.Write(src[last:])
	return b.String(), pts, nil
}
