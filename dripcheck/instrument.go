package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// The instrumenter inserts a scheduling point before every statement of the
// code under test and inside the read-modify-write statements that are not
// atomic. It works on the text of whatever is in the working tree.

type edit struct {
	off  int
	prio int
	del  int
	text string
}

func instrumentFile(src []byte, name string, rmw bool) ([]byte, string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, "", err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(a, b token.Pos) string { return string(src[off(a):off(b)]) }
	var edits []edit
	// Each scheduling point has a number, so that a run can slow down the same
	// few places whenever they are reached.
	site := uint32(2166136261)
	for _, b := range []byte(filepath.Base(filepath.Dir(name)) + "/" + filepath.Base(name)) {
		site = (site ^ uint32(b)) * 16777619
	}
	at := func() uint32 {
		site = site*1664525 + 1013904223
		return site >> 4
	}
	ins := func(o int, prio int, s string) { edits = append(edits, edit{off: o, prio: prio, text: s}) }
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			ins(off(s.Pos()), 0, fmt.Sprintf("__simYield(%d); ", at()))
		}
	}
	simple := func(e ast.Expr) bool {
		ok := true
		ast.Inspect(e, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr:
				ok = false
			}
			return ok
		})
		return ok
	}
	shared := func(e ast.Expr) bool {
		switch e.(type) {
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
			return simple(e)
		}
		return false
	}
	noWrap := map[ast.Node]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			// The clauses of a switch or select are not statements.
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.GoStmt:
			noWrap[n.Call] = true
		case *ast.DeferStmt:
			noWrap[n.Call] = true
		case *ast.ExprStmt:
			noWrap[n.X] = true
		case *ast.CallExpr:
			if !rmw || noWrap[n] || len(n.Args) != 0 {
				return true
			}
			if sel, ok := n.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "Load" {
				ins(off(n.Pos()), 1, fmt.Sprintf("__simY(%d, ", at()))
				ins(off(n.End()), -1, ")")
			}
		case *ast.IncDecStmt:
			if rmw && shared(n.X) {
				x := text(n.X.Pos(), n.X.End())
				op := "+"
				if n.Tok == token.DEC {
					op = "-"
				}
				edits = append(edits, edit{off: off(n.X.End()), prio: 2, del: off(n.End()) - off(n.X.End()), text: fmt.Sprintf(" = __simY(%d, %s) %s 1", at(), x, op)})
			}
		case *ast.AssignStmt:
			if rmw && len(n.Lhs) == 1 && len(n.Rhs) == 1 && n.Tok != token.ASSIGN && n.Tok != token.DEFINE && shared(n.Lhs[0]) {
				x := text(n.Lhs[0].Pos(), n.Lhs[0].End())
				op := strings.TrimSuffix(n.Tok.String(), "=")
				edits = append(edits, edit{off: off(n.TokPos), prio: 2, del: len(n.Tok.String()), text: fmt.Sprintf("= __simY(%d, %s) %s (", at(), x, op)})
				ins(off(n.End()), -2, ")")
			}
		}
		return true
	})
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].prio < edits[j].prio
	})
	var out bytes.Buffer
	last := 0
	for _, e := range edits {
		if e.off < last {
			return nil, "", fmt.Errorf("%s: overlapping edits at %d", name, e.off)
		}
		out.Write(src[last:e.off])
		out.WriteString(e.text)
		last = e.off + e.del
	}
	out.Write(src[last:])
	return out.Bytes(), f.Name.Name, nil
}

const zzSim = `package %s

import __simrt "runtime"

func __simYield(site uint32) { __simrt.SimYield(site) }

func __simY[T any](site uint32, v T) T { __simrt.SimYield(site); return v }

var _ = __simY[int]
`

// instrumentRepo adds the instrumented non-test sources of every package of
// the repository except bencode (whose package-level cache lock would couple
// the simulated nodes) to the overlay.
func instrumentRepo(repo, dir string, rmw bool, ov *overlay) error {
	pkgs := map[string]string{}
	err := filepath.WalkDir(repo, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, path)
		if d.IsDir() {
			b := d.Name()
			if rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor" || rel == "bencode") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		res, pkg, err := instrumentFile(src, path, rmw)
		if err != nil {
			return err
		}
		out := filepath.Join(dir, "repo", rel)
		if err := writeIfChanged(out, res); err != nil {
			return err
		}
		ov.Replace[path] = out
		if old, ok := pkgs[filepath.Dir(path)]; !ok || old == "main" {
			pkgs[filepath.Dir(path)] = pkg
		}
		return nil
	})
	if err != nil {
		return err
	}
	for d, pkg := range pkgs {
		rel, _ := filepath.Rel(repo, d)
		out := filepath.Join(dir, "repo", rel, "zz_sim_yield.go")
		if err := writeIfChanged(out, []byte(fmt.Sprintf(zzSim, pkg))); err != nil {
			return err
		}
		ov.Replace[filepath.Join(d, "zz_sim_yield.go")] = out
	}
	return nil
}
