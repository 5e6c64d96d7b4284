// instr copies gev's packages and puts a yield point before every statement,
// and between reading and writing in an update (x = append(x, ..), x++), so that
// the scheduler can interleave goroutines there. Uses of maps are announced, so
// that two uses which nothing orders show (Go's runtime detects them only by
// luck). Nothing else changes; without a scheduler all of this does nothing.
//
// usage: instr SRC DST
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	off int
	del int
	ins string
	seq int
}

func main() {
	src, dst := os.Args[1], os.Args[2]
	err := filepath.Walk(src, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if info.IsDir() {
			if b := info.Name(); rel != "." && (strings.HasPrefix(b, ".") || b == "example" || b == "benchmarks" || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if rel == "go.mod" || rel == "go.sum" {
			return copyFile(p, filepath.Join(dst, rel))
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out := b
		if len(os.Args) < 4 || os.Args[3] != "plain" {
			if d := filepath.Dir(rel); d != "log" {
				out = rewrite(p, b)
			}
		}
		q := filepath.Join(dst, rel)
		if err := os.MkdirAll(filepath.Dir(q), 0o755); err != nil {
			return err
		}
		return os.WriteFile(q, out, 0o644)
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func copyFile(a, b string) error {
	x, err := os.ReadFile(a)
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(b), 0o755); err != nil {
		return err
	}
	return os.WriteFile(b, x, 0o644)
}

func rewrite(name string, b []byte) []byte {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, b, parser.ParseComments)
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(b[off(n.Pos()):off(n.End())]) }
	var es []edit
	add := func(o, del int, ins string) { es = append(es, edit{o, del, ins, len(es)}) }
	add(off(f.Name.End()), 0, `; import verifhook "verifhook"`)
	for _, im := range f.Imports {
		var to, nm string
		switch im.Path.Value {
		case `"sync"`:
			to, nm = `"verifhook/vsync"`, "sync"
		case `"sync/atomic"`:
			to, nm = `"verifhook/vatomic"`, "atomic"
		default:
			continue
		}
		if im.Name != nil {
			nm = im.Name.Name
		}
		add(off(im.Pos()), off(im.End())-off(im.Pos()), nm+" "+to)
	}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			add(off(s.Pos()), 0, `verifhook.Y("s"); `)
			seen := map[string]bool{}
			for _, u := range maps(s) { // writes come first
				if seen[text(u.m)] {
					continue
				}
				seen[text(u.m)] = true
				add(off(s.Pos()), 0, fmt.Sprintf("verifhook.Map(%v, func() interface{} { return %s }); ", u.write, text(u.m)))
			}
			switch x := s.(type) {
			case *ast.AssignStmt:
				if len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok != token.ASSIGN || !path(x.Lhs[0]) {
					continue
				}
				if c, ok := x.Rhs[0].(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "append" {
						// the call stays where it is: yield points may be added inside it
						add(off(x.Pos()), off(c.Pos())-off(x.Pos()), "{ verifv := ")
						add(off(x.End()), 0, `; verifhook.Y("s"); `+text(x.Lhs[0])+" = verifv }")
					}
				}
			case *ast.IncDecStmt:
				if path(x.X) {
					op := "+"
					if x.Tok == token.DEC {
						op = "-"
					}
					t := text(x.X)
					add(off(x.Pos()), off(x.End())-off(x.Pos()), "{ verifv := "+t+`; verifhook.Y("s"); `+t+" = verifv "+op+" 1 }")
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		}
		return true
	})
	// the room a poller starts with for events is the harness's to choose
	ast.Inspect(f, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok || len(c.Args) != 2 || text(c.Fun) != "make" || text(c.Args[0]) != "[]unix.EpollEvent" {
			return true
		}
		switch a := c.Args[1].(type) {
		case *ast.Ident:
			if a.Obj != nil && a.Obj.Kind != ast.Con {
				return true
			}
		case *ast.BasicLit:
		default:
			return true
		}
		add(off(c.Args[1].Pos()), 0, "verifhook.Events(")
		add(off(c.Args[1].End()), 0, ")")
		return true
	})
	add(len(b), 0, "\nvar _ = verifhook.Y\n")
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		// what replaces text comes after what is inserted before it
		if (es[i].del == 0) != (es[j].del == 0) {
			return es[i].del == 0
		}
		return es[i].seq < es[j].seq
	})
	var out []byte
	at := 0
	for _, e := range es {
		out = append(out, b[at:e.off]...)
		out = append(out, e.ins...)
		at = e.off + e.del
	}
	return append(out, b[at:]...)
}

// path says whether e is a variable or a field of one: evaluating it twice is
// the same as evaluating it once.
func path(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name != "_"
	case *ast.SelectorExpr:
		return path(x.X)
	}
	return false
}

type use struct {
	m     ast.Expr
	write bool
}

// maps finds what s itself (not the statements in it) indexes, before calling
// anything.
func maps(s ast.Stmt) (us []use) {
	if _, ok := s.(*ast.LabeledStmt); ok {
		return nil
	}
	called := token.Pos(0)
	note := func(m ast.Expr, at ast.Node, write bool) {
		if !path(m) || root(m).Obj != nil && declaredIn(root(m).Obj, s) || called != 0 && called < at.Pos() {
			return
		}
		us = append(us, use{m, write})
	}
	if a, ok := s.(*ast.AssignStmt); ok && a.Tok != token.DEFINE {
		for _, l := range a.Lhs {
			if x, ok := l.(*ast.IndexExpr); ok && !calls(a) {
				note(x.X, x, true)
			}
		}
	}
	if x, ok := s.(*ast.IncDecStmt); ok {
		if x, ok := x.X.(*ast.IndexExpr); ok {
			note(x.X, x, true)
		}
	}
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.GoStmt, *ast.DeferStmt:
			return false
		case *ast.IfStmt:
			// only the header; an else branch runs later
			if x != s {
				return false
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok {
				switch id.Name {
				case "delete":
					if len(x.Args) == 2 {
						note(x.Args[0], x, true)
					}
					return true
				case "len", "append", "cap", "string", "int", "byte":
					return true
				}
			}
			// what its arguments index comes before the call
			for _, a := range x.Args {
				ast.Inspect(a, func(n ast.Node) bool {
					if _, ok := n.(*ast.FuncLit); ok {
						return false
					}
					if i, ok := n.(*ast.IndexExpr); ok && !calls(a) {
						note(i.X, i, false)
					}
					return true
				})
			}
			if called == 0 {
				called = x.End()
			}
			return false
		case *ast.IndexExpr:
			note(x.X, x, false)
		case *ast.RangeStmt:
			note(x.X, x, false)
		}
		return true
	})
	sort.SliceStable(us, func(i, j int) bool { return us[i].write && !us[j].write })
	return us
}

func calls(n ast.Node) (r bool) {
	ast.Inspect(n, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); !ok || id.Name != "append" && id.Name != "len" && id.Name != "make" {
				r = true
			}
		}
		return !r
	})
	return r
}

func root(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.SelectorExpr:
			e = x.X
		}
	}
}

func declaredIn(o *ast.Object, s ast.Stmt) bool {
	p := o.Pos()
	return p >= s.Pos() && p < s.End()
}
