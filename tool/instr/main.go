// instr inserts a call to runtime.SimYield before every statement of the Go
// source files named on its command line (SRC=DST pairs), on the same lines,
// so that positions in reports stay those of the original source.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strings"
)

func main() {
	for _, a := range os.Args[1:] {
		src, dst, ok := strings.Cut(a, "=")
		if !ok {
			fatal("bad argument " + a)
		}
		b, err := os.ReadFile(src)
		if err != nil {
			fatal(err.Error())
		}
		out, err := rewrite(src, b)
		if err != nil {
			fatal(err.Error())
		}
		if err := os.WriteFile(dst, out, 0o644); err != nil {
			fatal(err.Error())
		}
	}
}

func fatal(s string) {
	fmt.Fprintln(os.Stderr, "instr:", s)
	os.Exit(3)
}

func rewrite(name string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	const call = "zzrt.SimYield(); "
	type ins struct {
		off  int
		text string
	}
	var list []ins
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			list = append(list, ins{off(s.Pos()), call})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if n.Doc != nil {
				for _, c := range n.Doc.List {
					if strings.HasPrefix(c.Text, "//go:nosplit") {
						return false
					}
				}
			}
		case *ast.BlockStmt:
			// switch and select bodies hold clauses, not statements.
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				list = append(list, ins{off(n.Body.Lbrace) + 1, " zzrt.SimYield() "})
			}
		case *ast.RangeStmt:
			if len(n.Body.List) == 0 {
				list = append(list, ins{off(n.Body.Lbrace) + 1, " zzrt.SimYield() "})
			}
		}
		return true
	})
	if len(list) > 0 {
		list = append(list, ins{off(f.Name.End()), "; import zzrt \"runtime\""})
	}
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var out []byte
	last := 0
	for _, i := range list {
		out = append(out, src[last:i.off]...)
		out = append(out, i.text...)
		last = i.off
	}
	return append(out, src[last:]...), nil
}
