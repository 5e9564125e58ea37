// Command instr writes copies of Go source files with a call of yield.At
// before every statement.
//
//	instr IMPORTPATH OUTDIR FILE...
//
// It prints one line per point: id, file and line.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
)

func main() {
	imp, out := os.Args[1], os.Args[2]
	id := 0
	for n, name := range os.Args[3:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		type ins struct {
			off  int
			text string
		}
		points := []ins{{fset.Position(f.Name.End()).Offset, fmt.Sprintf("; import zzyield %q", imp)}}
		list := func(stmts []ast.Stmt) {
			for _, s := range stmts {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				p := fset.Position(s.Pos())
				id++
				points = append(points, ins{p.Offset, fmt.Sprintf("zzyield.At(%d); ", id)})
				fmt.Printf("%d %s:%d\n", id, filepath.Base(name), p.Line)
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				// the clauses of a switch or select are no statements
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			}
			return true
		})
		sort.SliceStable(points, func(i, j int) bool { return points[i].off < points[j].off })
		var b []byte
		at := 0
		for _, p := range points {
			b = append(b, src[at:p.off]...)
			b = append(b, p.text...)
			at = p.off
		}
		b = append(b, src[at:]...)
		if len(points) == 1 {
			b = src
		}
		if err := os.WriteFile(filepath.Join(out, fmt.Sprintf("%d_%s", n, filepath.Base(name))), b, 0644); err != nil {
			panic(err)
		}
	}
}
