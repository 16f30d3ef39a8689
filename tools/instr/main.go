// instr DIR OUT: instruments the non-test Go files of DIR: a scheduling point
// before every statement, package sync replaced by vsync. Prints the overlay
// entries as JSON.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func main() {
	pkg := os.Args[1]
	repl := map[string]string{}
	for i := 2; i+1 < len(os.Args); i += 2 {
		dir, out := os.Args[i], os.Args[i+1]
		os.MkdirAll(out, 0o755)
		fl, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, f := range fl {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				panic(err)
			}
			res, err := instrument(f, string(src), pkg)
			if err != nil {
				fmt.Fprintln(os.Stderr, "not instrumented:", f, err) // the compiler reports it
				continue
			}
			o := filepath.Join(out, filepath.Base(f))
			if err := os.WriteFile(o, []byte(res), 0o644); err != nil {
				panic(err)
			}
			repl[f] = o
		}
	}
	b, _ := json.Marshal(repl)
	os.Stdout.Write(b)
}

type ins struct {
	at, del int
	s       string
}

func instrument(name, src, pkg string) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return "", err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var l []ins
	n := 0
	list := func(sl []ast.Stmt) {
		for _, s := range sl {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			l = append(l, ins{off(s.Pos()), 0, "vyield.Y(); "})
			n++
		}
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch b := x.(type) {
		case *ast.BlockStmt:
			if len(b.List) > 0 {
				switch b.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(b.List)
		case *ast.CaseClause:
			list(b.Body)
		case *ast.CommClause:
			list(b.Body)
		case *ast.ImportSpec:
			if p, _ := strconv.Unquote(b.Path.Value); p == "sync" {
				s := strconv.Quote(pkg)
				if b.Name == nil {
					s = "sync " + s
				}
				l = append(l, ins{off(b.Path.Pos()), len(b.Path.Value), s})
			}
		}
		return true
	})
	if n > 0 {
		l = append(l, ins{off(f.Name.End()), 0, "; import vyield " + strconv.Quote(pkg)})
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].at > l[j].at })
	for _, i := range l {
		src = src[:i.at] + i.s + src[i.at+i.del:]
	}
	return src, nil
}
