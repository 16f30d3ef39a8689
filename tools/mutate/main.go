// mutate lists or writes simple changes of a Go file, to look for behaviour
// which no check observes:
//
//	mutate FILE        lists the changes
//	mutate FILE N OUT  writes the file with change N
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type edit struct {
	from, to int
	text     string
	kind     string
	fn       string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var edits []edit
	fn := ""
	add := func(n ast.Node, s, kind string) {
		edits = append(edits, edit{off(n.Pos()), off(n.End()), s, kind, fn})
	}
	noise := func(s string) bool {
		return strings.Contains(s, "logger") || strings.HasPrefix(s, "errors.") || strings.HasPrefix(s, "fmt.Errorf") || strings.Contains(s, "slog.")
	}
	cond := func(e ast.Expr) {
		t := text(e)
		if t == "err != nil" || strings.HasSuffix(t, "err != nil") && !strings.Contains(t, "||") && !strings.Contains(t, "&&") {
			add(e, "("+t+") && false", "swallow")
			return
		}
		add(e, "("+t+") && false", "never")
		add(e, "("+t+") || true", "always")
	}
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if noise(text(x.Fun)) {
				return false
			}
		case *ast.IfStmt:
			cond(x.Cond)
		case *ast.ForStmt:
		case *ast.BinaryExpr:
			if s := text(x); strings.HasSuffix(s, "err != nil") || strings.HasSuffix(s, "err == nil") {
				break
			}
			m := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==", token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+"}
			if r, ok := m[x.Op]; ok {
				edits = append(edits, edit{off(x.OpPos), off(x.OpPos) + len(x.Op.String()), r, "op", fn})
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x, text(x.X), "not")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					add(x, strconv.FormatInt(v+1, 10), "int+1")
					if v > 0 {
						add(x, strconv.FormatInt(v-1, 10), "int-1")
					}
				}
			}
		case *ast.Ident:
			switch x.Name {
			case "true":
				add(x, "false", "bool")
			case "false":
				add(x, "true", "bool")
			}
		case *ast.BranchStmt:
			if x.Label == nil {
				switch x.Tok {
				case token.CONTINUE:
					add(x, "break", "branch")
				case token.BREAK:
					add(x, "continue", "branch")
				}
			}
		case *ast.ExprStmt:
			if !noise(text(x)) {
				add(x, "", "drop")
			}
		case *ast.IncDecStmt:
			add(x, "", "drop")
		case *ast.AssignStmt:
			if x.Tok == token.ASSIGN && !noise(text(x)) {
				s := ""
				for _, r := range x.Rhs {
					s += "_ = " + text(r) + ";"
				}
				if len(x.Lhs) == len(x.Rhs) {
					add(x, s, "drop")
				}
			}
		case *ast.DeferStmt:
			add(x, "", "drop")
		}
		return true
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			fn = fd.Name.Name
			ast.Inspect(fd.Body, visit)
		}
	}
	if len(os.Args) < 4 {
		for i, e := range edits {
			old := strings.Join(strings.Fields(string(src[e.from:e.to])), " ")
			fmt.Printf("%d\t%s\t%d\t%s\t%.90s -> %.90s\n", i, e.kind, 1+strings.Count(string(src[:e.from]), "\n"), e.fn, old, strings.Join(strings.Fields(e.text), " "))
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	e := edits[n]
	os.WriteFile(os.Args[3], []byte(string(src[:e.from])+e.text+string(src[e.to:])), 0o644)
}
