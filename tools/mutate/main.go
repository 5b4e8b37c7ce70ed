// mutate lists or applies small source mutations, to look for changes the checks miss.
//
//	mutate list FILE        one line per mutation: index, line, kind, text
//	mutate apply FILE N     rewrites FILE with mutation N
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strconv"
)

type edit struct {
	from, to int
	text     string
	kind     string
	line     int
}

func main() {
	file := os.Args[2]
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var es []edit
	add := func(a, b token.Pos, text, kind string) {
		es = append(es, edit{off(a), off(b), text, kind, fset.Position(a).Line})
	}
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.IfStmt:
			add(x.Cond.Pos(), x.Cond.End(), "!("+txt(x.Cond)+")", "negate")
			add(x.Cond.Pos(), x.Cond.End(), "false && ("+txt(x.Cond)+")", "never")
			if x.Else == nil {
				add(x.Cond.Pos(), x.Cond.End(), "true || ("+txt(x.Cond)+")", "always")
			}
		case *ast.BinaryExpr:
			alt := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}}
			for _, a := range alt[x.Op] {
				if x.Op == token.ADD && isStr(x.X) {
					continue
				}
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, "op")
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x.Pos(), x.End(), txt(x.X), "left")
				add(x.Pos(), x.End(), txt(x.Y), "right")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				n, _ := strconv.ParseInt(x.Value, 0, 64)
				add(x.Pos(), x.End(), fmt.Sprint(n+1), "int")
				if n > 0 {
					add(x.Pos(), x.End(), fmt.Sprint(n-1), "int")
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x.Pos(), x.End(), "false", "bool")
			}
			if x.Name == "false" {
				add(x.Pos(), x.End(), "true", "bool")
			}
		case *ast.BlockStmt:
			for _, s := range x.List {
				switch y := s.(type) {
				case *ast.ExprStmt:
					add(y.Pos(), y.End(), "", "delete")
				case *ast.AssignStmt:
					if y.Tok != token.DEFINE {
						add(y.Pos(), y.End(), "", "delete")
					}
				case *ast.IncDecStmt:
					add(y.Pos(), y.End(), "", "delete")
				case *ast.BranchStmt:
					alt := map[token.Token]string{token.BREAK: "continue", token.CONTINUE: "break"}[y.Tok]
					if alt != "" {
						add(y.Pos(), y.End(), alt, "branch")
					}
				case *ast.IfStmt:
					add(y.Pos(), y.End(), "", "delete")
				}
			}
		case *ast.CaseClause:
			for _, s := range x.Body {
				switch y := s.(type) {
				case *ast.ExprStmt, *ast.AssignStmt:
					add(y.Pos(), y.End(), "", "delete")
				}
			}
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
					add(r.Pos(), r.End(), "nil", "noerr")
				}
			}
		case *ast.CallExpr:
			if s, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 1 {
				switch s.Sel.Name {
				case "TrimSpace", "ToLower", "ToUpper", "Clean", "Title":
					add(x.Pos(), x.End(), txt(x.Args[0]), "unwrap")
				}
			}
		}
		return true
	})
	sort.SliceStable(es, func(i, j int) bool { return es[i].from < es[j].from })
	if os.Args[1] == "list" {
		for i, e := range es {
			fmt.Printf("%d\t%d\t%s\t%q -> %q\n", i, e.line, e.kind, cut(string(src[e.from:e.to])), cut(e.text))
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[3])
	e := es[n]
	out := string(src[:e.from]) + e.text + string(src[e.to:])
	if err := os.WriteFile(file, []byte(out), 0o644); err != nil {
		panic(err)
	}
}

func isStr(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.BasicLit:
		return x.Kind == token.STRING
	case *ast.BinaryExpr:
		return isStr(x.X)
	}
	return false
}

func cut(s string) string {
	if len(s) > 70 {
		return s[:70] + "..."
	}
	return s
}
