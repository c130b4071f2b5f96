// mutate makes small changes to a Go source file, one at a time: a tool for
// finding what the checks do not look at.  No check uses it.
//
//	mutate FILE        lists the changes
//	mutate FILE N      writes FILE with change N to standard output
//
// With MUTATE=storage the changes are of another kind: temporaries replaced by
// the receiver, released early or never, copies left out, statements swapped.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	from, to int
	text     string
	line     int
	fn       string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var ms []mut
	fn := ""
	add := func(a, b token.Pos, text string) {
		ms = append(ms, mut{off(a), off(b), text, fset.Position(a).Line, fn})
	}
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	cond := func(e ast.Expr) {
		if e == nil {
			return
		}
		add(e.Pos(), e.End(), "!("+txt(e)+")")
		ast.Inspect(e, func(n ast.Node) bool {
			b, ok := n.(*ast.BinaryExpr)
			if !ok {
				return true
			}
			switch b.Op {
			case token.LAND, token.LOR:
				add(b.Pos(), b.End(), txt(b.X))
				add(b.Pos(), b.End(), txt(b.Y))
			}
			return true
		})
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		fn = fd.Name.Name
		if os.Getenv("MUTATE") == "storage" {
			storage(fd, add, txt)
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
				add(n.Pos(), n.End(), "")
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					var l []string
					for _, x := range n.Rhs {
						l = append(l, "_ = "+txt(x))
					}
					add(n.Pos(), n.End(), strings.Join(l, "; "))
				}
			case *ast.IfStmt:
				cond(n.Cond)
			case *ast.ForStmt:
				cond(n.Cond)
			case *ast.BranchStmt:
				if n.Tok == token.BREAK {
					add(n.Pos(), n.End(), "")
				}
			case *ast.CaseClause:
				for _, x := range n.List {
					if len(n.List) > 1 {
						a, b := off(x.Pos()), off(x.End())
						_ = a
						_ = b
					}
				}
			case *ast.ReturnStmt:
				// a return without results in the middle
				if len(n.Results) == 0 {
					add(n.Pos(), n.End(), "")
				}
				for _, x := range n.Results {
					if id, ok := x.(*ast.Ident); ok && id.Name == "err" {
						add(x.Pos(), x.End(), "nil")
					}
					if id, ok := x.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
						add(x.Pos(), x.End(), strconv.FormatBool(id.Name == "false"))
					}
				}
			case *ast.BinaryExpr:
				sw := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.ADD: {"-"}, token.SUB: {"+"}}
				for _, s := range sw[n.Op] {
					add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s)
				}
			case *ast.BasicLit:
				if n.Kind == token.INT && len(n.Value) < 6 {
					if v, err := strconv.Atoi(n.Value); err == nil {
						add(n.Pos(), n.End(), fmt.Sprint(v+1))
					}
				}
			}
			return true
		})
	}
	if len(os.Args) == 2 {
		for i, m := range ms {
			fmt.Printf("%d %s:%d %s: %q -> %q\n", i, os.Args[1], m.line, m.fn, clip(string(src[m.from:m.to])), clip(m.text))
		}
		return
	}
	i, _ := strconv.Atoi(os.Args[2])
	m := ms[i]
	os.Stdout.WriteString(string(src[:m.from]) + m.text + string(src[m.to:]))
}

func clip(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 90 {
		s = s[:90] + "..."
	}
	return s
}

func storage(fd *ast.FuncDecl, add func(a, b token.Pos, text string), txt func(ast.Node) string) {
	z := map[string]string{} // receiver of a kind
	for _, l := range []*ast.FieldList{fd.Recv, fd.Type.Params} {
		if l == nil {
			continue
		}
		for _, p := range l.List {
			for _, n := range p.Names {
				if n.Name == "z" || n.Name == "r" {
					z[n.Name] = txt(p.Type)
				}
			}
		}
	}
	swap := func(l []ast.Stmt) {
		for i := 1; i < len(l); i++ {
			ok := true
			for _, s := range l[i-1 : i+1] {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt:
				case *ast.AssignStmt:
					ok = ok && s.Tok != token.DEFINE
				case *ast.IfStmt:
				default:
					ok = false
				}
			}
			if ok {
				add(l[i-1].Pos(), l[i].End(), txt(l[i])+"; "+txt(l[i-1]))
			}
		}
	}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			swap(n.List)
		case *ast.CaseClause:
			swap(n.Body)
		case *ast.DeferStmt:
			if strings.HasPrefix(txt(n.Call), "putDec") {
				add(n.Pos(), n.End(), txt(n.Call))
			}
		case *ast.ExprStmt:
			if strings.HasPrefix(txt(n), "putDec") {
				add(n.Pos(), n.End(), txt(n)+"; "+txt(n))
			}
		case *ast.AssignStmt:
			if n.Tok == token.OR_ASSIGN {
				add(n.TokPos, n.TokPos+2, "=")
			}
		case *ast.IfStmt:
			// an "if" that makes a copy when variables are the same
			if strings.Contains(txt(n.Cond), "== z") || strings.Contains(txt(n.Cond), "z ==") {
				add(n.Cond.Pos(), n.Cond.End(), "false && "+txt(n.Cond))
			}
		case *ast.BinaryExpr:
			if n.Op == token.EQL || n.Op == token.NEQ {
				add(n.Pos(), n.End(), "("+txt(n)+" || true)")
				add(n.Pos(), n.End(), "("+txt(n)+" && false)")
			}
		case *ast.CallExpr:
			f := txt(n.Fun)
			if f == "alias" {
				add(n.Pos(), n.End(), txt(n.Args[0]))
			}
			for v, t := range z {
				if t == "*Big" && (f == "getDec" || f == "WithContext" || f == "WithPrecision" || f == "new" && txt(n.Args[0]) == "Big") {
					add(n.Pos(), n.End(), v)
				}
				if t == "*Big" && f == "new" && txt(n.Args[0]) == "big.Int" {
					add(n.Pos(), n.End(), "&"+v+".unscaled")
				}
			}
			if s, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) == 1 && (s.Sel.Name == "Set" || s.Sel.Name == "Copy" || s.Sel.Name == "CopyAbs") {
				if c, ok := s.X.(*ast.CallExpr); ok && (txt(c.Fun) == "new" || txt(c.Fun) == "getDec" || txt(c.Fun) == "WithContext") {
					add(n.Pos(), n.End(), txt(n.Args[0]))
				}
			}
		}
		return true
	})
}
