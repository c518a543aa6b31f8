// Command mutate lists or writes small changes of a Go file, to try the checks on: mutate FILE prints one
// line per change, mutate FILE N prints the file with change N.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type change struct {
	pos  token.Pos
	what string
	do   func()
}

func main() {
	file := os.Args[1]
	want := -1
	if len(os.Args) > 2 {
		want, _ = strconv.Atoi(os.Args[2])
	}
	fset := token.NewFileSet()
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var cs []change
	add := func(p token.Pos, what string, do func()) { cs = append(cs, change{p, what, do}) }
	text := func(n ast.Node) string {
		var b bytes.Buffer
		format.Node(&b, fset, n)
		s := b.String()
		if i := bytes.IndexByte([]byte(s), '\n'); i >= 0 {
			s = s[:i] + " ..."
		}
		if len(s) > 70 {
			s = s[:70]
		}
		return s
	}
	list := func(l *[]ast.Stmt) {
		for i := range *l {
			s := (*l)[i]
			del := false
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt, *ast.BranchStmt:
				del = true
			case *ast.AssignStmt:
				del = x.Tok != token.DEFINE
			case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt:
				del = true
			case *ast.ReturnStmt:
				del = len(x.Results) == 0
			}
			if del {
				add(s.Pos(), "delete "+text(s), func() { (*l)[i] = &ast.EmptyStmt{Semicolon: s.Pos()} })
			}
			if d, ok := s.(*ast.DeferStmt); ok {
				add(s.Pos(), "no defer "+text(s), func() { (*l)[i] = &ast.ExprStmt{X: d.Call} })
				add(s.Pos(), "defer as last statement "+text(s), func() {
					n := append([]ast.Stmt{}, (*l)[:i]...)
					n = append(n, (*l)[i+1:]...)
					*l = append(n, &ast.ExprStmt{X: d.Call})
				})
			}
			if g, ok := s.(*ast.GoStmt); ok {
				add(s.Pos(), "no go "+text(s), func() { (*l)[i] = &ast.ExprStmt{X: g.Call} })
			}
			if e, ok := s.(*ast.ExprStmt); ok {
				if c, ok := e.X.(*ast.CallExpr); ok {
					add(s.Pos(), "go "+text(s), func() { (*l)[i] = &ast.GoStmt{Call: c} })
					add(s.Pos(), "twice "+text(s), func() { (*l)[i] = &ast.BlockStmt{List: []ast.Stmt{e, e}} })
				}
			}
			if i+1 < len(*l) {
				a, b := s, (*l)[i+1]
				add(s.Pos(), "swap "+text(a)+" | "+text(b), func() { (*l)[i], (*l)[i+1] = b, a })
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(&x.List)
		case *ast.CaseClause:
			list(&x.Body)
		case *ast.CommClause:
			list(&x.Body)
		case *ast.IfStmt:
			add(x.Pos(), "negate "+text(x.Cond), func() { x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x.Cond}} })
		case *ast.BinaryExpr:
			for _, o := range map[token.Token][]token.Token{
				token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR},
				token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.QUO: {token.MUL},
				token.LAND: {token.LOR}, token.LOR: {token.LAND},
			}[x.Op] {
				add(x.OpPos, text(x)+" with "+o.String(), func() { x.Op = o })
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v := x.Value
				if k, err := strconv.ParseInt(v, 0, 64); err == nil {
					add(x.Pos(), v+" to "+fmt.Sprint(k+1), func() { x.Value = fmt.Sprint(k + 1) })
					if k > 0 {
						add(x.Pos(), v+" to "+fmt.Sprint(k-1), func() { x.Value = fmt.Sprint(k - 1) })
					}
				}
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				v := x.Name
				add(x.Pos(), v+" inverted", func() { x.Name = map[string]string{"true": "false", "false": "true"}[v] })
			}
		case *ast.BranchStmt:
			switch x.Tok {
			case token.BREAK:
				add(x.Pos(), "break to continue", func() { x.Tok = token.CONTINUE })
			case token.CONTINUE:
				add(x.Pos(), "continue to break", func() { x.Tok = token.BREAK })
			}
		case *ast.ReturnStmt:
			for i, r := range x.Results {
				if id, ok := r.(*ast.Ident); ok && id.Name != "nil" && id.Name != "true" && id.Name != "false" {
					add(r.Pos(), "return nil for "+id.Name, func() { x.Results[i] = ast.NewIdent("nil") })
				}
				if c, ok := r.(*ast.CallExpr); ok {
					add(r.Pos(), "return nil for "+text(c), func() { x.Results[i] = ast.NewIdent("nil") })
				}
			}
		case *ast.SelectStmt:
			if len(x.Body.List) > 1 {
				for i := range x.Body.List {
					add(x.Body.List[i].Pos(), "without "+text(x.Body.List[i]), func() {
						n := append([]ast.Stmt{}, x.Body.List[:i]...)
						x.Body.List = append(n, x.Body.List[i+1:]...)
					})
				}
			}
		case *ast.CallExpr:
			for i := range x.Args {
				for j := i + 1; j < len(x.Args); j++ {
					add(x.Pos(), fmt.Sprintf("swap arguments %d and %d of %s", i, j, text(x)), func() { x.Args[i], x.Args[j] = x.Args[j], x.Args[i] })
				}
			}
		case *ast.KeyValueExpr:
		}
		return true
	})
	for i, c := range cs {
		if want < 0 {
			fmt.Printf("%d\t%d\t%s\n", i, fset.Position(c.pos).Line, c.what)
		} else if i == want {
			c.do()
			f.Comments = nil
			var b bytes.Buffer
			if err := format.Node(&b, fset, f); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			os.Stdout.Write(b.Bytes())
		}
	}
}
