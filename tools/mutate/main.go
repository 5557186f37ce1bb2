// mutate lists small changes of a Go file: mutate FILE lists them, mutate FILE N writes the Nth to standard output.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

func main() {
	file := os.Args[1]
	want := -1
	if len(os.Args) > 2 {
		want, _ = strconv.Atoi(os.Args[2])
	}
	n := 0
	fs := token.NewFileSet()
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	f, err := parser.ParseFile(fs, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	fn := ""
	// try applies a change when it is the wanted one; it reports what it is otherwise.
	try := func(at token.Pos, what string, do func()) {
		if want < 0 {
			fmt.Printf("%d\t%s\t%d\t%s\n", n, fn, fs.Position(at).Line, what)
		} else if want == n {
			do()
		}
		n++
	}
	swap := map[token.Token][]token.Token{token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR}, token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.AND: {token.OR}}
	text := func(n ast.Node) string {
		var b bytes.Buffer
		format.Node(&b, fs, n)
		s := b.String()
		if len(s) > 90 {
			s = s[:90] + "..."
		}
		return strconv.Quote(s)
	}
	list := func(l *[]ast.Stmt) {
		for i, s := range *l {
			i, s := i, s
			switch x := s.(type) {
			case *ast.DeclStmt, *ast.EmptyStmt:
				continue
			case *ast.AssignStmt:
				if x.Tok == token.DEFINE {
					continue
				}
			}
			try(s.Pos(), "drop "+text(s), func() { (*l)[i] = &ast.EmptyStmt{} })
			if i+1 < len(*l) {
				if _, ok := s.(*ast.ReturnStmt); !ok {
					try(s.Pos(), "swap with next "+text(s), func() { (*l)[i], (*l)[i+1] = (*l)[i+1], (*l)[i] })
				}
			}
			if _, ok := s.(*ast.ExprStmt); ok {
				try(s.Pos(), "repeat "+text(s), func() { (*l)[i] = &ast.BlockStmt{List: []ast.Stmt{s, s}} })
			}
		}
	}
	visit := func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.FuncDecl:
			fn = x.Name.Name
		case *ast.ImportSpec:
			return false
		case *ast.BlockStmt:
			list(&x.List)
		case *ast.CaseClause:
			list(&x.Body)
			if len(x.List) > 0 {
				try(x.Pos(), "drop case "+text(x), func() { x.List = []ast.Expr{&ast.BinaryExpr{X: x.List[0], Op: token.EQL, Y: ast.NewIdent("\"\"")}}; x.Body = nil })
			}
		case *ast.BinaryExpr:
			for _, t := range swap[x.Op] {
				t := t
				try(x.OpPos, x.Op.String()+" to "+t.String()+" in "+text(x), func() { x.Op = t })
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				try(x.OpPos, "only left of "+text(x), func() { x.Y = x.X })
				try(x.OpPos, "only right of "+text(x), func() { x.X = x.Y })
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				try(x.OpPos, "no ! in "+text(x), func() { x.X = &ast.UnaryExpr{Op: token.NOT, X: x.X} })
			}
		case *ast.IfStmt:
			try(x.Pos(), "if true "+text(x.Cond), func() { x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LOR, Y: ast.NewIdent("true")} })
			try(x.Pos(), "if false "+text(x.Cond), func() { x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LAND, Y: ast.NewIdent("false")} })
		case *ast.RangeStmt:
			try(x.Pos(), "range only first "+text(x.X), func() { x.Body.List = append(x.Body.List, &ast.BranchStmt{Tok: token.BREAK}) })
			if _, ok := x.X.(*ast.Ident); ok || true {
				try(x.Pos(), "range without first "+text(x.X), func() { x.X = &ast.SliceExpr{X: x.X, Low: &ast.BasicLit{Kind: token.INT, Value: "1"}} })
			}
		case *ast.BranchStmt:
			switch x.Tok {
			case token.BREAK:
				try(x.Pos(), "break to continue", func() { x.Tok = token.CONTINUE })
			case token.CONTINUE:
				try(x.Pos(), "continue to break", func() { x.Tok = token.BREAK })
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				v, err := strconv.ParseInt(x.Value, 0, 64)
				if err != nil {
					break
				}
				for _, w := range []int64{v + 1, v - 1} {
					w := w
					try(x.Pos(), fmt.Sprintf("%d to %d", v, w), func() { x.Value = fmt.Sprint(w) })
				}
			case token.STRING:
				if s, err := strconv.Unquote(x.Value); err == nil && s != "" && x.Value[0] == '"' {
					try(x.Pos(), "empty for "+x.Value, func() { x.Value = `""` })
					try(x.Pos(), "longer than "+x.Value, func() { x.Value = strconv.Quote(s + "x") })
				}
			}
		case *ast.Ident:
			switch x.Name {
			case "true":
				try(x.Pos(), "true to false", func() { x.Name = "false" })
			case "false":
				try(x.Pos(), "false to true", func() { x.Name = "true" })
			}
		case *ast.CallExpr:
			if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
				switch sel.Sel.Name {
				case "Errorf", "New", "Println", "Printf": // texts for people
					return false
				}
			}
			if len(x.Args) == 2 {
				try(x.Pos(), "arguments swapped "+text(x), func() { x.Args[0], x.Args[1] = x.Args[1], x.Args[0] })
			}
			if len(x.Args) == 1 {
				try(x.Pos(), "only the argument of "+text(x), func() { x.Fun = ast.NewIdent("") })
			}
		case *ast.ReturnStmt:
			for i, r := range x.Results {
				i := i
				if id, ok := r.(*ast.Ident); ok && id.Name == "nil" {
					continue
				}
				try(r.Pos(), "return nil for "+text(r), func() { x.Results[i] = ast.NewIdent("nil") })
			}
		}
		return true
	}
	ast.Inspect(f, visit)
	if want >= 0 {
		var b bytes.Buffer
		if err := format.Node(&b, fs, f); err != nil {
			panic(err)
		}
		os.Stdout.Write(b.Bytes())
	}
}
