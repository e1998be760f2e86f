// mut lists or writes single-point mutants of Go source files (development tool):
// mut list FILE… prints "file:index:line:kind"; mut write FILE INDEX prints the mutated source.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type site struct {
	pos  token.Pos
	kind string
	do   func()
}

func sites(f *ast.File) []site {
	var out []site
	add := func(p token.Pos, k string, do func()) { out = append(out, site{p, k, do}) }
	swap := map[token.Token][]token.Token{
		token.LSS: {token.LEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR},
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
		token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD}, token.SHL: {token.SHR}, token.SHR: {token.SHL},
		token.AND: {token.OR}, token.OR: {token.AND},
	}
	var block func(list *[]ast.Stmt)
	block = func(list *[]ast.Stmt) {
		for i, s := range *list {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt:
				add(s.Pos(), "drop statement", func() { (*list)[i] = &ast.EmptyStmt{Semicolon: s.Pos(), Implicit: true} })
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(s.Pos(), "drop assignment", func() { (*list)[i] = &ast.EmptyStmt{Semicolon: s.Pos(), Implicit: true} })
				}
			case *ast.BranchStmt:
				if x.Tok == token.CONTINUE {
					add(s.Pos(), "continue→break", func() { x.Tok = token.BREAK })
				} else if x.Tok == token.BREAK {
					add(s.Pos(), "break→continue", func() { x.Tok = token.CONTINUE })
				}
			case *ast.CaseClause:
				if len(*list) > 1 {
					add(s.Pos(), "drop case", func() { *list = append(append([]ast.Stmt{}, (*list)[:i]...), (*list)[i+1:]...) })
				}
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				block(&x.List)
			case *ast.CaseClause:
				block(&x.Body)
				if len(x.List) > 1 {
					for i := range x.List {
						add(x.List[i].Pos(), "drop alternative", func() { x.List = append(append([]ast.Expr{}, x.List[:i]...), x.List[i+1:]...) })
					}
				}
			case *ast.BinaryExpr:
				for _, t := range swap[x.Op] {
					if b, ok := x.X.(*ast.BasicLit); ok && b.Kind == token.STRING {
						continue
					}
					op := x.Op
					add(x.OpPos, fmt.Sprintf("%s→%s", op, t), func() { x.Op = t })
				}
			case *ast.IfStmt:
				add(x.Pos(), "if false", func() {
					x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LAND, Y: ast.NewIdent("false")}
				})
				if len(x.Body.List) > 0 {
					if _, ret := x.Body.List[len(x.Body.List)-1].(*ast.ReturnStmt); !ret {
						add(x.Pos(), "if true", func() {
							x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LOR, Y: ast.NewIdent("true")}
						})
					}
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						add(x.Pos(), "int+1", func() { x.Value = strconv.FormatInt(v+1, 10) })
						if v > 0 {
							add(x.Pos(), "int-1", func() { x.Value = strconv.FormatInt(v-1, 10) })
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" || x.Name == "false" {
					add(x.Pos(), "bool", func() { x.Name = map[string]string{"true": "false", "false": "true"}[x.Name] })
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					add(x.Pos(), "drop !", func() { x.X = &ast.UnaryExpr{Op: token.NOT, X: x.X} })
				}
			case *ast.ReturnStmt:
				for i, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						add(r.Pos(), "return nil error", func() { x.Results[i] = ast.NewIdent("nil") })
					}
				}
			case *ast.CallExpr:
				if len(x.Args) == 2 && !x.Ellipsis.IsValid() {
					a, ok1 := x.Args[0].(*ast.Ident)
					b, ok2 := x.Args[1].(*ast.Ident)
					if ok1 && ok2 && a.Name != b.Name {
						add(x.Pos(), "swap arguments", func() { x.Args[0], x.Args[1] = x.Args[1], x.Args[0] })
					}
				}
			}
			return true
		})
	}
	return out
}

func main() {
	for _, p := range os.Args[2:] {
		if os.Args[1] == "list" {
			fs := token.NewFileSet()
			f, err := parser.ParseFile(fs, p, nil, parser.ParseComments)
			if err != nil {
				panic(err)
			}
			for i, s := range sites(f) {
				fmt.Printf("%s:%d:%d:%s\n", p, i, fs.Position(s.pos).Line, s.kind)
			}
			continue
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		i, _ := strconv.Atoi(os.Args[3])
		sites(f)[i].do()
		var b bytes.Buffer
		if err := format.Node(&b, fs, f); err != nil {
			panic(err)
		}
		os.Stdout.Write(b.Bytes())
		return
	}
}
