// Mutate lists or applies single changes to a Go file (development tool; no check runs it).
//
//	mutate FILE            prints the number of mutants and their descriptions
//	mutate FILE N          prints the file with mutant N applied
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	from, to int
	text     string
	what     string
}

func main() {
	file := os.Args[1]
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	var E []edit
	fn := ""
	add := func(a, b token.Pos, text, what string) {
		E = append(E, edit{off(a), off(b), text, fmt.Sprintf("%s:%d %s: %q -> %q", fn, fs.Position(a).Line, what, src[off(a):off(b)], text)})
	}
	ops := map[token.Token][]string{
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"},
		token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"/"},
	}
	var stmts func(L []ast.Stmt)
	stmts = func(L []ast.Stmt) {
		for i, s := range L {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.GoStmt, *ast.DeferStmt, *ast.SendStmt:
				if c, ok := s.(*ast.ExprStmt); ok {
					if e, ok := c.X.(*ast.CallExpr); ok {
						if se, ok := e.Fun.(*ast.SelectorExpr); ok {
							if id, ok := se.X.(*ast.Ident); ok && (id.Name == "fmt" || id.Name == "sys") && se.Sel.Name != "Fprintf" {
								continue
							}
						}
					}
				}
				add(s.Pos(), s.End(), "", "delete")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(s.Pos(), s.End(), "", "delete")
				}
				switch x.Tok {
				case token.ADD_ASSIGN:
					add(x.TokPos, x.TokPos+2, "-=", "op")
					add(x.TokPos, x.TokPos+2, "=", "op")
				case token.SUB_ASSIGN:
					add(x.TokPos, x.TokPos+2, "+=", "op")
				case token.MUL_ASSIGN, token.QUO_ASSIGN:
					add(x.TokPos, x.TokPos+2, "+=", "op")
				}
			case *ast.BranchStmt:
				if x.Tok == token.BREAK || x.Tok == token.CONTINUE {
					add(s.Pos(), s.End(), "", "delete")
				}
			case *ast.IfStmt:
				if x.Else == nil {
					add(s.Pos(), s.End(), "", "delete if")
				}
			}
			// swap with the next simple statement
			if i+1 < len(L) {
				if a, ok := s.(*ast.AssignStmt); ok && a.Tok != token.DEFINE {
					if b, ok := L[i+1].(*ast.AssignStmt); ok && b.Tok != token.DEFINE {
						t := string(src[off(b.Pos()):off(b.End())]) + "\n" + string(src[off(a.Pos()):off(a.End())])
						add(a.Pos(), b.End(), t, "swap")
					}
				}
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		fn = fd.Name.Name
		if fd.Recv != nil && len(fd.Recv.List) == 1 {
			switch t := fd.Recv.List[0].Type.(type) {
			case *ast.StarExpr:
				fn = "*" + t.X.(*ast.Ident).Name + "." + fn
			case *ast.Ident:
				fn = t.Name + "." + fn
			}
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.BinaryExpr:
				for _, o := range ops[x.Op] {
					add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, "op")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.Atoi(x.Value)
					if err == nil {
						add(x.Pos(), x.End(), strconv.Itoa(v+1), "const")
						if v > 0 {
							add(x.Pos(), x.End(), strconv.Itoa(v-1), "const")
						}
					}
				} else if x.Kind == token.FLOAT {
					add(x.Pos(), x.End(), "("+x.Value+"+0.5)", "const")
				}
			case *ast.IfStmt:
				add(x.Cond.Pos(), x.Cond.End(), "!("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "negate")
			case *ast.CallExpr:
				if len(x.Args) == 2 {
					a, b := x.Args[0], x.Args[1]
					add(a.Pos(), b.End(), string(src[off(b.Pos()):off(b.End())])+", "+string(src[off(a.Pos()):off(a.End())]), "swap args")
				}
			case *ast.IndexExpr:
				if id, ok := x.Index.(*ast.Ident); ok {
					add(id.Pos(), id.End(), "0", "index")
				}
			case *ast.RangeStmt:
				t := string(src[off(x.X.Pos()):off(x.X.End())])
				if id, ok := x.Key.(*ast.Ident); ok && id.Name != "_" {
					// skip the last element
					add(x.Body.Lbrace+1, x.Body.Lbrace+1, "\nif "+id.Name+" == len("+t+")-1 && "+id.Name+" > 0 { continue }\n", "skip last")
				}
			case *ast.Ident:
				if x.Name == "true" {
					add(x.Pos(), x.End(), "false", "const")
				} else if x.Name == "false" {
					add(x.Pos(), x.End(), "true", "const")
				}
			}
			return true
		})
	}
	if len(os.Args) < 3 {
		for i, e := range E {
			fmt.Printf("%d\t%s\n", i, e.what)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	e := E[n]
	os.Stdout.Write(src[:e.from])
	os.Stdout.WriteString(e.text)
	os.Stdout.Write(src[e.to:])
}
