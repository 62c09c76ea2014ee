// Command mutate writes variants of Go files with one small change each, to
// find out which of those that the tests accept the checks detect (see
// mutants.sh). Only the development of the checks uses it.
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func main() {
	root := flag.String("root", "/repo", "")
	out := flag.String("out", "", "directory for NNNN/{file,path,what}")
	flag.Parse()
	n := 0
	for _, rel := range flag.Args() {
		src, err := os.ReadFile(filepath.Join(*root, rel))
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, rel, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
		seen := map[string]bool{}
		emit := func(from, to token.Pos, repl string) {
			a, b := off(from), off(to)
			if string(src[a:b]) == repl {
				return
			}
			m := string(src[:a]) + repl + string(src[b:])
			if seen[m] {
				return
			}
			seen[m] = true
			d := filepath.Join(*out, fmt.Sprintf("%04d", n))
			n++
			os.MkdirAll(d, 0755)
			os.WriteFile(d+"/file", []byte(m), 0644)
			os.WriteFile(d+"/path", []byte(rel), 0644)
			old := string(src[a:b])
			os.WriteFile(d+"/what", []byte(fmt.Sprintf("%s:%d: %q -> %q\n", rel, fset.Position(from).Line, old, repl)), 0644)
		}
		swap := map[token.Token][]string{
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.EQL: {"!="}, token.NEQ: {"=="},
			token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&", "^"},
		}
		families := [][]string{
			{"WireVarint", "WireFixed32", "WireFixed64", "WireBytes"},
			{"Uvarint", "Varint"}, {"PutUvarint", "PutVarint"}, {"MaxVarintLen64", "MaxVarintLen32"},
			{"offsetUnset", "offsetInMap", "offsetMaxInArray"}, {"offset", "fieldEnd", "fieldBegin"}, {"size", "idx", "lenSize"},
			{"LABEL_OPTIONAL", "LABEL_REQUIRED", "LABEL_REPEATED"}, {"valLen", "val"}, {"Get", "GetName", "GetTypeName"},
		}
		ast.Inspect(af, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, r := range swap[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), text(x.X))
					emit(x.Pos(), x.End(), text(x.Y))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						for _, w := range []int64{v + 1, v - 1, 0, 2 * v} {
							if w >= 0 {
								emit(x.Pos(), x.End(), fmt.Sprint(w))
							}
						}
					}
				}
			case *ast.IfStmt:
				c := text(x.Cond)
				emit(x.Cond.Pos(), x.Cond.End(), "("+c+") && false")
				emit(x.Cond.Pos(), x.Cond.End(), "("+c+") || true")
				if x.Else != nil {
					if _, ok := x.Else.(*ast.BlockStmt); ok {
						emit(x.Body.End(), x.Else.End(), "")
					}
				}
			case *ast.AssignStmt:
				if x.Tok == token.ADD_ASSIGN {
					emit(x.TokPos, x.TokPos+2, "-=")
					emit(x.TokPos, x.TokPos+2, "=")
				}
				if x.Tok != token.DEFINE {
					var b strings.Builder
					for i, r := range x.Rhs {
						if i > 0 {
							b.WriteString("; ")
						}
						b.WriteString("_ = " + text(r))
					}
					if len(x.Lhs) == len(x.Rhs) {
						emit(x.Pos(), x.End(), b.String())
					}
				}
			case *ast.ExprStmt:
				emit(x.Pos(), x.End(), "")
			case *ast.DeferStmt, *ast.IncDecStmt:
				emit(x.Pos(), x.End(), "")
			case *ast.BranchStmt:
				switch x.Tok {
				case token.BREAK:
					emit(x.Pos(), x.End(), "continue")
				case token.CONTINUE:
					emit(x.Pos(), x.End(), "break")
					emit(x.Pos(), x.End(), "")
				}
			case *ast.CaseClause:
				if x.List != nil {
					emit(x.Pos(), x.End(), "")
					for i, e := range x.List {
						if len(x.List) > 1 {
							var l []string
							for j, f := range x.List {
								if i != j {
									l = append(l, text(f))
								}
							}
							emit(x.List[0].Pos(), x.List[len(x.List)-1].End(), strings.Join(l, ", "))
						}
						_ = e
					}
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit(x.Low.Pos(), x.Low.End(), "0")
					emit(x.Low.Pos(), x.Low.End(), text(x.Low)+"+1")
				}
				if x.Max != nil {
					emit(x.High.End(), x.Max.End(), "")
				} else if x.High != nil {
					emit(x.High.Pos(), x.High.End(), "")
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 {
					a := x.Args[0]
					switch id.Name {
					case "uint64":
						for _, t := range []string{"uint32", "uint16", "uint8"} {
							emit(a.Pos(), a.End(), t+"("+text(a)+")")
						}
						emit(a.Pos(), a.End(), "int32("+text(a)+")")
					case "int":
						for _, t := range []string{"uint32", "int32", "uint16", "int16"} {
							emit(a.Pos(), a.End(), t+"("+text(a)+")")
						}
					case "int32", "uint32", "int64":
						for _, t := range []string{"uint16", "int16"} {
							emit(a.Pos(), a.End(), t+"("+text(a)+")")
						}
					}
				}
				if len(x.Args) == 2 && x.Ellipsis == 0 {
					emit(x.Args[0].Pos(), x.Args[1].End(), text(x.Args[1])+", "+text(x.Args[0]))
				}
			case *ast.ReturnStmt:
				for _, e := range x.Results {
					switch text(e) {
					case "true":
						emit(e.Pos(), e.End(), "false")
					case "false":
						emit(e.Pos(), e.End(), "true")
					case "nil":
					case "err":
						emit(e.Pos(), e.End(), "nil")
					default:
						emit(e.Pos(), e.End(), "nil")
						emit(e.Pos(), e.End(), "0")
					}
				}
			case *ast.Ident:
				for _, fam := range families {
					for _, n := range fam {
						if x.Name == n {
							for _, m := range fam {
								if m != n {
									emit(x.Pos(), x.End(), m)
								}
							}
						}
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.OpPos, x.OpPos+1, "")
				}
			}
			return true
		})
	}
	fmt.Println(n, "mutants")
}
