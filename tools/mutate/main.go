// mutate lists the mutants of a Go file: mutate FILE prints one JSON object per mutant (operator, line, byte range, text).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"regexp"
	"strconv"
)

type mutant struct {
	Op   string `json:"op"`
	Line int    `json:"line"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	Func string `json:"func"`
}

// commutative: swaps of the arguments of these mostly change nothing
var commutative = regexp.MustCompile(`(Mul|Add|MRed|BRed|CRed|Min|Max|Equal)`)

func main() {
	if len(os.Args) > 2 && (os.Args[1] == "-typed" || os.Args[1] == "-guarded") {
		typed(os.Args[2], os.Args[1] == "-guarded")
		return
	}
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var fn string
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	emit := func(op string, from, to token.Pos, new string) {
		enc.Encode(mutant{op, fset.Position(from).Line, off(from), off(to), new, fn})
	}
	swap := map[token.Token][]string{token.ADD: {"-"}, token.SUB: {"+"}, token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.MUL: {"+"}, token.QUO: {"*"}, token.AND: {"|"}, token.REM: {"/"}}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		fn = fd.Name.Name
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				for _, s := range swap[x.Op] {
					emit("binary "+x.Op.String()+" to "+s, x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseUint(x.Value, 0, 64); err == nil {
						emit("literal +1", x.Pos(), x.End(), fmt.Sprint(v+1))
						if v > 0 {
							emit("literal -1", x.Pos(), x.End(), fmt.Sprint(v-1))
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit("bool", x.Pos(), x.End(), "false")
				} else if x.Name == "false" {
					emit("bool", x.Pos(), x.End(), "true")
				} else if x.Name == "levelQ" {
					emit("ident", x.Pos(), x.End(), "levelP")
				} else if x.Name == "levelP" {
					emit("ident", x.Pos(), x.End(), "levelQ")
				} else if x.Name == "minLevel" || x.Name == "level" {
					emit("ident-1", x.Pos(), x.End(), "("+x.Name+"-1)")
				}
			case *ast.IfStmt:
				c := text(x.Cond)
				emit("if true", x.Cond.Pos(), x.Cond.End(), "(("+c+") || true)")
				emit("if false", x.Cond.Pos(), x.Cond.End(), "(("+c+") && false)")
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt:
						emit("delete: "+short(text(s)), s.Pos(), s.End(), "")
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							emit("delete: "+short(text(s)), s.Pos(), s.End(), "")
						}
					case *ast.BranchStmt:
						if y.Label == nil {
							emit("delete: "+short(text(s)), s.Pos(), s.End(), "")
						}
					}
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := x.Args[i], x.Args[i+1]
					if text(a) == text(b) || commutative.MatchString(text(x.Fun)) {
						continue
					}
					emit("swap args of "+short(text(x.Fun)), a.Pos(), b.End(), text(b)+", "+text(a))
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT || x.Op == token.SUB {
					emit("drop "+x.Op.String(), x.OpPos, x.OpPos+1, "")
				}
			}
			return true
		})
	}
}

func short(s string) string {
	if len(s) > 60 {
		return s[:60]
	}
	return s
}
