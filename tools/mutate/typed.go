package main

import (
	"encoding/json"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// typed lists mutants that need types: another variable, field or method of the same type, an argument instead of a minimum,
// the object itself instead of its copy, adjacent statements swapped. Run in the repository's module.
func typed(file string, guarded bool) {
	fset := token.NewFileSet()
	pkgs, err := parser.ParseDir(fset, filepath.Dir(file), func(i os.FileInfo) bool { return !strings.HasSuffix(i.Name(), "_test.go") }, 0)
	if err != nil {
		panic(err)
	}
	var files []*ast.File
	var f *ast.File
	for _, p := range pkgs {
		for n, x := range p.Files {
			files = append(files, x)
			if filepath.Base(n) == filepath.Base(file) {
				f = x
			}
		}
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(error) {}}
	pkg, _ := conf.Check(filepath.Dir(file), fset, files, info)
	src, _ := os.ReadFile(file)
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var fn string
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	emit := func(op string, from, to token.Pos, new string) {
		enc.Encode(mutant{op, fset.Position(from).Line, off(from), off(to), new, fn})
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		fn = fd.Name.Name
		if guarded {
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				b, ok := n.(*ast.BlockStmt)
				if !ok {
					return true
				}
				for _, st := range b.List {
					switch x := st.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt:
					case *ast.AssignStmt:
						if x.Tok == token.DEFINE {
							continue
						}
					default:
						continue
					}
					var objs []*types.Var
					for sc := pkg.Scope().Innermost(st.Pos()); sc != nil && sc != pkg.Scope(); sc = sc.Parent() {
						for _, nm := range sc.Names() {
							if w, ok := sc.Lookup(nm).(*types.Var); ok && nm != "_" && w.Pos() < st.Pos() {
								objs = append(objs, w)
							}
						}
					}
					var conds []string
					for i, w := range objs {
						switch t := w.Type().Underlying().(type) {
						case *types.Basic:
							switch t.Kind() {
							case types.Int:
								for _, c := range []string{"==0", "==1", "==2", "==3", ">=5", "<0"} {
									if c == "<0" && (w.Parent() != info.Scopes[fd.Type] || strings.Contains(strings.ToLower(w.Name()), "lev")) {
										continue
									}
									conds = append(conds, w.Name()+c)
								}
							case types.Uint64:
								for _, c := range []string{"==0", "==1", ">>60!=0", "&255==7"} {
									conds = append(conds, w.Name()+c)
								}
							case types.Float64:
								for _, c := range []string{"<0", "<1", ">1e16"} {
									conds = append(conds, w.Name()+c)
								}
							}
						case *types.Slice:
							for _, c := range []string{"<2", "==3", ">4"} {
								conds = append(conds, "len("+w.Name()+")"+c)
							}
						case *types.Pointer, *types.Interface:
							for _, v := range objs[:i] {
								if types.Identical(v.Type(), w.Type()) && types.Comparable(v.Type()) && v.Name() != w.Name() {
									conds = append(conds, v.Name()+"=="+w.Name())
								}
							}
						}
					}
					for _, c := range conds {
						emit("unless "+c, st.Pos(), st.End(), "if !("+c+") { "+text(st)+" }")
					}
				}
				return true
			})
			continue
		}
		sel := map[*ast.Ident]bool{}
		lhs := map[*ast.Ident]bool{}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				if x.Tok == token.DEFINE {
					for _, l := range x.Lhs {
						if i, ok := l.(*ast.Ident); ok {
							lhs[i] = true
						}
					}
				}
			case *ast.SelectorExpr:
				sel[x.Sel] = true
				s := info.Selections[x]
				if s == nil {
					break
				}
				ms := types.NewMethodSet(s.Recv())
				if s.Kind() == types.MethodVal {
					for i := 0; i < ms.Len(); i++ {
						m := ms.At(i).Obj()
						if m.Name() != x.Sel.Name && types.Identical(m.Type(), s.Obj().Type()) && len(m.Name()) > 2 && similar(m.Name(), x.Sel.Name) {
							emit("method", x.Sel.Pos(), x.Sel.End(), m.Name())
						}
					}
				}
				if s.Kind() == types.FieldVal {
					t := s.Recv()
					if p, ok := t.Underlying().(*types.Pointer); ok {
						t = p.Elem()
					}
					if st, ok := t.Underlying().(*types.Struct); ok {
						for i := 0; i < st.NumFields(); i++ {
							if g := st.Field(i); g.Name() != x.Sel.Name && types.Identical(g.Type(), s.Type()) {
								emit("field", x.Sel.Pos(), x.Sel.End(), g.Name())
							}
						}
					}
				}
			case *ast.Ident:
				v, ok := info.Uses[x].(*types.Var)
				if !ok || sel[x] || lhs[x] || v.IsField() || v.Parent() == nil || v.Parent() == pkg.Scope() {
					break
				}
				var alts []string
				for sc := pkg.Scope().Innermost(x.Pos()); sc != nil && sc != pkg.Scope(); sc = sc.Parent() {
					for _, nm := range sc.Names() {
						w, ok := sc.Lookup(nm).(*types.Var)
						if ok && nm != "_" && nm != x.Name && w.Pos() < x.Pos() && types.Identical(w.Type(), v.Type()) {
							alts = append(alts, nm)
						}
					}
				}
				sort.Strings(alts)
				for _, a := range alts {
					emit("var "+x.Name, x.Pos(), x.End(), a)
				}
			case *ast.CallExpr:
				s := text(x.Fun)
				if strings.HasSuffix(s, "MinInt") || strings.HasSuffix(s, "MaxInt") || strings.HasSuffix(s, "MinUint64") || strings.HasSuffix(s, "MaxFloat64") {
					for i := 0; i < 2 && len(x.Args) == 2; i++ {
						emit("one of "+short(text(x)), x.Pos(), x.End(), text(x.Args[i]))
					}
				}
				if se, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 0 && (strings.Contains(se.Sel.Name, "Copy") || strings.Contains(se.Sel.Name, "New")) {
					emit("no copy", x.Pos(), x.End(), text(se.X))
				}
			case *ast.BlockStmt:
				for i := 0; i+1 < len(x.List); i++ {
					a, b := x.List[i], x.List[i+1]
					simple := func(s ast.Stmt) bool {
						switch s.(type) {
						case *ast.ExprStmt, *ast.AssignStmt, *ast.IncDecStmt, *ast.ForStmt, *ast.IfStmt, *ast.RangeStmt:
							return true
						}
						return false
					}
					if simple(a) && simple(b) {
						emit("swap statements", a.Pos(), b.End(), text(b)+"\n"+text(a))
					}
				}
			case *ast.ForStmt:
				if c, ok := x.Cond.(*ast.BinaryExpr); ok {
					emit("one round less", c.Y.Pos(), c.Y.End(), "("+text(c.Y)+")-1")
				}
			case *ast.IndexExpr:
				if tv, ok := info.Types[x.X]; ok {
					if _, ok := tv.Type.Underlying().(*types.Slice); ok {
						emit("index 0", x.Index.Pos(), x.Index.End(), "0")
					}
				}
			}
			return true
		})
	}
}

func similar(a, b string) bool {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	m := 0
	for m < len(a) && m < len(b) && a[len(a)-1-m] == b[len(b)-1-m] {
		m++
	}
	return n >= 3 || m >= 3
}

