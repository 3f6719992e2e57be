// tick instruments the Go package in a directory: every block of code that is
// entered counts as one step of work, and so do 64 elements copied at once or handed
// to a function of another package. It writes the instrumented files and prints the
// "Replace" table that puts them in place with go build -overlay.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const counter = "verifTicks"

func main() {
	dir, out := os.Args[1], os.Args[2]
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	check(err)
	table := map[string]string{}
	pkg := ""
	fset := token.NewFileSet()
	parsed, srcs := map[string]*ast.File{}, map[string][]byte{}
	var all []*ast.File
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		check(err)
		file, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		check(err)
		if file.Name.Name == "main" {
			continue
		}
		pkg = file.Name.Name
		parsed[f], srcs[f] = file, src
		all = append(all, file)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Error: func(error) {}, Importer: importer.ForCompiler(token.NewFileSet(), "source", nil)}
	own, _ := conf.Check(pkg, fset, all, info) // what has no type is not wrapped
	for f, file := range parsed {
		src := srcs[f]
		type insertion struct {
			at   int
			text string
		}
		var ins []insertion
		put := func(p token.Pos, text string) { ins = append(ins, insertion{fset.PositionFor(p, false).Offset, text}) }
		mark := func(p token.Pos) { put(p, " "+counter+"++; ") }
		ast.Inspect(file, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				if x.Body != nil {
					mark(x.Body.Lbrace + 1)
				}
			case *ast.FuncLit:
				mark(x.Body.Lbrace + 1)
			case *ast.ForStmt:
				mark(x.Body.Lbrace + 1)
			case *ast.RangeStmt:
				mark(x.Body.Lbrace + 1)
			case *ast.IfStmt:
				mark(x.Body.Lbrace + 1)
				if e, ok := x.Else.(*ast.BlockStmt); ok {
					mark(e.Lbrace + 1)
				}
			case *ast.CaseClause:
				mark(x.Colon + 1)
			case *ast.CallExpr: // work on many elements at once
				if f, ok := x.Fun.(*ast.Ident); ok && f.Name == "copy" && f.Obj == nil && len(x.Args) == 2 {
					put(x.Pos(), "verifCopied(")
					put(x.End(), ")")
				} else if many(info, own, x) {
					for _, a := range x.Args {
						if t := info.Types[a]; t.IsValue() && t.Value == nil {
							switch u := t.Type.Underlying().(type) {
							case *types.Slice:
								if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
									break // a key
								}
								put(a.Pos(), "verifSlice(")
								put(a.End(), ")")
							case *types.Map:
								put(a.Pos(), "verifMap(")
								put(a.End(), ")")
							}
						}
					}
				}
			case *ast.CommClause:
				mark(x.Colon + 1)
			case *ast.LabeledStmt: // goto loops
				if _, loop := x.Stmt.(*ast.ForStmt); loop {
					break
				}
				switch x.Stmt.(type) {
				case *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				default:
					mark(x.Colon + 1)
				}
			}
			return true
		})
		sort.SliceStable(ins, func(i, j int) bool { return ins[i].at > ins[j].at })
		for _, i := range ins {
			src = append(src[:i.at], append([]byte(i.text), src[i.at:]...)...)
		}
		to := filepath.Join(out, filepath.Base(f))
		check(os.WriteFile(to, src, 0o644))
		table[f] = to
	}
	if pkg == "" {
		check(fmt.Errorf("no Go package in %s", dir))
	}
	to := filepath.Join(out, "zz_verif_ticks.go")
	check(os.WriteFile(to, []byte("package "+pkg+`

var verifTicks uint64

// VerifTicks returns the number of blocks entered so far.
func VerifTicks() uint64 { return verifTicks }

func verifSlice[S ~[]E, E any](s S) S {
	verifTicks += uint64(len(s)) / 64
	return s
}

func verifMap[M ~map[K]V, K comparable, V any](m M) M {
	verifTicks += uint64(len(m))
	return m
}

func verifCopied(n int) int {
	verifTicks += uint64(n) / 64
	return n
}
`), 0o644))
	table[filepath.Join(dir, "zz_verif_ticks.go")] = to
	check(json.NewEncoder(os.Stdout).Encode(table))
}

// many reports calls that may work on all elements of their arguments: those of other
// packages (but hash/maphash, whose work the harness counts), clear, and append of a slice.
func many(info *types.Info, own *types.Package, x *ast.CallExpr) bool {
	fun := x.Fun
	switch f := fun.(type) { // instantiations
	case *ast.IndexExpr:
		fun = f.X
	case *ast.IndexListExpr:
		fun = f.X
	}
	switch f := fun.(type) {
	case *ast.Ident:
		b, ok := info.Uses[f].(*types.Builtin)
		return ok && (b.Name() == "clear" || b.Name() == "append" && x.Ellipsis.IsValid())
	case *ast.SelectorExpr:
		o, ok := info.Uses[f.Sel].(*types.Func)
		return ok && o.Pkg() != nil && o.Pkg() != own && o.Pkg().Path() != "hash/maphash"
	}
	return false
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "tick:", err)
		os.Exit(1)
	}
}
