// rewrite copies the non-test packages of the repository into a scratch
// module, with every synchronisation operation, clock access and goroutine
// start replaced by its counterpart in the mc runtime, and every access to
// shared memory reported to mc's race detector. It works on syntax trees with
// full type information: it does not depend on how the code is written.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listed struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	Export     string
	Standard   bool
	Module     *struct {
		Path      string
		Main      bool
		GoVersion string
	}
}

var shims = map[string]string{
	"sync":        "stompmc/mc/sync",
	"sync/atomic": "stompmc/mc/atomic",
	"time":        "stompmc/mc/time",
	"context":     "stompmc/mc/context",
	"net":         "stompmc/mc/net",
	"runtime":     "stompmc/mc/runtime",
}

const rt = "mcrt"

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "output directory (of package path stompmc/stomp)")
	exclude := flag.String("exclude", "testutil,stompd,examples", "")
	flag.Parse()
	if *out == "" {
		die("no -out")
	}
	run := func(args ...string) []byte {
		cmd := exec.Command("go", args...)
		cmd.Dir = *repo
		cmd.Stderr = os.Stderr
		b, err := cmd.Output()
		if err != nil {
			die("go %s: %v", strings.Join(args, " "), err)
		}
		return b
	}
	mod := strings.TrimSpace(string(run("list", "-m")))
	var pkgs []string
next:
	for _, p := range strings.Fields(string(run("list", "./..."))) {
		rel := strings.TrimPrefix(strings.TrimPrefix(p, mod), "/")
		for _, ex := range strings.Split(*exclude, ",") {
			if rel == ex || strings.HasPrefix(rel, ex+"/") {
				continue next
			}
		}
		pkgs = append(pkgs, p)
	}
	dec := json.NewDecoder(bytes.NewReader(run(append([]string{"list", "-deps", "-export", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,Imports,Export,Standard,Module"}, pkgs...)...)))
	exports := map[string]string{}
	var own []*listed
	for {
		l := &listed{}
		if err := dec.Decode(l); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		if l.Export != "" {
			exports[l.ImportPath] = l.Export
		}
		if l.Module != nil && l.Module.Main {
			own = append(own, l)
		}
	}
	fset := token.NewFileSet()
	done := map[string]*types.Package{}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	imp := importerFunc(func(path string) (*types.Package, error) {
		if p := done[path]; p != nil {
			return p, nil
		}
		return gc.Import(path)
	})
	for i, l := range own {
		w := &pkgRewriter{fset: fset, mod: mod, path: l.ImportPath, order: i}
		w.rel = strings.TrimPrefix(strings.TrimPrefix(l.ImportPath, mod), "/")
		for _, n := range l.GoFiles {
			f, err := parser.ParseFile(fset, filepath.Join(l.Dir, n), nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			w.files = append(w.files, f)
			w.names = append(w.names, n)
		}
		gover := ""
		if l.Module.GoVersion != "" {
			gover = "go" + l.Module.GoVersion
		}
		w.info = &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Defs:       map[*ast.Ident]types.Object{},
			Uses:       map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
			Implicits:  map[ast.Node]types.Object{},
		}
		conf := types.Config{Importer: imp, GoVersion: gover}
		p, err := conf.Check(l.ImportPath, fset, w.files, w.info)
		if err != nil {
			die("%v", err)
		}
		done[l.ImportPath] = p
		w.pkg = p
		w.rewrite()
		dir := filepath.Join(*out, w.rel)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			die("%v", err)
		}
		for j, f := range w.files {
			var b bytes.Buffer
			// shared loop variables unless the module asks otherwise
			if minor(l.Module.GoVersion) < 22 {
				b.WriteString("//go:build go1.21\n\n")
			}
			if err := format.Node(&b, token.NewFileSet(), f); err != nil {
				die("%s: %v", w.names[j], err)
			}
			if err := os.WriteFile(filepath.Join(dir, w.names[j]), b.Bytes(), 0o644); err != nil {
				die("%v", err)
			}
		}
	}
}

func minor(v string) int {
	s := strings.Split(v, ".")
	if len(s) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(s[1])
	return n
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

type pkgRewriter struct {
	fset     *token.FileSet
	mod      string
	path     string
	rel      string
	order    int
	files    []*ast.File
	names    []string
	info     *types.Info
	pkg      *types.Package
	n        int
	usedRT   bool
	captured map[types.Object]bool
	assigned map[types.Object]bool // package variables assigned after init
	mutable  map[types.Object]bool // package variables whose content may change
	inInit   bool
	noted    map[*ast.SelectorExpr]bool // method selections whose receiver is noted
}

// ---------------------------------------------------------------- helpers

func id(n string) *ast.Ident { return ast.NewIdent(n) }

func (w *pkgRewriter) rtSel(n string) ast.Expr {
	w.usedRT = true
	return &ast.SelectorExpr{X: id(rt), Sel: id(n)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (w *pkgRewriter) rtCall(n string, args ...ast.Expr) *ast.CallExpr {
	return call(w.rtSel(n), args...)
}

func sel(e ast.Expr, n string) ast.Expr { return &ast.SelectorExpr{X: e, Sel: id(n)} }

func str(s string) ast.Expr { return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)} }

func num(n int) ast.Expr {
	if n < 0 {
		return &ast.UnaryExpr{Op: token.SUB, X: num(-n)}
	}
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}
}

func define(l string, r ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id(l)}, Tok: token.DEFINE, Rhs: []ast.Expr{r}}
}

func (w *pkgRewriter) tmp(p string) string {
	w.n++
	return fmt.Sprintf("%s_mc%d", p, w.n)
}

func (w *pkgRewriter) site(n ast.Node) string {
	p := w.fset.Position(n.Pos())
	return fmt.Sprintf("%s:%d", filepath.Join(w.rel, filepath.Base(p.Filename)), p.Line)
}

func (w *pkgRewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := w.info.Types[e]; ok {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := w.info.ObjectOf(i); o != nil {
			return o.Type()
		}
	}
	return nil
}

func under[T types.Type](t types.Type) (T, bool) {
	var z T
	if t == nil {
		return z, false
	}
	u, ok := t.Underlying().(T)
	return u, ok
}

func (w *pkgRewriter) isType(e ast.Expr) bool {
	tv, ok := w.info.Types[e]
	return ok && tv.IsType()
}

func (w *pkgRewriter) builtin(e ast.Expr) string {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if i, ok := e.(*ast.Ident); ok {
		if b, ok := w.info.Uses[i].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

// pkgVar returns the package-level variable e names, if any.
func (w *pkgRewriter) pkgVar(e ast.Expr) *types.Var {
	var i *ast.Ident
	switch e := e.(type) {
	case *ast.Ident:
		i = e
	case *ast.SelectorExpr:
		if x, ok := e.X.(*ast.Ident); ok {
			if _, ok := w.info.Uses[x].(*types.PkgName); ok {
				i = e.Sel
			}
		}
	case *ast.ParenExpr:
		return w.pkgVar(e.X)
	}
	if i == nil {
		return nil
	}
	v, ok := w.info.Uses[i].(*types.Var)
	if !ok || v.IsField() || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() {
		return nil
	}
	return v
}

// ---------------------------------------------------------------- analysis

func rootOf(e ast.Expr) ast.Expr {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.SelectorExpr:
			if i, ok := x.X.(*ast.Ident); ok && i.Obj == nil {
				// maybe a qualified identifier; caller checks
				return x
			}
			e = x.X
		default:
			return e
		}
	}
}

// varRoot is the package variable at the root of a selector/index path.
func (w *pkgRewriter) varRoot(e ast.Expr) *types.Var {
	for {
		if v := w.pkgVar(e); v != nil {
			return v
		}
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.SelectorExpr:
			e = x.X
		default:
			return nil
		}
	}
}

func immutableType(t types.Type) bool {
	switch t.String() {
	case "*regexp.Regexp", "*strings.Replacer", "error", "*log.Logger":
		return true
	}
	return false
}

func (w *pkgRewriter) analyse() {
	w.captured = map[types.Object]bool{}
	w.assigned = map[types.Object]bool{}
	w.mutable = map[types.Object]bool{}
	for _, f := range w.files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			isInit := fd.Name.Name == "init" && fd.Recv == nil
			w.captures(fd)
			if isInit {
				continue
			}
			ast.Inspect(fd, func(n ast.Node) bool {
				lhs := func(e ast.Expr) {
					if v := w.pkgVar(e); v != nil {
						w.assigned[v] = true
					}
					if v := w.varRoot(e); v != nil {
						w.mutable[v] = true
					}
				}
				switch n := n.(type) {
				case *ast.AssignStmt:
					if n.Tok != token.DEFINE {
						for _, l := range n.Lhs {
							lhs(l)
						}
					}
				case *ast.IncDecStmt:
					lhs(n.X)
				case *ast.RangeStmt:
					if n.Tok == token.ASSIGN {
						if n.Key != nil {
							lhs(n.Key)
						}
						if n.Value != nil {
							lhs(n.Value)
						}
					}
				case *ast.UnaryExpr:
					if n.Op == token.AND {
						if v := w.varRoot(n.X); v != nil {
							w.mutable[v] = true
						}
					}
				case *ast.CallExpr:
					switch w.builtin(n.Fun) {
					case "delete", "clear", "copy", "close":
						if v := w.varRoot(n.Args[0]); v != nil {
							w.mutable[v] = true
						}
					}
				case *ast.SendStmt:
					if v := w.varRoot(n.Chan); v != nil {
						w.mutable[v] = true
					}
				case *ast.SelectorExpr:
					if s := w.info.Selections[n]; s != nil && s.Kind() == types.MethodVal {
						if v := w.varRoot(n.X); v != nil && !immutableType(v.Type()) {
							if sig, ok := s.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
								_, ptr := sig.Recv().Type().(*types.Pointer)
								_, itf := sig.Recv().Type().Underlying().(*types.Interface)
								if ptr || itf {
									w.mutable[v] = true
								}
							}
						}
					}
				}
				return true
			})
		}
	}
	for v := range w.mutable {
		if immutableType(v.Type()) && !w.assigned[v] {
			delete(w.mutable, v)
		}
	}
}

// captures finds the local variables used by a function literal other than
// the function that declares them.
func (w *pkgRewriter) captures(fd *ast.FuncDecl) {
	owner := map[types.Object]ast.Node{}
	var stack []ast.Node
	top := func() ast.Node { return stack[len(stack)-1] }
	var visit func(n ast.Node)
	visit = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == nil || m == n {
				return true
			}
			if fl, ok := m.(*ast.FuncLit); ok {
				stack = append(stack, fl)
				visit(fl)
				stack = stack[:len(stack)-1]
				return false
			}
			if i, ok := m.(*ast.Ident); ok {
				if o, ok := w.info.Defs[i].(*types.Var); ok && !o.IsField() {
					owner[o] = top()
				} else if o, ok := w.info.Uses[i].(*types.Var); ok && !o.IsField() {
					if ow, ok := owner[o]; ok && ow != top() {
						w.captured[o] = true
					}
				}
			}
			return true
		})
	}
	stack = append(stack, fd)
	visit(fd)
}

// ---------------------------------------------------------------- driver

func (w *pkgRewriter) rewrite() {
	w.analyse()
	resets := map[*ast.File][]ast.Stmt{}
	fileOf := func(p token.Pos) *ast.File {
		for _, f := range w.files {
			if f.FileStart <= p && p < f.FileEnd {
				return f
			}
		}
		return w.files[0]
	}
	// re-initialisation of mutable package variables, in initialisation order
	ord := 0
	reset := func(f *ast.File, body ...ast.Stmt) {
		ord++
		w.usedRT = true
		resets[f] = append(resets[f], &ast.ExprStmt{X: w.rtCall("RegisterResetAt", num(w.order), num(ord),
			&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})})
	}
	inited := map[types.Object]bool{}
	type rst struct {
		f    *ast.File
		body []ast.Stmt
	}
	var todo []rst
	w.inInit = true
	for _, in := range w.info.InitOrder {
		any := false
		var lhs []ast.Expr
		for _, v := range in.Lhs {
			inited[v] = true
			if w.mutable[v] {
				any = true
			}
			lhs = append(lhs, id(v.Name()))
		}
		if any {
			rhs := w.expr(copyExpr(w, in.Rhs), rd)
			todo = append(todo, rst{fileOf(in.Rhs.Pos()), []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}}})
		}
	}
	w.inInit = false
	var zero []types.Object
	for v := range w.mutable {
		if !inited[v] && v.Pkg() == w.pkg {
			zero = append(zero, v)
		}
	}
	sort.Slice(zero, func(i, j int) bool { return zero[i].Pos() < zero[j].Pos() })

	usesMutable := func(n ast.Node) bool {
		found := false
		ast.Inspect(n, func(m ast.Node) bool {
			if e, ok := m.(ast.Expr); ok {
				if v := w.pkgVar(e); v != nil && w.mutable[v] {
					found = true
				}
			}
			return true
		})
		return found
	}
	type initFn struct {
		f    *ast.File
		name string
	}
	var inits []initFn
	used := map[*ast.File]bool{}
	for fi, f := range w.files {
		w.usedRT = false
		var decls []ast.Decl
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name == "init" && fd.Recv == nil && usesMutable(fd) {
				n := w.tmp(fmt.Sprintf("init%d", fi))
				w.inInit = true
				w.decl(fd)
				w.inInit = false
				fd.Name = id(n)
				decls = append(decls, fd, &ast.FuncDecl{Name: id("init"), Type: &ast.FuncType{Params: &ast.FieldList{}},
					Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(id(n))}}}})
				inits = append(inits, initFn{f, n})
				continue
			}
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name == "init" && fd.Recv == nil {
				w.inInit = true
			}
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
				w.inInit = true
			}
			w.decl(d)
			w.inInit = false
			decls = append(decls, d)
		}
		f.Decls = decls
		f.Comments = nil
		used[f] = w.usedRT
	}
	for _, v := range zero {
		reset(fileOf(v.Pos()), &ast.ExprStmt{X: w.rtCall("Zero", &ast.UnaryExpr{Op: token.AND, X: id(v.Name())})})
	}
	for _, t := range todo {
		reset(t.f, t.body...)
	}
	for _, in := range inits {
		reset(in.f, &ast.ExprStmt{X: call(id(in.name))})
	}
	for _, f := range w.files {
		if r := resets[f]; len(r) > 0 {
			f.Decls = append(f.Decls, &ast.FuncDecl{Name: id("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: r}})
			used[f] = true
		}
		w.imports(f, used[f])
		stripPos(f)
	}
}

func (w *pkgRewriter) imports(f *ast.File, addRT bool) {
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			continue
		}
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			p, _ := strconv.Unquote(is.Path.Value)
			if n, ok := shims[p]; ok {
				is.Path.Value = strconv.Quote(n)
			} else if p == w.mod || strings.HasPrefix(p, w.mod+"/") {
				is.Path.Value = strconv.Quote("stompmc/stomp" + strings.TrimPrefix(p, w.mod))
				if p == w.mod && is.Name == nil {
					// the package name need not be the last path element
					for _, im := range w.pkg.Imports() {
						if im.Path() == p {
							is.Name = id(im.Name())
						}
					}
				}
			}
		}
	}
	if addRT {
		im := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: id(rt), Path: &ast.BasicLit{Kind: token.STRING, Value: `"stompmc/mc"`}}}}
		f.Decls = append([]ast.Decl{im}, f.Decls...)
	}
}
