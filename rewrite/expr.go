package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"reflect"
)

type ctx int

const (
	rd   ctx = iota // the value is read
	wr              // the location is written
	addr            // only the address is used
)

func (w *pkgRewriter) exprs(l []ast.Expr, c ctx) {
	for i := range l {
		l[i] = w.expr(l[i], c)
	}
}

// shared reports whether e denotes memory other goroutines may reach.
func (w *pkgRewriter) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return w.shared(e.X)
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		if v := w.pkgVar(e); v != nil {
			return w.mutable[v]
		}
		if s := w.info.Selections[e]; s != nil {
			if s.Indirect() {
				return true
			}
			if _, ok := under[*types.Pointer](w.typeOf(e.X)); ok {
				return true
			}
			return w.shared(e.X)
		}
	case *ast.IndexExpr:
		switch w.typeOf(e.X).Underlying().(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			return w.shared(e.X)
		}
	case *ast.Ident:
		o := w.info.Uses[e]
		if o == nil {
			return false
		}
		if w.captured[o] {
			return true
		}
		if v := w.pkgVar(e); v != nil {
			return w.mutable[v]
		}
	}
	return false
}

func isSyncType(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic":
			return true
		}
	}
	return false
}

// stdReads are the methods of standard types that only read their receiver,
// or may do.
var stdReads = map[string]bool{"Len": true, "Front": true, "Back": true, "Next": true, "Prev": true, "Cap": true, "Available": true,
	"Buffered": true, "Size": true, "Flush": true, "String": true, "Bytes": true, "Peek": true, "AvailableBuffer": true}

// stdAccess: the method m of a standard type that has to be guarded by its
// user reads (R) or writes (W) its receiver.
func stdAccess(m types.Object) string {
	sig, ok := m.Type().(*types.Signature)
	if !ok || sig.Recv() == nil || m.Pkg() == nil {
		return ""
	}
	p, ok := sig.Recv().Type().(*types.Pointer)
	if !ok {
		return ""
	}
	nt, ok := p.Elem().(*types.Named)
	if !ok {
		return ""
	}
	switch m.Pkg().Path() + "." + nt.Obj().Name() {
	case "container/list.List", "container/list.Element", "bufio.Reader", "bufio.Writer", "bufio.Scanner",
		"bytes.Buffer", "bytes.Reader", "strings.Builder", "strings.Reader":
		if stdReads[m.Name()] {
			return "R"
		}
		return "W"
	}
	return ""
}

// access wraps orig (shared, and already rewritten to e) in a race-detector
// note.
func (w *pkgRewriter) access(orig, e ast.Expr, c ctx) ast.Expr {
	if c == addr || w.inInit {
		return e
	}
	tv, ok := w.info.Types[orig]
	if _, isIdent := orig.(*ast.Ident); !isIdent && (!ok || !tv.Addressable()) {
		return e
	}
	t := w.typeOf(orig)
	if t == nil || isSyncType(t) {
		return e
	}
	if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() == 0 {
		return e
	}
	n := "R"
	if c == wr {
		n = "W"
	}
	return &ast.ParenExpr{X: &ast.StarExpr{X: w.rtCall(n, &ast.UnaryExpr{Op: token.AND, X: e}, str(w.site(orig)))}}
}

func (w *pkgRewriter) expr(e ast.Expr, c ctx) ast.Expr {
	switch n := e.(type) {
	case nil:
		return nil
	case *ast.BadExpr, *ast.BasicLit:
		return e
	case *ast.Ident:
		if v := w.pkgVar(n); v != nil && w.assigned[v] && !w.inInit && c == rd {
			return call(sel(w.glob(n), "Get"))
		}
		if v, ok := w.info.Uses[n].(*types.Var); ok && !v.IsField() && w.shared(n) {
			return w.access(n, n, c)
		}
		return n
	case *ast.ParenExpr:
		n.X = w.expr(n.X, c)
		return n
	case *ast.Ellipsis:
		n.Elt = w.expr(n.Elt, rd)
		return n
	case *ast.FuncLit:
		w.funcType(n.Type)
		was := w.inInit
		w.inInit = false
		w.block(n.Body)
		w.inInit = was
		return n
	case *ast.CompositeLit:
		n.Type = w.expr(n.Type, rd)
		_, isStruct := under[*types.Struct](deref(w.typeOf(n)))
		for i, el := range n.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = w.expr(kv.Key, rd)
				}
				kv.Value = w.expr(kv.Value, rd)
			} else {
				n.Elts[i] = w.expr(el, rd)
			}
		}
		return n
	case *ast.SelectorExpr:
		if x, ok := n.X.(*ast.Ident); ok {
			if _, ok := w.info.Uses[x].(*types.PkgName); ok {
				if v := w.pkgVar(n); v != nil && w.assigned[v] && !w.inInit && c == rd {
					return call(sel(w.glob(n), "Get"))
				}
				return n
			}
		}
		s := w.info.Selections[n]
		if s == nil {
			n.X = w.expr(n.X, rd)
			return n
		}
		orig := *n
		w.info.Selections[&orig] = s
		w.info.Types[&orig] = w.info.Types[n]
		if s.Kind() == types.MethodVal && len(s.Index()) == 1 {
			if name := chanMethod(s.Obj()); name != "" {
				x := w.expr(n.X, rd)
				if _, ptr := s.Recv().(*types.Pointer); ptr {
					x = &ast.StarExpr{X: x}
				}
				return call(id(name), x)
			}
		}
		if s.Kind() == types.MethodVal {
			cx := rd
			if sig, ok := s.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
				if _, ptr := sig.Recv().Type().(*types.Pointer); ptr {
					if _, isPtr := under[*types.Pointer](w.typeOf(n.X)); !isPtr {
						cx = addr
					}
				}
			}
			if s.Kind() == types.MethodVal && len(s.Index()) > 1 && cx == rd {
				if _, isPtr := under[*types.Pointer](w.typeOf(n.X)); !isPtr {
					cx = addr
				}
			}
			note := ""
			if len(s.Index()) == 1 && !w.inInit {
				note = stdAccess(s.Obj())
			}
			site := str(w.site(&orig))
			_, isPtr := under[*types.Pointer](w.typeOf(n.X))
			n.X = w.expr(n.X, cx)
			if note != "" {
				if !isPtr {
					n.X = &ast.UnaryExpr{Op: token.AND, X: n.X}
				}
				n.X = w.rtCall(note, n.X, site)
				if w.noted == nil {
					w.noted = map[*ast.SelectorExpr]bool{}
				}
				w.noted[n] = true
			}
			return n
		}
		if s.Kind() == types.MethodExpr {
			n.X = w.expr(n.X, rd)
			return n
		}
		cx := addr
		if _, isPtr := under[*types.Pointer](w.typeOf(n.X)); isPtr {
			cx = rd
		} else if !w.info.Types[n].Addressable() {
			cx = rd
		}
		shared := w.shared(&orig)
		n.X = w.expr(n.X, cx)
		if !shared {
			return n
		}
		return w.access(&orig, n, c)
	case *ast.IndexExpr:
		t := w.typeOf(n.X)
		if w.isType(n.X) || t == nil {
			n.X = w.expr(n.X, rd)
			n.Index = w.expr(n.Index, rd)
			return n
		}
		if _, ok := t.Underlying().(*types.Signature); ok {
			return n // instantiation
		}
		orig := *n
		w.info.Types[&orig] = w.info.Types[n]
		switch t.Underlying().(type) {
		case *types.Map:
			name := "RM"
			if c == wr {
				name = "WM"
			}
			n.X = w.expr(n.X, rd)
			if !w.inInit && c != addr {
				n.X = w.rtCall(name, n.X, str(w.site(&orig)))
			}
			n.Index = w.mapKey(t, w.expr(n.Index, rd), c)
			return n
		case *types.Array:
			cx := addr
			if !w.info.Types[n].Addressable() {
				cx = rd
			}
			shared := w.shared(&orig)
			n.X = w.expr(n.X, cx)
			n.Index = w.expr(n.Index, rd)
			if shared {
				return w.access(&orig, n, c)
			}
			return n
		case *types.Slice, *types.Pointer:
			n.X = w.expr(n.X, rd)
			n.Index = w.expr(n.Index, rd)
			return w.access(&orig, n, c)
		}
		n.X = w.expr(n.X, rd)
		n.Index = w.expr(n.Index, rd)
		return n
	case *ast.IndexListExpr:
		return n
	case *ast.SliceExpr:
		cx := rd
		if _, ok := under[*types.Array](w.typeOf(n.X)); ok {
			cx = addr
		}
		n.X = w.expr(n.X, cx)
		n.Low = w.expr(n.Low, rd)
		n.High = w.expr(n.High, rd)
		n.Max = w.expr(n.Max, rd)
		return n
	case *ast.TypeAssertExpr:
		n.X = w.expr(n.X, rd)
		n.Type = w.expr(n.Type, rd)
		return n
	case *ast.CallExpr:
		return w.call(n)
	case *ast.StarExpr:
		if w.isType(n) {
			n.X = w.expr(n.X, rd)
			return n
		}
		orig := *n
		w.info.Types[&orig] = w.info.Types[n]
		n.X = w.expr(n.X, rd)
		return w.access(&orig, n, c)
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			return w.rtCall("Recv", w.expr(n.X, rd))
		}
		if n.Op == token.AND {
			n.X = w.expr(n.X, addr)
			return n
		}
		n.X = w.expr(n.X, rd)
		return n
	case *ast.BinaryExpr:
		n.X = w.expr(n.X, rd)
		n.Y = w.expr(n.Y, rd)
		return n
	case *ast.KeyValueExpr:
		n.Key = w.expr(n.Key, rd)
		n.Value = w.expr(n.Value, rd)
		return n
	case *ast.ArrayType:
		n.Len = w.expr(n.Len, rd)
		n.Elt = w.expr(n.Elt, rd)
		return n
	case *ast.StructType:
		w.fields(n.Fields)
		return n
	case *ast.FuncType:
		w.funcType(n)
		return n
	case *ast.InterfaceType:
		w.fields(n.Methods)
		return n
	case *ast.MapType:
		n.Key = w.expr(n.Key, rd)
		n.Value = w.expr(n.Value, rd)
		return n
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: w.rtSel("Chan"), Index: w.expr(n.Value, rd)}}
	}
	die("unhandled expression %T", e)
	return nil
}

func deref(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (w *pkgRewriter) glob(n ast.Expr) ast.Expr {
	return w.rtCall("Glob", &ast.UnaryExpr{Op: token.AND, X: n}, str(w.site(n)))
}

// mapKey gives pointer keys a deterministic order.
func (w *pkgRewriter) mapKey(t types.Type, k ast.Expr, c ctx) ast.Expr {
	if c != wr {
		return k
	}
	m := t.Underlying().(*types.Map)
	switch m.Key().Underlying().(type) {
	case *types.Pointer, *types.Chan:
		return w.rtCall("NotePtr", k)
	case *types.Interface:
		// an explicit instantiation is not needed: conversion happens after
		return w.rtCall("NotePtr", k)
	}
	return k
}

func (w *pkgRewriter) funcType(n *ast.FuncType) {
	w.fields(n.Params)
	w.fields(n.Results)
}

func (w *pkgRewriter) fields(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Type = w.expr(f.Type, rd)
	}
}

func (w *pkgRewriter) isChan(e ast.Expr) bool {
	_, ok := under[*types.Chan](w.typeOf(e))
	return ok
}

func (w *pkgRewriter) call(n *ast.CallExpr) ast.Expr {
	switch w.builtin(n.Fun) {
	case "make":
		if w.isChan(n.Args[0]) {
			args := n.Args[1:]
			w.exprs(args, rd)
			for i := range args {
				if tv := w.info.Types[args[i]]; tv.Value == nil {
					args[i] = call(id("int"), args[i])
				}
			}
			if c, ok := n.Args[0].(*ast.ChanType); ok {
				el := w.expr(c.Value, rd)
				return call(&ast.IndexExpr{X: w.rtSel("MakeChan"), Index: el}, args...)
			}
			// a named channel type
			return call(&ast.IndexExpr{X: w.rtSel("MakeChanOf"), Index: w.expr(n.Args[0], rd)}, args...)
		}
	case "close":
		return w.rtCall("Close", w.expr(n.Args[0], rd))
	case "len", "cap":
		if w.isChan(n.Args[0]) {
			name := "Len"
			if w.builtin(n.Fun) == "cap" {
				name = "Cap"
			}
			return w.rtCall(name, w.expr(n.Args[0], rd))
		}
		if _, ok := under[*types.Map](w.typeOf(n.Args[0])); ok && !w.inInit {
			n.Args[0] = w.rtCall("RM", w.expr(n.Args[0], rd), str(w.site(n)))
			return n
		}
		if _, ok := under[*types.Array](w.typeOf(n.Args[0])); ok {
			return n
		}
	case "delete":
		if !w.inInit {
			s := str(w.site(n))
			n.Args[0] = w.rtCall("WM", w.expr(n.Args[0], rd), s)
			n.Args[1] = w.expr(n.Args[1], rd)
			return n
		}
	case "new":
		n.Args[0] = w.expr(n.Args[0], rd)
		return n
	}
	if w.isType(n.Fun) {
		f := w.expr(n.Fun, rd)
		if _, ok := f.(*ast.StarExpr); ok {
			f = &ast.ParenExpr{X: f}
		}
		n.Fun = f
	} else if w.builtin(n.Fun) == "" {
		n.Fun = w.expr(n.Fun, rd)
	}
	w.exprs(n.Args, rd)
	return n
}

// copyExpr deep-copies an expression, keeping its type information.
func copyExpr(w *pkgRewriter, e ast.Expr) ast.Expr {
	return copyNode(w, reflect.ValueOf(e)).Interface().(ast.Expr)
}

func copyNode(w *pkgRewriter, v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		switch v.Interface().(type) {
		case *ast.Object, *ast.Scope:
			return reflect.Zero(v.Type())
		}
		c := reflect.New(v.Type().Elem())
		for i := 0; i < v.Elem().NumField(); i++ {
			c.Elem().Field(i).Set(copyNode(w, v.Elem().Field(i)))
		}
		if o, ok := v.Interface().(ast.Expr); ok {
			n := c.Interface().(ast.Expr)
			if tv, ok := w.info.Types[o]; ok {
				w.info.Types[n] = tv
			}
		}
		switch o := v.Interface().(type) {
		case *ast.Ident:
			n := c.Interface().(*ast.Ident)
			if d, ok := w.info.Defs[o]; ok {
				w.info.Defs[n] = d
			}
			if d, ok := w.info.Uses[o]; ok {
				w.info.Uses[n] = d
			}
		case *ast.SelectorExpr:
			if s, ok := w.info.Selections[o]; ok {
				w.info.Selections[c.Interface().(*ast.SelectorExpr)] = s
			}
		}
		return c
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		c := reflect.New(v.Type()).Elem()
		c.Set(copyNode(w, v.Elem()))
		return c
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			c.Index(i).Set(copyNode(w, v.Index(i)))
		}
		return c
	}
	return v
}

// stripPos drops positions: the printer would otherwise try to keep the
// original line structure of code that has moved.
func stripPos(n ast.Node) {
	ast.Inspect(n, func(m ast.Node) bool {
		if m == nil {
			return false
		}
		v := reflect.ValueOf(m).Elem()
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Type() == reflect.TypeOf(token.NoPos) && f.CanSet() {
				switch v.Type().Field(i).Name {
				case "Ellipsis", "Lparen", "Rparen", "Assign", "Arrow":
					// presence carries meaning
					if f.Int() != 0 {
						f.SetInt(1)
					}
				default:
					f.SetInt(0)
				}
			}
		}
		if f, ok := m.(*ast.Field); ok {
			f.Doc, f.Comment = nil, nil
		}
		switch d := m.(type) {
		case *ast.GenDecl:
			d.Doc = nil
			if len(d.Specs) > 1 {
				d.Lparen, d.Rparen = 1, 1
			}
		case *ast.FuncDecl:
			d.Doc = nil
		case *ast.ImportSpec:
			d.Doc, d.Comment = nil, nil
		case *ast.ValueSpec:
			d.Doc, d.Comment = nil, nil
		case *ast.TypeSpec:
			d.Doc, d.Comment = nil, nil
		case *ast.File:
			d.Doc = nil
		}
		return true
	})
}

var _ = fmt.Sprint
