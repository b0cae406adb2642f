package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func (w *pkgRewriter) decl(d ast.Decl) {
	switch d := d.(type) {
	case *ast.FuncDecl:
		w.fields(d.Recv)
		w.funcType(d.Type)
		if d.Body != nil {
			w.block(d.Body)
		}
		if d.Recv != nil && d.Body != nil {
			if m, ok := w.info.Defs[d.Name].(*types.Func); ok {
				if n := chanMethod(m); n != "" {
					// what a channel is rewritten to cannot have
					// methods: a function that returns the method value
					if len(d.Recv.List[0].Names) == 0 {
						d.Recv.List[0].Names = []*ast.Ident{id("_")}
					}
					f := &ast.FuncLit{Type: d.Type, Body: d.Body}
					d.Name = id(n)
					d.Type = &ast.FuncType{Params: d.Recv, Results: &ast.FieldList{List: []*ast.Field{{Type: f.Type}}}}
					d.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{f}}}}
					d.Recv = nil
				}
			}
		}
	case *ast.GenDecl:
		for _, s := range d.Specs {
			switch s := s.(type) {
			case *ast.TypeSpec:
				w.fields(s.TypeParams)
				s.Type = w.expr(s.Type, rd)
			case *ast.ValueSpec:
				w.valueSpec(s)
			}
		}
	}
}

// chanMethod is the name of the function that a method of a named channel type
// becomes, or "" if m is none.
func chanMethod(m types.Object) string {
	sig, ok := m.Type().(*types.Signature)
	if !ok || sig.Recv() == nil {
		return ""
	}
	nt, ok := sig.Recv().Type().(*types.Named)
	if !ok {
		return ""
	}
	if _, ok := nt.Underlying().(*types.Chan); !ok {
		return ""
	}
	return nt.Obj().Name() + "_zz_" + m.Name()
}

func (w *pkgRewriter) valueSpec(s *ast.ValueSpec) {
	s.Type = w.expr(s.Type, rd)
	if len(s.Names) == 2 && len(s.Values) == 1 {
		if u := recvOf(s.Values[0]); u != nil {
			s.Values[0] = w.rtCall("Recv2", w.expr(u.X, rd))
			return
		}
	}
	w.exprs(s.Values, rd)
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (w *pkgRewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = w.stmts(b.List)
	}
}

func (w *pkgRewriter) stmts(l []ast.Stmt) []ast.Stmt {
	for i := range l {
		l[i] = w.stmt(l[i])
	}
	return l
}

func (w *pkgRewriter) stmt(s ast.Stmt) ast.Stmt {
	switch n := s.(type) {
	case nil:
		return nil
	case *ast.BadStmt, *ast.EmptyStmt, *ast.BranchStmt:
		return s
	case *ast.DeclStmt:
		w.decl(n.Decl)
		return n
	case *ast.LabeledStmt:
		n.Stmt = w.stmt(n.Stmt)
		return n
	case *ast.ExprStmt:
		n.X = w.expr(n.X, rd)
		if u, ok := n.X.(*ast.ParenExpr); ok {
			if c, ok := u.X.(*ast.CallExpr); ok {
				n.X = c
			}
		}
		return n
	case *ast.SendStmt:
		ch := w.expr(n.Chan, rd)
		v := w.expr(n.Value, rd)
		return &ast.ExprStmt{X: call(sel(w.rtCall("C", ch), "Send"), v)}
	case *ast.IncDecStmt:
		if v := w.pkgVar(n.X); v != nil && w.assigned[v] && !w.inInit {
			op := token.ADD
			if n.Tok == token.DEC {
				op = token.SUB
			}
			g := w.glob(n.X)
			return &ast.ExprStmt{X: call(sel(g, "Set"), &ast.BinaryExpr{X: call(sel(w.glob(n.X), "Get")), Op: op, Y: num(1)})}
		}
		n.X = w.expr(n.X, wr)
		return n
	case *ast.AssignStmt:
		return w.assign(n)
	case *ast.GoStmt:
		return w.goStmt(n)
	case *ast.DeferStmt:
		e := w.call(n.Call)
		c, ok := e.(*ast.CallExpr)
		if !ok {
			die("%s: unsupported defer", w.site(n))
		}
		n.Call = c
		return n
	case *ast.ReturnStmt:
		w.exprs(n.Results, rd)
		return n
	case *ast.BlockStmt:
		w.block(n)
		return n
	case *ast.IfStmt:
		n.Init = w.stmt(n.Init)
		n.Cond = w.expr(n.Cond, rd)
		w.block(n.Body)
		n.Else = w.stmt(n.Else)
		return n
	case *ast.CaseClause:
		w.exprs(n.List, rd)
		n.Body = w.stmts(n.Body)
		return n
	case *ast.SwitchStmt:
		n.Init = w.stmt(n.Init)
		n.Tag = w.expr(n.Tag, rd)
		w.block(n.Body)
		return n
	case *ast.TypeSwitchStmt:
		n.Init = w.stmt(n.Init)
		switch a := n.Assign.(type) {
		case *ast.AssignStmt:
			t := a.Rhs[0].(*ast.TypeAssertExpr)
			t.X = w.expr(t.X, rd)
		case *ast.ExprStmt:
			t := a.X.(*ast.TypeAssertExpr)
			t.X = w.expr(t.X, rd)
		}
		w.block(n.Body)
		return n
	case *ast.SelectStmt:
		return w.selectStmt(n)
	case *ast.ForStmt:
		n.Init = w.stmt(n.Init)
		n.Cond = w.expr(n.Cond, rd)
		n.Post = w.stmt(n.Post)
		w.block(n.Body)
		return n
	case *ast.RangeStmt:
		return w.rangeStmt(n)
	}
	die("unhandled statement %T", s)
	return nil
}

func (w *pkgRewriter) assign(n *ast.AssignStmt) ast.Stmt {
	if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
		if u := recvOf(n.Rhs[0]); u != nil {
			n.Rhs[0] = w.rtCall("Recv2", w.expr(u.X, rd))
			w.lhs(n)
			return n
		}
	}
	// a package variable assigned after initialisation
	if len(n.Lhs) == 1 && n.Tok != token.DEFINE && !w.inInit {
		if v := w.pkgVar(n.Lhs[0]); v != nil && w.assigned[v] {
			rhs := w.expr(n.Rhs[0], rd)
			g := w.glob(n.Lhs[0])
			if n.Tok != token.ASSIGN {
				op := token.Token(n.Tok - token.ADD_ASSIGN + token.ADD)
				rhs = &ast.BinaryExpr{X: call(sel(w.glob(n.Lhs[0]), "Get")), Op: op, Y: &ast.ParenExpr{X: rhs}}
			}
			return &ast.ExprStmt{X: call(sel(g, "Set"), rhs)}
		}
	}
	w.exprs(n.Rhs, rd)
	w.lhs(n)
	return n
}

func (w *pkgRewriter) lhs(n *ast.AssignStmt) {
	if n.Tok == token.DEFINE {
		return
	}
	for i, l := range n.Lhs {
		if v := w.pkgVar(l); v != nil && w.assigned[v] && !w.inInit {
			n.Lhs[i] = &ast.StarExpr{X: call(sel(w.glob(l), "Ref"))}
			continue
		}
		n.Lhs[i] = w.expr(l, wr)
	}
}

func exprName(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name
	case *ast.SelectorExpr:
		return e.Sel.Name
	case *ast.ParenExpr:
		return exprName(e.X)
	case *ast.FuncLit:
		return "func"
	}
	return "go"
}

func (w *pkgRewriter) goStmt(n *ast.GoStmt) ast.Stmt {
	c := n.Call
	name := exprName(c.Fun)
	if name == "func" {
		name = "func@" + w.site(n)
	}
	if w.builtin(c.Fun) != "" {
		e := w.call(c)
		return &ast.ExprStmt{X: w.rtCall("GoCode", str(name), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: e}}}})}
	}
	fl, isLit := c.Fun.(*ast.FuncLit)
	if isLit && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: w.rtCall("GoCode", str(name), w.expr(fl, rd))}
	}
	var pre []ast.Stmt
	fn := w.tmp("f")
	fun := ast.Expr(id(fn))
	f := w.expr(c.Fun, rd)
	if m, ok := f.(*ast.SelectorExpr); ok && w.noted[m] {
		// the receiver is touched by the goroutine
		n := m.X.(*ast.CallExpr)
		pre = append(pre, define(fn, n.Args[0]))
		n.Args[0] = id(fn)
		fun = m
	} else {
		pre = append(pre, define(fn, f))
	}
	var args []ast.Expr
	for _, a := range c.Args {
		tv := w.info.Types[a]
		if tu, ok := tv.Type.(*types.Tuple); ok {
			def := &ast.AssignStmt{Tok: token.DEFINE, Rhs: []ast.Expr{w.expr(a, rd)}}
			for i := 0; i < tu.Len(); i++ {
				t := id(w.tmp("a"))
				def.Lhs = append(def.Lhs, t)
				args = append(args, t)
			}
			pre = append(pre, def)
			continue
		}
		if tv.Value != nil || tv.IsNil() {
			args = append(args, a)
			continue
		}
		t := w.tmp("a")
		pre = append(pre, define(t, w.expr(a, rd)))
		args = append(args, id(t))
	}
	inner := call(fun, args...)
	inner.Ellipsis = c.Ellipsis
	pre = append(pre, &ast.ExprStmt{X: w.rtCall("GoCode", str(name), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}})})
	return &ast.BlockStmt{List: pre}
}

func (w *pkgRewriter) selectStmt(n *ast.SelectStmt) ast.Stmt {
	if len(n.Body.List) == 0 {
		return &ast.ForStmt{Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: w.rtCall("Select", id("false"))}}}}
	}
	def := "false"
	var lhs, rhs []ast.Expr
	var clauses []ast.Stmt
	args := []ast.Expr{nil}
	k := 0
	for _, cl := range n.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			def = "true"
			clauses = append(clauses, &ast.CaseClause{Body: w.stmts(cc.Body)})
			continue
		}
		t := w.tmp("c")
		lhs = append(lhs, id(t))
		args = append(args, id(t))
		var body []ast.Stmt
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, call(sel(w.rtCall("C", w.expr(c.Chan, rd)), "SendCase"), w.expr(c.Value, rd)))
		case *ast.ExprStmt:
			rhs = append(rhs, w.rtCall("RecvCase", w.expr(recvOf(c.X).X, rd)))
		case *ast.AssignStmt:
			rhs = append(rhs, w.rtCall("RecvCase", w.expr(recvOf(c.Rhs[0]).X, rd)))
			m := "Val"
			if len(c.Lhs) == 2 {
				m = "Val2"
			}
			c.Rhs[0] = call(sel(id(t), m))
			w.lhs(c)
			// `_ = x` and `_, _ := ...` stay valid
			body = append(body, c)
		}
		body = append(body, w.stmts(cc.Body)...)
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{num(k)}, Body: body})
		k++
	}
	args[0] = id(def)
	if def == "false" {
		// keep the statement terminating where the select was
		clauses[len(clauses)-1].(*ast.CaseClause).List = nil
	}
	sw := &ast.SwitchStmt{Tag: w.rtCall("Select", args...), Body: &ast.BlockStmt{List: clauses}}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	return sw
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (w *pkgRewriter) rangeStmt(n *ast.RangeStmt) ast.Stmt {
	t := w.typeOf(n.X)
	switch t.Underlying().(type) {
	case *types.Chan:
		ch, ok := w.tmp("ch"), w.tmp("ok")
		brk := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
		x := w.expr(n.X, rd)
		var val ast.Expr = id("_")
		f := &ast.ForStmt{Body: n.Body}
		init := &ast.AssignStmt{Tok: token.DEFINE, Rhs: []ast.Expr{w.rtCall("RangeInit", x)}}
		if n.Tok == token.DEFINE && !isBlank(n.Key) {
			val = id(n.Key.(*ast.Ident).Name)
			init.Lhs = []ast.Expr{id(ch), id(n.Key.(*ast.Ident).Name), id(ok)}
		} else {
			init.Lhs = []ast.Expr{id(ch), id("_"), id(ok)}
			if !isBlank(n.Key) {
				val = w.expr(n.Key, wr)
			}
		}
		f.Init = init
		w.block(n.Body)
		// the variable keeps its value when the loop ends
		var t ast.Expr = id("_")
		pre := []ast.Stmt{nil, brk}
		if !isBlank(val) {
			t = id(w.tmp("v"))
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{val}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}})
		}
		get := &ast.AssignStmt{Lhs: []ast.Expr{t, id(ok)}, Tok: token.ASSIGN, Rhs: []ast.Expr{w.rtCall("Recv2", id(ch))}}
		if t2, isID := t.(*ast.Ident); isID && t2.Name != "_" {
			vt := w.tmp("ok")
			get = &ast.AssignStmt{Lhs: []ast.Expr{t, id(vt)}, Tok: token.DEFINE, Rhs: get.Rhs}
			brk.Cond = &ast.UnaryExpr{Op: token.NOT, X: id(vt)}
			init.Lhs[2] = id("_")
		}
		pre[0] = get
		f.Body.List = append(pre, f.Body.List...)
		return f
	case *types.Map:
		if w.inInit {
			break
		}
		e := w.tmp("e")
		site := str(w.site(n))
		x := w.expr(n.X, rd)
		f := &ast.RangeStmt{Key: id("_"), Value: id(e), Tok: token.DEFINE, X: w.rtCall("Entries", x, site), Body: n.Body}
		pre := []ast.Stmt{&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: call(sel(id(e), "Live"))}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}}}
		var l, r []ast.Expr
		if !isBlank(n.Key) {
			k := n.Key
			if n.Tok == token.ASSIGN {
				k = w.expr(k, wr)
			}
			l, r = append(l, k), append(r, sel(id(e), "K"))
		}
		if !isBlank(n.Value) {
			v := n.Value
			if n.Tok == token.ASSIGN {
				v = w.expr(v, wr)
			}
			l, r = append(l, v), append(r, call(sel(id(e), "V")))
		}
		if len(l) > 0 {
			pre = append(pre, &ast.AssignStmt{Lhs: l, Tok: n.Tok, Rhs: r})
		}
		w.block(n.Body)
		f.Body.List = append(pre, f.Body.List...)
		return f
	}
	if n.Tok == token.ASSIGN {
		if n.Key != nil {
			n.Key = w.expr(n.Key, wr)
		}
		if n.Value != nil {
			n.Value = w.expr(n.Value, wr)
		}
	}
	n.X = w.expr(n.X, rd)
	w.block(n.Body)
	return n
}

var _ = strings.HasPrefix
