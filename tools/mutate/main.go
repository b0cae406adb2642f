// mutate lists or applies small source mutations: mutate list FILE; mutate
// apply FILE N prints the mutated file. Used to measure the checks, never by them.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	pos, end int
	text     string
	desc     string
}

func main() {
	src, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[2], src, parser.SkipObjectResolution)
	if err != nil {
		panic(err)
	}
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	short := func(s string) string {
		s = string(bytes.Join(bytes.Fields([]byte(s)), []byte(" ")))
		if len(s) > 60 {
			s = s[:60] + "..."
		}
		return s
	}
	add := func(n ast.Node, p, e int, t, d string) {
		edits = append(edits, edit{p, e, t, fmt.Sprintf("%d: %s", fset.Position(n.Pos()).Line, d)})
	}
	del := func(s ast.Stmt) {
		keep := "{}"
		if a, ok := s.(*ast.AssignStmt); ok {
			// keep the right-hand side in use
			keep = ""
			for i, r := range a.Rhs {
				if i > 0 {
					keep += "; "
				}
				if len(a.Lhs) == len(a.Rhs) {
					switch r.(type) {
					case *ast.CallExpr, *ast.FuncLit, *ast.Ident, *ast.UnaryExpr:
						keep += "_ = " + text(r)
					default:
						keep += "{}"
					}
				} else {
					keep = "{}"
				}
			}
		}
		add(s, off(s.Pos()), off(s.End()), keep, "delete "+short(text(s)))
	}
	stmts := func(l []ast.Stmt) {
		for i, s := range l {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt:
				del(s)
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					del(s)
				}
			case *ast.BranchStmt:
				del(s)
			case *ast.ReturnStmt:
				if i == len(l)-1 && len(x.Results) == 0 {
					del(s)
				}
			}
			if i+1 < len(l) {
				a, b := s, l[i+1]
				switch a.(type) {
				case *ast.ExprStmt, *ast.SendStmt, *ast.IncDecStmt, *ast.AssignStmt:
					switch b.(type) {
					case *ast.ExprStmt, *ast.SendStmt, *ast.IncDecStmt, *ast.AssignStmt:
						add(a, off(a.Pos()), off(b.End()), text(b)+"\n"+text(a), "swap "+short(text(a))+" with "+short(text(b)))
					}
				}
			}
			if d, ok := s.(*ast.DeferStmt); ok {
				add(s, off(s.Pos()), off(s.End()), text(d.Call), "undefer "+short(text(d.Call)))
			}
			if g, ok := s.(*ast.GoStmt); ok {
				add(s, off(s.Pos()), off(s.End()), text(g.Call), "ungo "+short(text(g.Call)))
			}
			if e, ok := s.(*ast.ExprStmt); ok {
				if c, ok := e.X.(*ast.CallExpr); ok {
					add(s, off(s.Pos()), off(s.End()), "go "+text(c), "go "+short(text(c)))
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
			if len(x.Body) > 1 {
				add(x, off(x.Body[0].Pos()), off(x.Body[len(x.Body)-1].End()), "", "empty case "+short(text(x)))
			}
			if len(x.List) > 1 {
				for i, e := range x.List {
					p, q := off(e.Pos()), off(e.End())
					if i == 0 {
						q = off(x.List[1].Pos())
					} else {
						p = off(x.List[i-1].End())
					}
					add(x, p, q, "", "drop case "+short(text(e)))
				}
			}
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.IfStmt:
			c := x.Cond
			add(x, off(c.Pos()), off(c.End()), "!("+text(c)+")", "negate if "+short(text(c)))
			add(x, off(c.Pos()), off(c.End()), "("+text(c)+") && mutFalse()", "never if "+short(text(c)))
			add(x, off(c.Pos()), off(c.End()), "("+text(c)+") || !mutFalse()", "always if "+short(text(c)))
			if b, ok := x.Else.(*ast.BlockStmt); ok && len(b.List) > 0 {
				add(x, off(b.Pos()), off(b.End()), "{}", "drop else of "+short(text(c)))
			}
		case *ast.BinaryExpr:
			var alt []string
			switch x.Op {
			case token.LAND:
				alt = []string{"||"}
			case token.LOR:
				alt = []string{"&&"}
			case token.LSS:
				alt = []string{"<=", ">"}
			case token.LEQ:
				alt = []string{"<"}
			case token.GTR:
				alt = []string{">=", "<"}
			case token.GEQ:
				alt = []string{">"}
			case token.EQL:
				alt = []string{"!="}
			case token.NEQ:
				alt = []string{"=="}
			case token.ADD:
				if l, ok := x.Y.(*ast.BasicLit); !ok || l.Kind != token.STRING {
					alt = []string{"-"}
				}
			case token.SUB:
				alt = []string{"+"}
			case token.MUL:
				alt = []string{"/"}
			}
			for _, a := range alt {
				add(x, off(x.OpPos), off(x.OpPos)+len(x.Op.String()), a, x.Op.String()+" -> "+a+" in "+short(text(x)))
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x, off(x.Pos()), off(x.End()), text(x.X), "drop right of "+short(text(x)))
				add(x, off(x.Pos()), off(x.End()), text(x.Y), "drop left of "+short(text(x)))
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.Atoi(x.Value)
				if err == nil {
					add(x, off(x.Pos()), off(x.End()), strconv.Itoa(v+1), x.Value+" -> +1")
					if v > 0 {
						add(x, off(x.Pos()), off(x.End()), strconv.Itoa(v-1), x.Value+" -> -1")
					}
				}
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				t := "true"
				if x.Name == t {
					t = "false"
				}
				add(x, off(x.Pos()), off(x.End()), t, x.Name+" -> "+t)
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x, off(x.Pos()), off(x.X.Pos()), "", "drop ! in "+short(text(x)))
			}
		case *ast.ReturnStmt:
			for i, r := range x.Results {
				if id, ok := r.(*ast.Ident); ok && id.Name == "nil" {
					continue
				}
				if i == len(x.Results)-1 {
					add(x, off(r.Pos()), off(r.End()), "nil", "return nil for "+short(text(r)))
				}
			}
		}
		return true
	})
	switch os.Args[1] {
	case "list":
		for i, e := range edits {
			fmt.Printf("%d\t%s\n", i, e.desc)
		}
	case "apply":
		n, _ := strconv.Atoi(os.Args[3])
		e := edits[n]
		out := append([]byte{}, src[:e.pos]...)
		out = append(out, e.text...)
		out = append(out, src[e.end:]...)
		if bytes.Contains([]byte(e.text), []byte("mutFalse()")) {
			out = append(out, "\nvar mutFalseVar bool\n\nfunc mutFalse() bool { return mutFalseVar }\n"...)
		}
		os.Stdout.Write(out)
	}
}
