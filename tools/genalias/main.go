// genalias writes zz_alias.go for the shim packages: every exported object of
// the standard package that the shim does not define itself.
package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

func main() {
	root := os.Args[1]
	for dir, std := range map[string]string{"time": "time", "net": "net", "runtime": "runtime"} {
		fset := token.NewFileSet()
		own := map[string]bool{}
		ps, err := parser.ParseDir(fset, filepath.Join(root, dir), func(fi os.FileInfo) bool { return fi.Name() != "zz_alias.go" }, 0)
		if err != nil {
			panic(err)
		}
		for _, p := range ps {
			for _, f := range p.Files {
				for n := range f.Scope.Objects {
					own[n] = true
				}
				ast.Inspect(f, func(ast.Node) bool { return true })
			}
		}
		pkg, err := importer.ForCompiler(fset, "source", nil).Import(std)
		if err != nil {
			panic(err)
		}
		var b strings.Builder
		fmt.Fprintf(&b, "// Code generated by tools/genalias; DO NOT EDIT.\n\npackage %s\n\nimport std %q\n\n", dir, std)
		for _, n := range pkg.Scope().Names() {
			o := pkg.Scope().Lookup(n)
			if !o.Exported() || own[n] {
				continue
			}
			switch o := o.(type) {
			case *types.TypeName:
				fmt.Fprintf(&b, "type %s = std.%s\n", n, n)
			case *types.Const:
				fmt.Fprintf(&b, "const %s = std.%s\n", n, n)
			case *types.Var:
				fmt.Fprintf(&b, "var %s = std.%s\n", n, n)
			case *types.Func:
				sig := o.Type().(*types.Signature)
				if sig.TypeParams().Len() > 0 || strings.Contains(sig.String(), "context.") || strings.Contains(sig.String(), "chan ") {
					continue
				}
				fmt.Fprintf(&b, "var %s = std.%s\n", n, n)
			}
		}
		src, err := format.Source([]byte(b.String()))
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(filepath.Join(root, dir, "zz_alias.go"), src, 0o644); err != nil {
			panic(err)
		}
	}
}
