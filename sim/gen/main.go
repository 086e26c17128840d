// Command gen writes the forwarding part of a shim package: every exported name
// of the real package that the shim does not define itself.
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	real, dir := os.Args[1], os.Args[2]
	have := map[string]bool{}
	fset := token.NewFileSet()
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		if filepath.Base(f) == "forward.go" {
			continue
		}
		a, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	p, err := importer.ForCompiler(fset, "source", nil).Import(real)
	if err != nil {
		panic(err)
	}
	names := p.Scope().Names()
	sort.Strings(names)
	var b strings.Builder
	fmt.Fprintf(&b, "// Code generated by zsim/gen; DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", p.Name(), real)
	for _, n := range names {
		o := p.Scope().Lookup(n)
		if !o.Exported() || have[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				fmt.Fprintln(os.Stderr, "skipped generic type", n)
				continue
			}
			fmt.Fprintf(&b, "type %s = real.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				fmt.Fprintln(os.Stderr, "skipped generic func", n)
				continue
			}
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		}
	}
	if err := os.WriteFile(filepath.Join(dir, "forward.go"), []byte(b.String()), 0644); err != nil {
		panic(err)
	}
}
