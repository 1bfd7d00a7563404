// Command aliases writes zz_alias.go files: everything a shim package does not
// override is taken over from the real package.
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	root := os.Args[1]
	for dir, real := range map[string]string{"time": "time", "runtime": "runtime", "sync": "sync", "rand": "math/rand", "fmt": "fmt", "filepath": "path/filepath"} {
		fset := token.NewFileSet()
		over := map[string]bool{}
		fs, _ := filepath.Glob(filepath.Join(root, dir, "over.go"))
		for _, f := range fs {
			af, err := parser.ParseFile(fset, f, nil, 0)
			if err != nil {
				panic(err)
			}
			for _, d := range af.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					over[d.Name.Name] = true
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							over[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								over[n.Name] = true
							}
						}
					}
				}
			}
		}
		p, err := importer.ForCompiler(fset, "source", nil).Import(real)
		if err != nil {
			panic(err)
		}
		var ty, co, va []string
		for _, n := range p.Scope().Names() {
			o := p.Scope().Lookup(n)
			if !o.Exported() || over[n] {
				continue
			}
			line := fmt.Sprintf("\t%s = real.%s\n", n, n)
			switch o := o.(type) {
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				ty = append(ty, line)
			case *types.Const:
				co = append(co, line)
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				va = append(va, line)
			case *types.Var:
				va = append(va, line)
			}
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "// Generated by tools/aliases.go; do not edit.\n\npackage %s\n\nimport real %q\n\n", p.Name(), real)
		for _, x := range []struct {
			k string
			l []string
		}{{"type", ty}, {"const", co}, {"var", va}} {
			if len(x.l) > 0 {
				sort.Strings(x.l)
				fmt.Fprintf(&sb, "%s (\n%s)\n\n", x.k, strings.Join(x.l, ""))
			}
		}
		if len(ty)+len(co)+len(va) == 0 {
			continue
		}
		os.WriteFile(filepath.Join(root, dir, "zz_alias.go"), []byte(sb.String()), 0644)
	}
}
