// genshim writes shim/<name>/pass.go: every exported name of a standard package that the
// shim does not define itself, passed through. Run by hand when a shim changes.
package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	for _, pair := range os.Args[1:] {
		kv := strings.Split(pair, "=") // dir=importpath
		dir, path := kv[0], kv[1]
		fset := token.NewFileSet()
		own := map[string]bool{}
		files, _ := filepath.Glob(dir + "/*.go")
		pkgname := filepath.Base(dir)
		for _, f := range files {
			if filepath.Base(f) == "pass.go" {
				continue
			}
			af, err := parser.ParseFile(fset, f, nil, 0)
			if err != nil {
				panic(err)
			}
			for _, d := range af.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						own[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							own[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								own[n.Name] = true
							}
						}
					}
				}
			}
		}
		p, err := importer.ForCompiler(fset, "source", nil).Import(path)
		if err != nil {
			panic(err)
		}
		var b strings.Builder
		fmt.Fprintf(&b, "// Code generated by genshim; DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", pkgname, path)
		names := p.Scope().Names()
		sort.Strings(names)
		n := 0
		for _, name := range names {
			o := p.Scope().Lookup(name)
			if !o.Exported() || own[name] {
				continue
			}
			switch o := o.(type) {
			case *types.Const:
				fmt.Fprintf(&b, "const %s = real.%s\n", name, name)
			case *types.Var:
				fmt.Fprintf(&b, "var %s = real.%s\n", name, name)
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "var %s = real.%s\n", name, name)
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "type %s = real.%s\n", name, name)
			}
			n++
		}
		if n == 0 {
			b.WriteString("var _ real.Locker\n")
		}
		out, err := format.Source([]byte(b.String()))
		if err != nil {
			panic(err)
		}
		os.WriteFile(filepath.Join(dir, "pass.go"), out, 0644)
	}
}
