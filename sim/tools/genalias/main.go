// genalias writes zz_alias.go into each shim directory: every exported name of the standard
// package that the shim does not define itself is aliased to the real one.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	root := os.Args[1]
	imp := importer.Default()
	for _, std := range os.Args[2:] {
		dir := filepath.Join(root, std)
		p, err := imp.Import(std)
		if err != nil {
			fmt.Fprintln(os.Stderr, std, err)
			os.Exit(1)
		}
		fset := token.NewFileSet()
		pkgs, err := parser.ParseDir(fset, dir, func(i fs.FileInfo) bool { return i.Name() != "zz_alias.go" }, 0)
		if err != nil {
			panic(err)
		}
		def := map[string]bool{}
		for _, pk := range pkgs {
			for _, f := range pk.Files {
				for _, d := range f.Decls {
					switch d := d.(type) {
					case *ast.FuncDecl:
						if d.Recv == nil {
							def[d.Name.Name] = true
						}
					case *ast.GenDecl:
						for _, s := range d.Specs {
							switch s := s.(type) {
							case *ast.TypeSpec:
								def[s.Name.Name] = true
							case *ast.ValueSpec:
								for _, n := range s.Names {
									def[n.Name] = true
								}
							}
						}
					}
				}
			}
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "// Code generated by genalias. DO NOT EDIT.\n\npackage %s\n\nimport std %q\n\n", p.Name(), std)
		names := p.Scope().Names()
		sort.Strings(names)
		n := 0
		for _, nm := range names {
			o := p.Scope().Lookup(nm)
			if !o.Exported() || def[nm] {
				continue
			}
			switch o := o.(type) {
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "var %s = std.%s\n", nm, nm)
			case *types.Var:
				fmt.Fprintf(&b, "var %s = std.%s\n", nm, nm)
			case *types.Const:
				fmt.Fprintf(&b, "const %s = std.%s\n", nm, nm)
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "type %s = std.%s\n", nm, nm)
			}
			n++
		}
		if n == 0 {
			b.Reset()
			fmt.Fprintf(&b, "package %s\n", p.Name())
		}
		src, err := format.Source(b.Bytes())
		if err != nil {
			panic(err)
		}
		if strings.Contains(string(src), "std.") || n == 0 {
			os.WriteFile(filepath.Join(dir, "zz_alias.go"), src, 0o644)
		}
	}
}
