// genshim completes the shim packages: every exported name of the standard package that the
// hand-written part does not define is re-exported. Run once per toolchain; output is committed.
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var pkgs = map[string]string{
	"sync": "sync", "atomic": "sync/atomic", "time": "time", "os": "os", "ioutil": "io/ioutil",
	"filepath": "path/filepath", "rand": "math/rand", "randv2": "math/rand/v2", "context": "context",
	"fmt": "fmt", "runtime": "runtime", "debug": "runtime/debug", "log": "log",
}

func main() {
	root := os.Args[1]
	imp := importer.ForCompiler(token.NewFileSet(), "source", nil)
	var dirs []string
	for d := range pkgs {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	for _, d := range dirs {
		std := pkgs[d]
		p, err := imp.Import(std)
		if err != nil {
			panic(err)
		}
		have := map[string]bool{}
		fset := token.NewFileSet()
		files, _ := filepath.Glob(filepath.Join(root, d, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "zz_reexport.go") {
				continue
			}
			af, err := parser.ParseFile(fset, f, nil, 0)
			if err != nil {
				panic(err)
			}
			for _, decl := range af.Decls {
				switch x := decl.(type) {
				case *ast.FuncDecl:
					if x.Recv == nil {
						have[x.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range x.Specs {
						switch y := s.(type) {
						case *ast.TypeSpec:
							have[y.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range y.Names {
								have[n.Name] = true
							}
						}
					}
				}
			}
		}
		var b strings.Builder
		fmt.Fprintf(&b, "// Code generated by genshim. DO NOT EDIT.\n\npackage %s\n\nimport std %q\n\n", p.Name(), std)
		n := 0
		for _, name := range p.Scope().Names() {
			o := p.Scope().Lookup(name)
			if !o.Exported() || have[name] {
				continue
			}
			n++
			switch x := o.(type) {
			case *types.Const:
				fmt.Fprintf(&b, "const %s = std.%s\n", name, name)
			case *types.Var:
				fmt.Fprintf(&b, "var %s = std.%s\n", name, name)
			case *types.TypeName:
				if nt, ok := x.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					panic("generic " + std + "." + name)
				}
				fmt.Fprintf(&b, "type %s = std.%s\n", name, name)
			case *types.Func:
				if x.Type().(*types.Signature).TypeParams().Len() > 0 {
					if d == "randv2" {
						continue
					}
					panic("generic " + std + "." + name)
				}
				fmt.Fprintf(&b, "var %s = std.%s\n", name, name)
			}
		}
		if n == 0 {
			fmt.Fprintf(&b, "var _ std.Locker\n")
		}
		out := filepath.Join(root, d, "zz_reexport.go")
		if err := os.WriteFile(out, []byte(b.String()), 0644); err != nil {
			panic(err)
		}
	}
}
