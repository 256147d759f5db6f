// Command source reads generated sources: it prints, for each file given, its
// package, its top-level declarations (with their text), and what it becomes
// once it is formatted.
package main

import (
	"bytes"
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"

	"golang.org/x/tools/imports"
)

type decl struct {
	Name string `json:"name"`
	Recv string `json:"recv"`
	Text string `json:"text"`
}

type file struct {
	Error     string   `json:"error"`
	Package   string   `json:"package"`
	Decls     []decl   `json:"decls"`
	Imports   []string `json:"imports"`
	Formatted string   `json:"formatted"`
}

func main() {
	res := map[string]file{}
	for _, path := range os.Args[1:] {
		res[path] = read(path)
	}
	if err := json.NewEncoder(os.Stdout).Encode(res); err != nil {
		panic(err)
	}
}

func read(path string) (f file) {
	src, err := os.ReadFile(path)
	if err != nil {
		f.Error = err.Error()
		return f
	}
	fset := token.NewFileSet()
	a, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		f.Error = err.Error()
		return f
	}
	f.Package = a.Name.Name
	text := func(n any) string {
		var b bytes.Buffer
		if err := printer.Fprint(&b, fset, n); err != nil {
			panic(err)
		}
		return b.String()
	}
	for _, d := range a.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			recv := ""
			if d.Recv != nil {
				t := d.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				recv = text(t)
			}
			f.Decls = append(f.Decls, decl{d.Name.Name, recv, text(d)})
		case *ast.GenDecl:
			if d.Tok == token.IMPORT {
				for _, s := range d.Specs {
					f.Imports = append(f.Imports, text(s))
				}
				continue
			}
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					f.Decls = append(f.Decls, decl{s.Name.Name, "", text(s)})
				case *ast.ValueSpec:
					for _, n := range s.Names {
						f.Decls = append(f.Decls, decl{n.Name, "", text(s)})
					}
				}
			}
		}
	}
	out, err := imports.Process("", src, &imports.Options{TabWidth: 8, TabIndent: true, Comments: true, Fragment: true})
	if err != nil {
		f.Error = err.Error()
	}
	f.Formatted = string(out)
	return f
}
