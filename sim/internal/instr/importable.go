package instr

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
)

// Importable turns a file of a main package into one of package pkg: func
// main becomes Main, and calls of os.Exit become calls of simExit.
func Importable(name string, src []byte, pkg string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	if f.Name.Name != "main" {
		return nil, fmt.Errorf("%s is not of package main", name)
	}
	f.Name.Name = pkg
	os := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if n.Recv == nil && n.Name.Name == "main" {
				n.Name.Name = "Main"
			}
		case *ast.CallExpr:
			if s, ok := n.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Exit" {
				if x, ok := s.X.(*ast.Ident); ok && x.Name == "os" {
					n.Fun = &ast.Ident{NamePos: s.Pos(), Name: "simExit"}
					os = true
				}
			}
		}
		return true
	})
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		return nil, err
	}
	if os {
		b.WriteString("\nvar _ = os.Exit\n")
	}
	return b.Bytes(), nil
}
