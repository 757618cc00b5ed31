// Package instr inserts a yield point before every statement of a Go source
// file, textually and on the same line, so that line numbers do not move.
package instr

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"sort"
)

// Site describes one yield point.
type Site struct {
	File string
	Line int
}

// File instruments src; the numbering of its sites starts at base.
func File(name string, src []byte, base int) (out []byte, sites []Site, err error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	type ins struct {
		off  int
		text string
	}
	var edits []ins
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			}
			id := base + len(sites)
			sites = append(sites, Site{name, fset.Position(s.Pos()).Line})
			edits = append(edits, ins{off(s.Pos()), fmt.Sprintf("simrt.SimYield(%d); ", id)})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			add(n.List)
		case *ast.CaseClause:
			add(n.Body)
		case *ast.CommClause:
			add(n.Body)
		}
		return true
	})
	if len(sites) == 0 {
		return src, nil, nil
	}
	edits = append(edits, ins{off(f.Name.End()), "; import simrt \"runtime\""})
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var b bytes.Buffer
	pos := 0
	for _, e := range edits {
		b.Write(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.off
	}
	b.Write(src[pos:])
	return b.Bytes(), sites, nil
}
