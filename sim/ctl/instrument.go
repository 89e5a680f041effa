package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// instrument inserts a simulator yield before every statement of the file,
// without changing line numbers.
func instrument(path string, src []byte, site *uint32) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return "", err
	}
	for _, imp := range f.Imports {
		if imp.Path.Value == `"C"` {
			return string(src), nil
		}
	}
	type ins struct {
		off  int
		text string
	}
	var list []ins
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	yield := func(p token.Pos) {
		*site++
		list = append(list, ins{off(p), fmt.Sprintf("__sim.SimYield(%d);", *site)})
	}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			yield(s.Pos())
		}
	}
	var inspect func(n ast.Node) bool
	inspect = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Doc != nil {
				for _, c := range x.Doc.List {
					if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:norace") || strings.HasPrefix(c.Text, "//go:linkname") {
						return false
					}
				}
			}
		case *ast.SwitchStmt:
			// the clauses of the body are handled below
			inspectAll(x.Init, x.Tag, inspect)
			for _, c := range x.Body.List {
				ast.Inspect(c, inspect)
			}
			return false
		case *ast.TypeSwitchStmt:
			inspectAll(x.Init, x.Assign, inspect)
			for _, c := range x.Body.List {
				ast.Inspect(c, inspect)
			}
			return false
		case *ast.SelectStmt:
			for _, c := range x.Body.List {
				ast.Inspect(c, inspect)
			}
			return false
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				yield(x.Body.Rbrace)
			}
		case *ast.RangeStmt:
			if len(x.Body.List) == 0 {
				yield(x.Body.Rbrace)
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		}
		return true
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			ast.Inspect(fd, inspect)
		} else {
			ast.Inspect(d, inspect)
		}
	}
	if len(list) == 0 {
		return string(src), nil
	}
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var b strings.Builder
	pos := off(f.Name.End())
	b.Write(src[:pos])
	b.WriteString(`; import __sim "runtime"`)
	for _, x := range list {
		b.Write(src[pos:x.off])
		b.WriteString(x.text)
		pos = x.off
	}
	b.Write(src[pos:])
	return b.String(), nil
}

func inspectAll(a ast.Stmt, b ast.Node, f func(ast.Node) bool) {
	if a != nil {
		ast.Inspect(a, f)
	}
	switch x := b.(type) {
	case ast.Expr:
		if x != nil {
			ast.Inspect(x, f)
		}
	case ast.Stmt:
		if x != nil {
			ast.Inspect(x, f)
		}
	}
}

// instrumentDir instruments all non-test Go files of a package directory.
func (o *overlay) instrumentDir(dir string, site *uint32) int {
	ents, err := os.ReadDir(dir)
	must(err)
	n := 0
	for _, e := range ents {
		name := e.Name()
		if e.IsDir() || !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			continue
		}
		p := filepath.Join(dir, name)
		src, err := os.ReadFile(p)
		must(err)
		out, err := instrument(p, src, site)
		if err != nil {
			fatalf("instrument: %v", err)
		}
		if out != string(src) {
			o.write(p, out)
			n++
		}
	}
	return n
}

// copyModule copies a module from the module cache, instrumenting the listed
// packages.
func copyModule(from, to, path string, pkgs []string, site *uint32) {
	must(filepath.WalkDir(from, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(from, p)
		if err != nil {
			return err
		}
		dst := filepath.Join(to, rel)
		if d.IsDir() {
			if strings.HasPrefix(d.Name(), ".") && rel != "." || d.Name() == "testdata" {
				return filepath.SkipDir
			}
			return os.MkdirAll(dst, 0o755)
		}
		name := d.Name()
		if strings.HasSuffix(name, "_test.go") || !strings.HasSuffix(name, ".go") && !strings.HasSuffix(name, ".s") && name != "go.mod" {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if strings.HasSuffix(name, ".go") {
			for _, pkg := range pkgs {
				if filepath.Dir(rel) == pkg {
					out, err := instrument(p, src, site)
					if err != nil {
						return err
					}
					src = []byte(out)
				}
			}
		}
		writeIfChanged(dst, src)
		return nil
	}))
	if _, err := os.Stat(filepath.Join(to, "go.mod")); err != nil {
		must(os.WriteFile(filepath.Join(to, "go.mod"), []byte("module "+path+"\n"), 0o644))
	}
}

func writeIfChanged(p string, b []byte) {
	if old, err := os.ReadFile(p); err != nil || string(old) != string(b) {
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, b, 0o644))
	}
}
