// Command instr writes instrumented copies of the packages of a source tree:
// a call of zz_sched.Point before every statement.
//
//	instr REPO OUTDIR > overlay-lines
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const imp = "github.com/adamcolton/parlex/zz_sched"

func main() {
	repo, out := os.Args[1], os.Args[2]
	n := 0
	err := filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if b := filepath.Base(path); path != repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || strings.HasPrefix(b, "zz_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, path, nil, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		if f.Name.Name == "main" || hasConstraint(path) {
			return nil
		}
		if !instrument(f) {
			return nil
		}
		spec := &ast.ImportSpec{Name: ast.NewIdent("zz_sched"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(imp)}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
		var b bytes.Buffer
		if err := printer.Fprint(&b, fs, f); err != nil {
			return err
		}
		n++
		o := filepath.Join(out, fmt.Sprintf("%03d_%s", n, filepath.Base(path)))
		if err := os.WriteFile(o, b.Bytes(), 0o644); err != nil {
			return err
		}
		fmt.Printf(",\n %s: %s", strconv.Quote(path), strconv.Quote(o))
		return nil
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

// hasConstraint: files with build constraints or cgo are left as they are.
func hasConstraint(path string) bool {
	b, _ := os.ReadFile(path)
	return bytes.Contains(b, []byte("//go:build")) || bytes.Contains(b, []byte("// +build")) || bytes.Contains(b, []byte("import \"C\"")) || bytes.Contains(b, []byte("//go:embed"))
}

func point() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("zz_sched"), Sel: ast.NewIdent("Point")}}}
}

func list(in []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, 2*len(in))
	for _, s := range in {
		switch s.(type) {
		case *ast.EmptyStmt:
			out = append(out, s)
			continue
		}
		out = append(out, point(), s)
	}
	return out
}

func instrument(f *ast.File) bool {
	any := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			// the body of a switch or select holds clauses, not statements
			for _, s := range x.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			if len(x.List) > 0 {
				x.List = list(x.List)
				any = true
			}
		case *ast.CaseClause:
			x.Body = list(x.Body)
		case *ast.CommClause:
			x.Body = list(x.Body)
		}
		return true
	})
	return any
}
