// Command instr writes, for packages of the code under test, copies of their
// files in which package sync is replaced by vsync and every statement is
// preceded by a scheduling point, and the overlay that puts them in place.
//
//	instr ROOT OUT DIR...    (DIR below ROOT; "utils-" means without points)
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const vs = "verifharness/vsync"

func point() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsyncPoints"), Sel: ast.NewIdent("Point")}}}
}

func pointed(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
			out = append(out, s)
			continue
		}
		out = append(out, point(), s)
	}
	return out
}

func insert(f *ast.File) {
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			// functions run while a map of the library is locked
			if s, ok := x.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "GetOrCompute" || s.Sel.Name == "Compute") {
				return false
			}
		case *ast.BlockStmt:
			for _, s := range x.List {
				ast.Inspect(s, visit)
			}
			x.List = pointed(x.List)
			return false
		case *ast.CaseClause:
			for _, s := range x.Body {
				ast.Inspect(s, visit)
			}
			x.Body = pointed(x.Body)
			return false
		case *ast.CommClause:
			for _, s := range x.Body {
				ast.Inspect(s, visit)
			}
			x.Body = pointed(x.Body)
			return false
		}
		return true
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && fd.Name.Name != "init" {
			ast.Inspect(fd.Body, visit)
		}
	}
}

func main() {
	root, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	starts := false // goroutines of their own
	for _, dir := range os.Args[3:] {
		plain := strings.HasSuffix(dir, "-")
		dir = strings.TrimSuffix(dir, "-")
		files, _ := filepath.Glob(filepath.Join(root, dir, "*.go"))
		for _, path := range files {
			if strings.HasSuffix(path, "_test.go") {
				continue
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, path, nil, parser.ParseComments)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			head := ""
			for _, c := range f.Comments {
				if c.Pos() < f.Package {
					for _, l := range c.List {
						if strings.HasPrefix(l.Text, "//go:build") {
							head += l.Text + "\n\n"
						}
					}
				}
			}
			f.Comments, f.Doc = nil, nil
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.GoStmt:
					starts = true
				case *ast.FuncDecl:
					x.Doc = nil
				case *ast.GenDecl:
					x.Doc = nil
				case *ast.TypeSpec:
					x.Doc, x.Comment = nil, nil
				case *ast.ValueSpec:
					x.Doc, x.Comment = nil, nil
				case *ast.ImportSpec:
					x.Doc, x.Comment = nil, nil
				case *ast.Field:
					x.Doc, x.Comment = nil, nil
				}
				return true
			})
			changed := false
			for _, im := range f.Imports {
				if p, _ := strconv.Unquote(im.Path.Value); p == "sync" {
					im.Path.Value = strconv.Quote(vs)
					if im.Name == nil {
						im.Name = ast.NewIdent("sync")
					}
					changed = true
				}
			}
			if !plain {
				insert(f)
				spec := &ast.ImportSpec{Name: ast.NewIdent("vsyncPoints"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(vs)}}
				decl := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
				f.Decls = append([]ast.Decl{decl}, f.Decls...)
				f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")},
					Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent("vsyncPoints"), Sel: ast.NewIdent("Point")}}}}})
				changed = true
			}
			if !changed {
				continue
			}
			var b bytes.Buffer
			b.WriteString(head)
			// without positions, so that nothing is placed where it no longer fits
			if err := (&printer.Config{Mode: printer.UseSpaces, Tabwidth: 1}).Fprint(&b, token.NewFileSet(), f); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			to := filepath.Join(out, strings.ReplaceAll(filepath.Join(dir, filepath.Base(path)), string(filepath.Separator), "_"))
			if err := os.WriteFile(to, b.Bytes(), 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			replace[path] = to
		}
	}
	if starts {
		os.WriteFile(filepath.Join(out, "starts"), nil, 0o644)
	}
	b, _ := json.Marshal(map[string]any{"Replace": replace})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
