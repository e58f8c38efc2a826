package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// instrument rewrites the Go sources of both library versions (and the in-module
// packages they import) so that every statement is a scheduling point and package
// sync is replaced, and returns the overlay file. The sources themselves stay as they are.
func instrument() (overlay string, files int) {
	out := must(filepath.Join(verifDir(), "harness"), nil, "go", "list", modfile(), "-deps", "-f",
		`{{if .Module}}{{.Module.Path}}|{{.Dir}}|{{join .GoFiles ","}}{{end}}`,
		"github.com/loopholelabs/polyglot", "github.com/loopholelabs/polyglot/v2")
	repl := map[string]string{}
	dst := filepath.Join(scratch(), "instr")
	os.MkdirAll(dst, 0o755)
	for _, l := range strings.Split(out, "\n") {
		f := strings.Split(strings.TrimSpace(l), "|")
		if len(f) != 3 || !strings.HasPrefix(f[0], "github.com/loopholelabs/polyglot") {
			continue
		}
		for i, name := range strings.Split(f[2], ",") {
			src := filepath.Join(f[1], name)
			b, err := os.ReadFile(src)
			if err != nil {
				die("%v", err)
			}
			nb, err := instrumentFile(src, b, i)
			if err != nil {
				die("instrumenting %s: %v", src, err)
			}
			if nb == nil {
				continue
			}
			d := filepath.Join(dst, fmt.Sprintf("f%d.go", len(repl)))
			if err := os.WriteFile(d, nb, 0o644); err != nil {
				die("%v", err)
			}
			repl[src] = d
		}
	}
	if len(repl) == 0 {
		die("nothing to instrument")
	}
	j, _ := json.Marshal(map[string]any{"Replace": repl})
	overlay = filepath.Join(scratch(), "overlay.json")
	os.WriteFile(overlay, j, 0o644)
	return overlay, len(repl)
}

func modfile() string {
	m := filepath.Join(scratch(), "go.mod")
	if _, err := os.Stat(m); err != nil { // run without the check script
		for _, f := range []string{"go.mod", "go.sum"} {
			b, err := os.ReadFile(filepath.Join(verifDir(), "harness", f))
			if err != nil {
				die("%v", err)
			}
			os.WriteFile(filepath.Join(scratch(), f), b, 0o644)
		}
	}
	return "-modfile=" + m
}

func instrumentFile(name string, src []byte, idx int) ([]byte, error) {
	if bytes.Contains(src, []byte("//go:embed")) || bytes.Contains(src, []byte("import \"C\"")) {
		return nil, nil
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	const vs = "vsched__"
	for _, im := range f.Imports {
		if p, _ := strconv.Unquote(im.Path.Value); p == "sync" {
			im.Path.Value = strconv.Quote("polymc/vsync")
			if im.Name == nil {
				im.Name = ast.NewIdent("sync")
			}
		}
	}
	point := func() ast.Stmt {
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(vs), Sel: ast.NewIdent("Point")}}}
	}
	noPoints := map[*ast.BlockStmt]bool{}
	list := func(in []ast.Stmt) []ast.Stmt {
		out := make([]ast.Stmt, 0, 2*len(in)+1)
		if len(in) == 0 {
			return []ast.Stmt{point()}
		}
		for _, s := range in {
			if g, ok := s.(*ast.GoStmt); ok {
				s = &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(vs), Sel: ast.NewIdent("Go")},
					Args: []ast.Expr{&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: g.Call}}}}}}}
			}
			out = append(out, point(), s)
		}
		return out
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SwitchStmt:
			noPoints[x.Body] = true
		case *ast.TypeSwitchStmt:
			noPoints[x.Body] = true
		case *ast.SelectStmt:
			noPoints[x.Body] = true
		}
		return true
	})
	var blocks []*ast.BlockStmt
	var cases []*ast.CaseClause
	var comms []*ast.CommClause
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			if x != nil && !noPoints[x] {
				blocks = append(blocks, x)
			}
		case *ast.CaseClause:
			cases = append(cases, x)
		case *ast.CommClause:
			comms = append(comms, x)
		}
		return true
	})
	for _, b := range blocks {
		b.List = list(b.List)
	}
	for _, c := range cases {
		c.Body = list(c.Body)
	}
	for _, c := range comms {
		c.Body = list(c.Body)
	}
	// State that must be restored before every run.
	var reset []ast.Stmt
	var inits []string
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Recv == nil && x.Name.Name == "init" {
				x.Name.Name = fmt.Sprintf("vinit__%d_%d", idx, len(inits))
				inits = append(inits, x.Name.Name)
			}
		case *ast.GenDecl:
			if x.Tok != token.VAR {
				continue
			}
			for _, sp := range x.Specs {
				v := sp.(*ast.ValueSpec)
				if len(v.Values) == 0 {
					for _, id := range v.Names {
						if id.Name == "_" {
							continue
						}
						z := ast.NewIdent("vzero__")
						reset = append(reset, &ast.BlockStmt{List: []ast.Stmt{
							&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{z}, Type: v.Type}}}},
							&ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.ASSIGN, Rhs: []ast.Expr{z}},
						}})
					}
					continue
				}
				if len(v.Names) == len(v.Values) {
					for i, id := range v.Names {
						if id.Name == "_" || isErrorValue(v.Values[i]) {
							continue
						}
						reset = append(reset, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.ASSIGN, Rhs: []ast.Expr{v.Values[i]}})
					}
					continue
				}
				var lhs []ast.Expr
				for _, id := range v.Names {
					lhs = append(lhs, id)
				}
				reset = append(reset, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: v.Values})
			}
		}
	}
	call := func(n string) ast.Stmt { return &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(n)}} }
	for _, n := range inits {
		reset = append(reset, call(n))
	}
	fn := func(name string, body []ast.Stmt) *ast.FuncDecl {
		return &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
	}
	rname := fmt.Sprintf("vreset__%d", idx)
	start := []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(vs), Sel: ast.NewIdent("OnReset")}, Args: []ast.Expr{ast.NewIdent(rname)}}}}
	for _, n := range inits {
		start = append(start, call(n))
	}
	f.Decls = append(f.Decls, fn(rname, reset), fn("init", start))
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent(vs), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("polymc/vsched")}}}}
	f.Decls = append([]ast.Decl{imp}, f.Decls...)
	f.Comments = nil
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}

// isErrorValue: error values keep their identity across runs.
func isErrorValue(e ast.Expr) bool {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return false
	}
	s, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	x, ok := s.X.(*ast.Ident)
	return ok && (x.Name == "errors" && s.Sel.Name == "New" || x.Name == "fmt" && s.Sel.Name == "Errorf")
}
