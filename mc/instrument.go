// Copies of the packages under test with a yield point before every
// statement, used through go build -overlay.

package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
)

const yieldFile = "zz_verif_yield.go"

// instrument writes instrumented copies of the packages to dir and returns
// the overlay file. It does so for the files selected for an architecture, which
// replace those selected for this one.
func instrument(repo, dir string, pkgs []string, arch string) (overlay string, err error) {
	repl := map[string]string{}
	mine, err := archFiles(runtime.GOARCH)
	if err != nil {
		return "", err
	}
	other, err := archFiles(arch)
	if err != nil {
		return "", err
	}
	for _, p := range pkgs {
		src := filepath.Join(repo, p)
		names, err := filepath.Glob(filepath.Join(src, "*.go"))
		if err != nil {
			return "", err
		}
		pkgName := ""
		for _, name := range names {
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			text, err := os.ReadFile(name)
			if err != nil {
				return "", err
			}
			out, pkg, err := yieldPoints(name, text)
			if err != nil {
				return "", err
			}
			pkgName = pkg
			as := name
			if use := contains(other["use"], name); use != contains(mine["use"], name) {
				repl[name] = ""
				if !use {
					continue
				}
				as = filepath.Join(src, fmt.Sprintf("zz%d_borrowed.go", len(repl)))
				out = []byte(stripConstraints(string(out)))
			}
			to := filepath.Join(dir, strings.ReplaceAll(p, "/", "_")+"_"+filepath.Base(name))
			if err = os.WriteFile(to, out, 0o644); err != nil {
				return "", err
			}
			repl[as] = to
		}
		to := filepath.Join(dir, strings.ReplaceAll(p, "/", "_")+"_"+yieldFile)
		hook := fmt.Sprintf("package %s\n\nvar VerifYield func()\n\nfunc verifYield() {\n\tif f := VerifYield; f != nil {\n\t\tf()\n\t}\n}\n", pkgName)
		if err = os.WriteFile(to, []byte(hook), 0o644); err != nil {
			return "", err
		}
		repl[filepath.Join(src, yieldFile)] = to
	}
	b, err := json.Marshal(map[string]interface{}{"Replace": repl})
	if err != nil {
		return "", err
	}
	overlay = filepath.Join(dir, "overlay.json")
	return overlay, os.WriteFile(overlay, b, 0o644)
}

// yieldPoints inserts a call before every statement of every function.
func yieldPoints(name string, text []byte) ([]byte, string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, text, parser.ParseComments)
	if err != nil {
		return nil, "", err
	}
	var at []int
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			at = append(at, fset.Position(s.Pos()).Offset)
		}
	}
	var clauses map[ast.Node]bool = map[ast.Node]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SwitchStmt:
			clauses[x.Body] = true
		case *ast.TypeSwitchStmt:
			clauses[x.Body] = true
		case *ast.SelectStmt:
			clauses[x.Body] = true
		case *ast.BlockStmt:
			if !clauses[x] {
				list(x.List)
			}
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	sort.Ints(at)
	var out []byte
	prev := 0
	for i, o := range at {
		if i > 0 && o == at[i-1] {
			continue
		}
		out = append(out, text[prev:o]...)
		out = append(out, "verifYield(); "...)
		prev = o
	}
	return append(out, text[prev:]...), f.Name.Name, nil
}
