// Command yield writes copies of the Go files of packages with a call in front
// of every statement, for a scheduler, and an overlay for the go command which
// puts them in place of the files.
//
//	yield REPO OUT PACKAGE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const call = "verifYield__();"

const hook = `package %s

// VerifYield is called in front of every statement
var VerifYield func()

func verifYield__() {
	if f := VerifYield; f != nil {
		f()
	}
}
`

func instrument(src []byte, name string) ([]byte, string, error) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, name, src, 0)
	if err != nil {
		return nil, "", err
	}
	var at []int
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			at = append(at, fset.PositionFor(s.Pos(), false).Offset)
		}
	}
	ast.Inspect(file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		}
		return true
	})
	sort.Ints(at)
	var out []byte
	last := 0
	for _, o := range at {
		out = append(out, src[last:o]...)
		out = append(out, call...)
		last = o
	}
	return append(out, src[last:]...), file.Name.Name, nil
}

func run(repo, out string, pkgs []string) error {
	replace := map[string]string{}
	for _, p := range pkgs {
		files, err := filepath.Glob(filepath.Join(repo, p, "*.go"))
		if err != nil {
			return err
		}
		pkg := ""
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			b, name, err := instrument(src, f)
			if err != nil {
				return err
			}
			pkg = name
			to := filepath.Join(out, p+"_"+filepath.Base(f))
			if err := os.WriteFile(to, b, 0644); err != nil {
				return err
			}
			replace[f] = to
		}
		to := filepath.Join(out, p+"_zz_yield.go")
		if err := os.WriteFile(to, []byte(fmt.Sprintf(hook, pkg)), 0644); err != nil {
			return err
		}
		replace[filepath.Join(repo, p, "zz_verif_yield.go")] = to
	}
	b, err := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644)
}

func main() {
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: yield REPO OUT PACKAGE...")
		os.Exit(2)
	}
	if err := run(os.Args[1], os.Args[2], os.Args[3:]); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
