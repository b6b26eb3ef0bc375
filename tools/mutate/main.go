// Command mutate lists small changes to Go source files as JSON lines:
// {"file","start","end","new","what","line"}. Used by run.py to look for
// changes which neither the tests of the repository nor the checks notice.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
)

type mutant struct {
	File  string `json:"file"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	What  string `json:"what"`
	Line  int    `json:"line"`
	Old   string `json:"old"`
}

var swaps = map[token.Token][]token.Token{
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
	token.LSS: {token.LEQ, token.GTR, token.GEQ}, token.LEQ: {token.LSS, token.GEQ},
	token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR, token.LEQ},
	token.ADD: {token.SUB}, token.SUB: {token.ADD},
	token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.AND: {token.OR, token.XOR}, token.OR: {token.AND, token.XOR}, token.XOR: {token.OR, token.AND},
	token.SHL: {token.SHR}, token.SHR: {token.SHL},
	token.MUL: {token.ADD}, token.QUO: {token.MUL}, token.REM: {token.QUO},
}

var names = map[string][]string{
	"left": {"right"}, "right": {"left"}, "Left": {"Right"}, "Right": {"Left"},
	"me": {"other"}, "other": {"me"}, "a": {"b"}, "b": {"a"}, "first": {"last"}, "last": {"first"},
	"super": {"sub"}, "sub": {"super"}, "high": {"low"}, "low": {"high"},
	"Union": {"Difference", "Intersect"}, "Difference": {"Union"}, "Intersect": {"Union"},
	"newLeft": {"newRight"}, "newRight": {"newLeft"}, "oldNode": {"newNode"}, "newNode": {"oldNode"},
	"lessThan": {"lessThanOrEqual"}, "leftShift": {"rightShift"}, "rightShift": {"leftShift"},
	"and": {"or"}, "or": {"and"}, "Removed": {"Added"}, "Added": {"Removed"},
	"compareSame": {"compareContains"}, "compareContains": {"compareIsContained"}, "compareIsContained": {"compareContains"}, "compareDisjoint": {"compareSame"},
	"LeadingZeros64": {"TrailingZeros64"}, "maxUint64": {"0"},
}

func main() {
	var all []mutant
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		add := func(from, to token.Pos, s, what string) {
			old := string(src[off(from):off(to)])
			if old == s {
				return
			}
			all = append(all, mutant{file, off(from), off(to), s, what, fset.Position(from).Line, old})
		}
		rep := func(n ast.Node, s, what string) { add(n.Pos(), n.End(), s, what) }
		del := func(s ast.Stmt) {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.IfStmt, *ast.SwitchStmt, *ast.ForStmt, *ast.RangeStmt, *ast.BranchStmt, *ast.GoStmt, *ast.DeferStmt:
				rep(s, "", "delete")
			case *ast.AssignStmt:
				if s.Tok == token.DEFINE {
					return
				}
				rep(s, "", "delete")
			case *ast.ReturnStmt:
				if len(s.Results) == 0 {
					rep(s, "", "delete")
				}
			}
		}
		inFunc := 0
		_ = inFunc
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				if gd, ok := d.(*ast.GenDecl); !ok || gd.Tok == token.IMPORT || gd.Tok == token.TYPE {
					continue
				}
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					for _, s := range n.List {
						del(s)
					}
				case *ast.CaseClause:
					for _, s := range n.Body {
						del(s)
					}
					for i, e := range n.List {
						if len(n.List) > 1 {
							rep(e, text(n.List[(i+1)%len(n.List)]), "drop case value")
						}
					}
				case *ast.BinaryExpr:
					for _, o := range swaps[n.Op] {
						add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o.String(), "operator")
					}
					switch n.Op {
					case token.LAND, token.LOR, token.ADD, token.SUB, token.AND, token.OR, token.XOR, token.SHL, token.SHR:
						rep(n, text(n.X), "left operand only")
						rep(n, text(n.Y), "right operand only")
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT || n.Op == token.XOR || n.Op == token.SUB {
						rep(n, text(n.X), "drop "+n.Op.String())
					}
				case *ast.IfStmt:
					rep(n.Cond, "true || "+text(n.Cond), "if true")
					rep(n.Cond, "false && ("+text(n.Cond)+")", "if false")
					if n.Else != nil {
						add(n.Body.End(), n.Else.End(), "", "delete else")
					}
				case *ast.ForStmt:
					if n.Cond != nil {
						rep(n.Cond, "false && ("+text(n.Cond)+")", "for false")
					}
				case *ast.SwitchStmt:
				case *ast.BasicLit:
					if n.Kind == token.INT {
						v, err := strconv.ParseUint(n.Value, 0, 64)
						if err == nil {
							rep(n, fmt.Sprint(v+1), "constant")
							if v > 0 {
								rep(n, fmt.Sprint(v-1), "constant")
							}
						}
					}
				case *ast.Ident:
					switch n.Name {
					case "true":
						rep(n, "false", "constant")
					case "false":
						rep(n, "true", "constant")
					}
					for _, o := range names[n.Name] {
						rep(n, o, "name")
					}
				case *ast.ReturnStmt:
					for _, r := range n.Results {
						t := text(r)
						if t != "nil" && t != "true" && t != "false" {
							rep(r, "nil", "return nil")
							rep(r, "!("+t+")", "return not")
							rep(r, "true", "return true")
							rep(r, "false", "return false")
							rep(r, "0", "return 0")
							rep(r, "me", "return me")
							rep(r, "other", "return other")
						}
					}
				case *ast.CallExpr:
					for i := 0; i+1 < len(n.Args); i++ {
						add(n.Args[i].Pos(), n.Args[i+1].End(), text(n.Args[i+1])+", "+text(n.Args[i]), "swap arguments")
					}
					if s, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) == 1 {
						rep(n, text(n.Args[0])+"."+s.Sel.Name+"("+text(s.X)+")", "swap receiver")
						rep(n, text(s.X), "drop call")
					}
					if s, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) == 0 {
						rep(n, text(s.X), "drop call")
					}
				case *ast.KeyValueExpr:
					rep(n, "", "drop field")
				case *ast.AssignStmt:
					if len(n.Lhs) == 2 && len(n.Rhs) == 2 {
						add(n.Rhs[0].Pos(), n.Rhs[1].End(), text(n.Rhs[1])+", "+text(n.Rhs[0]), "swap values")
					}
					if n.Tok == token.ADD_ASSIGN {
						add(n.TokPos, n.TokPos+2, "-=", "operator")
						add(n.TokPos, n.TokPos+2, "=", "operator")
					}
				case *ast.IncDecStmt:
				}
				return true
			})
		}
	}
	// keep those which type check
	build.Default.CgoEnabled = false
	good := make([]bool, len(all))
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			fset := token.NewFileSet()
			imp := &local{std: importer.ForCompiler(fset, "source", nil), fset: fset, done: map[string]*types.Package{}}
			for i := w; i < len(all); i += 8 {
				good[i] = imp.check(all[i])
			}
		}(w)
	}
	wg.Wait()
	enc := json.NewEncoder(os.Stdout)
	for i, m := range all {
		if good[i] {
			enc.Encode(m)
		}
	}
}

type local struct {
	std  types.Importer
	fset *token.FileSet
	done map[string]*types.Package
}

func (l *local) files(dir, file string, src []byte) (files []*ast.File) {
	names, _ := filepath.Glob(dir + "/*.go")
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		var from any
		if n == file {
			from = src
		}
		f, err := parser.ParseFile(l.fset, n, from, 0)
		if err != nil {
			return nil
		}
		files = append(files, f)
	}
	return files
}

func (l *local) Import(path string) (*types.Package, error) {
	const module = "gopkg.in/addrs.v1/"
	if !strings.HasPrefix(path, module) {
		return l.std.Import(path)
	}
	if p := l.done[path]; p != nil {
		return p, nil
	}
	conf := types.Config{Importer: l}
	p, err := conf.Check(path, l.fset, l.files("/repo/"+path[len(module):], "", nil), nil)
	l.done[path] = p
	return p, err
}

func (l *local) check(m mutant) bool {
	src, err := os.ReadFile(m.File)
	if err != nil {
		panic(err)
	}
	src = []byte(string(src[:m.Start]) + m.New + string(src[m.End:]))
	files := l.files(filepath.Dir(m.File), m.File, src)
	if files == nil {
		return false
	}
	conf := types.Config{Importer: l, Error: func(error) {}}
	_, err = conf.Check("x", l.fset, files, nil)
	return err == nil
}
