// Command mut enumerates small changes of the Go files of one package, to
// measure what the checks notice.
//
//	mut list DIR            one line per change: id file line description
//	mut apply DIR ID        rewrites the file
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	lo, hi int // offsets
	text   string
}

type mutant struct {
	file  string
	line  int
	desc  string
	edits []edit
}

var (
	fset = token.NewFileSet()
	out  []mutant
)

func main() {
	dir := os.Args[2]
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(names)
	var files []*ast.File
	var srcs [][]byte
	var paths []string
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		src, err := os.ReadFile(n)
		if err != nil {
			panic(err)
		}
		f, err := parser.ParseFile(fset, n, src, 0)
		if err != nil {
			panic(err)
		}
		files, srcs, paths = append(files, f), append(srcs, src), append(paths, n)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Scopes: map[ast.Node]*types.Scope{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(error) {}}
	pkg, _ := conf.Check("p", fset, files, info)
	for i, f := range files {
		walk(f, srcs[i], paths[i], info, pkg)
	}
	switch os.Args[1] {
	case "list":
		for i, m := range out {
			fmt.Printf("%d\t%s\t%d\t%s\n", i, filepath.Base(m.file), m.line, strings.ReplaceAll(m.desc, "\n", " "))
		}
	case "apply":
		var id int
		fmt.Sscan(os.Args[3], &id)
		m := out[id]
		src, _ := os.ReadFile(m.file)
		sort.Slice(m.edits, func(i, j int) bool { return m.edits[i].lo > m.edits[j].lo })
		for _, e := range m.edits {
			src = append(append(append([]byte{}, src[:e.lo]...), e.text...), src[e.hi:]...)
		}
		if err := os.WriteFile(m.file, src, 0o644); err != nil {
			panic(err)
		}
	}
}

func walk(f *ast.File, src []byte, path string, info *types.Info, pkg *types.Package) {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	short := func(s string) string {
		s = strings.Join(strings.Fields(s), " ")
		if len(s) > 70 {
			s = s[:70] + "..."
		}
		return s
	}
	add := func(n ast.Node, desc string, edits ...edit) {
		out = append(out, mutant{path, fset.Position(n.Pos()).Line, desc, edits})
	}
	replace := func(n ast.Node, s string) {
		add(n, short(text(n))+"  =>  "+short(s), edit{off(n.Pos()), off(n.End()), s})
	}
	var stmts func(list []ast.Stmt)
	stmts = func(list []ast.Stmt) {
		for i, s := range list {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt:
				add(s, "delete "+short(text(s)), edit{off(s.Pos()), off(s.End()), ""})
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					add(s, "delete "+short(text(s)), edit{off(s.Pos()), off(s.End()), ""})
				}
			case *ast.DeferStmt:
				add(s, "delete "+short(text(s)), edit{off(s.Pos()), off(s.End()), ""})
				add(s, "undefer "+short(text(s)), edit{off(s.Pos()), off(s.Call.Pos()), ""})
			case *ast.GoStmt:
				add(s, "ungo "+short(text(s)), edit{off(s.Pos()), off(s.Call.Pos()), ""})
			case *ast.BranchStmt:
				add(s, "delete "+short(text(s)), edit{off(s.Pos()), off(s.End()), ""})
				if s.Tok == token.BREAK {
					replace(s, "continue")
				}
			case *ast.ReturnStmt:
				if len(s.Results) == 0 {
					add(s, "delete return", edit{off(s.Pos()), off(s.End()), ""})
				}
			case *ast.IfStmt:
				if s.Else == nil {
					add(s, "delete "+short(text(s)), edit{off(s.Pos()), off(s.End()), ""})
				}
			}
			if i+1 < len(list) {
				t := list[i+1]
				a, b := text(s), text(t)
				add(s, "swap "+short(a)+"  AND  "+short(b), edit{off(s.Pos()), off(s.End()), b}, edit{off(t.Pos()), off(t.End()), a})
			}
		}
	}
	var fn *ast.FuncDecl
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			fn = n
			locks(n, text, off, add)
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
			if n.Comm == nil {
				add(n, "delete default", edit{off(n.Pos()), off(n.End()), ""})
			}
		case *ast.IfStmt:
			replace(n.Cond, "!("+text(n.Cond)+")")
		case *ast.BinaryExpr:
			alt := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.REM: {"/"}}
			for _, a := range alt[n.Op] {
				add(n, short(text(n))+"  with  "+a, edit{off(n.OpPos), off(n.OpPos) + len(n.Op.String()), a})
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				add(n, short(text(n))+"  =>  left only", edit{off(n.X.End()), off(n.Y.End()), ""})
				add(n, short(text(n))+"  =>  right only", edit{off(n.X.Pos()), off(n.Y.Pos()), ""})
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				add(n, n.Value+" + 1 in line", edit{off(n.Pos()), off(n.End()), "(" + n.Value + " + 1)"})
				if n.Value != "0" {
					add(n, n.Value+" - 1 in line", edit{off(n.Pos()), off(n.End()), "(" + n.Value + " - 1)"})
				}
			}
		case *ast.CallExpr:
			if len(n.Args) >= 2 {
				for i := 0; i+1 < len(n.Args); i++ {
					a, b := n.Args[i], n.Args[i+1]
					ta, tb := info.TypeOf(a), info.TypeOf(b)
					if ta != nil && tb != nil && types.Identical(ta, tb) && text(a) != text(b) {
						add(n, "swap arguments "+short(text(a))+", "+short(text(b)), edit{off(a.Pos()), off(a.End()), text(b)}, edit{off(b.Pos()), off(b.End()), text(a)})
					}
				}
			}
		case *ast.Ident:
			if n.Name == "true" || n.Name == "false" {
				replace(n, map[string]string{"true": "false", "false": "true"}[n.Name])
				return true
			}
			// another variable of the same type
			v, ok := info.Uses[n].(*types.Var)
			if !ok || v.IsField() || fn == nil || pkg == nil {
				return true
			}
			scope := pkg.Scope().Innermost(n.Pos())
			seen := map[string]bool{n.Name: true}
			var alts []string
			for s := scope; s != nil && s != pkg.Scope() && s != types.Universe; s = s.Parent() {
				for _, name := range s.Names() {
					o, ok := s.Lookup(name).(*types.Var)
					if ok && !seen[name] && name != "_" && o.Pos() < n.Pos() && types.Identical(o.Type(), v.Type()) {
						seen[name] = true
						alts = append(alts, name)
					}
				}
			}
			sort.Strings(alts)
			for _, a := range alts {
				ln := string(bytes.TrimSpace(lineOf(src, off(n.Pos()))))
				add(n, n.Name+"  =>  "+a+"  in  "+short(ln), edit{off(n.Pos()), off(n.End()), a})
			}
		}
		return true
	})
}

func lineOf(src []byte, o int) []byte {
	lo := bytes.LastIndexByte(src[:o], '\n') + 1
	hi := bytes.IndexByte(src[o:], '\n')
	return src[lo : o+hi]
}

// locks weakens all locking of a function at once.
func locks(fn *ast.FuncDecl, text func(ast.Node) string, off func(token.Pos) int, add func(ast.Node, string, ...edit)) {
	if fn.Body == nil {
		return
	}
	var weak, none []edit
	ast.Inspect(fn.Body, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok && len(c.Args) == 0 {
			if s, ok := c.Fun.(*ast.SelectorExpr); ok {
				switch s.Sel.Name {
				case "Lock", "Unlock":
					weak = append(weak, edit{off(s.Sel.Pos()), off(s.Sel.End()), "R" + s.Sel.Name})
					fallthrough
				case "RLock", "RUnlock":
					none = append(none, edit{off(c.Pos()), off(c.End()), "func() {}()"})
				}
			}
		}
		return true
	})
	if len(weak) > 0 {
		add(fn, "read locks in "+fn.Name.Name, weak...)
	}
	if len(none) > 0 {
		add(fn, "no locks in "+fn.Name.Name, none...)
	}
}
