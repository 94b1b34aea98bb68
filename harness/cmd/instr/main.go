// Command instr writes a go build overlay that adds the verifhook package to
// the library's module and, with -rewrite, inserts a call of verifhook.P
// before every statement of the library's non-test sources. It works on
// whatever the working tree of the library currently contains.
//
//	instr -repo /repo -hook hook.go -out DIR [-rewrite]
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const hookPath = "github.com/exascience/pargo/verifhook"

type site struct {
	ID   int    `json:"id"`
	Pos  string `json:"pos"`
	Func string `json:"func"`
}

var (
	sites []site
	fset  = token.NewFileSet()
)

type insertion struct {
	off  int
	text string
}

func main() {
	repo := flag.String("repo", "/repo", "")
	hook := flag.String("hook", "", "")
	out := flag.String("out", "", "")
	rewrite := flag.Bool("rewrite", false, "")
	flag.Parse()
	replace := map[string]string{filepath.Join(*repo, "verifhook", "hook.go"): *hook}
	if *rewrite {
		for _, pkg := range []string{"internal", "parallel", "speculative", "sequential", "sort", "sync", "pipeline"} {
			files, _ := filepath.Glob(filepath.Join(*repo, pkg, "*.go"))
			sort.Strings(files)
			for _, file := range files {
				if strings.HasSuffix(file, "_test.go") {
					continue
				}
				src, err := os.ReadFile(file)
				check(err)
				text, err := instrument(*repo, file, src)
				check(err)
				dst := filepath.Join(*out, pkg+"_"+filepath.Base(file))
				check(os.WriteFile(dst, text, 0o644))
				replace[file] = dst
			}
		}
	}
	b, err := json.Marshal(map[string]interface{}{"Replace": replace})
	check(err)
	check(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
	b, err = json.Marshal(sites)
	check(err)
	check(os.WriteFile(filepath.Join(*out, "sites.json"), b, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

func instrument(repo, file string, src []byte) ([]byte, error) {
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	rel, _ := filepath.Rel(repo, file)
	var ins []insertion
	tf := fset.File(f.Pos())
	for _, decl := range f.Decls {
		fd, ok := decl.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			// closures in package level variables are left alone
			continue
		}
		name := fd.Name.Name
		hook := func(pos token.Pos) {
			id := len(sites)
			sites = append(sites, site{id, fmt.Sprintf("%s:%d", rel, fset.Position(pos).Line), name})
			ins = append(ins, insertion{tf.Offset(pos), fmt.Sprintf("verifhook_.P(%d); ", id)})
		}
		list := func(stmts []ast.Stmt) {
			for _, s := range stmts {
				if _, empty := s.(*ast.EmptyStmt); !empty {
					hook(s.Pos())
				}
			}
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				// the body of a switch or select is a list of clauses, handled below
				if len(n.List) > 0 {
					switch n.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			}
			return true
		})
	}
	if len(ins) == 0 {
		return src, nil
	}
	// the import goes on the package line: "package x; import verifhook_ ..."
	ins = append(ins, insertion{tf.Offset(f.Name.End()), fmt.Sprintf("; import verifhook_ %q", hookPath)})
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var b strings.Builder
	last := 0
	for _, in := range ins {
		b.Write(src[last:in.off])
		b.WriteString(in.text)
		last = in.off
	}
	b.Write(src[last:])
	return []byte(b.String()), nil
}
