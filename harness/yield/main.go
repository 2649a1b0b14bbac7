// Command yield writes a copy of the library in which every statement is preceded
// by a call that sometimes lets other goroutines run, and an overlay file for the
// go command. The copy does what the library does; only its schedules vary more.
//
//	yield <repository> <directory for the copy>
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const hook = `package %s

import (
	verifrand "math/rand/v2"
	verifruntime "runtime"
)

var verifRate = []uint32{2, 5, 20, 100, 1000}[verifrand.Uint32()%%5]

func verifYield() {
	if verifrand.Uint32()%%verifRate == 0 {
		verifruntime.Gosched()
	}
}
`

// instrument gives the text of a file with a call before every statement.
func instrument(path string) (pkg, text string, n int, err error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.SkipObjectResolution)
	if err != nil {
		return
	}
	var at []int
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, empty := s.(*ast.EmptyStmt); !empty {
				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SwitchStmt:
			for _, c := range n.Body.List { // its clauses are not statements
				list(c.(*ast.CaseClause).Body)
			}
		case *ast.TypeSwitchStmt:
			for _, c := range n.Body.List {
				list(c.(*ast.CaseClause).Body)
			}
		case *ast.SelectStmt:
			for _, c := range n.Body.List {
				list(c.(*ast.CommClause).Body)
			}
		case *ast.BlockStmt:
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(n.List)
		}
		return true
	})
	sort.Ints(at)
	var sb strings.Builder
	last := 0
	for _, o := range at {
		sb.Write(src[last:o])
		sb.WriteString("verifYield();")
		last = o
	}
	sb.Write(src[last:])
	return f.Name.Name, sb.String(), len(at), nil
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	packages := map[string]string{}
	count := 0
	write := func(orig, text string) {
		name := filepath.Join(out, fmt.Sprintf("%d.go", len(replace)))
		if err := os.WriteFile(name, []byte(text), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		replace[orig] = name
	}
	filepath.Walk(repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if name := info.Name(); info.IsDir() && path != repo && (strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata" || name == "vendor") {
			return filepath.SkipDir
		}
		if info.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		pkg, text, n, err := instrument(path)
		if err != nil || n == 0 {
			return nil
		}
		count += n
		write(path, text)
		packages[filepath.Dir(path)] = pkg
		return nil
	})
	for dir, pkg := range packages {
		write(filepath.Join(dir, "zz_verif_yield.go"), fmt.Sprintf(hook, pkg))
	}
	b, _ := json.Marshal(map[string]any{"Replace": replace})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil || count == 0 {
		fmt.Fprintln(os.Stderr, "nothing written", err)
		os.Exit(1)
	}
	fmt.Println(count)
}
