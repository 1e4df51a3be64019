// Command instr writes copies of the repository's Go files in which every
// function and every loop iteration passes a step of the simulator:
// instr REPO OUTDIR prints {"original": "copy", ...}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	repo, out := os.Args[1], os.Args[2]
	repl := map[string]string{}
	n := 0
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			b := filepath.Base(p)
			if p != repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.ParseComments)
		if err != nil {
			return nil // the compiler will say what is wrong with it
		}
		for _, im := range f.Imports {
			if im.Path.Value == `"C"` {
				return nil
			}
		}
		var at []int
		body := func(b *ast.BlockStmt) {
			if b != nil {
				at = append(at, fs.Position(b.Lbrace).Offset+1)
			}
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncDecl:
				body(x.Body)
			case *ast.FuncLit:
				body(x.Body)
			case *ast.ForStmt:
				body(x.Body)
			case *ast.RangeStmt:
				body(x.Body)
			}
			return true
		})
		if len(at) == 0 {
			return nil
		}
		sort.Ints(at)
		head := fs.Position(f.Name.End()).Offset
		var b strings.Builder
		b.Write(src[:head])
		b.WriteString(`; import zzsimk "github.com/binzume/modelconv/zzverif/simk"`)
		pos := head
		for _, o := range at {
			b.Write(src[pos:o])
			b.WriteString(" zzsimk.Y();")
			pos = o
		}
		b.Write(src[pos:])
		n++
		dst := filepath.Join(out, fmt.Sprintf("instr%d_%s", n, filepath.Base(p)))
		if err := os.WriteFile(dst, []byte(b.String()), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		repl[p] = dst
		return nil
	})
	json.NewEncoder(os.Stdout).Encode(repl)
}
