// instrument writes an overlay in which every statement of the library packages of a repository is
// preceded by a scheduling point: instrument <repo> <out dir>
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type ins struct {
	off, del int
	text     string
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	err := filepath.WalkDir(repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if strings.HasPrefix(d.Name(), ".") && p != repo {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.SkipObjectResolution)
		if err != nil {
			return nil // the build reports it
		}
		if f.Name.Name == "main" {
			return nil
		}
		off := func(x token.Pos) int { return fset.Position(x).Offset }
		var list []ins
		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				if _, empty := s.(*ast.EmptyStmt); empty {
					continue
				}
				list = append(list, ins{off: off(s.Pos()), text: "zkmcsched.Point();"})
			}
		}
		n := 0
		ast.Inspect(f, func(nd ast.Node) bool {
			switch t := nd.(type) {
			case *ast.BlockStmt:
				// the body of a switch or select only holds clauses
				if len(t.List) > 0 {
					switch t.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				stmts(t.List)
			case *ast.CaseClause:
				stmts(t.Body)
			case *ast.CommClause:
				stmts(t.Body)
			}
			return true
		})
		n = len(list)
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` {
				name := ""
				if im.Name == nil {
					name = "sync "
				}
				list = append(list, ins{off: off(im.Path.Pos()), del: len(im.Path.Value), text: name + `"zkmc/sched/zsync"`})
			}
		}
		if n == 0 {
			return nil
		}
		list = append(list, ins{off: off(f.Name.End()), text: `; import zkmcsched "zkmc/sched"`})
		sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
		var b strings.Builder
		at := 0
		for _, x := range list {
			b.Write(src[at:x.off])
			b.WriteString(x.text)
			at = x.off + x.del
		}
		b.Write(src[at:])
		dst := filepath.Join(out, fmt.Sprintf("%d_%s", len(replace), filepath.Base(p)))
		replace[p] = dst
		return os.WriteFile(dst, []byte(b.String()), 0o644)
	})
	if err == nil {
		b, _ := json.Marshal(map[string]any{"Replace": replace})
		err = os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
