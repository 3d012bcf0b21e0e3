// Command mkoverlay writes, for a package of the repository, a file naming its unexported functions for the checker.
// A function that is no longer there, or has another type, is left nil: the checks then skip what needs it.
//
//	mkoverlay loc|prox <package directory> <output file>
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strings"
)

type want struct{ name, as, typ string }

var specs = map[string][]want{
	"loc": {
		{"scaleR", "VerifScaleR", "func(*float.Context, float.FloatVar, frontend.Variable) float.FloatVar"},
		{"calculateR", "VerifCalculateR", "func(*float.Context, float.FloatVar, frontend.Variable) float.FloatVar"},
		{"closestFaceCalculations", "VerifClosest", "func(*float.Context, float.FloatVar, float.FloatVar, float.FloatVar, float.FloatVar) [9]float.FloatVar"},
		{"calculateHex2d", "VerifHex2d", "func(*float.Context" + strings.Repeat(", float.FloatVar", 13) + ", frontend.Variable) [2]float.FloatVar"},
		{"hex2dToCoordIJK", "VerifToIJK", "func(*float.Context, float.FloatVar, float.FloatVar) [3]frontend.Variable"},
	},
	"prox": {
		{"executeLatLngToIJK", "zzIJK", "func(string, int, float64, float64) (int, int, int, error)"},
		{"latLngToCell", "zzCell", "func(int, float64, float64) (string, error)"},
		{"cellToLatLng", "zzLatLng", "func(string) (float64, float64, error)"},
		{"cellToBoundary", "zzBoundary", "func(string) ([][2]float64, error)"},
		{"OldHaversine", "zzHaversine", "func(float64, float64, float64, float64) float64"},
		{"WriteHexCellsToFile", "zzWrite", "func([]HexCell, string, bool) error"},
	},
}

func typeOf(fset *token.FileSet, f *ast.FuncDecl) string {
	list := func(l *ast.FieldList) []string {
		var out []string
		if l == nil {
			return nil
		}
		for _, p := range l.List {
			var b bytes.Buffer
			_ = printer.Fprint(&b, fset, p.Type)
			for n := max(1, len(p.Names)); n > 0; n-- {
				out = append(out, b.String())
			}
		}
		return out
	}
	s := "func(" + strings.Join(list(f.Type.Params), ", ") + ")"
	switch r := list(f.Type.Results); len(r) {
	case 0:
		return s
	case 1:
		return s + " " + r[0]
	default:
		return s + " (" + strings.Join(r, ", ") + ")"
	}
}

func main() {
	kind, dir, out := os.Args[1], os.Args[2], os.Args[3]
	fset := token.NewFileSet()
	ents, err := os.ReadDir(dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	have := map[string]string{}
	pkg := ""
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, dir+"/"+n, nil, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		pkg = f.Name.Name
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Type.TypeParams == nil {
				have[fd.Name.Name] = typeOf(fset, fd)
			}
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\n", pkg)
	if kind == "loc" {
		b.WriteString("import (\n\t\"github.com/consensys/gnark/frontend\"\n\t\"github.com/tumberger/zk-Location/float\"\n)\n\n")
	}
	for _, w := range specs[kind] {
		fmt.Fprintf(&b, "var %s %s", w.as, w.typ)
		if have[w.name] == w.typ {
			fmt.Fprintf(&b, " = %s", w.name)
		} else {
			fmt.Fprintf(os.Stderr, "%s has no %s of type %s\n", dir, w.name, w.typ)
		}
		b.WriteString("\n")
	}
	if err := os.WriteFile(out, b.Bytes(), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
