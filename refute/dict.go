package main

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Sizes and texts for generators to try: the constants of the code under test,
// as limits and special cases in it have to be written down somewhere.
var dictSizes []int
var dictTexts = []string{"\xef\xbb\xbf", "\r\n", "\n\r", "//", "/*", "#", "\x1a", "\x0c", "\v", "\u00a0", "\u2028", "\xff\xfe", "\\", "\t", "\x00"}

func init() {
	root := os.Getenv("REFUTE_REPO")
	if root == "" {
		root = "/repo"
	}
	sizes, texts := map[int]bool{}, map[string]bool{}
	fset := token.NewFileSet()
	filepath.WalkDir(filepath.Join(root, "pkg"), func(path string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(fset, path, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch e := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.CompositeLit:
				return len(e.Elts) <= 16 // no tables
			case ast.Expr:
				switch v := value(e); v.Kind() {
				case constant.Int:
					if k, ok := constant.Int64Val(v); ok && k > 1 && k <= 1<<20 {
						sizes[int(k)] = true
					}
				case constant.String:
					if s := constant.StringVal(v); len(s) > 0 && len(s) <= 40 && !strings.Contains(s, "%") {
						texts[s] = true
					}
				}
			}
			return true
		})
		return nil
	})
	for k := range sizes {
		dictSizes = append(dictSizes, k)
	}
	for s := range texts {
		dictTexts = append(dictTexts, s)
	}
	sort.Ints(dictSizes)
	sort.Strings(dictTexts)
}

func value(e ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = constant.MakeUnknown()
		}
	}()
	switch e := e.(type) {
	case *ast.BasicLit:
		v = constant.MakeFromLiteral(e.Value, e.Kind, 0)
		if e.Kind == token.CHAR {
			if k, ok := constant.Int64Val(v); ok {
				return constant.MakeString(string(rune(k)))
			}
		}
		return v
	case *ast.ParenExpr:
		return value(e.X)
	case *ast.BinaryExpr:
		x, y := value(e.X), value(e.Y)
		if x.Kind() != y.Kind() || x.Kind() == constant.Unknown {
			return constant.MakeUnknown()
		}
		if e.Op == token.SHL {
			if k, ok := constant.Uint64Val(y); ok && k < 21 {
				return constant.Shift(x, e.Op, uint(k))
			}
			return constant.MakeUnknown()
		}
		if e.Op == token.ADD || e.Op == token.SUB || e.Op == token.MUL {
			return constant.BinaryOp(x, e.Op, y)
		}
	}
	return constant.MakeUnknown()
}

// many gives the usual number or, now and then, one just around a constant of the code
func many(rnd *rand.Rand, usual, max int) int {
	if rnd.Intn(50) > 0 {
		return usual
	}
	var fit []int
	for _, k := range dictSizes {
		if k <= max {
			fit = append(fit, k)
		}
	}
	if len(fit) == 0 {
		return usual
	}
	k := fit[rnd.Intn(len(fit))] + rnd.Intn(3) - 1
	if rnd.Intn(4) == 0 {
		k += rnd.Intn(k + 1)
	}
	if k > max {
		k = max
	}
	if k < usual {
		return usual
	}
	return k
}

// special gives a text that code may treat specially
func special(rnd *rand.Rand) []byte { return []byte(dictTexts[rnd.Intn(len(dictTexts))]) }
