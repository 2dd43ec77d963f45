package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// The dictionary holds the literals of the code under test, as fuzzers collect
// them: an input that contains what the code compares with reaches branches
// that random text does not. It only steers the generators; no verdict uses it.
type dictionary struct {
	strs     []string // short string and character literals
	ints     []int64  // integer literals above 2
	newStrs  []string // those the code had not when dict.txt was written
	newInts  []int64
	strsText []string // strs and newStrs, quoted, for the dump
}

var dict = sync.OnceValue(func() *dictionary {
	d := &dictionary{}
	known := map[string]bool{}
	if b, err := os.ReadFile(filepath.Join(verifDir(), "harness", "dict.txt")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			known[l] = true
		}
	}
	strs, ints := map[string]bool{}, map[int64]bool{}
	repo := os.Getenv("REPO")
	if repo == "" {
		repo = "/repo"
	}
	fset := token.NewFileSet()
	filepath.WalkDir(repo, func(p string, e fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if e.IsDir() {
			if n := e.Name(); p != repo && (strings.HasPrefix(n, ".") || n == "testdata" || n == "vendor" || n == "parser") {
				return fs.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(fset, p, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				x, ok := intLit(n.X)
				y, ok2 := intLit(n.Y)
				if n.Op == token.SHL && ok && ok2 && y < 63 {
					ints[x<<y] = true
				}
				if n.Op == token.MUL && ok && ok2 {
					ints[x*y] = true
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.STRING, token.CHAR:
					if s, ok := strLit(n); ok && s != "" && len(s) <= 24 && utf8.ValidString(s) {
						strs[s] = true
					}
				case token.INT:
					if v, ok := intLit(n); ok && v > 2 {
						ints[v] = true
					}
				}
			}
			return true
		})
		return nil
	})
	for s := range strs {
		q := strconv.QuoteToASCII(s)
		d.strsText = append(d.strsText, q)
		if known[q] || len(known) == 0 {
			d.strs = append(d.strs, s)
		} else {
			d.newStrs = append(d.newStrs, s)
		}
	}
	for v := range ints {
		q := strconv.FormatInt(v, 10)
		d.strsText = append(d.strsText, q)
		if known[q] || len(known) == 0 {
			d.ints = append(d.ints, v)
		} else {
			d.newInts = append(d.newInts, v)
		}
	}
	sort.Strings(d.strs)
	sort.Strings(d.newStrs)
	sort.Strings(d.strsText)
	sort.Slice(d.ints, func(i, j int) bool { return d.ints[i] < d.ints[j] })
	sort.Slice(d.newInts, func(i, j int) bool { return d.newInts[i] < d.newInts[j] })
	return d
})

func intLit(e ast.Expr) (int64, bool) {
	if p, ok := e.(*ast.ParenExpr); ok {
		return intLit(p.X)
	}
	b, ok := e.(*ast.BasicLit)
	if !ok || b.Kind != token.INT {
		return 0, false
	}
	v, err := strconv.ParseInt(b.Value, 0, 64)
	return v, err == nil
}

func strLit(b *ast.BasicLit) (string, bool) {
	if b.Kind == token.CHAR {
		r, _, _, err := strconv.UnquoteChar(b.Value[1:len(b.Value)-1], '\'')
		return string(r), err == nil
	}
	s, err := strconv.Unquote(b.Value)
	return s, err == nil
}

// dictStr draws a string of the dictionary that keep accepts, "" if it has none.
func dictStr(rt *rapid.T, label string, keep func(string) bool) string {
	d := dict()
	from := d.strs
	if len(d.newStrs) > 0 && chance(rt, label+".new", 50) {
		from = d.newStrs
	}
	if len(from) == 0 {
		return ""
	}
	s := rapid.SampledFrom(from).Draw(rt, label+".dict")
	if keep != nil && !keep(s) {
		return ""
	}
	return s
}

// newWords reports whether the code has literals that dict.txt does not list.
func newWords() bool { return len(dict().newStrs) > 0 }

// dictInt draws an integer of the dictionary, or a neighbour of one, from lo to hi.
func dictInt(rt *rapid.T, label string, lo, hi int64) (int64, bool) {
	d := dict()
	from := d.ints
	if len(d.newInts) > 0 && chance(rt, label+".new", 70) {
		from = d.newInts
	}
	if len(from) == 0 {
		return 0, false
	}
	v := rapid.SampledFrom(from).Draw(rt, label+".dict") + int64(intn(rt, label+".off", -1, 1))
	return v, v >= lo && v <= hi
}

// size is lo to hi, at times a number of the dictionary up to most.
func size(rt *rapid.T, label string, lo, hi, most int) int {
	n := intn(rt, label, lo, hi)
	if n == hi && chance(rt, label+".d", 30) {
		if v, ok := dictInt(rt, label, int64(lo), int64(most)); ok {
			return int(v)
		}
	}
	return n
}
