package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"io/fs"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"unicode"

	"github.com/kwilteam/kuneiform/kfparser"
)

// The dictionary: names, texts, characters and numbers that the code under test
// itself mentions. What it compares its input with is where it may go wrong,
// and random text would never hit it. It only widens what is generated; no
// verdict depends on it.

//
// dictbase.txt is the dictionary of the tree the harness was written for. What
// the tree at hand has beyond it is new, and so more likely to be wrong: it is
// tried more often.

type dictT struct {
	words, texts []string // words may start or end with underscores
	runes        []rune
	ints         []int
	fresh        *dictT // the part of it that is not in dictbase.txt
}

//go:embed dictbase.txt
var dictBase string

var wordRe = regexp.MustCompile(`_*[A-Za-z][A-Za-z0-9_]*`)

// repoDir is where the code under test was compiled from.
func repoDir() string {
	f, _ := runtime.FuncForPC(reflect.ValueOf(kfparser.Parse).Pointer()).FileLine(reflect.ValueOf(kfparser.Parse).Pointer())
	return filepath.Dir(filepath.Dir(f))
}

var dict = sync.OnceValue(func() *dictT {
	words, texts, runes, ints := map[string]bool{}, map[string]bool{}, map[rune]bool{}, map[int]bool{}
	str := func(s string) {
		if len(s) > 200 {
			return
		}
		ws := wordRe.FindAllString(s, -1)
		if len(ws) <= 4 {
			for _, w := range ws {
				words[w] = true
			}
		}
		ok := s != "" && len(s) <= 40
		for _, r := range s {
			ok = ok && r != unicode.ReplacementChar
			if r > 126 || r < 32 {
				runes[r] = true
			}
		}
		if ok {
			texts[s] = true
		}
	}
	var eval func(e ast.Expr) constant.Value
	eval = func(e ast.Expr) (v constant.Value) {
		defer func() {
			if recover() != nil {
				v = constant.MakeUnknown()
			}
		}()
		switch e := e.(type) {
		case *ast.BasicLit:
			return constant.MakeFromLiteral(e.Value, e.Kind, 0)
		case *ast.ParenExpr:
			return eval(e.X)
		case *ast.BinaryExpr:
			x, y := eval(e.X), eval(e.Y)
			if e.Op == token.SHL || e.Op == token.SHR {
				n, _ := constant.Uint64Val(y)
				if n > 40 {
					return constant.MakeUnknown()
				}
				return constant.Shift(x, e.Op, uint(n))
			}
			return constant.BinaryOp(x, e.Op, y)
		}
		return constant.MakeUnknown()
	}
	filepath.WalkDir(repoDir(), func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			if n := d.Name(); n == ".git" || n == "vendor" || n == "testdata" || n == "node_modules" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, nil, parser.ParseComments|parser.SkipObjectResolution)
		if f == nil || err != nil || ast.IsGenerated(f) {
			return nil
		}
		imports := map[ast.Node]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				imports[n.Path] = true
				return false
			case *ast.Field:
				if n.Tag != nil {
					imports[n.Tag] = true
				}
			case *ast.BinaryExpr:
				if v := eval(n); v.Kind() == constant.Int {
					if i, ok := constant.Int64Val(v); ok && i > 1 && i < 1<<20 {
						ints[int(i)] = true
					}
				}
			case *ast.BasicLit:
				if imports[n] {
					return true
				}
				v := constant.MakeFromLiteral(n.Value, n.Kind, 0)
				switch n.Kind {
				case token.STRING:
					str(constant.StringVal(v))
				case token.CHAR:
					if i, ok := constant.Int64Val(v); ok {
						runes[rune(i)] = true
					}
				case token.INT:
					if i, ok := constant.Int64Val(v); ok && i > 1 && i < 1<<20 {
						ints[int(i)] = true
						if i < 0x3000 {
							runes[rune(i)] = true
						}
					}
				}
			}
			return true
		})
		return nil
	})
	for r := range runes {
		if r <= 0 || r >= 0xD800 && r <= 0xDFFF {
			delete(runes, r)
		}
	}
	d := &dictT{sortedKeys(words), sortedKeys(texts), sortedNums(runes), sortedNums(ints), nil}
	for _, l := range strings.Split(dictBase, "\n") {
		if len(l) < 3 {
			continue
		}
		v, err := strconv.Unquote(l[2:])
		if err != nil {
			continue
		}
		n, _ := strconv.Atoi(v)
		switch l[0] {
		case 'w':
			delete(words, v)
		case 't':
			delete(texts, v)
		case 'r':
			delete(runes, rune(n))
		case 'i':
			delete(ints, n)
		}
	}
	d.fresh = &dictT{sortedKeys(words), sortedKeys(texts), sortedNums(runes), sortedNums(ints), nil}
	return d
})

func sortedNums[T ~int | ~int32](m map[T]bool) (r []T) {
	for n := range m {
		r = append(r, n)
	}
	slices.Sort(r)
	return
}

// dictDump is the text of dictbase.txt.
func dictDump() string {
	var b strings.Builder
	d := dict()
	for _, w := range d.words {
		fmt.Fprintf(&b, "w %q\n", w)
	}
	for _, w := range d.texts {
		fmt.Fprintf(&b, "t %q\n", w)
	}
	for _, n := range d.runes {
		fmt.Fprintf(&b, "r \"%d\"\n", n)
	}
	for _, n := range d.ints {
		fmt.Fprintf(&b, "i \"%d\"\n", n)
	}
	return b.String()
}

func dictInts() []int { return dict().ints }

// pickDict picks one, every other time one that is new.
func pickDict[T any](g *G, all, fresh []T) T {
	if len(fresh) > 0 && g.b() {
		return pickOf(g, fresh...)
	}
	return pickOf(g, all...)
}

// news is true now and then if there are new words.
func (g *G) news(n int) bool { return len(dict().fresh.words) > 0 && g.p(n) }

// newTexts is true now and then if there is anything new for a text.
func (g *G) newTexts(n int) bool {
	f := dict().fresh
	return len(f.words)+len(f.texts)+len(f.runes)+len(f.ints) > 0 && g.p(n)
}

// dictName makes a name of a word.
func (g *G) dictName() string {
	d := dict()
	if len(d.words) == 0 {
		return "a"
	}
	w := pickDict(g, d.words, d.fresh.words)
	if alpha(w[0]) {
		switch g.n(0, 11) {
		case 0:
			return strings.ToUpper(w)
		case 1:
			return strings.ToLower(w)
		case 2:
			return g.near(w)
		case 3, 4:
			return w + pickOf(g, "_", "a", "1", "_x", "s", "users")
		case 5, 6:
			return pickOf(g, "a", "x_", "my_", "Z", "on") + w
		}
		return w
	}
	w = pickOf(g, "a", "x", "my", "Z9") + w
	switch g.n(0, 4) {
	case 0:
		return w + pickOf(g, "_", "a", "1", "_x", "s")
	case 1:
		return g.near(w)
	}
	return w
}

// dictText is a text for the inside of a literal or comment.
func (g *G) dictText() string {
	d := dict()
	s := ""
	switch k := g.n(0, 4); {
	case k == 0 && len(d.runes) > 0:
		s = string(pickDict(g, d.runes, d.fresh.runes))
	case k == 1 && len(d.words) > 0:
		s = pickDict(g, d.words, d.fresh.words)
	case k == 2 && len(d.ints) > 0:
		s = hx("%d", pickDict(g, d.ints, d.fresh.ints)+g.n(-1, 1))
	case len(d.texts) > 0:
		s = pickDict(g, d.texts, d.fresh.texts)
	}
	return strings.Map(func(r rune) rune {
		if strings.ContainsRune("'\\\r\n;}\"`[]", r) {
			return -1
		}
		return r
	}, s)
}

// dictFile is a name for a file.
func (g *G) dictFile() string {
	return strings.Map(func(r rune) rune {
		if r == '/' || r == 0 {
			return -1
		}
		return r
	}, g.dictText())
}
