package main

import (
	"fmt"
	"strings"
	"sync"
	"unicode"
)

// Characters: all that programs are known to treat in a special way, and a
// sample of the others. What holds for "any text" is tried with each of them.

var runeSet = sync.OnceValue(func() (r []rune) {
	for c := rune(1); c <= unicode.MaxRune; c++ {
		if c >= 0xD800 && c <= 0xDFFF {
			continue
		}
		switch {
		case c < 0x250, unicode.In(c, unicode.Z, unicode.Cc, unicode.Cf, unicode.White_Space, unicode.Nd, unicode.Pattern_White_Space, unicode.Variation_Selector) && c < 0xE0100,
			unicode.In(c, unicode.Quotation_Mark, unicode.Dash, unicode.Terminal_Punctuation, unicode.Bidi_Control, unicode.Noncharacter_Code_Point, unicode.Other_Default_Ignorable_Code_Point) && c < 0x10000,
			c >= 0xFF00 && c <= 0xFFFF, c >= 0x2000 && c < 0x2100, c >= 0xFE00 && c < 0xFE70,
			c&0xFFFF == 0, c&0xFFFF == 0xFFFF, c&0xFFFE == 0xFFFE,
			unicode.Is(unicode.Lo, c) && c%211 == 0, !unicode.Is(unicode.Lo, c) && c%53 == 0,
			unicode.SimpleFold(c) < 0x80 && unicode.SimpleFold(c) != c, unicode.ToLower(c) < 0x80, unicode.ToUpper(c) < 0x80:
			r = append(r, c)
		}
	}
	return
})

// runePart is one eighth of these characters, but for the line ends and those
// that have a meaning within literals.
func runePart(n int) (r []rune) {
	for i, c := range runeSet() {
		if i%8 == n%8 && !strings.ContainsRune("'\\\r\n;}\"", c) {
			r = append(r, c)
		}
	}
	return
}

// runesDoc puts an eighth of the characters into every place for text.
func runesDoc(d *Doc, n int, tab func(*Table), act func(*Action)) (mid string) {
	part := runePart(n)
	var lits []string
	for i := 0; i < len(part); i += 100 {
		lits = append(lits, "'"+string(part[i:min(i+100, len(part))])+"'")
	}
	for _, c := range part {
		if unicode.In(c, unicode.Z, unicode.Cc, unicode.Cf, unicode.White_Space) && c < 0x10000 {
			lits = append(lits, "'"+string(c)+"'", "'"+string(c)+"a"+string(c)+"'", "'a"+string(c)+string(c)+"b'")
		}
	}
	x := &Ext{Name: "e", Alias: "e2", Braces: true}
	t := &Table{Name: "t"}
	a := &Action{Name: "a", Params: []string{"$p"}, Anns: []*Ann{{Name: "n"}}}
	ins := make([]string, len(lits))
	for i, l := range lits {
		x.Cfg = append(x.Cfg, KV{hx("k%d", i), l})
		t.Cols = append(t.Cols, &Col{hx("c%d", i), "text", []Attr{{"default", l}}})
		a.Anns[0].Attrs = append(a.Anns[0].Attrs, KV{hx("k%d", i), l})
		a.Stmts = append(a.Stmts, &Stmt{Call: &Call{Fn: "a", Args: []*Expr{lit(l)}}})
		ins[i] = "(" + l + ")"
	}
	a.Stmts = append(a.Stmts, &Stmt{SQL: "insert into t (c0) values " + strings.Join(ins, ", ")}, &Stmt{SQL: "select 1 /*" + strings.ReplaceAll(strings.Join(lits, " "), "*/", "* /") + "*/, 2"})
	d.Exts = append(d.Exts, x)
	tab(t)
	act(a)
	s := strings.ReplaceAll(strings.Join(lits, " "), "*/", "* /")
	return "// " + s + "\n/* " + s + " */"
}

// around are places in a source where a character may stand.
var around = []string{"database d;%s", "%sdatabase d;", "database%sd;", "database d%s;", "database d; table%st { a int }", "database d; table t { a%sint }", "database d; table t { a int,%s}",
	"database d; table t { a int min(%s1) }", "database d; table t { a int min(1%s) }", "database d; use e as%sx;", "database d; use e { k:%s1 } as x;", "database d; @n(a%s=1) action a() { select 1; }",
	"database d; action a($x%s) { select 1; }", "database d; action a() {%s select 1; }", "database d; action a() { a(1%s); }", "database d; action a() { a(1%s+ 2); }", "database d; init() { a(); }%s action a() { select 1; }"}

// everyRune decides the same of every character of an eighth at every such place.
func everyRune(n int, check func(src string) string) string {
	for _, f := range around {
		for _, c := range runePart(n) {
			s := strings.Replace(f, "%s", string(c), 1)
			if m := check(s); m != "" {
				return fmt.Sprintf("%q: %s", s, m)
			}
		}
	}
	return ""
}

// oddRune draws one of the characters.
func (g *G) oddRune() string {
	for {
		c := pickOf(g, runeSet()...)
		if !strings.ContainsRune("'\\\r\n;}\"`[]", c) {
			return string(c)
		}
	}
}
