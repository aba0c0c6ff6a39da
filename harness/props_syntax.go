package main

import (
	"errors"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/kwilteam/kuneiform/utils"
	"pgregory.net/rapid"
)

var symPool = []string{":", ";", "(", "{", ")", "}", ",", "$", "#", "@", ".", "=", "+", "-", "*", "/", "%", "~", "||", "<<", ">>", "&", "|", "==", "<", "<=", ">", ">=", "!=", "<>",
	"!", "\"", "`", "?", "\\", "[", "]", "^", "_", "é", "中", "😀", "'", "''", "'x", "x'", "'\\", "/*", "*/", "//", "/* */", "--", "0", "1", "12a", "1.5", "-1", "a", "b_c", "_x", "$a", "$", "@a", "#i", "$1", "@caller", "select 1", "select", "SELECT", "insert into t", "with", "update ", "\u00a0", "\u2028", "\ufeff", "\x00", "\v", "\f", "\r"}

// anyToken draws a token or piece of text for corruptions.
func (g *G) anyToken() string {
	switch g.n(0, 5) {
	case 0, 1:
		return pickOf(g, symPool...)
	case 2, 3:
		return pickOf(g, kwCS...)
	case 4:
		return pickOf(g, kwCI...)
	}
	return g.rawName()
}

// sentence draws a document whose sentence need not obey the semantic rules.
func (g *G) sentence() *Doc {
	if g.b() {
		return g.denseDoc(dense{true, true, true, true, true, true, 2, 2, 2, 3})
	}
	g.chooseBig(10, "cols", "stmts", "params", "args", "depth", "exts", "tables")
	d := g.doc()
	if g.p(3) { // operators without meaning are still syntax
		if e := pickExpr(g, d); e != nil {
			old := *e
			*e = Expr{Op: "bin", Tok: pickOf(g, "||", "<<", ">>", "&", "|", "=="), Args: []*Expr{&old, {Op: "un", Tok: "~", Args: []*Expr{{Op: "lit", Tok: "1"}}}}}
		}
	}
	return d
}

// corruptToks changes a token list in n places.
func (g *G) corruptToks(ts []tok, n int) []tok {
	for ; n > 0 && len(ts) > 1; n-- {
		i := g.n(0, len(ts)-1)
		switch g.n(0, 6) {
		case 0, 1: // delete
			ts = append(ts[:i:i], ts[i+1:]...)
		case 2: // insert
			ts = append(ts[:i:i], append([]tok{{s: g.anyToken()}}, ts[i:]...)...)
		case 3: // replace
			ts = append(ts[:i:i], append([]tok{{s: g.anyToken()}}, ts[i+1:]...)...)
		case 4: // duplicate a stretch
			j := i + g.n(1, 6)
			if j > len(ts) {
				j = len(ts)
			}
			ts = append(ts[:j:j], ts[i:]...)
		case 5: // swap neighbours
			if i+1 < len(ts) {
				ts = append([]tok{}, ts...)
				ts[i], ts[i+1] = ts[i+1], ts[i]
			}
		default: // move a stretch elsewhere
			j := i + g.n(1, 8)
			if j > len(ts) {
				j = len(ts)
			}
			cut := append([]tok{}, ts[i:j]...)
			rest := append(ts[:i:i], ts[j:]...)
			k := g.n(0, len(rest))
			ts = append(rest[:k:k], append(cut, rest[k:]...)...)
		}
	}
	return ts
}

// corruptText changes the text in n places.
func (g *G) corruptText(s string, n int) string {
	for ; n > 0; n-- {
		r := []rune(s)
		i := g.n(0, len(r))
		switch g.n(0, 4) {
		case 0: // cut off
			s = string(r[:i])
		case 1: // delete a stretch
			j := i + g.n(1, 3)
			if j > len(r) {
				j = len(r)
			}
			s = string(r[:i]) + string(r[j:])
		case 2, 3:
			s = string(r[:i]) + pickOf(g, symPool...) + string(r[i:])
		default:
			if i < len(r) {
				s = string(r[:i]) + pickOf(g, symPool...) + string(r[i+1:])
			}
		}
	}
	return s
}

// syntaxCase draws a source that is a sentence, or nearly one.
func (g *G) syntaxCase(corrupt bool) (string, string) {
	d := g.sentence()
	kind := "sentence"
	ts := d.toks()
	if corrupt || g.n(0, 3) > 0 {
		kind = "tokens"
		if g.p(3) {
			kind = "text"
		} else {
			ts = g.corruptToks(ts, g.n(1, 2))
		}
	}
	s := render(ts, g.layout())
	if kind == "text" {
		s = g.corruptText(s, g.n(1, 2))
	}
	if kind != "sentence" && g.p(8) {
		s += pickOf(g, "garbage", "}", ";", " database d;", "$x", "'", "/*", "é", "select 1;", "use a as b;")
	}
	if kind != "sentence" && g.p(20) {
		s = pickOf(g, "", " ", "// nothing", "/* nothing */", "\n\n", ";", "database", "database x", "\ufeff"+s, "Database x;", "'")
	}
	if g.p(12) || g.newTexts(4) { // a foreign line around it
		kind = "framed"
		s = g.framed(s)
	}
	return limitSQLParens(s), kind
}

// framed puts a line before or after a source that is mostly no part of the language.
func (g *G) framed(s string) string {
	w := g.dictText()
	line := pickOf(g, w, "#!"+w, "#! /usr/bin/env "+w, "#"+w, "# "+w, "--"+w, "-- "+w, "---", "--- "+w, "%"+w, "@"+w, "@"+w+"()", "<!-- "+w+" -->", "\ufeff", "\ufeff"+w, "use "+w+";", "import "+w+";", "package "+w, "pragma "+w+";", "\x1a", "\x04", "\x00", "EOF", "__END__", "\\", "/", ";", "//"+w, "/*"+w+"*/", "\f", "\v", "\u00a0", "\u2028")
	switch g.n(0, 5) {
	case 0:
		return line + s
	case 1:
		return s + line
	case 2:
		return s + "\n" + line
	case 3:
		return s + "\n" + line + "\n" + pickOf(g, s, w, "anything (", "")
	}
	return line + pickOf(g, "\n", "\n", "\r\n", "\r") + s
}

// limitSQLParens keeps parentheses shallow: deep nesting inside SQL is the
// known finding of C14.
func limitSQLParens(s string) string {
	depth, run := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			depth++
			if depth > run {
				run = depth
			}
		case ')':
			if depth > 0 {
				depth--
			}
		case ';', '}':
			depth = 0
		}
	}
	if run <= 8 {
		return s
	}
	toks, _ := refLex(s)
	for _, t := range toks {
		if t.kind == "SQL" && parenDepth(t.text) > 8 {
			s = strings.Replace(s, t.text, strings.ReplaceAll(t.text, "(", " "), 1)
		}
	}
	return s
}

func parenDepth(s string) int {
	d, m := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
			if d > m {
				m = d
			}
		case ')':
			d--
		}
	}
	return m
}

func isSyntaxErr(err error) bool { return errors.Is(err, utils.ErrInvalidSyntax) }

func lineCol(r []rune, pos int) (int, int) {
	line, col := 1, 0
	for i := 0; i < pos; i++ {
		if r[i] == '\n' {
			line++
			col = 0
		} else {
			col++
		}
	}
	return line, col
}

var posRe = regexp.MustCompile(`line (\d+):(\d+)`)
var countRe = regexp.MustCompile(`\(with (\d+)\+? errors?\)$`)

func init() {
	register(&Prop{ID: "C06", Quick: 40000, Thorough: 2400000,
		Rule: "sentences of the grammar (semantically valid or not) and the same with one or two corruptions of tokens or characters; a reference lexer and an Earley recogniser written from the language decide. Forms only the generated parser knows (a list that starts with a comma) are left undecided. Non-trivial: every decided case but the empty source.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			s, kind := g.syntaxCase(false)
			c := &Case{Kind: kind, Src: s, Plain: s == ""}
			r := []rune(s)
			switch {
			case refSyntax(strictG, r) < 0:
				c.label("sentence")
			case refSyntax(lenientG, r) < 0:
				c.label("undecided")
				c.Plain = true
			default:
				c.label("not-a-sentence")
			}
			c.label(kind)
			return c
		},
		Check: func(c *Case) string {
			if c.Kind == "runes" {
				return everyRune(c.N, props["C06"].Check1)
			}
			return props["C06"].Check1(c.Src)
		},
		Check1: func(src string) string {
			r := []rune(src)
			o := compile(src)
			if o.Panicked != "" {
				return o.Panicked
			}
			if refSyntax(strictG, r) < 0 {
				if o.Err != nil && isSyntaxErr(o.Err) {
					return "a sentence of the grammar is reported as a syntax error: " + o.Err.Error()
				}
				return ""
			}
			if p := refSyntax(lenientG, r); p >= 0 {
				l, cl := lineCol(r, p)
				if o.Err == nil {
					return fmt.Sprintf("accepted, but the source is not a sentence of the grammar (line %d:%d)", l, cl)
				}
				if !isSyntaxErr(o.Err) {
					return fmt.Sprintf("not a sentence of the grammar (line %d:%d), but the error is not a syntax error: %v", l, cl, o.Err)
				}
			}
			return ""
		},
	})

	register(&Prop{ID: "C24", Quick: 40000, Thorough: 2400000,
		Rule: "sentences with one or two corruptions of tokens or characters, in layouts with all line endings, comments and non-ASCII text; the place of the first offending token or character comes from a reference lexer and an Earley recogniser. Non-trivial: the source is not a sentence.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			s, kind := g.syntaxCase(true)
			n := 0
			if g.p(6) { // a known number of errors: unreadable characters between the tokens of a sentence
				ts := g.sentence().toks()
				n = g.n(1, 4)
				var at []int
				for i := 0; i <= len(ts); i++ {
					if i == 0 || !ts[i-1].sql {
						at = append(at, i)
					}
				}
				ins := map[int]int{}
				for i := 0; i < n; i++ {
					ins[pickOf(g, at...)]++
				}
				var out []tok
				for i := 0; i <= len(ts); i++ {
					for k := ins[i]; k > 0; k-- {
						out = append(out, tok{s: pickOf(g, "?", "!", "\"", "[", "^", "é", "😀", "_")})
					}
					if i < len(ts) {
						out = append(out, ts[i])
					}
				}
				s, kind = render(out, &Layout{style: 1}), "counted"
			}
			c := &Case{Kind: kind, Src: s, N: n}
			r := []rune(s)
			p := refSyntax(strictG, r)
			c.Plain = p < 0 || refSyntax(lenientG, r) != p
			if !c.Plain {
				c.label("not-a-sentence")
				if l, _ := lineCol(r, p); l > 1 {
					c.label("beyond-line-1")
				}
				for _, x := range r[:p] {
					if x > 127 {
						c.label("non-ASCII-before")
						break
					}
				}
			}
			return c
		},
		Check: func(c *Case) string {
			if c.Kind == "runes" {
				return everyRune(c.N, func(src string) string { return firstError(&Case{Src: src}) })
			}
			return firstError(c)
		},
	})
}

// firstError compares the place of the first error with that of the reference.
func firstError(c *Case) string {
	r := []rune(c.Src)
	p := refSyntax(strictG, r)
	if p < 0 || refSyntax(lenientG, r) != p {
		return ""
	}
	l, cl := lineCol(r, p)
	o := compile(c.Src)
	if o.Panicked != "" {
		return o.Panicked
	}
	if o.Err == nil {
		return fmt.Sprintf("no error, but line %d:%d is wrong", l, cl)
	}
	msg := o.Err.Error()
	m := posRe.FindStringSubmatch(msg)
	if m == nil {
		return "the error names no position: " + msg
	}
	gl, _ := strconv.Atoi(m[1])
	gc, _ := strconv.Atoi(m[2])
	if _, bad := refLexRunes(r); bad > p { // a later unreadable character may be met first
		if bl, bc := lineCol(r, bad); gl == bl && gc == bc {
			l, cl = bl, bc
		}
	}
	if gl != l || gc != cl {
		return fmt.Sprintf("the first offending place is line %d:%d, but the error is: %s", l, cl, msg)
	}
	if !isSyntaxErr(o.Err) {
		return "the error is not a syntax error: " + msg
	}
	if c.Kind == "counted" && countRe.MatchString(msg) != (c.N > 1) {
		return fmt.Sprintf("there are %d errors, but the error is: %s", c.N, msg)
	}
	return ""
}
