package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/kwilteam/kuneiform/utils"
	"pgregory.net/rapid"
)

var soup = append(append([]string{" ", "\n", "\t", "database d;", "use e as x;", "table t {", "id int", "action a(", "$p", ") public {", "select 1;", "init() {", "}", "a($p);", "x.m(1);", "@n(k=1)", "#i index(id)", "fk (id) ref t(id)", "not ", "lower(", "insert into t values (1);", "'s'", "42", "on_delete do cascade", "minlen(3)", "{", "}", "(", ")", ",", ";"}, symPool...), kwCS...)

func (g *G) soupText(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if g.p(12) || g.newTexts(6) {
			b.WriteString(g.dictText())
		} else {
			b.WriteString(pickOf(g, soup...))
		}
		if g.p(3) {
			b.WriteByte(' ')
		}
	}
	return b.String()
}

// stretch repeats a piece inside a plausible context.
func (g *G) stretch() string {
	n := g.n(50, 1200)
	rep := func(s string) string { return strings.Repeat(s, n) }
	switch g.n(0, 19) {
	case 0:
		return "database d; action a($p) public { a(" + rep("(") + "$p" + rep(")") + "); }"
	case 1:
		return "database d; action a($p) public { a(" + rep("lower(") + "$p" + rep(")") + "); }"
	case 2:
		return "database d; action a($p) public { a(" + rep(pickOf(g, "-", "not ", "+", "- not ")) + "$p); }"
	case 3:
		return "database d; action a($p) public { a($p" + rep(pickOf(g, " + 1", " and $p", "*$p", " or 'x'", " = 1", "<1")) + "); }"
	case 4:
		return "database d; action a($p) public { a(" + rep(pickOf(g, "(", "lower(", "((", "-(", "not (")) + "$p; }"
	case 5:
		return "database d; table t { " + rep("id int, ") + "}"
	case 6:
		return rep(pickOf(g, "database d;", "{", "}", "(", ")", ";", "'", "\\", "#", "$", "@", "/*", "*/", "//", "use ", "table t {", "action a() {", "é", "/", "*", "init", "not ", "\r"))
	case 7:
		return "database d; " + rep(pickOf(g, "use e as x;", "init() { select 1; }", "@a(b=1) ", "table t { id int } ", "action a() { select 1; } "))
	case 8:
		return "database d; action a() " + rep(pickOf(g, "public ", "view ", "owner ", "private ")) + "{ select 1; }"
	case 9:
		return "database d; table t { id int " + rep(pickOf(g, "primary ", "min(1) ", "default('x') ", "notnull unique ")) + "}"
	case 10:
		return "database d; table t { id int, fk (id) ref t(id) " + rep(pickOf(g, "on_update do cascade ", "on_delete restrict ")) + "}"
	case 11:
		return "database d; action a() { select " + rep(pickOf(g, "1 + ", "1, ", "not ", "- ", "id and ")) + "1; }"
	case 12:
		return "database d; action a() { insert into t values " + rep("(1, 'x'), ") + "(1, 'y'); }"
	case 13:
		return "database d; action a(" + rep("$p, ") + "$q) { select 1; }"
	case 14:
		return "database d; use e {" + rep("k: 1, ") + "k: '" + rep("\\'") + "'} as x;"
	case 15:
		return "database d; use e as x; action a() { " + rep("$v, ") + "$w = x.m(); }"
	case 16:
		return "database d; action a() { a(" + rep("a, ") + "1); }"
	case 17:
		return "database d; @a(b='" + rep(pickOf(g, "\\\\", "\\'", "x", ",", "(", "=")) + "') action a() { select 1; }"
	case 18:
		return "database " + rep("d") + "; table " + rep("t") + " { " + rep("c") + " int default(" + rep("9") + ") }"
	}
	return "database d; table t { id int, " + rep("#i index(id), ") + "#j index(" + rep("id, ") + "id) }"
}

func init() {
	register(&Prop{ID: "C14", Quick: 20000, Thorough: 1500000,
		Rule: "random bytes, random runs of the language's pieces, corrupted documents, rule-breaking documents, pieces repeated up to 1200 times, and texts for the annotation reader; every one must give a schema with JSON or an error, without a panic, within 30 s of CPU. Parentheses inside SQL nest at most 8 deep (known finding). Non-trivial: not empty.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			c := &Case{}
			switch g.n(0, 11) {
			case 0:
				c.Kind = "bytes"
				b := rapid.SliceOfN(rapid.Byte(), 0, 120).Draw(t, "bytes")
				if g.b() {
					b = append([]byte("database d;"), b...)
				}
				c.Raw = b
				if utf8.Valid(b) {
					c.Src, c.Raw = limitSQLParens(string(b)), nil
				}
			case 1, 2:
				c.Kind = "soup"
				c.Src = g.soupText(g.n(0, 40))
				if g.b() {
					c.Src = "database d;" + c.Src
				}
			case 3, 4:
				c.Kind = "corrupted"
				c.Src, _ = g.syntaxCase(true)
			case 5:
				c.Kind = "rule-breaking"
				c.Src = g.denseDoc(dense{true, true, true, true, true, true, 3, 3, 3, 4}).src(g.layout())
			case 6:
				c.Kind = "sql"
				bad := ""
				if g.b() {
					bad, _, _ = g.bannedStmt()
				} else {
					bad = g.brokenStmt("")
				}
				c.Src = "database d; action a($a) { " + bad + "; } init() { " + g.brokenStmt("") + "; }"
			case 7:
				c.Kind = "stretch"
				c.Src = g.stretch()
				if g.p(3) {
					c.Src = strings.Replace(c.Src, "a($p) public", "a($q) public", 1) // an unknown variable in the depth
				}
			case 8, 9:
				c.Kind = "annotation"
				if g.b() {
					c.Src = g.soupText(g.n(0, 8))
				} else {
					c.Src = g.ann().text()
					c.Src = g.corruptText(c.Src, g.n(0, 2))
				}
				if g.p(3) {
					c.Src += ")"
				}
			case 10:
				c.Kind = "broken-utf8"
				s, _ := g.syntaxCase(false)
				b := []byte(s)
				for i := g.n(1, 3); i > 0 && len(b) > 0; i-- {
					b[g.n(0, len(b)-1)] = byte(g.n(128, 255))
				}
				c.Raw = b
			default:
				c.Kind = "valid"
				g.chooseBig(3)
				c.Src = g.doc().src(g.layout())
			}
			if c.Kind != "annotation" {
				c.Src = limitSQLParens(c.Src)
			}
			c.label(c.Kind)
			c.Plain = c.Src == "" && len(c.Raw) == 0
			return c
		},
		Check: func(c *Case) string {
			src := c.Src
			if c.Raw != nil {
				src = string(c.Raw)
			}
			if c.Kind == "annotation" {
				var a *utils.Annotation
				var err error
				if p := call(func() { a, err = utils.ParseAnnotation(src) }); p != "" {
					return "reading an annotation panicked: " + p
				}
				if (a == nil) == (err == nil) {
					return fmt.Sprintf("reading an annotation gave %v and error %v", a, err)
				}
				return ""
			}
			if c.Kind == "nested" {
				src = c.Srcs[0] + strings.Repeat(c.Srcs[1], c.N) + c.Srcs[2] + strings.Repeat(c.Srcs[3], c.N) + c.Srcs[4]
			}
			return compile(src).total()
		},
		Extra: func(e *env) (int, int, *Failure, []string) {
			k := 100000
			if e.tier == "thorough" {
				k = 400000
			}
			in := [2]string{"database d; action a($p) public { a(", "); }"}
			cases := []*Case{
				{Srcs: []string{in[0], "(", "$p", ")", in[1]}},
				{Srcs: []string{in[0], "lower(", "$p", ")", in[1]}},
				{Srcs: []string{in[0], "not ", "$p", "", in[1]}},
				{Srcs: []string{in[0], "-", "1", "", in[1]}},
				{Srcs: []string{in[0], "", "$p", " + 1", in[1]}},
				{Srcs: []string{in[0], "(", "$p", "", in[1]}, Labels: []string{"short"}},
				{Srcs: []string{in[0], "", "$p", ")", in[1]}},
				{Srcs: []string{"database d; ", "table t { ", "id int", "}", ""}, Labels: []string{"short"}},
				{Srcs: []string{"database d; action a() { ", "{", "", "}", " }"}, Labels: []string{"short"}},
				{Srcs: []string{"database d; action a() { select ", "not ", "1", "", "; }"}, Labels: []string{"short"}},
				{Srcs: []string{"database d; action a() { select ", "", "1", " + 1", "; }"}, Labels: []string{"short"}},
				{Srcs: []string{"database d; action a() { select ", "", "1", ", 1", "; }"}},
				{Srcs: []string{"database d; action a() { select ", "case when 1 then ", "1", " end", "; }"}, Labels: []string{"few"}},
			}
			for _, c := range cases {
				c.Prop, c.Kind, c.N = "C14", "nested", k
				for _, l := range c.Labels {
					switch l {
					case "short": // quadratic in the SQL dialect's parser or in the recovery from errors
						c.N = k / 25
					case "few":
						c.N = 8
					}
				}
				c.label("huge-nested")
				st, msg := runOne(c, scratchDir())
				switch st {
				case oneViolated:
					for c.N > 2 {
						c2 := *c
						c2.N /= 2
						st2, msg2 := runOne(&c2, scratchDir())
						if st2 != oneViolated {
							break
						}
						c, msg = &c2, msg2
					}
					return len(cases), len(cases), &Failure{c, msg}, nil
				case oneError:
					return len(cases), len(cases), nil, []string{"nested: " + clip(msg, 300)}
				}
			}
			return len(cases), len(cases), nil, []string{fmt.Sprintf("%d kinds of nesting, up to %d deep", len(cases), k)}
		},
	})
}

// total: exactly one of a schema with JSON and an error.
func (o *Out) total() string {
	switch {
	case o.Panicked != "":
		return "compilation panicked: " + o.Panicked
	case o.Err != nil:
		if p := call(func() { _ = o.Err.Error() }); p != "" {
			return "the error's text panicked: " + p
		}
		if o.Err.Error() == "" {
			return "the error has no text"
		}
		return ""
	case o.Sch == nil && o.JSON == nil:
		return "neither a schema nor an error"
	case o.JSONErr != nil || len(o.JSON) == 0:
		return fmt.Sprintf("a schema without JSON: %v", o.JSONErr)
	}
	return ""
}
