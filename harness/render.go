package main

import (
	"strings"
)

// tokens of a document; sql: the token before its semicolon, nothing may come between
type tok struct {
	s   string
	sql bool
}

func (d *Doc) toks() []tok {
	var out []tok
	w := func(ss ...string) {
		for _, s := range ss {
			out = append(out, tok{s: s})
		}
	}
	list := func(xs []string) {
		for i, x := range xs {
			if i > 0 {
				w(",")
			}
			w(x)
		}
	}
	w("database", d.Name, ";")
	for _, x := range d.Exts {
		w("use", x.Name)
		if x.Braces {
			w("{")
			for i, kv := range x.Cfg {
				if i > 0 {
					w(",")
				}
				w(kv.K, ":", kv.V)
			}
			w("}")
		}
		w("as", x.Alias, ";")
	}
	body := func(st []*Stmt) {
		w("{")
		for _, s := range st {
			if s.Call != nil {
				w(s.Call.toks()...)
			} else {
				out = append(out, tok{s.SQL, true})
				w(";")
			}
		}
		w("}")
	}
	for _, dc := range d.Decls {
		switch {
		case dc.Table != nil:
			t := dc.Table
			w("table", t.Name, "{")
			for i, c := range t.Cols {
				if i > 0 {
					w(",")
				}
				w(c.Name, c.Type)
				for _, a := range c.Attrs {
					w(a.Kind)
					if attrHasVal(a.Kind) {
						w("(", a.Val, ")")
					}
				}
			}
			for _, it := range t.Items {
				w(",")
				if it.Idx != nil {
					w("#"+it.Idx.Name, it.Idx.Kind, "(")
					list(it.Idx.Cols)
					w(")")
					continue
				}
				f := it.FK
				if f.Long {
					w("foreign_key", "(")
				} else {
					w("fk", "(")
				}
				list(f.Child)
				if f.LongRef {
					w(")", "references")
				} else {
					w(")", "ref")
				}
				w(f.Parent, "(")
				list(f.ParentCols)
				w(")")
				for _, a := range f.Acts {
					w(a.On)
					if a.Kw {
						w("do")
					}
					w(a.Do)
				}
			}
			if t.Trailing {
				w(",")
			}
			w("}")
		case dc.Action.IsInit:
			w("init", "(", ")")
			body(dc.Action.Stmts)
		default:
			a := dc.Action
			for _, n := range a.Anns {
				w("@"+n.Name, "(")
				for i, kv := range n.Attrs {
					if i > 0 {
						w(",")
					}
					w(kv.K, "=", kv.V)
				}
				w(")")
			}
			w("action", a.Name, "(")
			list(a.Params)
			w(")")
			w(a.Mods...)
			body(a.Stmts)
		}
	}
	return out
}

// Layout decides what stands between tokens.
type Layout struct {
	style int      // 0 tight, 1 single blanks, 2 readable, 3 pool of wild separators
	pool  []string // non-empty separators
	g     *G
	head  string
	tail  string
	eol   string
}

func (g *G) layout() *Layout {
	l := &Layout{style: g.n(0, 4), g: g}
	if l.style == 4 {
		l.style = 3
	}
	if l.style == 3 {
		for i := g.n(2, 6); i > 0; i-- {
			l.pool = append(l.pool, g.separator())
		}
		if g.b() {
			l.head = g.separator()
		}
		if g.b() {
			l.tail = g.separator()
			if g.p(3) {
				l.tail += pickOf(g, "//", "// no newline at the end", "/**/", " ")
			}
		}
		if g.eol != "" {
			end := func(s *string) {
				*s = strings.Join(newlines.Split(*s, -1), g.eol)
				if g.eol == " " && strings.Contains(*s, "//") { // a comment needs its end
					*s = " "
				}
			}
			end(&l.head)
			end(&l.tail)
			for i := range l.pool {
				end(&l.pool[i])
			}
		}
	}
	l.eol = g.eol
	if l.eol == "" {
		l.eol = "\n"
	}
	return l
}

var commentText = []string{"", " c ", "x", ";", "}", "{", "select 1;", "'", "\"", "database x;", "table t {", "//", "*", "**", "/", "/*", "é", "中文 😀", "\t", "$a", "@x()", "#i", "insert into", "\\", "\\'", "--", "init() {", " action a() public { select 1; } ", ",", "use x as y;", "\u2028", "TODO: a_b", "line 1:1"}

func (g *G) comment() string {
	n := g.n(0, 2)
	var sb strings.Builder
	for i := 0; i <= n; i++ {
		if g.p(16) {
			sb.WriteString(g.oddRune())
		}
		if g.p(16) || g.newTexts(8) {
			sb.WriteString(g.dictText())
		}
		sb.WriteString(pickOf(g, commentText...))
	}
	s := sb.String()
	if g.b() {
		if g.p(3) {
			s += "\n" + s + "\r\n"
		}
		s = strings.ReplaceAll(s, "*/", "* /")
		if strings.HasSuffix(s, "*") && g.b() {
			s += " "
		}
		return "/*" + s + "*/"
	}
	return "//" + s + pickOf(g, "\n", "\r\n", "\r")
}

func (g *G) separator() string {
	var sb strings.Builder
	for i := g.n(1, 3); i > 0; i-- {
		switch g.n(0, 2) {
		case 0:
			sb.WriteString(pickOf(g, " ", "\t", "\n", "\r\n", "\r", "  ", "\n\n", " \t", "\t\n    "))
		case 1:
			sb.WriteString(g.comment())
		default:
			sb.WriteString(pickOf(g, " ", "\n", "\r\n"))
		}
	}
	return sb.String()
}

func render(toks []tok, l *Layout) string {
	var b strings.Builder
	b.WriteString(l.head)
	for i, t := range toks {
		if i > 0 && !toks[i-1].sql {
			prev := toks[i-1].s
			need := fuses(prev, t.s) || t.sql && isWordByte(prev[len(prev)-1])
			sep := ""
			switch l.style {
			case 0:
				if need {
					sep = " "
				}
			case 1:
				sep = " "
			case 2:
				switch {
				case prev == ";" || prev == "{" || prev == "}":
					sep = l.eol
				case need || prev == ",":
					sep = " "
				}
			case 3:
				k := l.g.n(-len(l.pool)/2, len(l.pool)-1)
				if k >= 0 {
					sep = l.pool[k]
				} else if need {
					sep = " "
				}
				if sep != "" && sep[0] == '/' && strings.HasSuffix(prev, "/") {
					sep = " " + sep
				}
			}
			b.WriteString(sep)
		}
		b.WriteString(t.s)
	}
	b.WriteString(l.tail)
	return b.String()
}

func (d *Doc) src(l *Layout) string { return render(d.toks(), l) }

// plainSrc renders without any draw.
func (d *Doc) plainSrc() string { return render(d.toks(), &Layout{style: 2, eol: "\n"}) }
