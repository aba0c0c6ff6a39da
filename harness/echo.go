package main

import (
	"encoding/json"
	"strings"
)

// Echoes: parts of a document that occur again, the same or almost the same.
// Whatever remembers, abbreviates or compares parts of a document has to tell
// them apart (or treat them alike) only where it should.

func clone[T any](x T) (r T) {
	b, err := json.Marshal(x)
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		panic(err)
	}
	return
}

// quoted lists the index ranges of the insides of string literals ('…' with \ escapes).
func quoted(s string) (r [][2]int) {
	for i := 0; i < len(s); i++ {
		if s[i] != '\'' {
			continue
		}
		j := i + 1
		for j < len(s) && s[j] != '\'' {
			if s[j] == '\\' {
				j++
			}
			j++
		}
		if j >= len(s) {
			return
		}
		r = append(r, [2]int{i + 1, j})
		i = j
	}
	return
}

// alike makes a literal that differs from tok in one character (or not at all).
func (g *G) alike(tok string) string {
	if tok == "" {
		return tok
	}
	if tok[0] != '\'' {
		switch g.n(0, 3) {
		case 0:
			return tok + "0"
		case 1:
			return "0" + tok
		case 2:
			return tok[:len(tok)-1] + string('0'+(tok[len(tok)-1]-'0'+1)%10)
		}
		return tok
	}
	in := tok[1 : len(tok)-1]
	switch g.n(0, 5) {
	case 0:
		in += " "
	case 1:
		in = " " + in
	case 2:
		in = strings.Replace(in, " ", "  ", 1)
	case 3:
		in = swapCase(in)
	case 4:
		if g.smallLit {
			in += "1"
		} else {
			in += pickOf(g, strPieces[:20]...)
		}
	}
	r := "'" + in + "'"
	if !okLiteral(r) {
		return tok
	}
	return r
}

func okLiteral(s string) bool {
	q := quoted(s)
	return len(q) == 1 && q[0] == [2]int{1, len(s) - 1}
}

// swapCase changes the case of the ASCII letters that are not escaped.
func swapCase(s string) string {
	b := []byte(s)
	for i := 0; i < len(b); i++ {
		switch c := b[i]; {
		case c == '\\':
			i++
		case c >= 'a' && c <= 'z':
			b[i] = c - 32
		case c >= 'A' && c <= 'Z':
			b[i] = c + 32
		}
	}
	return string(b)
}

// alikeSQL changes a statement so little that it stays valid: the blanks of
// some gap (or in a literal), or a letter of one of the known literals.
func (g *G) alikeSQL(s string) string {
	switch g.n(0, 4) {
	case 0: // a blank somewhere
		var at []int
		for i, c := range s {
			if c == ' ' {
				at = append(at, i)
			}
		}
		if len(at) > 0 {
			i := at[g.n(0, len(at)-1)]
			return s[:i] + " " + s[i:]
		}
	case 1:
		return strings.NewReplacer("'a'", "'A'", "'hello world'", "'hello  world'", "'SELECT'", "'select'", "'x'", "'X'", "'$a'", "'$A'", "'  '", "' '").Replace(s)
	case 2: // another ending
		return s + pickOf(g, " ", "  ", "\n", " /* 2 */", "\t")
	case 3:
		i := strings.IndexAny(s, " \n\t\r")
		if i > 0 {
			return swapCase(s[:i]) + s[i:]
		}
	}
	return s
}

func eachLit(e *Expr, f func(*Expr)) {
	if e.Op == "lit" {
		f(e)
	}
	for _, a := range e.Args {
		eachLit(a, f)
	}
}

func (g *G) alikeCall(c *Call) {
	var lits []*Expr
	for _, a := range c.Args {
		eachLit(a, func(e *Expr) { lits = append(lits, e) })
	}
	if len(lits) > 0 {
		l := lits[g.n(0, len(lits)-1)]
		l.Tok = g.alike(l.Tok)
	}
}

func (g *G) alikeStmt(s *Stmt) *Stmt {
	s = clone(s)
	if s.Call != nil {
		g.alikeCall(s.Call)
	} else {
		s.SQL = g.alikeSQL(s.SQL)
	}
	return s
}

// alikeKVs changes one value.
func (g *G) alikeKVs(kvs []KV) {
	if len(kvs) > 0 {
		i := g.n(0, len(kvs)-1)
		kvs[i].V = g.alike(kvs[i].V)
	}
}

// unlike draws a name that is not among used ones, close to s.
func (g *G) unlike(s string, used map[string]bool) string {
	ns := newNames()
	for u := range used {
		ns.used[u] = true
	}
	ns.order = []string{s}
	return g.name(ns)
}

// echo adds a few repetitions to a valid document; it stays valid.
func (g *G) echo(d *Doc) {
	for k := g.n(1, 4); k > 0; k-- {
		var tabs, acts, bodies []*Decl
		tn, an := map[string]bool{}, map[string]bool{}
		for _, x := range d.Decls {
			switch {
			case x.Table != nil:
				tabs = append(tabs, x)
				tn[x.Table.Name] = true
			case x.Action.IsInit:
				bodies = append(bodies, x)
			default:
				acts = append(acts, x)
				bodies = append(bodies, x)
				an[x.Action.Name] = true
			}
		}
		put := func(x *Decl) {
			if len(d.Decls) > 40 {
				return
			}
			pos := g.n(0, len(d.Decls))
			d.Decls = append(d.Decls[:pos:pos], append([]*Decl{x}, d.Decls[pos:]...)...)
		}
		switch g.n(0, 7) {
		case 0, 1: // a statement again, in the same body
			if len(bodies) == 0 {
				continue
			}
			a := bodies[g.n(0, len(bodies)-1)].Action
			if len(a.Stmts) == 0 || len(a.Stmts) > 60 {
				continue
			}
			i := g.n(0, len(a.Stmts)-1)
			pos := g.n(i+1, len(a.Stmts))
			a.Stmts = append(a.Stmts[:pos:pos], append([]*Stmt{g.alikeStmt(a.Stmts[i])}, a.Stmts[pos:]...)...)
		case 2: // SQL again, in another body
			if len(bodies) < 2 {
				continue
			}
			a, b := bodies[g.n(0, len(bodies)-1)].Action, bodies[g.n(0, len(bodies)-1)].Action
			for _, s := range a.Stmts {
				if s.Call == nil && len(b.Stmts) < 60 {
					pos := g.n(0, len(b.Stmts))
					b.Stmts = append(b.Stmts[:pos:pos], append([]*Stmt{g.alikeStmt(s)}, b.Stmts[pos:]...)...)
					break
				}
			}
		case 3: // a table again
			if len(tabs) == 0 {
				continue
			}
			t := clone(tabs[g.n(0, len(tabs)-1)].Table)
			t.Name = g.unlike(t.Name, tn)
			switch g.n(0, 3) {
			case 0:
				c := t.Cols[g.n(0, len(t.Cols)-1)]
				if len(c.Attrs) > 0 {
					i := g.n(0, len(c.Attrs)-1)
					if c.Attrs[i].Val != "" {
						c.Attrs[i].Val = g.alike(c.Attrs[i].Val)
					} else {
						c.Attrs = append(c.Attrs[:i:i], c.Attrs[i+1:]...)
					}
				}
			case 1:
				if len(t.Items) > 0 {
					i := g.n(0, len(t.Items)-1)
					if x := t.Items[i].Idx; x != nil {
						x.Kind = pickOf(g, "index", "unique", "primary")
					} else {
						t.Items[i].FK.Acts = g.fkActs()
					}
				}
			case 2:
				if len(t.Items) > 0 {
					i := g.n(0, len(t.Items)-1)
					t.Items = append(t.Items[:i:i], t.Items[i+1:]...)
				}
			}
			put(&Decl{Table: t})
		case 4, 5: // an action again
			if len(acts) == 0 {
				continue
			}
			a := clone(acts[g.n(0, len(acts)-1)].Action)
			a.Name = g.unlike(a.Name, an)
			switch g.n(0, 3) {
			case 0:
				i := g.n(0, len(a.Stmts)-1)
				a.Stmts[i] = g.alikeStmt(a.Stmts[i])
			case 1:
				a.Mods = g.mods()
			case 2:
				if len(a.Anns) > 0 {
					g.alikeKVs(a.Anns[g.n(0, len(a.Anns)-1)].Attrs)
				}
			}
			put(&Decl{Action: a})
		case 6: // an extension again
			if len(d.Exts) == 0 || len(d.Exts) > 60 {
				continue
			}
			en := map[string]bool{}
			for _, x := range d.Exts {
				en[x.Alias] = true
			}
			x := clone(d.Exts[g.n(0, len(d.Exts)-1)])
			if g.p(3) { // written without blanks the two are the same
				y := &Ext{Name: x.Name + "as", Alias: x.Alias}
				x.Alias = "as" + x.Alias
				if !reserved(y.Name) && !reserved(y.Alias) && !reserved(x.Alias) && !en[x.Alias] {
					y.Alias = x.Alias[2:]
					x.Name = y.Name[:len(y.Name)-2]
				}
			}
			if en[x.Alias] {
				x.Alias = g.unlike(x.Alias, en)
			}
			if g.b() {
				g.alikeKVs(x.Cfg)
			}
			pos := g.n(0, len(d.Exts))
			d.Exts = append(d.Exts[:pos:pos], append([]*Ext{x}, d.Exts[pos:]...)...)
		default: // an annotation again
			for _, x := range acts {
				a := x.Action
				if len(a.Anns) > 0 && len(a.Anns) < 40 {
					y := clone(a.Anns[g.n(0, len(a.Anns)-1)])
					if g.b() {
						g.alikeKVs(y.Attrs)
					}
					pos := g.n(0, len(a.Anns))
					a.Anns = append(a.Anns[:pos:pos], append([]*Ann{y}, a.Anns[pos:]...)...)
					break
				}
			}
		}
	}
}

// fused adds two calls whose tokens, written without white space, read the
// same; the second one is not valid.
func (g *G) fused(d *Doc) {
	fn := pickOf(g, callFns[:4]...)
	arg := pickOf(g, &Expr{Op: "lit", Tok: g.number()}, &Expr{Op: "lit", Tok: "'x'"}, &Expr{Op: "blk", Tok: "@caller"})
	calls := []*Stmt{
		{Call: &Call{Fn: "fus", Args: []*Expr{{Op: "un", Tok: "not", Args: []*Expr{{Op: "fn", Tok: fn, Args: []*Expr{arg}}}}}}},
		{Call: &Call{Fn: "fus", Args: []*Expr{{Op: "fn", Tok: "not" + fn, Args: []*Expr{arg}}}}},
	}
	if g.b() {
		calls[0], calls[1] = calls[1], calls[0]
	}
	a := &Action{Name: "fus", Mods: g.mods(), Stmts: calls}
	pos := g.n(0, len(d.Decls))
	if g.b() {
		b := &Action{Name: "fus2", Mods: g.mods(), Stmts: calls[1:]}
		a.Stmts = calls[:1:1]
		d.Decls = append(d.Decls, &Decl{Action: b})
	}
	d.Decls = append(d.Decls[:pos:pos], append([]*Decl{{Action: a}}, d.Decls[pos:]...)...)
}
