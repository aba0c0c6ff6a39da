package main

import "strings"

// Faults that sit in a near copy of something correct: whoever remembers what
// was checked by less than all of it takes the copy for known.

// resplit spells the same letters as other names: [ab c] as [a bc], [abc], ...
func (g *G) resplit(xs []string) ([]string, bool) {
	glue := pickOf(g, "", "", "_")
	s := strings.Join(xs, glue)
	if glue != "" && g.b() {
		return []string{s}, !reserved(s)
	}
	var r []string
	n := len(xs) + g.n(-1, 1)
	for len(s) > 0 && len(r) < n-1 {
		k := g.n(1, len(s))
		if k < len(s) && !alpha(s[k]) {
			k++
		}
		if k >= len(s) || !alpha(s[k]) {
			break
		}
		r, s = append(r, s[:k]), s[k:]
	}
	r = append(r, s)
	for _, x := range r {
		if x == "" || reserved(x) {
			return nil, false
		}
	}
	return r, true
}

func alpha(c byte) bool { return c|32 >= 'a' && c|32 <= 'z' }

// bend changes one list of names a little.
func (g *G) bend(d *Doc, t *Table, xs []string) []string {
	if len(xs) == 0 {
		return xs
	}
	if g.b() {
		if r, ok := g.resplit(xs); ok {
			return r
		}
	}
	r := append([]string{}, xs...)
	switch i := g.n(0, len(r)-1); g.n(0, 3) {
	case 0:
		r[i] = g.near(r[i])
		if reserved(r[i]) {
			r[i] += "_"
		}
	case 1:
		r = append(r, g.otherCol(d, t, r[i]))
	default:
		r[i] = g.otherCol(d, t, r[i])
	}
	return r
}

func (t *Table) insert(g *G, it *TItem) {
	i := g.n(0, len(t.Items))
	if g.b() {
		i = len(t.Items)
	}
	t.Items = append(t.Items[:i:i], append([]*TItem{it}, t.Items[i:]...)...)
}

func (g *G) freshIndex(t *Table) string {
	ns := newNames()
	for _, x := range t.indexes() {
		ns.add(x.Name)
	}
	for _, c := range t.Cols {
		ns.add(c.Name)
	}
	return g.name(ns)
}

func twinFK(f func(g *G, d *Doc, t, p *Table, x *FK)) func(g *G, d *Doc) bool {
	return func(g *G, d *Doc) bool {
		t := g.pickTable(d, func(t *Table) bool { return len(t.fks()) > 0 })
		if t == nil {
			return false
		}
		x := clone(*pickOf(g, t.fks()...))
		var p *Table
		for _, y := range d.Tables() {
			if y.Name == x.Parent {
				p = y
			}
		}
		if p == nil {
			return false
		}
		f(g, d, t, p, &x)
		if g.p(4) { // in another table, whose columns it may not fit
			t = pickOf(g, d.Tables()...)
		}
		t.insert(g, &TItem{FK: &x})
		return true
	}
}

func addStmt(g *G, a *Action, c *Call) {
	i := g.n(0, len(a.Stmts))
	if g.b() {
		i = len(a.Stmts)
	}
	a.Stmts = append(a.Stmts[:i:i], append([]*Stmt{{Call: c}}, a.Stmts[i:]...)...)
}

func init() {
	mutators["C07"]["twin-table"] = func(g *G, d *Doc) bool {
		t := g.pickTable(d, func(t *Table) bool { return true })
		if t == nil {
			return false
		}
		n := clone(*t)
		if g.b() {
			n.Items = nil
		}
		i := g.n(0, len(d.Decls))
		d.Decls = append(d.Decls[:i:i], append([]*Decl{{Table: &n}}, d.Decls[i:]...)...)
		return true
	}
	mutators["C07"]["twin-index"] = func(g *G, d *Doc) bool {
		t := g.pickTable(d, func(t *Table) bool { return len(t.indexes()) > 0 })
		if t == nil {
			return false
		}
		x := clone(*pickOf(g, t.indexes()...))
		x.Kind = pickOf(g, "index", "unique", "primary")
		t.insert(g, &TItem{Idx: &x})
		return true
	}
	mutators["C08"]["twin-fk"] = twinFK(func(g *G, d *Doc, t, p *Table, x *FK) {
		switch g.n(0, 3) {
		case 0:
			x.Child = g.bend(d, t, x.Child)
		case 1, 2:
			x.ParentCols = g.bend(d, p, x.ParentCols)
		default:
			x.Child, x.ParentCols = x.ParentCols, x.Child
		}
	})
	mutators["C08"]["twin-index"] = func(g *G, d *Doc) bool {
		t := g.pickTable(d, func(t *Table) bool { return len(t.indexes()) > 0 })
		if t == nil {
			return false
		}
		x := clone(*pickOf(g, t.indexes()...))
		x.Name = g.freshIndex(t)
		x.Cols = g.bend(d, t, x.Cols)
		if g.p(3) {
			x.Kind = pickOf(g, "index", "unique", "primary")
		}
		if g.p(3) {
			t = pickOf(g, d.Tables()...)
			x.Name = g.freshIndex(t)
		}
		t.insert(g, &TItem{Idx: &x})
		return true
	}
	mutators["C12"]["twin-reaction"] = twinFK(func(g *G, d *Doc, t, p *Table, x *FK) {
		for n := g.n(1, 2); n > 0; n-- {
			i := g.n(0, len(x.Acts))
			a := FKAct{On: pickOf(g, "on_update", "on_delete"), Do: pickOf(g, fkDos...), Kw: g.b()}
			if len(x.Acts) > 0 && g.b() {
				a = pickOf(g, x.Acts...)
			}
			x.Acts = append(x.Acts[:i:i], append([]FKAct{a}, x.Acts[i:]...)...)
		}
	})
	mutators["C09"]["twin-call"] = func(g *G, d *Doc) bool {
		var as []*Action
		for _, a := range d.bodies() {
			for _, s := range a.Stmts {
				if s.Call != nil {
					as = append(as, a)
				}
			}
		}
		if len(as) == 0 {
			return false
		}
		a := pickOf(g, as...)
		var cs []*Call
		for _, s := range a.Stmts {
			if s.Call != nil {
				cs = append(cs, s.Call)
			}
		}
		c := clone(*pickOf(g, cs...))
		switch {
		case c.Ext == "":
			c.Fn = g.other(c.Fn, d.allNames())
		case g.p(3): // a method like an action call
			c.Ext, c.Recv = "", nil
		case g.p(3) && len(c.Recv) == 0: // alias and method swapped
			c.Ext, c.Fn = c.Fn, c.Ext
		default:
			c.Ext = g.other(c.Ext, d.allNames())
		}
		addStmt(g, a, &c)
		return true
	}
	mutators["C10"]["twin-call"] = func(g *G, d *Doc) bool { // another body, other variables
		c := g.pickCall(d, func(c *Call) bool { return len(c.Args) > 0 })
		if c == nil {
			return false
		}
		n := clone(*c)
		if g.p(3) {
			n.Recv = nil
		}
		addStmt(g, pickOf(g, d.bodies()...), &n)
		return true
	}
	mutators["C11"]["twin-column"] = func(g *G, d *Doc) bool {
		t := g.pickTable(d, func(t *Table) bool {
			for _, c := range t.Cols {
				if len(c.Attrs) > 0 {
					return true
				}
			}
			return false
		})
		if t == nil {
			return false
		}
		var cs []*Col
		for _, c := range t.Cols {
			if len(c.Attrs) > 0 {
				cs = append(cs, c)
			}
		}
		n := clone(*pickOf(g, cs...))
		ns := newNames()
		for _, x := range t.Cols {
			ns.add(x.Name)
		}
		for _, x := range t.indexes() {
			ns.add(x.Name)
		}
		n.Name = g.name(ns)
		if g.b() {
			n.Type = pickOf(g, "int", "text", "blob")
			for i := range n.Attrs {
				if n.Attrs[i].Kind == "default" {
					n.Attrs[i] = g.attr(n.Type, "default")
				}
			}
		} else {
			n.Attrs = append(n.Attrs, pickOf(g, n.Attrs...))
		}
		i := g.n(0, len(t.Cols))
		t.Cols = append(t.Cols[:i:i], append([]*Col{&n}, t.Cols[i:]...)...)
		return true
	}
}
