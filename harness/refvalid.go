package main

import "strings"

// refErrs lists the rules a document breaks, by error kind.
func refErrs(d *Doc) []string { return sortedKeys(breaches(d)) }

// breaches lists the rules a document breaks: for every error kind the places,
// each as the words that tell which it is. It is written from the rules of the
// language and works on the model.
func breaches(d *Doc) map[string][][]string {
	bad := map[string][][]string{}
	report := func(kind string, words ...string) { bad[kind] = append(bad[kind], words) }
	dup := func(kind string, xs []string) {
		seen := map[string]bool{}
		for _, x := range xs {
			if seen[x] {
				report(kind, x)
			}
			seen[x] = true
		}
	}
	var al, tn, an []string
	for _, x := range d.Exts {
		al = append(al, x.Alias)
	}
	for _, t := range d.Tables() {
		tn = append(tn, t.Name)
	}
	for _, a := range d.Actions() {
		an = append(an, a.Name)
	}
	dup("dup-ext", al)
	dup("dup-table", tn)
	dup("dup-action", an)
	if len(d.Inits()) > 1 {
		report("multi-init")
	}
	colsOf := func(name string) (map[string]bool, bool) {
		found := false
		r := map[string]bool{}
		for _, t := range d.Tables() {
			if t.Name == name {
				found = true
				for _, c := range t.Cols {
					r[c.Name] = true
				}
			}
		}
		return r, found
	}
	for _, t := range d.Tables() {
		var cn, in []string
		own := map[string]bool{}
		for _, c := range t.Cols {
			cn = append(cn, c.Name)
			own[c.Name] = true
			var ks []string
			for _, a := range c.Attrs {
				ks = append(ks, attrJSON[a.Kind])
				if c.Type == "int" && (a.Kind == "minlen" || a.Kind == "maxlen") || c.Type == "text" && (a.Kind == "min" || a.Kind == "max") {
					report("attr-not-allowed", c.Type, attrJSON[a.Kind])
				}
			}
			dup("dup-attr", ks)
		}
		dup("dup-column", cn)
		for _, it := range t.Items {
			if x := it.Idx; x != nil {
				in = append(in, x.Name)
				if own[x.Name] {
					report("dup-index", x.Name)
				}
				for _, c := range x.Cols {
					if !own[c] {
						report("no-column", t.Name, c)
					}
				}
				continue
			}
			f := it.FK
			for _, c := range f.Child {
				if !own[c] {
					report("no-column", t.Name, c)
				}
			}
			pc, ok := colsOf(f.Parent)
			if !ok {
				report("no-table", f.Parent)
			} else {
				for _, c := range f.ParentCols {
					if !pc[c] {
						report("no-column", f.Parent, c)
					}
				}
			}
			var ons []string
			for _, a := range f.Acts {
				ons = append(ons, onJSON[a.On])
			}
			dup("dup-fk-action", ons)
		}
		dup("dup-index", in)
	}
	acts, exts := map[string]bool{}, map[string]bool{}
	for _, n := range an {
		acts[n] = true
	}
	for _, n := range al {
		exts[n] = true
	}
	for _, a := range d.bodies() {
		dup("dup-param", a.Params)
		var vis []string
		view, owner := 0, 0
		for _, m := range a.Mods {
			switch m {
			case "view":
				view++
			case "owner":
				owner++
			default:
				vis = append(vis, m)
			}
		}
		if len(vis) > 1 {
			for _, m := range vis {
				report("visibility", m)
			}
		}
		if view > 1 {
			report("mutability", "view")
		}
		if owner > 1 {
			report("auxiliary", "owner")
		}
		vars := map[string]bool{}
		for _, p := range a.Params {
			vars[p] = true
		}
		for _, s := range a.Stmts {
			c := s.Call
			if c == nil {
				continue
			}
			var walk func(e *Expr)
			walk = func(e *Expr) {
				switch {
				case e.Op == "var" && !vars[e.Tok], e.Op == "blk" && e.Tok != "@caller":
					report("no-var", e.Tok)
				}
				for _, x := range e.Args {
					walk(x)
				}
			}
			for _, e := range c.Args {
				walk(e)
			}
			if c.Ext == "" {
				if !acts[c.Fn] {
					report("no-action", c.Fn)
				}
			} else {
				if !exts[c.Ext] {
					report("no-ext", c.Ext)
				}
				dup("dup-var", c.Recv)
			}
			for _, r := range c.Recv {
				vars[r] = true
			}
		}
	}
	return bad
}

// ---- dense documents: few names, so that every rule is close to being broken

type dense struct {
	names, refs, calls, vars, attrs, mods bool // what may be broken
	tables, acts, exts                    int  // at most
	size                                  int  // members of a list, at most
}

var denseWords = []string{"a", "A", "b", "aa", "a_", "B", "ab", "x"}

func (g *G) denseDoc(o dense) *Doc {
	d := &Doc{Name: pickOf(g, denseWords...)}
	denseWords := denseWords
	if g.p(4) || g.news(3) { // among them a word of the code under test, and its neighbours
		w := g.dictName()
		denseWords = nil
		for _, s := range []string{w, "a", g.near(w), w + "_", "b", strings.ToUpper(w)} {
			if !reserved(s) && !hasStr(denseWords, s) {
				denseWords = append(denseWords, s)
			}
		}
	}
	pool := denseWords[:g.n(2, len(denseWords))]
	w := func() string { return pickOf(g, pool...) }
	// set draws n names, with repetitions only if allowed
	set := func(n int, may bool) []string {
		if may {
			var r []string
			for i := 0; i < n; i++ {
				r = append(r, w())
			}
			if g.b() { // mostly distinct after all
				r = distinct(r)
			}
			return r
		}
		sh := g.shuffle(denseWords)
		if n > len(sh) {
			n = len(sh)
		}
		return sh[:n]
	}
	some := func(all []string, n int) (r []string) {
		if n > len(all) {
			n = len(all)
		}
		return g.shuffle(all)[:n]
	}
	for _, al := range set(g.n(0, o.exts), o.names) {
		x := &Ext{Name: w(), Alias: al}
		if g.p(4) {
			x.Braces, x.Cfg = true, []KV{{w(), g.number()}}
		}
		d.Exts = append(d.Exts, x)
	}
	var ts []*Table
	for _, tn := range set(g.n(0, o.tables), o.names) {
		t := &Table{Name: tn, Trailing: g.b()}
		nc := g.n(1, o.size)
		ni := g.n(0, o.size-1)
		var cn, in []string
		if o.names {
			cn, in = set(nc, true), set(ni, true)
			if g.b() { // index names apart from the columns
				in = minus(in, cn)
			}
		} else {
			all := set(nc+ni, false)
			if nc >= len(all) {
				nc = len(all)
			}
			cn, in = all[:nc], all[nc:]
		}
		for _, c := range cn {
			cl := &Col{Name: c, Type: pickOf(g, "int", "text", "blob")}
			if o.attrs {
				for i := g.n(0, 4); i > 0; i-- {
					k := pickOf(g, blobAttrs...)
					a := g.attr(cl.Type, k)
					cl.Attrs = append(cl.Attrs, a)
				}
				if g.b() { // only allowed kinds
					var as []Attr
					for _, a := range cl.Attrs {
						if hasStr(attrsFor(cl.Type), a.Kind) {
							as = append(as, a)
						}
					}
					cl.Attrs = as
				}
				if g.b() { // each once
					seen := map[string]bool{}
					var as []Attr
					for _, a := range cl.Attrs {
						if !seen[a.Kind] {
							as = append(as, a)
						}
						seen[a.Kind] = true
					}
					cl.Attrs = as
				}
			}
			t.Cols = append(t.Cols, cl)
		}
		cn = distinct(cn)
		for _, x := range in {
			ix := &Index{Name: x, Kind: pickOf(g, "index", "unique", "primary"), Cols: some(cn, g.n(1, 2))}
			if o.refs && g.p(4) {
				ix.Cols = []string{w(), w()}[:g.n(1, 2)]
			}
			if g.p(6) {
				ix.Cols = append(ix.Cols, pickOf(g, ix.Cols...))
			}
			t.Items = append(t.Items, &TItem{Idx: ix})
		}
		ts = append(ts, t)
	}
	for _, t := range ts {
		for i := g.n(0, 2); i > 0; i-- {
			p := ts[g.n(0, len(ts)-1)]
			k := g.n(1, 2)
			f := &FK{Long: g.b(), LongRef: g.b(), Parent: p.Name, Acts: g.fkActs()}
			child, par := distinct(colNames(t)), distinct(colNames(p))
			if k > len(child) || k > len(par) {
				k = 1
			}
			f.Child, f.ParentCols = some(child, k), some(par, k)
			even := !g.p(3)
			if !even { // lists of different lengths, with repetitions
				f.Child, f.ParentCols = some(child, g.n(1, 3)), some(par, g.n(1, 3))
				if g.p(3) {
					f.Child = append(f.Child, f.Child[0])
				}
				if g.p(3) {
					f.ParentCols = append(f.ParentCols, f.ParentCols[0])
				}
			}
			if o.refs && g.p(3) {
				switch g.n(0, 2) {
				case 0:
					f.Parent = w()
				case 1:
					f.Child[g.n(0, len(f.Child)-1)] = w()
					if even {
						f.Child = distinct(f.Child)
					}
				default:
					f.ParentCols[g.n(0, len(f.ParentCols)-1)] = w()
					if even {
						f.ParentCols = distinct(f.ParentCols)
					}
				}
				for len(f.Child) > len(f.ParentCols) && even {
					f.Child = f.Child[:len(f.Child)-1]
				}
				for len(f.Child) < len(f.ParentCols) && even {
					f.ParentCols = f.ParentCols[:len(f.ParentCols)-1]
				}
			}
			if o.mods && g.p(3) {
				f.Acts = append(f.Acts, g.fkActs()...)
			}
			pos := g.n(0, len(t.Items))
			t.Items = append(t.Items[:pos], append([]*TItem{{FK: f}}, t.Items[pos:]...)...)
		}
	}
	var acts []*Action
	names := set(g.n(0, o.acts), o.names)
	for _, n := range names {
		a := &Action{Name: n, Mods: g.mods()}
		for _, p := range set(g.n(0, 3), o.names) {
			a.Params = append(a.Params, "$"+p)
		}
		acts = append(acts, a)
	}
	inits := 0
	if g.p(3) {
		inits = 1
	}
	if o.mods && g.p(5) {
		inits = g.n(2, 3)
	}
	for ; inits > 0; inits-- {
		pos := g.n(0, len(acts))
		acts = append(acts[:pos], append([]*Action{{IsInit: true}}, acts[pos:]...)...)
	}
	var als []string
	for _, x := range d.Exts {
		als = append(als, x.Alias)
	}
	for _, a := range acts {
		if o.mods && !a.IsInit && g.p(3) {
			a.Mods = nil
			for i := g.n(0, 5); i > 0; i-- {
				a.Mods = append(a.Mods, pickOf(g, allMods...))
			}
		}
		vars := append([]string{}, a.Params...)
		for i := g.n(1, 4); i > 0; i-- {
			useExt := len(als) > 0 && (len(names) == 0 || g.b())
			if len(als)+len(names) == 0 && !o.calls || g.p(6) {
				a.Stmts = append(a.Stmts, &Stmt{SQL: pickOf(g, "select 1", "insert into a values ($a)", "delete from b where a = @caller", "update a set b = $zzz")})
				continue
			}
			c := &Call{}
			switch {
			case o.calls && g.p(4):
				c.Fn = w()
				if g.b() {
					c.Ext = w()
				}
			case useExt:
				c.Ext, c.Fn = pickOf(g, als...), w()
			case len(names) > 0:
				c.Fn = pickOf(g, names...)
			default:
				c.Fn = w()
				if !o.calls {
					a.Stmts = append(a.Stmts, &Stmt{SQL: "select 1"})
					continue
				}
			}
			scope := vars
			if o.vars && g.p(2) {
				scope = []string{"$" + w(), "$" + w()}
			}
			for k := g.n(0, 2); k > 0; k-- {
				c.Args = append(c.Args, g.expr(scope, g.n(0, 2)))
			}
			if o.vars && g.p(8) {
				c.Args = append(c.Args, &Expr{Op: "blk", Tok: pickOf(g, "@a", "@Caller", "@caller_", "@block_height", "@CALLER")})
			}
			if c.Ext != "" {
				for k := g.n(0, 3); k > 0; k-- {
					r := "$" + w()
					if hasStr(c.Recv, r) && !o.names {
						continue
					}
					c.Recv = append(c.Recv, r)
				}
				if g.b() {
					c.Recv = distinct(c.Recv)
				}
				vars = append(vars, c.Recv...)
			}
			a.Stmts = append(a.Stmts, &Stmt{Call: c})
		}
	}
	for len(ts)+len(acts) > 0 {
		if len(ts) > 0 && (len(acts) == 0 || g.b()) {
			d.Decls = append(d.Decls, &Decl{Table: ts[0]})
			ts = ts[1:]
		} else {
			d.Decls = append(d.Decls, &Decl{Action: acts[0]})
			acts = acts[1:]
		}
	}
	return d
}

func colNames(t *Table) (r []string) {
	for _, c := range t.Cols {
		r = append(r, c.Name)
	}
	return
}

func distinct(xs []string) (r []string) {
	for _, x := range xs {
		if !hasStr(r, x) {
			r = append(r, x)
		}
	}
	return
}

func minus(xs, ys []string) (r []string) {
	for _, x := range xs {
		if !hasStr(ys, x) {
			r = append(r, x)
		}
	}
	return
}

// ---- single mutations of (possibly large) valid documents

// other draws a name that resembles cur, or is some other name of the document,
// or is unknown; never a keyword.
func (g *G) other(cur string, doc []string) string {
	var s string
	switch g.n(0, 3) {
	case 0, 1:
		s = g.near(cur)
	case 2:
		if len(doc) > 0 {
			s = pickOf(g, doc...)
		} else {
			s = g.near(cur)
		}
	default:
		s = g.rawName()
	}
	for reserved(s) {
		s += "_"
	}
	return s
}

// all names of a document, of every name space
func (d *Doc) allNames() (r []string) {
	r = append(r, d.Name)
	for _, x := range d.Exts {
		r = append(r, x.Name, x.Alias)
		for _, k := range x.Cfg {
			r = append(r, k.K)
		}
	}
	for _, t := range d.Tables() {
		r = append(r, t.Name)
		r = append(r, colNames(t)...)
		for _, it := range t.Items {
			if it.Idx != nil {
				r = append(r, it.Idx.Name)
			}
		}
	}
	for _, a := range d.Actions() {
		r = append(r, a.Name)
		for _, p := range a.Params {
			if !reserved(p[1:]) {
				r = append(r, p[1:])
			}
		}
	}
	for _, a := range d.bodies() {
		for _, s := range a.Stmts {
			if s.Call != nil {
				r = append(r, s.Call.Fn)
			}
		}
	}
	return distinct(r)
}

// allVars lists all variables of all bodies.
func (d *Doc) allVars() (r []string) {
	for _, a := range d.bodies() {
		r = append(r, a.Params...)
		for _, s := range a.Stmts {
			if s.Call != nil {
				r = append(r, s.Call.Recv...)
			}
		}
	}
	return distinct(r)
}

func (g *G) pickTable(d *Doc, ok func(*Table) bool) *Table {
	var r []*Table
	for _, t := range d.Tables() {
		if ok(t) {
			r = append(r, t)
		}
	}
	if len(r) == 0 {
		return nil
	}
	return pickOf(g, r...)
}

func (g *G) pickCall(d *Doc, ok func(*Call) bool) *Call {
	var r []*Call
	for _, a := range d.bodies() {
		for _, s := range a.Stmts {
			if s.Call != nil && ok(s.Call) {
				r = append(r, s.Call)
			}
		}
	}
	if len(r) == 0 {
		return nil
	}
	return pickOf(g, r...)
}

// setAt overwrites one element of a list with a copy of (or a name near) another.
func (g *G) clash(n int, get func(int) string, set func(int, string)) bool {
	if n < 2 {
		return false
	}
	i := g.n(0, n-1)
	j := g.n(0, n-2)
	if j >= i {
		j++
	}
	s := get(i)
	if g.p(3) { // near miss
		pre := ""
		if s[0] == '$' {
			pre, s = "$", s[1:]
		}
		s = g.near(s)
		for pre == "" && reserved(s) {
			s += "_"
		}
		s = pre + s
	}
	set(j, s)
	return true
}

var mutators = map[string]map[string]func(g *G, d *Doc) bool{
	"C07": {
		"table": func(g *G, d *Doc) bool {
			ts := d.Tables()
			return g.clash(len(ts), func(i int) string { return ts[i].Name }, func(i int, s string) {
				old := ts[i].Name
				ts[i].Name = s
				renameParent(d, old, s)
			})
		},
		"action": func(g *G, d *Doc) bool {
			as := d.Actions()
			return g.clash(len(as), func(i int) string { return as[i].Name }, func(i int, s string) {
				old := as[i].Name
				as[i].Name = s
				for _, c := range d.calls() {
					if c.Ext == "" && c.Fn == old {
						c.Fn = s
					}
				}
			})
		},
		"alias": func(g *G, d *Doc) bool {
			return g.clash(len(d.Exts), func(i int) string { return d.Exts[i].Alias }, func(i int, s string) {
				old := d.Exts[i].Alias
				d.Exts[i].Alias = s
				for _, c := range d.calls() {
					if c.Ext == old {
						c.Ext = s
					}
				}
			})
		},
		"column": func(g *G, d *Doc) bool {
			t := g.pickTable(d, func(t *Table) bool { return len(t.Cols) > 1 })
			return t != nil && g.clash(len(t.Cols), func(i int) string { return t.Cols[i].Name }, func(i int, s string) {
				renameCol(d, t, t.Cols[i].Name, s)
				t.Cols[i].Name = s
			})
		},
		"param": func(g *G, d *Doc) bool {
			var as []*Action
			for _, a := range d.Actions() {
				if len(a.Params) > 1 {
					as = append(as, a)
				}
			}
			if len(as) == 0 {
				return false
			}
			a := pickOf(g, as...)
			return g.clash(len(a.Params), func(i int) string { return a.Params[i] }, func(i int, s string) {
				old := a.Params[i]
				a.Params[i] = s
				for _, st := range a.Stmts {
					if st.Call != nil {
						for _, e := range st.Call.Args {
							e.each(func(x *Expr) {
								if x.Op == "var" && x.Tok == old {
									x.Tok = s
								}
							})
						}
					}
				}
			})
		},
		"index": func(g *G, d *Doc) bool {
			t := g.pickTable(d, func(t *Table) bool { return len(t.indexes()) > 1 })
			if t == nil {
				return false
			}
			xs := t.indexes()
			return g.clash(len(xs), func(i int) string { return xs[i].Name }, func(i int, s string) { xs[i].Name = s })
		},
		"index-column": func(g *G, d *Doc) bool {
			t := g.pickTable(d, func(t *Table) bool { return len(t.indexes()) > 0 })
			if t == nil {
				return false
			}
			n := pickOf(g, colNames(t)...)
			if g.p(3) {
				n = g.other(n, nil)
			}
			pickOf(g, t.indexes()...).Name = n
			return true
		},
		"receiver": func(g *G, d *Doc) bool {
			c := g.pickCall(d, func(c *Call) bool { return len(c.Recv) > 1 })
			if c == nil {
				if c = g.pickCall(d, func(c *Call) bool { return c.Ext != "" }); c == nil {
					return false
				}
				for len(c.Recv) < 2 {
					c.Recv = append(c.Recv, "$"+g.rawName())
				}
			}
			return g.clash(len(c.Recv), func(i int) string { return c.Recv[i] }, func(i int, s string) { c.Recv[i] = s })
		},
	},
	"C08": {
		"index-column": func(g *G, d *Doc) bool {
			t := g.pickTable(d, func(t *Table) bool { return len(t.indexes()) > 0 })
			if t == nil {
				return false
			}
			x := pickOf(g, t.indexes()...)
			i := g.n(0, len(x.Cols)-1)
			x.Cols[i] = g.otherCol(d, t, x.Cols[i])
			return true
		},
		"fk-child": func(g *G, d *Doc) bool {
			t := g.pickTable(d, func(t *Table) bool { return len(t.fks()) > 0 })
			if t == nil {
				return false
			}
			x := pickOf(g, t.fks()...)
			i := g.n(0, len(x.Child)-1)
			x.Child[i] = g.otherCol(d, t, x.Child[i])
			return true
		},
		"fk-parent-column": func(g *G, d *Doc) bool {
			t := g.pickTable(d, func(t *Table) bool { return len(t.fks()) > 0 })
			if t == nil {
				return false
			}
			x := pickOf(g, t.fks()...)
			i := g.n(0, len(x.ParentCols)-1)
			var p *Table
			for _, y := range d.Tables() {
				if y.Name == x.Parent {
					p = y
				}
			}
			x.ParentCols[i] = g.otherCol(d, p, x.ParentCols[i])
			return true
		},
		"fk-parent": func(g *G, d *Doc) bool {
			t := g.pickTable(d, func(t *Table) bool { return len(t.fks()) > 0 })
			if t == nil {
				return false
			}
			x := pickOf(g, t.fks()...)
			x.Parent = g.other(x.Parent, d.allNames())
			return true
		},
	},
	"C09": {
		"action": func(g *G, d *Doc) bool {
			c := g.pickCall(d, func(c *Call) bool { return c.Ext == "" })
			if c == nil {
				return false
			}
			c.Fn = g.other(c.Fn, d.allNames())
			return true
		},
		"extension": func(g *G, d *Doc) bool {
			c := g.pickCall(d, func(c *Call) bool { return c.Ext != "" })
			if c == nil {
				return false
			}
			if g.p(3) { // the extension's own name
				for _, x := range d.Exts {
					if x.Alias == c.Ext {
						c.Ext = x.Name
						return true
					}
				}
			}
			c.Ext = g.other(c.Ext, d.allNames())
			return true
		},
		"removed": func(g *G, d *Doc) bool { // the declaration goes, the calls stay
			if len(d.Exts) > 0 && g.b() {
				i := g.n(0, len(d.Exts)-1)
				d.Exts = append(append([]*Ext{}, d.Exts[:i]...), d.Exts[i+1:]...)
				return true
			}
			var is []int
			for i, x := range d.Decls {
				if x.Action != nil && !x.Action.IsInit {
					is = append(is, i)
				}
			}
			if len(is) == 0 {
				return false
			}
			i := pickOf(g, is...)
			d.Decls = append(append([]*Decl{}, d.Decls[:i]...), d.Decls[i+1:]...)
			return true
		},
	},
	"C10": {
		"leaf": func(g *G, d *Doc) bool {
			var leaves []*Expr
			for _, c := range d.calls() {
				for _, e := range c.Args {
					e.each(func(x *Expr) {
						if x.Op == "var" || x.Op == "lit" || x.Op == "blk" {
							leaves = append(leaves, x)
						}
					})
				}
			}
			if len(leaves) == 0 {
				return false
			}
			x := pickOf(g, leaves...)
			*x = Expr{Op: "var", Tok: g.otherVar(d, x)}
			if x.Tok[0] == '@' {
				x.Op = "blk"
			}
			return true
		},
		"argument": func(g *G, d *Doc) bool {
			c := g.pickCall(d, func(c *Call) bool { return true })
			if c == nil {
				return false
			}
			v := g.otherVar(d, &Expr{Op: "var", Tok: "$x"})
			e := &Expr{Op: "var", Tok: v}
			if v[0] == '@' {
				e.Op = "blk"
			}
			for i := g.n(0, 4); i > 0; i-- {
				e = pickOf(g, &Expr{Op: "paren", Args: []*Expr{e}}, &Expr{Op: "un", Tok: "-", Args: []*Expr{e}}, &Expr{Op: "un", Tok: "not", Args: []*Expr{e}},
					&Expr{Op: "bin", Tok: pickOf(g, callBin...), Args: []*Expr{e, g.expr(nil, 0)}}, &Expr{Op: "bin", Tok: pickOf(g, callBin...), Args: []*Expr{g.expr(nil, 0), e}},
					&Expr{Op: "fn", Tok: "lower", Args: []*Expr{e}}, &Expr{Op: "fn", Tok: "format", Args: []*Expr{g.expr(nil, 0), e}})
			}
			i := g.n(0, len(c.Args))
			c.Args = append(c.Args[:i:i], append([]*Expr{e}, c.Args[i:]...)...)
			return true
		},
		"received-here": func(g *G, d *Doc) bool {
			c := g.pickCall(d, func(c *Call) bool { return len(c.Recv) > 0 })
			if c == nil {
				return false
			}
			c.Args = append(c.Args, &Expr{Op: "var", Tok: pickOf(g, c.Recv...)})
			return true
		},
		"no-param": func(g *G, d *Doc) bool {
			var as []*Action
			for _, a := range d.Actions() {
				if len(a.Params) > 0 {
					as = append(as, a)
				}
			}
			if len(as) == 0 {
				return false
			}
			a := pickOf(g, as...)
			i := g.n(0, len(a.Params)-1)
			a.Params = append(append([]string{}, a.Params[:i]...), a.Params[i+1:]...)
			return true
		},
		"later": func(g *G, d *Doc) bool { // swap two statements
			var as []*Action
			for _, a := range d.bodies() {
				if len(a.Stmts) > 1 {
					as = append(as, a)
				}
			}
			if len(as) == 0 {
				return false
			}
			a := pickOf(g, as...)
			i, j := g.n(0, len(a.Stmts)-1), g.n(0, len(a.Stmts)-1)
			a.Stmts[i], a.Stmts[j] = a.Stmts[j], a.Stmts[i]
			return true
		},
	},
	"C11": {
		"constraint": func(g *G, d *Doc) bool {
			t := g.pickTable(d, func(t *Table) bool { return true })
			if t == nil {
				return false
			}
			c := pickOf(g, t.Cols...)
			var k string
			if len(c.Attrs) > 0 && g.b() {
				k = pickOf(g, c.Attrs...).Kind
			} else {
				k = pickOf(g, blobAttrs...)
			}
			i := g.n(0, len(c.Attrs))
			c.Attrs = append(c.Attrs[:i:i], append([]Attr{g.attr(c.Type, k)}, c.Attrs[i:]...)...)
			return true
		},
		"type": func(g *G, d *Doc) bool {
			t := g.pickTable(d, func(t *Table) bool { return true })
			if t == nil {
				return false
			}
			c := pickOf(g, t.Cols...)
			c.Type = pickOf(g, "int", "text", "blob")
			for i := range c.Attrs { // defaults stay of the column's type
				if c.Attrs[i].Kind == "default" {
					c.Attrs[i] = g.attr(c.Type, "default")
				}
			}
			return true
		},
	},
	"C12": {
		"modifier": func(g *G, d *Doc) bool {
			as := d.Actions()
			if len(as) == 0 {
				return false
			}
			a := pickOf(g, as...)
			i := g.n(0, len(a.Mods))
			a.Mods = append(a.Mods[:i:i], append([]string{pickOf(g, allMods...)}, a.Mods[i:]...)...)
			return true
		},
		"init": func(g *G, d *Doc) bool {
			i := g.n(0, len(d.Decls))
			d.Decls = append(d.Decls[:i:i], append([]*Decl{{Action: &Action{IsInit: true, Stmts: []*Stmt{{SQL: "select 1"}}}}}, d.Decls[i:]...)...)
			return true
		},
		"reaction": func(g *G, d *Doc) bool {
			t := g.pickTable(d, func(t *Table) bool { return len(t.fks()) > 0 })
			if t == nil {
				return false
			}
			f := pickOf(g, t.fks()...)
			i := g.n(0, len(f.Acts))
			f.Acts = append(f.Acts[:i:i], append([]FKAct{{On: pickOf(g, "on_update", "on_delete"), Do: pickOf(g, fkDos...), Kw: g.b()}}, f.Acts[i:]...)...)
			return true
		},
	},
}

// otherCol draws a substitute for a column of t: an index of t, a column of
// another table, a near miss, another column of t (fine), or some other name.
func (g *G) otherCol(d *Doc, t *Table, cur string) string {
	var in, out []string
	for _, x := range t.indexes() {
		in = append(in, x.Name)
	}
	for _, y := range d.Tables() {
		if y != t {
			out = append(out, colNames(y)...)
		}
	}
	switch k := g.n(0, 4); {
	case k == 0 && len(in) > 0:
		return pickOf(g, in...)
	case k == 1 && len(out) > 0:
		return pickOf(g, out...)
	case k == 2:
		return pickOf(g, colNames(t)...)
	}
	return g.other(cur, d.allNames())
}

func (g *G) otherVar(d *Doc, x *Expr) string {
	all := d.allVars()
	switch k := g.n(0, 5); {
	case k <= 1 && len(all) > 0:
		return pickOf(g, all...)
	case k == 2 && len(all) > 0:
		return "$" + g.near(pickOf(g, all...)[1:])
	case k == 3:
		return pickOf(g, "@caller", "@Caller", "@CALLER", "@block_height", "@callers", "@calle", "@a", "@caller_", "@now", "@c")
	case k == 4 && x.Op == "var":
		return "$" + g.near(x.Tok[1:])
	}
	return "$" + g.rawName()
}

func (e *Expr) each(f func(*Expr)) {
	f(e)
	for _, a := range e.Args {
		a.each(f)
	}
}

func (d *Doc) calls() (r []*Call) {
	for _, a := range d.bodies() {
		for _, s := range a.Stmts {
			if s.Call != nil {
				r = append(r, s.Call)
			}
		}
	}
	return
}

func (t *Table) indexes() (r []*Index) {
	for _, it := range t.Items {
		if it.Idx != nil {
			r = append(r, it.Idx)
		}
	}
	return
}

func (t *Table) fks() (r []*FK) {
	for _, it := range t.Items {
		if it.FK != nil {
			r = append(r, it.FK)
		}
	}
	return
}

func renameParent(d *Doc, old, nw string) {
	for _, t := range d.Tables() {
		for _, f := range t.fks() {
			if f.Parent == old {
				f.Parent = nw
			}
		}
	}
}

func renameCol(d *Doc, t *Table, old, nw string) {
	ren := func(xs []string) {
		for i := range xs {
			if xs[i] == old {
				xs[i] = nw
			}
		}
	}
	for _, x := range t.indexes() {
		ren(x.Cols)
	}
	for _, f := range t.fks() {
		ren(f.Child)
	}
	for _, y := range d.Tables() {
		for _, f := range y.fks() {
			if f.Parent == t.Name {
				ren(f.ParentCols)
			}
		}
	}
}

// clean says whether the mutated document stays in the defined area: no
// receivers on action calls.
func (d *Doc) clean() bool {
	for _, c := range d.calls() {
		if c.Ext == "" && len(c.Recv) > 0 {
			return false
		}
	}
	return true
}

func joinKinds(xs []string) string { return strings.Join(xs, "+") }
