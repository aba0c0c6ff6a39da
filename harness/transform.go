package main

import (
	"encoding/json"
	"fmt"
	"strings"
)

// Transformations of documents for the metamorphic properties.

func (d *Doc) clone() *Doc {
	b, err := json.Marshal(d)
	if err != nil {
		panic(err)
	}
	r := &Doc{}
	if err := json.Unmarshal(b, r); err != nil {
		panic(err)
	}
	return r
}

// anyDoc draws a document, valid or with one or several violations.
func (g *G) anyDoc(big ...string) *Doc {
	switch g.n(0, 5) {
	case 0:
		return g.denseDoc(dense{g.b(), g.b(), g.b(), g.b(), g.b(), g.b(), 3, 3, 2, 3})
	case 1, 2:
		g.chooseBig(6, big...)
		d := g.doc()
		g.mutate(d)
		return d
	}
	g.chooseBig(6, big...)
	return g.doc()
}

// mutate applies one mutation of C07 to C12.
func (g *G) mutate(d *Doc) string {
	id := pickOf(g, sortedKeys(mutators)...)
	for _, m := range g.shuffle(sortedKeys(mutators[id])) {
		if mutators[id][m](g, d) {
			return id + "-" + m
		}
	}
	return ""
}

// visit calls f for every identifier with a declared meaning (not methods of
// extensions, functions, configuration keys or annotations) and v for every
// variable of parameter lists and calls.
func (d *Doc) visit(f, v func(*string)) {
	f(&d.Name)
	for _, x := range d.Exts {
		f(&x.Name)
		f(&x.Alias)
	}
	each := func(xs []string, h func(*string)) {
		for i := range xs {
			h(&xs[i])
		}
	}
	for _, t := range d.Tables() {
		f(&t.Name)
		for _, c := range t.Cols {
			f(&c.Name)
		}
		for _, it := range t.Items {
			if x := it.Idx; x != nil {
				f(&x.Name)
				each(x.Cols, f)
			} else {
				f(&it.FK.Parent)
				each(it.FK.Child, f)
				each(it.FK.ParentCols, f)
			}
		}
	}
	for _, a := range d.bodies() {
		if !a.IsInit {
			f(&a.Name)
		}
		each(a.Params, v)
		for _, s := range a.Stmts {
			c := s.Call
			if c == nil {
				continue
			}
			each(c.Recv, v)
			if c.Ext != "" {
				f(&c.Ext)
			} else {
				f(&c.Fn)
			}
			for _, e := range c.Args {
				e.each(func(e *Expr) {
					if e.Op == "var" {
						v(&e.Tok)
					}
				})
			}
		}
	}
}

// renaming draws an injective renaming of all names and variables; its keys
// are names and, with '$', variables.
func (g *G) renaming(d *Doc) map[string]string {
	m := map[string]string{}
	var ids, vars []string
	d.visit(func(s *string) {
		if _, ok := m[*s]; !ok {
			m[*s] = ""
			ids = append(ids, *s)
		}
	}, func(s *string) {
		if _, ok := m[*s]; !ok {
			m[*s] = ""
			vars = append(vars, *s)
		}
	})
	style := g.n(0, 4)
	ns, vs := newNames(), newNames()
	if style == 0 { // a permutation of the names there are
		for i, s := range g.shuffle(ids) {
			m[ids[i]] = s
		}
		for i, s := range g.shuffle(vars) {
			m[vars[i]] = s
		}
		return m
	}
	for _, s := range ids {
		switch {
		case style == 1 && g.p(2) && !ns.used[s]: // some stay
			ns.add(s)
			m[s] = s
		case style == 2: // near the old one
			n := g.near(s)
			for i := 0; reserved(n) || ns.used[n]; i++ {
				n = fmt.Sprintf("%s%d", n, i)
			}
			ns.add(n)
			m[s] = n
		default:
			m[s] = g.name(ns)
		}
	}
	for _, s := range vars {
		m[s] = g.varName(vs)
	}
	return m
}

func (d *Doc) rename(m map[string]string) {
	f := func(s *string) { *s = m[*s] }
	d.visit(f, f)
	if n, ok := m[databaseName]; ok {
		d.Name = n
	}
}

// databaseName is the entry of a renaming for the name of the database,
// where that gets a name of its own: it shares its space with no other name.
const databaseName = " database "

// renameCall renames in the text of a call: names outside of all parentheses
// (not methods) and variables.
func renameCall(s string, m map[string]string) []string {
	toks := lexTexts(s)
	depth := 0
	for i, t := range toks {
		switch {
		case t == "(":
			depth++
		case t == ")":
			depth--
		case t[0] == '$', depth == 0 && isWordByte(t[0]) && !(i > 0 && toks[i-1] == "."):
			if n, ok := m[t]; ok {
				toks[i] = n
			}
		}
	}
	return toks
}

// ---- two lists of declarations in one source

// apart renames tables, actions and aliases of d that o has too.
func (g *G) apart(d, o *Doc) {
	taken := func(get func(*Doc) []string) *names {
		ns := newNames()
		for _, n := range append(get(d), get(o)...) {
			if !ns.used[n] {
				ns.add(n)
			}
		}
		return ns
	}
	tn := func(d *Doc) (r []string) {
		for _, t := range d.Tables() {
			r = append(r, t.Name)
		}
		return
	}
	an := func(d *Doc) (r []string) {
		for _, a := range d.Actions() {
			r = append(r, a.Name)
		}
		return
	}
	xn := func(d *Doc) (r []string) {
		for _, x := range d.Exts {
			r = append(r, x.Alias)
		}
		return
	}
	do := func(get func(*Doc) []string, ren func(old, nw string)) {
		ns := taken(get)
		theirs := get(o)
		for _, n := range distinct(get(d)) {
			if hasStr(theirs, n) {
				ren(n, g.name(ns))
			}
		}
	}
	do(tn, func(old, nw string) {
		for _, t := range d.Tables() {
			if t.Name == old {
				t.Name = nw
			}
		}
		renameParent(d, old, nw)
	})
	do(an, func(old, nw string) {
		for _, a := range d.Actions() {
			if a.Name == old {
				a.Name = nw
			}
		}
		for _, c := range d.calls() {
			if c.Ext == "" && c.Fn == old {
				c.Fn = nw
			}
		}
	})
	do(xn, func(old, nw string) {
		for _, x := range d.Exts {
			if x.Alias == old {
				x.Alias = nw
			}
		}
		for _, c := range d.calls() {
			if c.Ext == old {
				c.Ext = nw
			}
		}
	})
}

func join(a, b *Doc) *Doc {
	r := &Doc{Name: a.Name}
	r.Exts = append(append(r.Exts, a.Exts...), b.Exts...)
	r.Decls = append(append(r.Decls, a.Decls...), b.Decls...)
	return r
}

// sameKinds compares two rejections, or two acceptances, of equivalent sources.
func sameKinds(o1, o2 *Out, what string) string {
	for _, o := range []*Out{o1, o2} {
		if o.Panicked != "" {
			return "compilation panicked: " + o.Panicked
		}
	}
	if (o1.Err == nil) != (o2.Err == nil) {
		return fmt.Sprintf("%s: one is accepted, the other not (first: %v, second: %v)", what, clipErr(o1.Err), clipErr(o2.Err))
	}
	if o1.Err == nil {
		if m := o1.accepted(); m != "" {
			return m
		}
		return o2.accepted()
	}
	k1, k2 := kindsOf(o1.Err), kindsOf(o2.Err)
	if joinKinds(k1) != joinKinds(k2) {
		return fmt.Sprintf("%s: different kinds of error (first: %s, second: %s)", what, clipErr(o1.Err), clipErr(o2.Err))
	}
	return ""
}

func clipErr(err error) string {
	if err == nil {
		return "none"
	}
	return clip(err.Error(), 300)
}

// relayout draws another form of the same document: synonyms, do, trailing commas.
func (g *G) relayout(d *Doc) *Doc {
	r := d.clone()
	for _, t := range r.Tables() {
		t.Trailing = g.b()
		for _, f := range t.fks() {
			f.Long, f.LongRef = g.b(), g.b()
			for i := range f.Acts {
				f.Acts[i].Kw = g.b()
			}
		}
	}
	return r
}

var synonyms = map[string]string{"foreign_key": "fk", "references": "ref"}

// canonToks is the token list that two layouts of one source share, nil if the
// text cannot be tokenised.
func canonToks(s string) []string {
	toks, bad := refLex(s)
	if bad >= 0 {
		return nil
	}
	r := []string{}
	for i, t := range toks {
		x := t.text
		if c, ok := synonyms[x]; ok {
			x = c
		}
		if x == "do" && i > 0 && strings.HasPrefix(toks[i-1].text, "on_") {
			continue
		}
		if x == "," && i+1 < len(toks) && toks[i+1].text == "}" {
			continue
		}
		r = append(r, x)
	}
	return r
}
