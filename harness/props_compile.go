package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Properties decided against the model: the source is rendered from a document
// model, and the compiled schema must be the image of that model.

func (d *Doc) stats(c *Case) {
	for _, t := range d.Tables() {
		for _, it := range t.Items {
			if it.Idx != nil {
				c.label("index")
			} else {
				c.label("foreign-key")
			}
		}
		if len(t.Cols) > 20 {
			c.label("many-columns")
		}
	}
	if len(d.Tables()) > 5 {
		c.label("many-tables")
	}
	if len(d.Actions()) > 5 {
		c.label("many-actions")
	}
	if len(d.Inits()) > 0 {
		c.label("init")
	}
	c.Labels = uniq(c.Labels)
}

func (d *Doc) bodies() (r []*Action) {
	return append(d.Actions(), d.Inits()...)
}

// stmts of a document as the property checks see them
func (d *Doc) countStmts() (sql, call int) {
	for _, a := range d.bodies() {
		for _, s := range a.Stmts {
			if s.Call != nil {
				call++
			} else {
				sql++
			}
		}
	}
	return
}

func decodedMap(b []byte) map[string]any {
	v, err := decode(b)
	if err != nil {
		panic(err)
	}
	m, _ := v.(map[string]any)
	return m
}

// both compares the JSON and the in-memory result with the expected document.
func (o *Out) bothMatch(want json.RawMessage, keys ...string) string {
	if m := o.jsonMatches(want, keys...); m != "" {
		return "JSON " + m
	}
	if o.Sch == nil {
		return "the result is not a schema"
	}
	g := normal(schemaAny(o.Sch)).(map[string]any)
	w := decodedMap(want)
	if len(keys) == 0 {
		keys = []string{"name", "owner", "tables", "actions", "extensions"}
	}
	for _, k := range keys {
		if g[k] == nil && w[k] == nil {
			continue
		}
		if d := diff("schema."+k, g[k], w[k]); d != "" {
			return d
		}
	}
	return ""
}

func init() {
	register(&Prop{ID: "C01", Quick: 24000, Thorough: 1440000,
		Rule: "documents with 1 to ~120 tables drawn from the grammar and rendered in a random layout; expected tables derived from the model, compared with JSON and in-memory result. Non-trivial: at least one constraint, index or foreign key.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			g.maxTabs, g.maxActs, g.maxExts = 5, 1, 1
			g.chooseBig(6, "tables", "cols", "idx", "fks", "idxcols", "fkcols", "name", "lit")
			d := g.doc()
			if len(d.Tables()) == 0 {
				for _, tb := range g.tables(g.n(1, 3)) {
					d.Decls = append(d.Decls, &Decl{Table: tb})
				}
			}
			c := &Case{Kind: "tables", Src: d.src(g.layout()), Want: d.wantJSON(), Plain: true}
			for _, tb := range d.Tables() {
				if len(tb.Items) > 0 {
					c.Plain = false
				}
				for _, cl := range tb.Cols {
					if len(cl.Attrs) > 0 {
						c.Plain = false
					}
				}
			}
			d.stats(c)
			return c
		},
		Check: func(c *Case) string { return compile(c.Src).bothMatch(c.Want, "name", "tables") },
	})

	register(&Prop{ID: "C02", Quick: 24000, Thorough: 1440000,
		Rule: "documents with 1 to ~120 actions and perhaps an init block at any place, all modifier subsets in all orders; expected actions derived from the model (statement texts only loosely, C03 and C04 decide them). Non-trivial: an action with a modifier, parameter or annotation, or an init block.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			g.maxTabs, g.maxActs, g.maxExts = 1, 5, 2
			g.depth = 1
			g.chooseBig(6, "acts", "params", "anns", "annattrs", "stmts", "name", "lit")
			d := g.doc()
			if len(d.bodies()) == 0 {
				d.Decls = append(d.Decls, &Decl{Action: g.action(g.anyName(), nil, nil)})
			}
			c := &Case{Kind: "actions", Src: d.src(g.layout()), Want: d.wantJSON(), Plain: true}
			for _, a := range d.bodies() {
				if a.IsInit || len(a.Mods)+len(a.Params)+len(a.Anns) > 0 {
					c.Plain = false
				}
			}
			d.stats(c)
			return c
		},
		Check: func(c *Case) string {
			o := compile(c.Src)
			if m := o.accepted(); m != "" {
				return m
			}
			loosen := func(m map[string]any) any {
				for _, a := range list(m["actions"]) {
					st := list(get(a, "statements"))
					for i := range st {
						st[i] = squash(str(st[i]))
					}
				}
				return m["actions"]
			}
			w := loosen(decodedMap(c.Want))
			g, err := decode(o.JSON)
			if err != nil {
				return "output is not valid JSON: " + err.Error()
			}
			gm, _ := g.(map[string]any)
			if d := diff("$.actions", loosen(gm), w); d != "" {
				return "JSON " + d
			}
			if o.Sch == nil {
				return "the result is not a schema"
			}
			return diff("schema.actions", loosen(normal(schemaAny(o.Sch)).(map[string]any)), w)
		},
	})

	register(&Prop{ID: "C03", Quick: 24000, Thorough: 1440000,
		Rule: "documents whose bodies mix generated SQL of the dialect (random case, blanks, comments, line breaks, quoted text, non-ASCII) with calls; every SQL text must be found unchanged at its position. Non-trivial: an SQL statement with other inner blanks than single spaces, a quote, a comment or an upper-case letter.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			g.maxTabs, g.maxActs, g.maxExts = 1, 3, 1
			g.depth = 1
			g.chooseBig(8, "stmts", "sql", "acts", "sql")
			d := g.doc()
			if s, _ := d.countStmts(); s == 0 {
				d.Decls = append(d.Decls, &Decl{Action: &Action{Name: g.name(usedActs(d)), Stmts: []*Stmt{{SQL: g.sqlStmt()}, {SQL: g.sqlStmt()}}}})
			}
			c := &Case{Kind: "sql", Src: d.src(g.layout()), Want: d.wantJSON(), Plain: true}
			for _, a := range d.bodies() {
				for _, s := range a.Stmts {
					if s.Call == nil && (strings.ContainsAny(s.SQL, "\n\r\t'\"`[ABCDEFGHIJKLMNOPQRSTUVWXYZ") || strings.Contains(s.SQL, "  ") || strings.Contains(s.SQL, "--") || strings.Contains(s.SQL, "/*")) {
						c.Plain = false
					}
				}
			}
			d.stats(c)
			return c
		},
		Check: func(c *Case) string {
			o := compile(c.Src)
			if m := o.accepted(); m != "" {
				return m
			}
			return sqlMatch(decodedMap(o.JSON), decodedMap(c.Want))
		},
	})

	register(&Prop{ID: "C04", Quick: 30000, Thorough: 1800000,
		Rule: "documents of action and extension calls with expression trees in random layouts; the output call is tokenised with an independent lexer and must give the written tokens, and compiling the output text again must give the same text. One case in five has an operator that executing engines lack somewhere in an argument and must be rejected. Non-trivial: a call with an argument of more than one token.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			g.maxTabs, g.maxActs, g.maxExts = 0, 4, 3
			g.fewSQL = true
			g.chooseBig(6, "args", "depth", "recv", "stmts", "params", "lit", "exts")
			d := g.doc()
			if _, n := d.countStmts(); n == 0 {
				ns := usedActs(d)
				nm := g.name(ns)
				a := &Action{Name: nm, Params: g.params()}
				a.Stmts = g.stmts(a.Params, []string{nm}, nil)
				a.Stmts = append(a.Stmts, &Stmt{Call: &Call{Fn: nm, Args: []*Expr{g.expr(a.Params, 3)}}})
				d.Decls = append(d.Decls, &Decl{Action: a})
			}
			c := &Case{Kind: "calls", Want: d.wantJSON(), Plain: true}
			if g.p(5) {
				if e := pickExpr(g, d); e != nil {
					old := *e
					if g.p(6) {
						*e = Expr{Op: "un", Tok: "~", Args: []*Expr{&old}}
					} else {
						*e = Expr{Op: "bin", Tok: pickOf(g, "||", "<<", ">>", "&", "|", "=="), Args: []*Expr{&old, g.expr(nil, 1)}}
						if g.b() {
							e.Args[0], e.Args[1] = e.Args[1], e.Args[0]
						}
					}
					c.Kind, c.Errs = "bad-operator", []string{"any"}
					c.label("unsupported-operator")
				}
			}
			c.Src = d.src(g.layout())
			for _, a := range d.bodies() {
				for _, s := range a.Stmts {
					if s.Call != nil {
						for _, e := range s.Call.Args {
							if len(e.Args) > 0 {
								c.Plain = false
							}
						}
					}
				}
			}
			return c
		},
		Check: func(c *Case) string {
			o := compile(c.Src)
			if c.Kind == "bad-operator" {
				return o.verdict(c.Errs)
			}
			if m := o.accepted(); m != "" {
				return m
			}
			got := decodedMap(o.JSON)
			if m := callsMatch(got, decodedMap(c.Want)); m != "" {
				return m
			}
			return recompile(got)
		},
	})

	register(&Prop{ID: "C05", Quick: 30000, Thorough: 1800000,
		Rule: "documents with 1 to ~120 extension uses, with and without configuration blocks of up to ~300 entries, repeated extension names under distinct aliases; expected extensions derived from the model. Non-trivial: at least one configuration entry or two uses.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			g.maxTabs, g.maxActs, g.maxExts = 1, 1, 5
			g.chooseBig(5, "exts", "cfg", "name", "lit")
			d := g.doc()
			if len(d.Exts) == 0 {
				d.Exts = g.exts(g.n(1, 3))
			}
			c := &Case{Kind: "extensions", Src: d.src(g.layout()), Want: d.wantJSON(), Plain: len(d.Exts) < 2}
			for _, x := range d.Exts {
				if len(x.Cfg) > 0 {
					c.Plain = false
					c.label("configured")
				}
			}
			c.Labels = uniq(c.Labels)
			return c
		},
		Check: func(c *Case) string { return compile(c.Src).bothMatch(c.Want, "extensions") },
	})

	register(&Prop{ID: "C28", Quick: 20000, Thorough: 1200000,
		Rule: "rule-abiding documents over all dimensions, one in five with one dimension large (dozens to hundreds), plus fixed documents with thousands of declarations; all must be accepted. Non-trivial: at least two declarations.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			g.chooseBig(5)
			d := g.doc()
			c := &Case{Kind: "valid", Src: d.src(g.layout()), Plain: len(d.Decls)+len(d.Exts) < 2}
			if g.big != "" {
				c.label("large-" + g.big)
			}
			d.stats(c)
			return c
		},
		Check: func(c *Case) string { return compile(c.Src).accepted() },
		Extra: largeDocs,
	})
}

// largeDocs compiles a few very large documents.
func largeDocs(e *env) (int, int, *Failure, []string) {
	k := 1
	if e.tier == "thorough" {
		k = 5
	}
	mk := func(what string, n int) string {
		var b strings.Builder
		b.WriteString("database big;\n")
		switch what {
		case "tables":
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, "table t%d { id int primary, v%d text maxlen(%d), #i%d unique(v%d), fk (id) ref t%d(id) }\n", i, i, i, i, i, (i*7+1)%n)
			}
		case "columns":
			b.WriteString("table t {\n")
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, "c%d int min(%d),\n", i, i)
			}
			b.WriteString("#i index(c0")
			for i := 1; i < n; i++ {
				fmt.Fprintf(&b, ",c%d", i)
			}
			b.WriteString(")\n}\n")
		case "actions":
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, "action a%d($p%d) public { a%d($p%d); }\n", i, i, (i*5+3)%n, i)
			}
		case "statements":
			b.WriteString("use e as x;\naction a($p) private {\n")
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, "$v%d = x.m($p);\n", i)
			}
			b.WriteString("a($v0")
			for i := 1; i < n; i++ {
				fmt.Fprintf(&b, ", $v%d", i)
			}
			b.WriteString(");\n}\n")
		case "sql":
			b.WriteString("init() {\n")
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, "insert into t values (%d, 'x%d');\n", i, i)
			}
			b.WriteString("}\n")
		case "extensions":
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, "use e { k%d: '%d' } as x%d;\n", i, i, i)
			}
		case "params":
			b.WriteString("action a($p0")
			for i := 1; i < n; i++ {
				fmt.Fprintf(&b, ", $p%d", i)
			}
			b.WriteString(") public view { a(" + strings.Repeat("lower(", 300) + "$p1" + strings.Repeat(")", 300) + "); }")
		case "name":
			nm := strings.Repeat("n", n)
			fmt.Fprintf(&b, "table %s { %s int default(%s), #%sx index(%s) } action %s($%s) { %s('%s'); }", nm, nm, strings.Repeat("9", n), nm, nm, nm, nm, nm, strings.Repeat("\\'", n))
		}
		return b.String()
	}
	sizes := map[string]int{"tables": 1500, "columns": 3000, "actions": 2000, "statements": 2000, "sql": 400, "extensions": 2000, "params": 2000, "name": 20000}
	n := 0
	for _, w := range sortedKeys(sizes) {
		c := &Case{Prop: "C28", Kind: "large", Src: mk(w, sizes[w]*k), Labels: []string{w}}
		st, msg := runOne(c, scratchDir())
		n++
		if st == oneViolated {
			// shrink by halving
			for sz := sizes[w] * k / 2; sz > 1; sz /= 2 {
				c2 := &Case{Prop: "C28", Kind: "large", Src: mk(w, sz), Labels: []string{w}}
				st2, msg2 := runOne(c2, scratchDir())
				if st2 != oneViolated {
					break
				}
				c, msg = c2, msg2
			}
			return n, n, &Failure{c, msg}, nil
		}
		if st == oneError {
			return n, n, nil, []string{"large document " + w + ": " + msg}
		}
	}
	return n, n, nil, []string{fmt.Sprintf("%d large documents, sizes x%d: %v", n, k, sizes)}
}

func usedActs(d *Doc) *names {
	ns := newNames()
	for _, a := range d.Actions() {
		ns.add(a.Name)
	}
	return ns
}

// pickExpr draws some argument expression of the document.
func pickExpr(g *G, d *Doc) *Expr {
	var all []*Expr
	var walk func(e *Expr)
	walk = func(e *Expr) {
		all = append(all, e)
		for _, a := range e.Args {
			walk(a)
		}
	}
	for _, a := range d.bodies() {
		for _, s := range a.Stmts {
			if s.Call != nil {
				for _, e := range s.Call.Args {
					walk(e)
				}
			}
		}
	}
	if len(all) == 0 {
		return nil
	}
	return all[g.n(0, len(all)-1)]
}

// sqlMatch: every statement list has the expected length, and its SQL
// statements are the expected texts.
func sqlMatch(got, want map[string]any) string {
	ga, wa := list(got["actions"]), list(want["actions"])
	if len(ga) != len(wa) {
		return fmt.Sprintf("%d actions, want %d", len(ga), len(wa))
	}
	for i := range wa {
		gs, ws := list(get(ga[i], "statements")), list(get(wa[i], "statements"))
		if len(gs) != len(ws) {
			return fmt.Sprintf("action %d: %d statements, want %d: %s", i, len(gs), len(ws), show(gs))
		}
		for j := range ws {
			if isSQLText(str(ws[j])) && gs[j] != ws[j] {
				return fmt.Sprintf("action %d statement %d: got %s, want %s", i, j, show(gs[j]), show(ws[j]))
			}
		}
	}
	return ""
}

// isSQLText tells an SQL statement of an expected document from a call: a
// keyword and white space.
func isSQLText(s string) bool {
	for _, k := range kwCI {
		if len(s) > len(k) && strings.EqualFold(s[:len(k)], k) && strings.IndexByte(" \t\n\r", s[len(k)]) >= 0 {
			return true
		}
	}
	return false
}

func callsMatch(got, want map[string]any) string {
	ga, wa := list(got["actions"]), list(want["actions"])
	if len(ga) != len(wa) {
		return fmt.Sprintf("%d actions, want %d", len(ga), len(wa))
	}
	for i := range wa {
		gs, ws := list(get(ga[i], "statements")), list(get(wa[i], "statements"))
		if len(gs) != len(ws) {
			return fmt.Sprintf("action %d: %d statements, want %d", i, len(gs), len(ws))
		}
		for j := range ws {
			w, g := str(ws[j]), str(gs[j])
			if isSQLText(w) {
				continue
			}
			wt, gt := lexTexts(w), lexTexts(g)
			if strings.Join(wt, "\x00") != strings.Join(gt, "\x00") {
				return fmt.Sprintf("action %d statement %d: output %q has the tokens %q, want %q", i, j, g, gt, wt)
			}
		}
	}
	return ""
}

func lexTexts(s string) (r []string) {
	toks, bad := refLex(s)
	for _, t := range toks {
		r = append(r, t.text)
	}
	if bad >= 0 {
		r = append(r, fmt.Sprintf("<bad character at %d>", bad))
	}
	return
}

// recompile compiles the calls of an output again.
func recompile(m map[string]any) string {
	var b strings.Builder
	b.WriteString("database again;\n")
	for _, x := range list(m["extensions"]) {
		fmt.Fprintf(&b, "use %s as %s;\n", str(get(x, "name")), str(get(x, "alias")))
	}
	for _, a := range list(m["actions"]) {
		if str(get(a, "name")) == "init" {
			b.WriteString("init() {\n")
		} else {
			var ps []string
			for _, p := range list(get(a, "inputs")) {
				ps = append(ps, str(p))
			}
			fmt.Fprintf(&b, "action %s(%s) {\n", str(get(a, "name")), strings.Join(ps, ","))
		}
		for _, s := range list(get(a, "statements")) {
			b.WriteString(str(s) + "\n")
		}
		b.WriteString("}\n")
	}
	o := compile(b.String())
	if e := o.accepted(); e != "" {
		return "compiling the output's call statements again: " + e
	}
	m2 := decodedMap(o.JSON)
	a1, a2 := list(m["actions"]), list(m2["actions"])
	if len(a1) != len(a2) {
		return "compiling the output's statements again gives another number of actions"
	}
	for i := range a1 {
		if d := diff(fmt.Sprintf("again.actions[%d].statements", i), get(a2[i], "statements"), get(a1[i], "statements")); d != "" {
			return "compiling the output's call statements again: " + d
		}
	}
	return ""
}
