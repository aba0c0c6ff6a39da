package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/utils"
	"pgregory.net/rapid"
)

// namesOnly is the outline of a document: the names in order.
func (d *Doc) namesOnly() json.RawMessage {
	var ts, as, xs []string
	for _, t := range d.Tables() {
		ts = append(ts, t.Name)
	}
	for _, a := range d.Actions() {
		as = append(as, a.Name)
	}
	for range d.Inits() {
		as = append(as, "init")
	}
	for _, x := range d.Exts {
		xs = append(xs, x.Alias)
	}
	b, _ := json.Marshal(map[string][]string{"tables": ts, "actions": as, "extensions": xs})
	return b
}

var sections = map[string]string{"tables": "name", "actions": "name", "extensions": "alias"}

func init() {
	register(&Prop{ID: "C16", Quick: 16000, Thorough: 960000,
		Rule: "two renderings of one token list in different layouts (blanks, line ends, comments with any text), with synonyms, 'do' and trailing commas chosen anew; valid documents, documents that break rules, and corrupted token lists. The reference lexer first confirms that both texts have the same tokens. Non-trivial: the two texts differ.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			d := g.anyDoc("tables", "acts", "stmts", "lit", "args", "cols", "sql")
			c := &Case{Kind: "document"}
			t1, t2 := d.toks(), g.relayout(d).toks()
			if g.p(4) {
				c.Kind = "corrupted"
				t1 = g.corruptToks(t1, g.n(1, 2))
				t2 = t1
			}
			l1, l2 := g.layout(), g.layout()
			if l2.style != 3 && g.b() {
				l2.style = 3
				for i := g.n(2, 8); i > 0; i-- {
					l2.pool = append(l2.pool, g.separator())
				}
				l2.head, l2.tail = g.separator(), g.separator()
			}
			c.Src, c.Src2 = limitSQLParens(render(t1, l1)), limitSQLParens(render(t2, l2))
			k1, k2 := canonToks(c.Src), canonToks(c.Src2)
			if k1 == nil || !reflect.DeepEqual(k1, k2) {
				c.Kind = "not-equivalent"
			}
			c.Plain = c.Src == c.Src2 || c.Kind == "not-equivalent"
			c.label(c.Kind)
			return c
		},
		Check: func(c *Case) string {
			if c.Kind == "not-equivalent" {
				return ""
			}
			o1, o2 := compile(c.Src), compile(c.Src2)
			if m := sameKinds(o1, o2, "two layouts of one source"); m != "" {
				return m
			}
			if o1.Err != nil {
				return ""
			}
			if string(o1.JSON) != string(o2.JSON) {
				m := diff("$", decodedMap(o2.JSON), decodedMap(o1.JSON))
				return "two layouts of one source give different schemas: " + m
			}
			if d := diff("schema", normal(schemaAny(o2.Sch)), normal(schemaAny(o1.Sch))); d != "" {
				return "two layouts of one source give different schemas: " + d
			}
			return ""
		},
	})

	register(&Prop{ID: "C17", Quick: 14000, Thorough: 840000,
		Rule: "a document, valid or not, and a permutation of its declarations and extension uses (reversed, rotated, shuffled). Non-trivial: at least two declarations and the order changed.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			d := g.anyDoc("tables", "acts", "exts")
			for i := 0; i < 4 && len(d.Decls)+len(d.Exts) < 2; i++ {
				d = g.anyDoc("tables", "acts", "exts")
			}
			c := &Case{Kind: "permuted", Errs: refErrs(d)}
			if !d.clean() {
				c.Kind = "undecided"
			}
			e := d.clone()
			perm := func(n int, swap func(i, j int)) {
				switch g.n(0, 2) {
				case 0: // reverse
					for i := 0; i < n/2; i++ {
						swap(i, n-1-i)
					}
				case 1: // one declaration goes to the front
					if n > 0 {
						for j := g.n(0, n-1); j > 0; j-- {
							swap(j, j-1)
						}
					}
				default:
					for i := n - 1; i > 0; i-- {
						swap(i, g.n(0, i))
					}
				}
			}
			perm(len(e.Decls), func(i, j int) { e.Decls[i], e.Decls[j] = e.Decls[j], e.Decls[i] })
			perm(len(e.Exts), func(i, j int) { e.Exts[i], e.Exts[j] = e.Exts[j], e.Exts[i] })
			l := g.layout()
			c.Src, c.Src2 = d.src(l), e.src(l)
			c.Want = e.namesOnly()
			c.Plain = c.Kind == "undecided" || string(c.Want) == string(d.namesOnly()) && len(d.Decls) < 2
			c.label(c.Kind)
			if len(c.Errs) > 0 {
				c.label("rejected")
			} else {
				c.label("accepted")
			}
			return c
		},
		Check: func(c *Case) string {
			if c.Kind == "undecided" {
				return ""
			}
			o1, o2 := compile(c.Src), compile(c.Src2)
			for _, o := range []*Out{o1, o2} {
				if m := o.verdict(c.Errs); m != "" {
					return m
				}
			}
			if len(c.Errs) == 1 {
				if m := sameKinds(o1, o2, "two orders of the same declarations"); m != "" {
					return m
				}
			}
			if o1.Err != nil {
				return ""
			}
			m1, m2, w := decodedMap(o1.JSON), decodedMap(o2.JSON), decodedMap(c.Want)
			if m1["name"] != m2["name"] || m1["owner"] != m2["owner"] {
				return "the database name changed with the order"
			}
			for _, sec := range sortedKeys(sections) {
				by := map[string]any{}
				for _, x := range list(m1[sec]) {
					by[str(get(x, sections[sec]))] = x
				}
				l2, lw := list(m2[sec]), list(w[sec])
				if len(l2) != len(lw) {
					return fmt.Sprintf("%s: %d, want %d", sec, len(l2), len(lw))
				}
				for i := range lw {
					n := str(get(l2[i], sections[sec]))
					if n != lw[i] {
						return fmt.Sprintf("%s[%d] is %q, the source has %q there", sec, i, n, lw[i])
					}
					if d := diff(sec+"."+n, l2[i], by[n]); d != "" {
						return "after reordering, " + d
					}
				}
			}
			return ""
		},
	})

	register(&Prop{ID: "C18", Quick: 16000, Thorough: 960000,
		Rule: "valid documents with literals of all kinds (quotes, backslashes, control characters, <>&, non-ASCII), schemas built in memory and schemas filled with arbitrary values; the JSON must be valid, have the documented fields, decode to an equal schema, encode to the same bytes again, be accepted again, and every part on its own must give its part; five edits of the schema must each show in its JSON. Non-trivial: at least one declaration.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			if g.p(8) {
				c := &Case{Kind: "wild", N: g.n(1, 1<<40)}
				c.label(c.Kind)
				return c
			}
			if g.p(8) {
				d, _ := g.handBuilt()
				c := &Case{Kind: "built", Want: d.wantJSON(), N: g.n(0, 2), Plain: len(d.Decls)+len(d.Exts) == 0}
				c.label(c.Kind)
				return c
			}
			g.depth = 2
			g.chooseBig(6)
			d := g.doc()
			c := &Case{Kind: "json", Src: d.src(g.layout()), Plain: len(d.Decls)+len(d.Exts) == 0}
			d.stats(c)
			return c
		},
		Check: func(c *Case) string {
			if c.Kind == "wild" {
				s := wildSchema(c.N)
				if m := faithful(s); m != "" {
					return m
				}
				return edited(s)
			}
			if c.Kind == "built" {
				s := &schema.Schema{}
				if err := json.Unmarshal(c.Want, s); err != nil {
					panic(err)
				}
				emptyLists(reflect.ValueOf(s).Elem(), c.N)
				if m := faithful(s); m != "" {
					return m
				}
				return edited(s)
			}
			o := compile(c.Src)
			if m := lossless(o); m != "" {
				return m
			}
			first := string(o.JSON)
			if m := edited(o.Sch); m != "" {
				return m
			}
			if string(o.JSON) != first {
				return "JSON bytes returned earlier changed when the schema was edited"
			}
			return ""
		},
	})

	register(&Prop{ID: "C19", Quick: 30000, Thorough: 1800000,
		Rule: "actions with 1 to ~80 annotations of 1 to ~140 attributes with arbitrary numbers and strings; each annotation text of the output is read with the annotation reader and compared with the model. Non-trivial: an attribute whose value is a string.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			g.maxTabs, g.maxActs, g.maxExts = 0, 3, 0
			g.chooseBig(4, "anns", "annattrs", "lit", "acts", "name")
			d := g.doc()
			if len(d.Actions()) == 0 {
				d.Decls = append(d.Decls, &Decl{Action: g.action(g.anyName(), nil, nil)})
			}
			c := &Case{Kind: "annotations", Plain: true}
			var want []any
			for _, a := range d.Actions() {
				if len(a.Anns) == 0 {
					for i := g.n(1, 2); i > 0; i-- {
						a.Anns = append(a.Anns, g.ann())
					}
				}
				for _, n := range a.Anns {
					var as []any
					for _, kv := range n.Attrs {
						as = append(as, []string{kv.K, kv.V})
						if kv.V[0] == '\'' {
							c.Plain = false
						}
					}
					want = append(want, map[string]any{"action": a.Name, "target": n.Name, "attrs": as})
				}
			}
			c.Src = d.src(g.layout())
			c.Want, _ = json.Marshal(want)
			d.stats(c)
			return c
		},
		Check: func(c *Case) string {
			o := compile(c.Src)
			if m := o.accepted(); m != "" {
				return m
			}
			var want []struct {
				Action, Target string
				Attrs          [][2]string
			}
			if err := json.Unmarshal(c.Want, &want); err != nil {
				panic(err)
			}
			k := 0
			for _, a := range o.Sch.Actions {
				for _, text := range a.Annotations {
					if k >= len(want) {
						return "more annotations than written"
					}
					w := want[k]
					k++
					if a.Name != w.Action {
						return fmt.Sprintf("annotation %q stands at action %q, not %q", text, a.Name, w.Action)
					}
					var n *utils.Annotation
					var err error
					if p := call(func() { n, err = utils.ParseAnnotation(text) }); p != "" {
						return "reading an annotation panicked: " + p
					}
					if err != nil || n == nil {
						return fmt.Sprintf("annotation %q cannot be read: %v", text, err)
					}
					if n.Target != w.Target {
						return fmt.Sprintf("annotation %q: target %q, want %q", text, n.Target, w.Target)
					}
					if len(n.Attributes) != len(w.Attrs) {
						return fmt.Sprintf("annotation %q: %d attributes, want %d: %q", text, len(n.Attributes), len(w.Attrs), n.Attributes)
					}
					first := *n // its owner changes it, and another one reads the text
					kept := append([]utils.AnnotationAttribute(nil), n.Attributes...)
					scribble(reflect.ValueOf(n))
					n2, err := utils.ParseAnnotation(text)
					if err != nil || n2 == nil || n2.Target != first.Target || !reflect.DeepEqual(append([]utils.AnnotationAttribute(nil), n2.Attributes...), kept) {
						return fmt.Sprintf("annotation %q is read differently after an earlier reading was changed by its owner: %v, %v", text, n2, err)
					}
					n = n2
					for i, at := range n.Attributes {
						if at.Name != w.Attrs[i][0] || at.Value != w.Attrs[i][1] {
							return fmt.Sprintf("annotation %q: attribute %d is %s=%s, want %s=%s", text, i, at.Name, at.Value, w.Attrs[i][0], w.Attrs[i][1])
						}
					}
				}
			}
			if k != len(want) {
				return fmt.Sprintf("%d annotations, want %d", k, len(want))
			}
			return ""
		},
	})

	register(&Prop{ID: "C29", Quick: 12000, Thorough: 720000,
		Rule: "pairs of documents made disjoint and joined: both valid, or one broken by one mutation; and documents with one unreferenced declaration added at a random place. Results of the parts are compared with the result of the whole. Non-trivial: both parts have a declaration.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			g.chooseBig(8, "tables", "acts", "exts", "stmts", "cols")
			a := g.doc()
			if g.p(3) { // one more declaration
				return g.added(a)
			}
			g.big = ""
			b := g.doc()
			c := &Case{Kind: "join"}
			if g.p(3) {
				g.mutate(b)
				c.Kind = "join-rejected"
			}
			g.apart(b, a)
			if len(a.Inits()) > 0 { // the second part's init goes
				var ds []*Decl
				for _, x := range b.Decls {
					if x.Action == nil || !x.Action.IsInit {
						ds = append(ds, x)
					}
				}
				b.Decls = ds
			}
			parts := []*Doc{a, b}
			if g.b() {
				parts = []*Doc{b, a}
			}
			j := join(parts[0], parts[1])
			c.Errs = refErrs(b)
			if !b.clean() || joinKinds(refErrs(j)) != joinKinds(c.Errs) {
				c.Kind = "undecided"
			}
			if c.Kind == "join-rejected" && len(c.Errs) == 0 {
				c.Kind = "join"
			}
			if c.Kind == "join" && len(c.Errs) > 0 {
				panic("a valid document became invalid: " + joinKinds(c.Errs))
			}
			l := g.layout()
			c.Src = j.src(l)
			c.Srcs = []string{parts[0].src(l), parts[1].src(l)}
			c.Plain = c.Kind == "undecided" || len(a.Decls)+len(a.Exts) == 0 || len(b.Decls)+len(b.Exts) == 0
			c.label(c.Kind)
			return c
		},
		Check: func(c *Case) string {
			if c.Kind == "undecided" {
				return ""
			}
			whole := compile(c.Src)
			if c.Kind == "join-rejected" {
				for i, s := range append([]string{c.Src}, c.Srcs...) {
					o := compile(s)
					if i > 0 && o.Err == nil && o.Panicked == "" {
						continue // the valid part
					}
					if m := o.verdict(c.Errs); m != "" {
						return fmt.Sprintf("part %d of 0 (joint), 1, 2: %s", i, m)
					}
				}
				return ""
			}
			if m := whole.accepted(); m != "" {
				return m
			}
			w := decodedMap(whole.JSON)
			var parts []map[string]any
			for _, s := range c.Srcs {
				o := compile(s)
				if m := o.accepted(); m != "" {
					return m
				}
				parts = append(parts, decodedMap(o.JSON))
			}
			if c.Kind == "added" { // the part is the whole without one declaration
				sec, name := c.Map["section"], c.Map["name"]
				var rest []any
				for _, x := range list(w[sec]) {
					if str(get(x, sections[sec])) != name {
						rest = append(rest, x)
					}
				}
				if len(rest) != len(list(w[sec]))-1 {
					return fmt.Sprintf("%s %q is not there exactly once", sec, name)
				}
				w[sec] = rest
				return diff("without "+name, normal(w), parts[0])
			}
			want := map[string]any{"name": w["name"], "owner": w["owner"]}
			for _, sec := range sortedKeys(sections) {
				var all, inits []any
				for _, p := range parts {
					for _, x := range list(p[sec]) {
						if sec == "actions" && get(x, "name") == "init" {
							inits = append(inits, x)
						} else {
							all = append(all, x)
						}
					}
				}
				want[sec] = append(all, inits...)
			}
			return diff("joint", w, normal(want))
		},
	})

	register(&Prop{ID: "C30", Quick: 16000, Thorough: 960000,
		Rule: "a document, valid or not, and an injective renaming of all its names and variables (permuted among themselves, near the old names, keyword look-alikes, one letter, very long; in one of three the database apart from the rest, also to the name of a part); verdict kinds must agree and the schema must be the renamed one. Non-trivial: some name changed and there is a declaration.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			d := g.anyDoc("tables", "acts", "exts", "name", "cols", "stmts")
			c := &Case{Kind: "renamed", Map: g.renaming(d)}
			if g.p(3) { // the database takes, or gives up, the name of a part
				c.Map[databaseName] = g.name(newNames())
				if n := c.Map[pickOf(g, d.allNames()...)]; g.b() && n != "" {
					c.Map[databaseName] = n
				}
				c.label("database")
			}
			l := g.layout()
			c.Src = d.src(l)
			e := d.clone()
			e.rename(c.Map)
			c.Src2 = e.src(l)
			if joinKinds(refErrs(d)) != joinKinds(refErrs(e)) {
				panic("the renaming is not injective")
			}
			if len(refErrs(d)) > 0 {
				c.label("rejected")
			} else {
				c.label("accepted")
			}
			c.Plain = c.Src == c.Src2 || len(d.Decls)+len(d.Exts) == 0
			return c
		},
		Check: func(c *Case) string {
			o1, o2 := compile(c.Src), compile(c.Src2)
			if m := sameKinds(o1, o2, "a source and the same with other names"); m != "" {
				return m
			}
			if o1.Err != nil {
				return ""
			}
			m1, m2 := decodedMap(o1.JSON), decodedMap(o2.JSON)
			ren := func(v any) any {
				if n, ok := c.Map[str(v)]; ok {
					return n
				}
				return v
			}
			in := func(m any, k string) {
				if mm, ok := m.(map[string]any); ok && mm[k] != nil {
					mm[k] = ren(mm[k])
				}
			}
			all := func(l any) {
				for i, x := range list(l) {
					list(l)[i] = ren(x)
				}
			}
			in(m1, "name")
			if n, ok := c.Map[databaseName]; ok {
				m1["name"] = n
			}
			for _, x := range list(m1["extensions"]) {
				in(x, "name")
				in(x, "alias")
			}
			for _, t := range list(m1["tables"]) {
				in(t, "name")
				for _, x := range list(get(t, "columns")) {
					in(x, "name")
				}
				for _, x := range list(get(t, "indexes")) {
					in(x, "name")
					all(get(x, "columns"))
				}
				for _, x := range list(get(t, "foreign_keys")) {
					in(x, "parent_table")
					all(get(x, "child_keys"))
					all(get(x, "parent_keys"))
				}
			}
			for i, a := range list(m1["actions"]) {
				if get(a, "name") != "init" {
					in(a, "name")
				}
				all(get(a, "inputs"))
				st := list(get(a, "statements"))
				st2 := list(get(list(m2["actions"]), i, "statements"))
				for j := range st {
					s := str(st[j])
					if isSQLText(s) {
						continue
					}
					st[j] = strings.Join(renameCall(s, c.Map), "\x00")
					if j < len(st2) {
						st2[j] = strings.Join(lexTexts(str(st2[j])), "\x00")
					}
				}
			}
			if d := diff("renamed", m2, m1); d != "" {
				return d
			}
			return ""
		},
	})
}

// added puts one declaration that nothing refers to into a document.
func (g *G) added(d *Doc) *Case {
	c := &Case{Kind: "added"}
	whole := d.clone()
	switch g.n(0, 2) {
	case 0:
		ns := newNames()
		for _, t := range d.Tables() {
			ns.add(t.Name)
		}
		t := g.tables(1)[0]
		old := t.Name
		t.Name = g.name(ns)
		for _, f := range t.fks() {
			if f.Parent == old {
				f.Parent = t.Name
			}
		}
		pos := g.n(0, len(whole.Decls))
		whole.Decls = append(whole.Decls[:pos:pos], append([]*Decl{{Table: t}}, whole.Decls[pos:]...)...)
		c.Map = map[string]string{"section": "tables", "name": t.Name}
	case 1:
		ns := usedActs(d)
		n := g.name(ns)
		var xs []string
		for _, x := range d.Exts {
			xs = append(xs, x.Alias)
		}
		var as []string
		for _, a := range d.Actions() {
			as = append(as, a.Name)
		}
		a := g.action(n, append(as, n), xs)
		pos := g.n(0, len(whole.Decls))
		whole.Decls = append(whole.Decls[:pos:pos], append([]*Decl{{Action: a}}, whole.Decls[pos:]...)...)
		c.Map = map[string]string{"section": "actions", "name": n}
	default:
		ns := newNames()
		for _, x := range d.Exts {
			ns.add(x.Alias)
		}
		x := g.ext(ns)
		pos := g.n(0, len(whole.Exts))
		whole.Exts = append(whole.Exts[:pos:pos], append([]*Ext{x}, whole.Exts[pos:]...)...)
		c.Map = map[string]string{"section": "extensions", "name": x.Alias}
	}
	l := g.layout()
	c.Src, c.Srcs = whole.src(l), []string{d.src(l)}
	c.label(c.Kind)
	c.Plain = len(d.Decls)+len(d.Exts) == 0
	return c
}

// lossless decides C18 for one outcome.
func lossless(o *Out) string {
	if m := o.accepted(); m != "" {
		return m
	}
	if !json.Valid(o.JSON) {
		return "the output is not valid JSON"
	}
	if o.Sch == nil {
		return "the result is not a schema"
	}
	whole := decodedMap(o.JSON)
	if d := diff("$", whole, normal(schemaAny(o.Sch))); d != "" {
		return "the JSON is not the schema: " + d
	}
	var raw map[string]json.RawMessage
	if err := json.Unmarshal(o.JSON, &raw); err != nil {
		return "the output is not a JSON object: " + err.Error()
	}
	for k := range raw {
		if k != "owner" && k != "name" && k != "tables" && k != "actions" && k != "extensions" {
			return "unknown field " + k
		}
	}
	var back schema.Schema
	if err := json.Unmarshal(o.JSON, &back); err != nil {
		return "the JSON does not decode into a schema: " + err.Error()
	}
	if d := diff("decoded", normal(schemaAny(&back)), normal(schemaAny(o.Sch))); d != "" {
		return "the decoded schema differs: " + d
	}
	var again []byte
	var err error
	if p := call(func() { again, err = back.ToJSON() }); p != "" {
		return p
	}
	if err != nil || string(again) != string(o.JSON) {
		return fmt.Sprintf("the decoded schema encodes to other bytes (error %v): %s", err, firstDiff(string(again), string(o.JSON)))
	}
	for _, s := range []*schema.Schema{&back, o.Sch} {
		if p := call(func() { err = s.Accept(schema.NewCtxValidator()) }); p != "" {
			return p
		}
		if err != nil {
			return "the schema of an accepted source fails validation: " + err.Error()
		}
	}
	// parts, to the last null
	exact, err := decodeRaw(o.JSON)
	if err != nil {
		return err.Error()
	}
	part := func(what string, v interface{ ToJSON() ([]byte, error) }, path ...any) string {
		var b []byte
		var err error
		if p := call(func() { b, err = v.ToJSON() }); p != "" {
			return what + ": " + p
		}
		if err != nil {
			return what + ": " + err.Error()
		}
		g, err := decodeRaw(b)
		if err != nil {
			return what + " on its own is not valid JSON: " + err.Error()
		}
		return diff(what+" on its own", g, get(exact, path...))
	}
	for i := range o.Sch.Tables {
		t := &o.Sch.Tables[i]
		if m := part("table", t, "tables", i); m != "" {
			return m
		}
		for j := range t.Columns {
			if m := part("column", &t.Columns[j], "tables", i, "columns", j); m != "" {
				return m
			}
			for k := range t.Columns[j].Attributes {
				if m := part("constraint", &t.Columns[j].Attributes[k], "tables", i, "columns", j, "attributes", k); m != "" {
					return m
				}
			}
		}
		for j := range t.Indexes {
			if m := part("index", &t.Indexes[j], "tables", i, "indexes", j); m != "" {
				return m
			}
		}
		for j := range t.ForeignKeys {
			if m := part("foreign key", &t.ForeignKeys[j], "tables", i, "foreign_keys", j); m != "" {
				return m
			}
		}
	}
	for i := range o.Sch.Actions {
		if m := part("action", &o.Sch.Actions[i], "actions", i); m != "" {
			return m
		}
	}
	for i := range o.Sch.Extensions {
		if m := part("extension", &o.Sch.Extensions[i], "extensions", i); m != "" {
			return m
		}
	}
	return ""
}

// faithful: the JSON of a schema in memory is that schema as it is now.
func faithful(s *schema.Schema) string {
	var b []byte
	var err error
	if p := call(func() { b, err = s.ToJSON() }); p != "" {
		return p
	}
	if err != nil {
		return err.Error()
	}
	g, err := decode(b)
	if err != nil {
		return "not valid JSON: " + err.Error()
	}
	if d := diff("$", g, normal(schemaAny(s))); d != "" {
		return "the JSON is not the schema: " + d
	}
	for i := range s.Tables { // numbers come back as floats
		for j := range s.Tables[i].Columns {
			for _, a := range s.Tables[i].Columns[j].Attributes {
				if _, ok := a.Value.(string); !ok && a.Value != nil {
					return ""
				}
			}
		}
	}
	var back schema.Schema
	if err := json.Unmarshal(b, &back); err != nil {
		return "the JSON does not decode into a schema: " + err.Error()
	}
	if d := diff("decoded", normal(schemaAny(&back)), normal(schemaAny(s))); d != "" {
		return "the decoded schema differs: " + d
	}
	return ""
}

// edited changes a schema in several steps; its JSON must follow each.
func edited(s *schema.Schema) string {
	steps := []struct {
		what string
		do   func()
	}{
		{"setting owner and name", func() { s.Owner, s.Name = "0xAbC <&>\u2028'\"\\", s.Name+"x" }},
		{"changing the first table", func() {
			if len(s.Tables) > 0 {
				t := &s.Tables[0]
				t.Name += "é"
				for i, j := 0, len(t.Columns)-1; i < j; i, j = i+1, j-1 {
					t.Columns[i], t.Columns[j] = t.Columns[j], t.Columns[i]
				}
				if len(t.Columns) > 0 {
					t.Columns[0].Attributes = append(t.Columns[0].Attributes, schema.Attribute{Type: "default", Value: "'<\x01>'"})
				}
			}
		}},
		{"repeating the last table and changing the copy", func() {
			if n := len(s.Tables); n > 0 {
				t := s.Tables[n-1]
				t.Name, t.ForeignKeys = t.Name+"2", nil
				t.Indexes = append(t.Indexes[:len(t.Indexes):len(t.Indexes)], schema.Index{Name: "more", Columns: []string{"a", "b"}, Type: "primary"})
				s.Tables = append(s.Tables, t)
			}
		}},
		{"changing the last action", func() {
			if n := len(s.Actions); n > 0 {
				a := &s.Actions[n-1]
				a.Public, a.Mutability, a.Inputs = !a.Public, "view", nil
				a.Statements = append(a.Statements[:len(a.Statements):len(a.Statements)], "select 'new';")
				a.Auxiliaries = append(a.Auxiliaries[:len(a.Auxiliaries):len(a.Auxiliaries)], schema.AuxiliaryTypeOwner)
			}
		}},
		{"removing actions and adding an extension", func() {
			s.Actions = nil
			s.Extensions = append(s.Extensions, schema.Extension{Name: "e", Alias: "x", Config: []schema.ExtensionConfig{{Argument: "k", Value: "v"}}})
		}},
	}
	for _, st := range steps {
		st.do()
		if m := faithful(s); m != "" {
			return "after " + st.what + ": " + m
		}
	}
	return ""
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 30
	if lo < 0 {
		lo = 0
	}
	return fmt.Sprintf("at byte %d: %q, want %q", i, clip(a[lo:], 80), clip(b[lo:], 80))
}
