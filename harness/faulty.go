package main

import (
	"encoding/json"
	"strings"
)

// Documents in which the same rule is broken everywhere, for programs that lose
// their way among many faults.

var faultKinds = map[string]func(d *Doc, n int){
	"f-callee": func(d *Doc, n int) {
		for i := 0; i < n; i++ {
			d.act(hx("a%d", i), &Stmt{Call: &Call{Fn: hx("zz%d", i)}})
		}
	},
	"f-ext": func(d *Doc, n int) {
		for i := 0; i < n; i++ {
			d.act(hx("a%d", i), &Stmt{Call: &Call{Ext: hx("zz%d", i), Fn: "m", Recv: []string{"$r"}}})
		}
	},
	"f-var": func(d *Doc, n int) {
		for i := 0; i < n; i++ {
			d.act(hx("a%d", i), &Stmt{Call: &Call{Fn: "a0", Args: []*Expr{vr(hx("$z%d", i))}}})
		}
	},
	"f-varargs": func(d *Doc, n int) {
		c := &Call{Fn: "a0"}
		for i := 0; i < n; i++ {
			c.Args = append(c.Args, vr(hx("$z%d", i)))
		}
		d.act("a0", &Stmt{Call: c})
	},
	"f-stmts": func(d *Doc, n int) {
		var ss []*Stmt
		for i := 0; i < n; i++ {
			ss = append(ss, &Stmt{Call: &Call{Fn: hx("zz%d", i)}})
		}
		d.act("a0", ss...)
	},
	"f-params": func(d *Doc, n int) {
		for i := 0; i < n; i++ {
			d.act(hx("a%d", i), &Stmt{SQL: "select 1"}).Params = []string{"$p", "$q", "$p"}
		}
	},
	"f-twoparams": func(d *Doc, n int) {
		a := d.act("a", &Stmt{SQL: "select 1"})
		for i := 0; i < 2*n; i++ {
			a.Params = append(a.Params, hx("$p%d", i/2))
		}
	},
	"f-recv": func(d *Doc, n int) {
		d.Exts = append(d.Exts, &Ext{Name: "e", Alias: "x"})
		for i := 0; i < n; i++ {
			d.act(hx("a%d", i), &Stmt{Call: &Call{Ext: "x", Fn: "m", Recv: []string{"$r", "$s", "$r"}}})
		}
	},
	"f-acts": func(d *Doc, n int) {
		for i := 0; i < 2*n; i++ {
			d.act(hx("a%d", i/2), &Stmt{SQL: "select 1"})
		}
	},
	"f-oneact": func(d *Doc, n int) {
		for i := 0; i < n; i++ {
			d.act("a", &Stmt{SQL: "select 1"})
		}
	},
	"f-inits": func(d *Doc, n int) {
		for i := 0; i < n; i++ {
			d.act("init", &Stmt{SQL: "select 1"}).IsInit = true
		}
	},
	"f-exts": func(d *Doc, n int) {
		for i := 0; i < 2*n; i++ {
			d.Exts = append(d.Exts, &Ext{Name: hx("e%d", i), Alias: hx("x%d", i/2)})
		}
	},
	"f-tables": func(d *Doc, n int) {
		for i := 0; i < 2*n; i++ {
			d.tab(hx("t%d", i/2))
		}
	},
	"f-cols": func(d *Doc, n int) {
		for i := 0; i < n; i++ {
			t := d.tab(hx("t%d", i))
			t.Cols = append(t.Cols, &Col{"a", "text", nil})
		}
	},
	"f-twocols": func(d *Doc, n int) {
		t := d.tab("t")
		for i := 0; i < 2*n; i++ {
			t.Cols = append(t.Cols, &Col{hx("c%d", i/2), "int", nil})
		}
	},
	"f-attrs": func(d *Doc, n int) {
		for i := 0; i < n; i++ {
			t := d.tab(hx("t%d", i))
			t.Cols = append(t.Cols, &Col{"z", "int", []Attr{{"maxlen", "4"}}})
		}
	},
	"f-colattrs": func(d *Doc, n int) {
		t := d.tab("t")
		for i := 0; i < n; i++ {
			t.Cols = append(t.Cols, &Col{hx("c%d", i), "int", []Attr{{"min", "4"}, {"min", "5"}}})
		}
	},
	"f-fk": func(d *Doc, n int) {
		for i := 0; i < n; i++ {
			t := d.tab(hx("t%d", i))
			t.Items = append(t.Items, &TItem{FK: &FK{Child: []string{"a"}, Parent: hx("zz%d", i), ParentCols: []string{"a"}}})
		}
	},
	"f-fkcol": func(d *Doc, n int) {
		for i := 0; i < n; i++ {
			t := d.tab(hx("t%d", i))
			t.Items = append(t.Items, &TItem{FK: &FK{Child: []string{"a"}, Parent: hx("t%d", n-1-i), ParentCols: []string{"zz"}}})
		}
	},
	"f-fks": func(d *Doc, n int) {
		t := d.tab("t")
		for i := 0; i < n; i++ {
			t.Items = append(t.Items, &TItem{FK: &FK{Child: []string{"a"}, Parent: hx("zz%d", i), ParentCols: []string{"a"}}})
		}
	},
	"f-fkacts": func(d *Doc, n int) {
		t := d.tab("t")
		for i := 0; i < n; i++ {
			t.Items = append(t.Items, &TItem{FK: &FK{Child: []string{"a"}, Parent: "t", ParentCols: []string{"b"},
				Acts: []FKAct{{"on_update", "cascade", false}, {"on_delete", "cascade", false}, {"on_update", "restrict", false}}}})
		}
	},
	"f-idx": func(d *Doc, n int) {
		t := d.tab("t")
		for i := 0; i < 2*n; i++ {
			t.Items = append(t.Items, &TItem{Idx: &Index{hx("i%d", i/2), "index", []string{"a"}}})
		}
	},
	"f-idxcol": func(d *Doc, n int) {
		for i := 0; i < n; i++ {
			t := d.tab(hx("t%d", i))
			t.Items = append(t.Items, &TItem{Idx: &Index{"i", "index", []string{"a", "zz"}}})
		}
	},
	"f-mods": func(d *Doc, n int) {
		for i := 0; i < n; i++ {
			d.act(hx("a%d", i), &Stmt{SQL: "select 1"}).Mods = [][]string{{"public", "private"}, {"view", "public", "view"}, {"owner", "owner"}}[i%3]
		}
	},
	"f-onemod": func(d *Doc, n int) {
		d.act("a", &Stmt{SQL: "select 1"}).Mods = strings.Fields(strings.Repeat("view ", n))
	},
}

func (d *Doc) act(name string, ss ...*Stmt) *Action {
	a := &Action{Name: name, Stmts: ss}
	d.Decls = append(d.Decls, &Decl{Action: a})
	return a
}

func (d *Doc) tab(name string) *Table {
	t := &Table{Name: name, Cols: []*Col{{"a", "int", nil}, {"b", "int", nil}}}
	d.Decls = append(d.Decls, &Decl{Table: t})
	return t
}

// faultyDoc has n (or more) faults of one kind, for even n among declarations without.
func faultyDoc(dim string, n int) *Doc {
	d := &Doc{Name: "faulty"}
	if n%2 == 0 {
		d.tab("fine")
		d.act("fine", &Stmt{SQL: "select 1"})
	}
	faultKinds[dim](d, n)
	if n%2 == 0 {
		d.tab("fine2")
		d.act("fine2", &Stmt{SQL: "select 2"})
	}
	return d
}

func isFaulty(dim string) bool { return strings.HasPrefix(dim, "f-") }

// faultyCase: the document must be rejected as one of the rules it breaks.
func faultyCase(kind string) hugeMake {
	return func(d *Doc, dim string, n int, mid string) *Case {
		b, err := json.Marshal(breaches(d))
		if err != nil {
			panic(err)
		}
		return &Case{Kind: kind, Src: d.hugeSrc(mid), Errs: refErrs(d), Want: b}
	}
}

var allFaults = strings.Join(sortedKeys(faultKinds), " ")
