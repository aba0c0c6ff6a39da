package main

import (
	"encoding/json"
	"fmt"
	"strings"
)

// lastAct is the last action of a document, lastCall the last call in it.
func (d *Doc) lastAct() *Action {
	for i := len(d.Decls) - 1; i >= 0; i-- {
		if a := d.Decls[i].Action; a != nil {
			return a
		}
	}
	return nil
}

func (a *Action) lastCall() *Call {
	for i := len(a.Stmts) - 1; i >= 0; i-- {
		if c := a.Stmts[i].Call; c != nil {
			return c
		}
	}
	return nil
}

func (d *Doc) lastTab() *Table {
	ts := d.Tables()
	return ts[len(ts)-1]
}

// hugeTwin repeats a name at the end of the long list.
func hugeTwin(d *Doc, dim string, n int) bool {
	k := max(0, at(n, n)) // of the first, the last, the middle one ...
	a, t := d.lastAct(), (*Table)(nil)
	if ts := d.Tables(); len(ts) > 0 {
		t = ts[len(ts)-1]
	}
	switch dim {
	case "tables", "fkgraph", "wide":
		d.Decls = append(d.Decls, &Decl{Table: &Table{Name: hx("t%d", k), Cols: []*Col{{"id", "int", nil}, {hx("v%d", k), "int", nil}}}})
	case "cols":
		t.Cols = append(t.Cols, &Col{hx("c%d", k), "int", nil})
	case "idx":
		nm := hx("i%d", k)
		if n%2 == 0 {
			nm = "a"
		}
		t.Items = append(t.Items, &TItem{Idx: &Index{nm, "index", []string{"a"}}})
	case "acts", "callgraph", "calldag":
		d.Decls = append(d.Decls, &Decl{Action: &Action{Name: hx("a%d", k), Stmts: []*Stmt{{SQL: "select 1"}}}})
	case "params":
		a.Params = append(a.Params, hx("$p%d", k))
	case "recv":
		c := a.Stmts[0].Call
		c.Recv = append(c.Recv, hx("$v%d", k))
	case "exts":
		d.Exts = append(d.Exts, &Ext{Name: "e", Alias: hx("x%d", k)})
	case "lines", "blanks", "comment", "comments":
		d.Decls = append(d.Decls, &Decl{Table: &Table{Name: "small", Cols: []*Col{{"id", "int", nil}, {"v", "int", nil}}}})
	case "name":
		nm := d.lastAct().Name
		d.Decls = append(d.Decls, &Decl{Action: &Action{Name: nm, Stmts: []*Stmt{{SQL: "select 1"}}}})
	default:
		return false
	}
	return true
}

// at is where in a list of k a fault is put: at its end, at its beginning or between.
func at(n, k int) int {
	return []int{k - 1, k / 2, k - 1, 0, k - 2, k - k/8 - 1}[n%6]
}

// hugeRef makes one reference of the long list one to nothing.
func hugeRef(d *Doc, dim string, n int) bool {
	ts := d.Tables()
	if len(ts) == 0 {
		return false
	}
	t := ts[len(ts)-1]
	switch dim {
	case "tables":
		t = ts[at(n, len(ts))]
	case "fkgraph", "wide":
		ts := ts[1:] // without the small one
		t = ts[at(n, len(ts))]
	case "fkdag":
		t = ts[1+at(n, len(ts)-2)]
	}
	var it *TItem
	if len(t.Items) > 0 {
		it = t.Items[len(t.Items)-1]
	}
	switch dim {
	case "tables", "fkgraph", "fkdag":
		if n%2 == 0 {
			it.FK.Parent = hx("t%d", n+5)
		} else {
			it.FK.ParentCols = []string{"zz"}
		}
	case "wide":
		it.Idx.Cols[at(n/2, len(it.Idx.Cols))] = "zz"
	case "cols":
		it.Idx.Cols[at(n, len(it.Idx.Cols))] = hx("c%d", n+5)
	case "idx":
		t.Items[at(n, len(t.Items))].Idx.Cols = []string{"a", "zz"}
	case "fks":
		it = t.Items[at(n/3, len(t.Items))]
		switch n % 3 {
		case 0:
			it.FK.Child = []string{"zz"}
		case 1:
			it.FK.ParentCols = []string{"zz"}
		default:
			it.FK.Parent = "zz"
		}
	case "fkcols":
		if n%2 == 0 {
			it.FK.Child[at(n/2, len(it.FK.Child))] = "c0"
		} else {
			it.FK.ParentCols[at(n/2, len(it.FK.ParentCols))] = "d0"
		}
	case "name":
		nm := ts[1].Cols[0].Name
		it.FK.ParentCols = []string{nm[:len(nm)-1] + "c"}
	default:
		return false
	}
	return true
}

// callerAt is the action of the list that gets the fault.
func (d *Doc) callerAt(n int) *Action {
	var as []*Action
	for _, a := range d.Actions() {
		if !a.IsInit && a.lastCall() != nil && a.Name != "one" {
			as = append(as, a)
		}
	}
	return as[at(n, len(as))]
}

// hugeCallee makes one call one of nothing.
func hugeCallee(d *Doc, dim string, n int) bool {
	a := d.lastAct()
	c := a.lastCall()
	switch dim {
	case "acts", "callgraph", "wide":
		a = d.callerAt(n)
		c = a.lastCall()
		if n%4 == 0 {
			c.Ext = c.Fn
		} else {
			c.Fn = hx("a%d", n+5)
		}
	case "calldag":
		c = d.callerAt(n).lastCall()
		c.Fn = "zz"
	case "stmts":
		bad := &Stmt{Call: &Call{Fn: "zz"}}
		if n%2 == 1 {
			bad = &Stmt{Call: &Call{Ext: "one", Fn: "zz"}}
		}
		if n%3 == 0 {
			a.Stmts = append([]*Stmt{bad}, a.Stmts...)
		} else {
			a.Stmts = append(a.Stmts, bad)
		}
	case "exts":
		a.Stmts[n%3].Call.Ext = hx("x%d", n+5)
	case "args", "deep", "chain", "params", "tree":
		c.Fn = "zz"
	case "name":
		if n%2 == 0 {
			c.Ext = c.Ext[:len(c.Ext)-1] + "y"
		} else {
			c = a.Stmts[0].Call
			c.Fn = c.Fn[:len(c.Fn)-1] + "y"
		}
	default:
		return false
	}
	return true
}

// hugeVar uses a variable that is not in scope somewhere.
func hugeVar(d *Doc, dim string, n int) bool {
	a := d.lastAct()
	c := a.lastCall()
	if mix(uint64(n))%2 == 0 { // the same of an extension's method
		switch dim {
		case "args", "deep", "parens", "chain", "tree":
			c.Fn, c.Ext = "m", "xx"
			if mix(uint64(n))%4 == 0 {
				c.Recv = []string{"$r9"}
			}
		}
	}
	nest := func(e *Expr) *Expr {
		return &Expr{Op: "fn", Tok: "abs", Args: []*Expr{{Op: "paren", Args: []*Expr{e}}}}
	}
	put := func(e *Expr) {
		switch k := len(c.Args); n % 3 {
		case 0:
			c.Args = append(c.Args, e)
		case 1:
			c.Args = append([]*Expr{e}, c.Args...)
		default:
			c.Args = append(append(append([]*Expr{}, c.Args[:k/2]...), e), c.Args[k/2:]...)
		}
	}
	switch dim {
	case "params":
		put(vr(hx("$p%d", n+5)))
	case "recv":
		put(nest(vr(hx("$v%d", n+5))))
	case "args":
		put(nest(vr("$q")))
	case "deep", "parens", "chain", "tree":
		e := c.Args[0]
		for len(e.Args) > 0 {
			if i := len(e.Args) - 1; n%2 == 0 && e.Args[i].Op != "lit" {
				e = e.Args[i]
			} else {
				e = e.Args[0]
			}
		}
		e.Op, e.Tok = "var", "$z"
	case "stmts":
		a.Stmts = append(a.Stmts, &Stmt{Call: &Call{Fn: "one", Args: []*Expr{nest(vr(hx("$v%d", n+6)))}}})
	case "acts", "callgraph", "calldag", "wide":
		c = d.callerAt(n).lastCall()
		c.Args = append(c.Args, vr("$zz"))
	case "name":
		v := c.Args[0].Tok
		c.Args[0] = vr(v[:len(v)-1] + "z")
	default:
		return false
	}
	return true
}

// hugeAttr gives one column a constraint that it must not have.
func hugeAttr(d *Doc, dim string, n int) bool {
	switch dim {
	case "tables", "cols", "num", "wide":
	default:
		return false
	}
	t := d.lastTab()
	if ts := d.Tables(); dim == "tables" || dim == "wide" {
		t = ts[at(n, len(ts))]
	}
	c := &Col{"zz", "int", []Attr{{"min", "1"}}}
	if n%2 == 0 {
		c.Attrs = append(c.Attrs, Attr{"maxlen", "4"})
	} else {
		c.Attrs = append(c.Attrs, Attr{"min", "2"})
	}
	if i := at(n/2, len(t.Cols)+1); i >= 0 {
		t.Cols = append(t.Cols[:i:i], append([]*Col{c}, t.Cols[i:]...)...)
	}
	return true
}

// hugeMods contradicts itself somewhere.
func hugeMods(d *Doc, dim string, n int) bool {
	switch dim {
	case "fks":
		t := d.lastTab()
		it := &TItem{FK: &FK{Child: []string{"a"}, Parent: "t", ParentCols: []string{"b"},
			Acts: []FKAct{{"on_update", "cascade", false}, {"on_delete", "cascade", false}, {"on_update", "restrict", false}}}}
		i := at(n, len(t.Items)+1)
		t.Items = append(t.Items[:i:i], append([]*TItem{it}, t.Items[i:]...)...)
	case "acts", "stmts", "params", "anns", "args", "callgraph", "wide":
		a := d.lastAct()
		if dim == "acts" || dim == "callgraph" || dim == "wide" {
			a = d.callerAt(n)
		}
		a.Mods = [][]string{{"public", "private"}, {"view", "public", "view"}, {"owner", "owner"}}[n/2%3]
	default:
		return false
	}
	return true
}

func hugeJSON(kind string) hugeMake {
	return func(d *Doc, dim string, n int, mid string) *Case {
		return &Case{Kind: kind, Src: d.hugeSrc(mid)}
	}
}

func (d *Doc) annWant() json.RawMessage {
	var want []any
	for _, a := range d.Actions() {
		for _, n := range a.Anns {
			var as []any
			for _, kv := range n.Attrs {
				as = append(as, []string{kv.K, kv.V})
			}
			want = append(want, map[string]any{"action": a.Name, "target": n.Name, "attrs": as})
		}
	}
	b, err := json.Marshal(want)
	if err != nil {
		panic(err)
	}
	return b
}

// attachHuge gives the checks their huge documents.
func attachHuge() {
	add := func(id, dims string, spoils bool, mk hugeMake) {
		p := props[id]
		ds := strings.Fields(dims)
		if dims == "all" {
			ds = sortedKeys(hugeDims)
		}
		hugeRegs[id] = append(hugeRegs[id], hugeReg{ds, mk})
		p.Extra = chain(p.Extra, hugeSet(id, dims, spoils, mk))
	}
	set := func(id, dims string, mk hugeMake) { add(id, dims, false, mk) }
	spoil := func(id, dims string, with func(d *Doc, dim string, n int) bool) {
		add(id, dims, true, hugeSpoil(with))
	}
	set("C01", "tables cols idx fks fkcols fkgraph fkdag wide name str num esc lines blanks comment comments runes", hugePlain("tables"))
	set("C02", "acts callgraph wide params anns annattrs stmts sqls name str num esc lines blanks comment comments runes", hugePlain("actions"))
	set("C03", "acts stmts sqls sql sqllist lines comment runes", hugePlain("sql"))
	set("C04", "acts callgraph wide stmts recv args deep chain tree parens name str num esc runes", hugePlain("calls"))
	set("C05", "exts cfg name str num esc comment runes", hugePlain("extensions"))
	spoil("C07", "tables cols idx fkgraph wide callgraph calldag acts params recv exts name lines blanks comment comments", hugeTwin)
	spoil("C08", "tables cols idx fks fkcols fkgraph fkdag wide name", hugeRef)
	spoil("C09", "acts callgraph calldag wide tree stmts exts args deep chain params name", hugeCallee)
	spoil("C10", "tree callgraph calldag wide params recv args deep parens chain stmts acts name", hugeVar)
	spoil("C11", "tables wide cols num", hugeAttr)
	spoil("C12", "fks callgraph wide acts stmts params anns args", hugeMods)
	add("C13", "sqls sql sqllist", true, func(d *Doc, dim string, n int, mid string) *Case {
		a := d.lastAct()
		i := len(a.Stmts) - 1
		if dim == "sql" {
			i = n % 3
		}
		s := a.Stmts[i].SQL
		if dim == "sqllist" {
			s = a.Stmts[0].SQL
		}
		if dim != "sql" {
			a.Stmts = append(a.Stmts, &Stmt{SQL: s})
		}
		bad := s + []string{" select", " )", ", (random())"}[n%3]
		if dim == "sql" {
			bad = s + []string{", random()", " )", " from from"}[n%3]
		}
		a.Stmts[i].SQL = bad
		return &Case{Kind: "huge-spoilt", Src: d.hugeSrc(mid), Errs: []string{"any"}}
	})
	spoil("C31", "tables cols idx acts params recv exts name lines", hugeTwin)
	spoil("C31", "tables cols idx fks fkcols fkgraph fkdag wide name", hugeRef)
	spoil("C31", "callgraph calldag acts stmts exts params name", hugeCallee)
	spoil("C31", "params recv args deep chain stmts name", hugeVar)
	spoil("C31", "tables cols", hugeAttr)
	spoil("C31", "fks acts params", hugeMods)
	set("C16", "all", func(d *Doc, dim string, n int, mid string) *Case {
		return &Case{Kind: "document", Src: d.hugeSrc(mid), Src2: render(d.toks(), &Layout{style: n % 2})}
	})
	set("C17", "tables acts exts fkgraph fkdag callgraph calldag", func(d *Doc, dim string, n int, mid string) *Case {
		c := &Case{Kind: "permuted", Src: d.hugeSrc(mid)}
		for i, j := 0, len(d.Decls)-1; i < j; i, j = i+1, j-1 {
			d.Decls[i], d.Decls[j] = d.Decls[j], d.Decls[i]
		}
		for i, j := 0, len(d.Exts)-1; i < j; i, j = i+1, j-1 {
			d.Exts[i], d.Exts[j] = d.Exts[j], d.Exts[i]
		}
		c.Src2, c.Want = d.hugeSrc(mid), d.namesOnly()
		return c
	})
	set("C29", "tables acts exts fkgraph calldag", func(d *Doc, dim string, n int, mid string) *Case {
		o, _ := hugeDoc("cols", 5)
		if dim != "tables" && dim != "exts" {
			o.Decls, o.Exts = o.Decls[:2], nil // one init only
			for _, dd := range o.Decls {
				if dd.Table != nil {
					dd.Table.Name = "other"
					dd.Table.Items = nil
				} else {
					dd.Action.Name = "another"
					dd.Action.Stmts = []*Stmt{{SQL: "select 'other'"}}
				}
			}
		}
		return &Case{Kind: "join", Src: join(d, o).hugeSrc(mid), Srcs: []string{d.hugeSrc(mid), o.plainSrc()}}
	})
	set("C14", "all", hugeJSON("valid"))
	set("C14", "all", func(d *Doc, dim string, n int, mid string) *Case {
		s := d.hugeSrc(mid)
		return &Case{Kind: "corrupted", Src: s[:len(s)-1-n%40]}
	})
	spoil("C14", "tree callgraph params recv args deep parens chain stmts", hugeVar)
	spoil("C14", "callgraph tree args deep chain", hugeCallee)
	spoil("C14", "tables cols fks fkcols fkgraph fkdag", hugeRef)
	set("C18", "all", hugeJSON("json"))
	set("C19", "acts anns annattrs name str num esc runes", func(d *Doc, dim string, n int, mid string) *Case {
		return &Case{Kind: "annotations", Src: d.hugeSrc(mid), Want: d.annWant()}
	})
	set("C20", "all", func(d *Doc, dim string, n int, mid string) *Case {
		s := d.hugeSrc(mid)
		r := RunSpec{Args: []string{"h.kf", "-o", "out"}, Before: []FileSpec{{Path: "h.kf", Data: s}}, Out: "out/h.json", Src: s, Note: "huge"}
		if n%2 == 0 {
			r.Before = append(r.Before, FileSpec{Path: "out/h.json", Data: strings.Repeat("old ", 200000)})
		}
		small := RunSpec{Args: []string{"h.kf", "--output=out"}, Before: []FileSpec{{Path: "h.kf", Data: "database d;"}}, Out: "out/h.json", Src: "database d;", Note: "small after huge"}
		return &Case{Kind: "runs", Runs: []RunSpec{r, small, r}}
	})
	set("C21", "tables cols acts params exts name lines comment", func(d *Doc, dim string, n int, mid string) *Case {
		c := hugeSpoil(hugeTwin)(d, dim, n, mid)
		if c == nil {
			return nil
		}
		r := RunSpec{Args: []string{"h.kf"}, Before: []FileSpec{{Path: "h.kf", Data: c.Src}, {Path: "build/h.json", Data: "{}"}}, Code: 5, Note: "rejected source"}
		return &Case{Kind: "failures", Runs: []RunSpec{r}}
	})
	set("C22", "cols str", func(d *Doc, dim string, n int, mid string) *Case {
		s := d.hugeSrc(mid)
		size := len(compile(s).JSON)
		c := &Case{Kind: "runs"}
		for _, k := range []int{0, 1, 511, 512, 4095, 4096, 4097, 32768, 65535, 65536, size / 2, size - 1, size} {
			if k <= size {
				r := RunSpec{Args: []string{"s.kf", "-o", "out"}, Before: []FileSpec{{Path: "s.kf", Data: s}}, Out: "out/s.json", Src: s, Code: 7, Limit: k + 1, Note: fmt.Sprintf("limit at byte %d of %d", k, size)}
				if k == size {
					r.Code = 0
				}
				c.Runs = append(c.Runs, r)
			}
		}
		return c
	})
	set("C23", "tables cols acts params stmts exts name str sql lines comment runes", func(d *Doc, dim string, n int, mid string) *Case {
		return &Case{Kind: "calls", Srcs: []string{"s" + d.hugeSrc(mid), "sdatabase d;", "s" + d.hugeSrc(mid)}}
	})
	set("C24", "tables cols acts args name str sql lines blanks comment comments runes", func(d *Doc, dim string, n int, mid string) *Case {
		s := d.hugeSrc(mid)
		i := strings.LastIndexByte(s, '}')
		return &Case{Kind: "huge", Src: s[:i] + []string{"?", "database", "}"}[n%3] + " " + s[i:]}
	})
	set("C06", "runes", func(d *Doc, dim string, n int, mid string) *Case { return &Case{Kind: "runes", N: n} })
	set("C24", "runes", func(d *Doc, dim string, n int, mid string) *Case { return &Case{Kind: "runes", N: n} })
	set("C06", "tables cols acts args name str sql lines blanks comment comments runes", func(d *Doc, dim string, n int, mid string) *Case {
		s := d.hugeSrc(mid)
		i := strings.LastIndexByte(s, '}')
		return &Case{Kind: "huge", Src: s[:i] + []string{"?", "", "}"}[n%3] + " " + s[i:]}
	})
	set("C27", "all", hugeJSON("huge"))
	set("C27", "tables acts exts name comment", hugeJSON("command"))
	set("C28", "all", hugeJSON("valid"))
	set("C32", "tables cols acts name lines", func(d *Doc, dim string, n int, mid string) *Case {
		s := d.hugeSrc(mid)
		return &Case{Kind: "mostly-syntax", Src: strings.ReplaceAll(s, ";", "; ?")}
	})
	set("C32", "tables acts exts", func(d *Doc, dim string, n int, mid string) *Case {
		c := hugeSpoil(hugeTwin)(d, dim, n, mid)
		c.Kind = "document"
		return c
	})
	set("C33", "fkgraph callgraph wide tables cols idx fks acts params anns stmts exts cfg name", hugeJSON("schema"))
	add("C25", "tables cols idx fkgraph callgraph acts params exts", true, func(d *Doc, dim string, n int, mid string) *Case {
		c := hugeSpoil(hugeTwin)(d, dim, n, mid)
		return &Case{Kind: "valid", Want: d.wantJSON(), Errs: c.Errs}
	})
	add("C25", "tables cols idx fks fkcols fkgraph fkdag wide", true, func(d *Doc, dim string, n int, mid string) *Case {
		c := hugeSpoil(hugeRef)(d, dim, n, mid)
		return &Case{Kind: "valid", Want: d.wantJSON(), Errs: c.Errs}
	})
	set("C25", "all", func(d *Doc, dim string, n int, mid string) *Case {
		return &Case{Kind: "valid", Want: d.wantJSON()}
	})
	set("C07", "f-params f-twoparams f-recv f-acts f-oneact f-inits f-exts f-tables f-cols f-twocols f-idx", faultyCase("huge-spoilt"))
	set("C08", "f-fk f-fkcol f-fks f-idxcol", faultyCase("huge-spoilt"))
	set("C09", "f-callee f-ext f-stmts", faultyCase("huge-spoilt"))
	set("C10", "f-var f-varargs", faultyCase("huge-spoilt"))
	set("C11", "f-attrs f-colattrs", faultyCase("huge-spoilt"))
	set("C12", "f-fkacts f-mods f-onemod", faultyCase("huge-spoilt"))
	set("C14", allFaults, faultyCase("rule-breaking"))
	set("C31", allFaults, faultyCase("huge-spoilt"))
	set("C32", allFaults, faultyCase("document"))
	set("C27", "f-callee f-mods f-tables f-fk", faultyCase("huge"))
	set("C25", "f-callee f-ext f-var f-varargs f-stmts f-params f-twoparams f-recv f-acts f-oneact f-exts f-tables f-cols f-twocols f-attrs f-colattrs f-fk f-fkcol f-fks f-fkacts f-idx f-idxcol", func(d *Doc, dim string, n int, mid string) *Case {
		return &Case{Kind: "valid", Want: d.wantJSON(), Errs: refErrs(d)}
	})
	for _, id := range sortedKeys(hugeRegs) {
		if !noSweep[id] {
			props[id].Extra = chain(props[id].Extra, func(e *env) (int, int, *Failure, []string) { return sweep(e, id) })
		}
	}
	for _, id := range sortedKeys(props) {
		if !aloneOnly[id] {
			props[id].Extra = chain(props[id].Extra, func(e *env) (int, int, *Failure, []string) { return together(e, id) })
		}
	}
}

type extra func(e *env) (int, int, *Failure, []string)

// chain runs one after the other.
func chain(prev, next extra) extra {
	if prev == nil {
		return next
	}
	return func(e *env) (int, int, *Failure, []string) {
		n1, m1, f, t1 := prev(e)
		if f != nil {
			return n1, m1, f, t1
		}
		n2, m2, f, t2 := next(e)
		return n1 + n2, m1 + m2, f, append(t1, t2...)
	}
}
