package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"
)

// Fixed documents with one dimension much larger than the random generator
// makes it: limits that a program may have (256, 1000, 1024, 4096, 65535) lie
// below. They are decided by the same checks as the generated cases.

func hx(f string, a ...any) string { return fmt.Sprintf(f, a...) }

func lit(s string) *Expr { return &Expr{Op: "lit", Tok: s} }
func vr(s string) *Expr  { return &Expr{Op: "var", Tok: s} }

// filler is text of n characters that is nowhere the same.
func filler(n int, f string) string {
	var b strings.Builder
	for i := 0; b.Len() < 4*n; i++ {
		fmt.Fprintf(&b, f, i)
	}
	return string([]rune(b.String())[:n])
}

var hugeDims = map[string][]int{ // sizes
	"tables": {300, 1200}, "cols": {300, 1100, 4200}, "idx": {300, 1100}, "fks": {300, 1100}, "fkcols": {300, 1100},
	"acts": {300, 1100}, "params": {300, 1100, 4200}, "anns": {300, 1100}, "annattrs": {300, 1100, 4200},
	"stmts": {300, 1100}, "sqls": {300, 1100}, "recv": {300, 1100}, "args": {300, 1100}, "deep": {120, 300}, "chain": {300, 1100},
	"parens": {120, 300}, "exts": {300, 1100}, "cfg": {300, 1100, 4200},
	"name": {300, 5000, 70000}, "str": {300, 5000, 70000}, "num": {300, 5000, 70000}, "esc": {300, 5000, 70000}, "sql": {300, 5000, 70000}, "sqllist": {300, 1500},
	"fkgraph": {20, 60}, "fkdag": {24, 60}, "callgraph": {20, 60}, "calldag": {24, 60}, "tree": {7, 10}, "wide": {20, 60},
	"runes": {0, 1, 2, 3, 4, 5, 6, 7},
	"lines": {300, 70000}, "blanks": {300, 70000}, "comment": {300, 70000}, "comments": {300, 10000},
}

// hugeDoc is a valid document of size n in one dimension; head and tail is text
// to put around it and mid what comes after its first line.
func hugeDoc(dim string, n int) (d *Doc, mid string) {
	if isFaulty(dim) {
		return faultyDoc(dim, n), ""
	}
	d = &Doc{Name: "big"}
	tab := func(t *Table) { d.Decls = append(d.Decls, &Decl{Table: t}) }
	act := func(a *Action) { d.Decls = append(d.Decls, &Decl{Action: a}) }
	small := func() {
		d.Exts = append(d.Exts, &Ext{Name: "ext", Alias: "xx", Braces: true, Cfg: []KV{{"k", "'v'"}}})
		tab(&Table{Name: "small", Cols: []*Col{{"id", "int", []Attr{{"primary", ""}}}, {"v", "text", []Attr{{"maxlen", "5"}}}},
			Items: []*TItem{{Idx: &Index{"small_i", "unique", []string{"v"}}}, {FK: &FK{Child: []string{"id"}, Parent: "small", ParentCols: []string{"v"}, Acts: []FKAct{{"on_delete", "cascade", true}}}}}})
		act(&Action{Name: "one", Params: []string{"$p"}, Mods: []string{"public"}, Stmts: []*Stmt{{SQL: "select 1"}, {Call: &Call{Recv: []string{"$r"}, Ext: "xx", Fn: "m", Args: []*Expr{vr("$p")}}}, {Call: &Call{Fn: "one", Args: []*Expr{vr("$r")}}}}})
		act(&Action{IsInit: true, Stmts: []*Stmt{{SQL: "insert into small values (1, 'x')"}}})
	}
	attr := func(i int) (string, []Attr) {
		switch i % 5 {
		case 0:
			return "int", []Attr{{"min", hx("%d", i)}, {"max", hx("%d", i+7)}}
		case 1:
			return "text", []Attr{{"minlen", hx("%d", i)}, {"notnull", ""}, {"default", hx("'d%d'", i)}}
		case 2:
			return "blob", nil
		case 3:
			return "int", []Attr{{"unique", ""}}
		}
		return "text", []Attr{{"maxlen", hx("%d", i)}}
	}
	kinds := []string{"index", "unique", "primary"}
	dos := []string{"no_action", "cascade", "set_null", "set_default", "restrict"}
	if dim != "tables" && dim != "exts" && dim != "acts" {
		small()
	}
	switch dim {
	case "tables":
		for i := 0; i < n; i++ {
			ty, as := attr(i)
			tab(&Table{Name: hx("t%d", i), Cols: []*Col{{"id", "int", nil}, {hx("v%d", i), ty, as}},
				Items: []*TItem{{Idx: &Index{hx("i%d", i), kinds[i%3], []string{hx("v%d", i), "id"}}},
					{FK: &FK{Child: []string{"id"}, Parent: hx("t%d", (i*7+1)%n), ParentCols: []string{"id"}, Acts: []FKAct{{"on_update", dos[i%5], false}}}}}})
		}
	case "cols":
		t := &Table{Name: "t"}
		var all, rev []string
		for i := 0; i < n; i++ {
			ty, as := attr(i)
			t.Cols = append(t.Cols, &Col{hx("c%d", i), ty, as})
			all = append(all, hx("c%d", i))
			rev = append(rev, hx("c%d", n-1-i))
		}
		t.Items = []*TItem{{Idx: &Index{"i", "unique", all}}, {Idx: &Index{"j", "index", rev}}}
		tab(t)
	case "idx":
		t := &Table{Name: "t", Cols: []*Col{{"a", "int", nil}, {"b", "int", nil}}}
		for i := 0; i < n; i++ {
			t.Items = append(t.Items, &TItem{Idx: &Index{hx("i%d", i), kinds[i%3], [][]string{{"a"}, {"b", "a"}, {"b"}, {"a", "b"}}[i%4]}})
		}
		tab(t)
	case "fks":
		t := &Table{Name: "t", Cols: []*Col{{"a", "int", nil}, {"b", "int", nil}}}
		for i := 0; i < n; i++ {
			f := &FK{Long: i%2 == 0, LongRef: i%3 == 0, Child: []string{"a"}, Parent: "t", ParentCols: []string{"b"}}
			if i%4 > 0 {
				f.Acts = append(f.Acts, FKAct{"on_update", dos[i%5], true})
			}
			if i%4 > 1 {
				f.Parent, f.ParentCols[0] = "small", "id"
				f.Acts = append(f.Acts, FKAct{"on_delete", dos[i/5%5], false})
			}
			t.Items = append(t.Items, &TItem{FK: f})
		}
		tab(t)
	case "fkcols":
		t, u := &Table{Name: "t"}, &Table{Name: "u"}
		f := &FK{Parent: "t"}
		for i := 0; i < n; i++ {
			t.Cols = append(t.Cols, &Col{hx("c%d", i), "int", nil})
			u.Cols = append(u.Cols, &Col{hx("d%d", i), "int", nil})
			f.Child = append(f.Child, hx("d%d", (i*7+3)%n))
			f.ParentCols = append(f.ParentCols, hx("c%d", (i*11+5)%n))
		}
		f.Child, f.ParentCols = distinct(f.Child), distinct(f.ParentCols)
		if k := min(len(f.Child), len(f.ParentCols)); k < n { // 7 or 11 divides n
			f.Child, f.ParentCols = f.Child[:k], f.ParentCols[:k]
		}
		u.Items = []*TItem{{FK: f}}
		tab(t)
		tab(u)
	case "acts":
		for i := 0; i < n; i++ {
			if i == n/2 {
				act(&Action{IsInit: true, Stmts: []*Stmt{{SQL: "delete from t"}}})
			}
			act(&Action{Name: hx("a%d", i), Params: []string{hx("$p%d", i), "$q"}, Mods: [][]string{{"public"}, {"private", "view"}, {"owner", "public"}, {"view"}, nil}[i%5],
				Anns:  []*Ann{{hx("n%d", i), []KV{{"k", hx("%d", i)}}}}[:i%2],
				Stmts: []*Stmt{{Call: &Call{Fn: hx("a%d", (i*5+3)%n), Args: []*Expr{vr(hx("$p%d", i)), lit(hx("'%d'", i))}}}, {SQL: hx("select %d", i)}}})
		}
	case "params":
		a := &Action{Name: "a"}
		c := &Call{Fn: "a"}
		for i := 0; i < n; i++ {
			a.Params = append(a.Params, hx("$p%d", i))
			c.Args = append(c.Args, vr(hx("$p%d", n-1-i)))
		}
		a.Stmts = []*Stmt{{Call: c}}
		act(a)
	case "anns":
		a := &Action{Name: "a", Mods: []string{"view"}, Stmts: []*Stmt{{SQL: "select 1"}}}
		for i := 0; i < n; i++ {
			a.Anns = append(a.Anns, &Ann{hx("n%d", i), []KV{{"k", hx("'v%d'", i)}, {"l", hx("%d", i)}}})
		}
		act(a)
	case "annattrs":
		x := &Ann{Name: "n"}
		for i := 0; i < n; i++ {
			v := hx("'v, k=%d'", i)
			if i%2 == 0 {
				v = hx("%d", i)
			}
			x.Attrs = append(x.Attrs, KV{hx("k%d", i), v})
		}
		act(&Action{Name: "a", Anns: []*Ann{x}, Stmts: []*Stmt{{SQL: "select 1"}}})
	case "stmts":
		a := &Action{Name: "a", Params: []string{"$v"}}
		last := "$v"
		for i := 0; i < n; i++ {
			switch i % 3 {
			case 0:
				a.Stmts = append(a.Stmts, &Stmt{SQL: hx("select '%d' from t%d", i, i)})
			case 1:
				r := hx("$v%d", i)
				a.Stmts = append(a.Stmts, &Stmt{Call: &Call{Recv: []string{r}, Ext: "xx", Fn: hx("m%d", i), Args: []*Expr{vr(last)}}})
				last = r
			default:
				a.Stmts = append(a.Stmts, &Stmt{Call: &Call{Fn: "one", Args: []*Expr{vr(last)}}})
			}
		}
		act(a)
	case "sqls":
		a := &Action{IsInit: true}
		for i := 0; i < n; i++ {
			a.Stmts = append(a.Stmts, &Stmt{SQL: hx("insert into t%d values (%d, 'x%d')", i%9, i, i)})
		}
		d.Decls = d.Decls[:2]
		act(a)
	case "recv":
		c := &Call{Ext: "xx", Fn: "m"}
		c2 := &Call{Fn: "one"}
		for i := 0; i < n; i++ {
			c.Recv = append(c.Recv, hx("$v%d", i))
			c2.Args = append(c2.Args, vr(hx("$v%d", n-1-i)))
		}
		act(&Action{Name: "a", Stmts: []*Stmt{{Call: c}, {Call: c2}}})
	case "args":
		c := &Call{Fn: "one"}
		for i := 0; i < n; i++ {
			switch i % 4 {
			case 0:
				c.Args = append(c.Args, lit(hx("%d", i)))
			case 1:
				c.Args = append(c.Args, lit(hx("'%d, '", i)))
			case 2:
				c.Args = append(c.Args, &Expr{Op: "bin", Tok: "+", Args: []*Expr{vr("$p"), lit(hx("%d", i))}})
			default:
				c.Args = append(c.Args, &Expr{Op: "fn", Tok: "abs", Args: []*Expr{{Op: "paren", Args: []*Expr{vr("$p")}}}})
			}
		}
		act(&Action{Name: "a", Params: []string{"$p"}, Stmts: []*Stmt{{Call: c}}})
	case "deep":
		e := vr("$p")
		for i := 0; i < n; i++ {
			e = &Expr{Op: "fn", Tok: "lower", Args: []*Expr{e}}
		}
		act(&Action{Name: "a", Params: []string{"$p"}, Stmts: []*Stmt{{Call: &Call{Fn: "a", Args: []*Expr{e}}}}})
	case "parens":
		e := vr("$p")
		for i := 0; i < n; i++ {
			e = &Expr{Op: "paren", Args: []*Expr{e}}
		}
		act(&Action{Name: "a", Params: []string{"$p"}, Stmts: []*Stmt{{Call: &Call{Fn: "a", Args: []*Expr{e}}}}})
	case "chain":
		e := vr("$p")
		for i := 0; i < n; i++ {
			e = &Expr{Op: "bin", Tok: []string{"+", "-", "*", "/"}[i%4], Args: []*Expr{e, lit(hx("%d", i))}}
		}
		act(&Action{Name: "a", Params: []string{"$p"}, Stmts: []*Stmt{{Call: &Call{Fn: "a", Args: []*Expr{e, vr("$p")}}}}})
	case "exts":
		for i := 0; i < n; i++ {
			x := &Ext{Name: hx("e%d", i%7), Alias: hx("x%d", i)}
			if i%3 > 0 {
				x.Braces, x.Cfg = true, []KV{{hx("k%d", i), hx("'v%d'", i)}, {"n", hx("%d", i)}}[:i%3]
			}
			d.Exts = append(d.Exts, x)
		}
		act(&Action{Name: "a", Stmts: []*Stmt{{Call: &Call{Ext: hx("x%d", n-1), Fn: "m"}}, {Call: &Call{Ext: "x0", Fn: "m"}}, {Call: &Call{Ext: hx("x%d", n/2), Fn: "m"}}}})
	case "cfg":
		x := &Ext{Name: "e", Alias: "e2", Braces: true}
		for i := 0; i < n; i++ {
			v := hx("'v, %d'", i)
			if i%2 == 0 {
				v = hx("%d", i)
			}
			x.Cfg = append(x.Cfg, KV{hx("k%d", i), v})
		}
		d.Exts = append(d.Exts, x)
	case "name":
		f := filler(n-2, "n%dx")
		nm := func(s string) string { return f + "_" + s }
		d.Name = nm("d")
		d.Exts = append(d.Exts, &Ext{Name: nm("e"), Alias: nm("x"), Braces: true, Cfg: []KV{{nm("k"), "1"}}})
		tab(&Table{Name: nm("t"), Cols: []*Col{{nm("a"), "int", nil}, {nm("b"), "text", nil}}, Items: []*TItem{{Idx: &Index{nm("i"), "index", []string{nm("b"), nm("a")}}},
			{FK: &FK{Child: []string{nm("a")}, Parent: nm("t"), ParentCols: []string{nm("b")}}}}})
		act(&Action{Name: nm("t"), Params: []string{"$" + nm("p"), "$" + nm("q")}, Mods: []string{"owner"}, Anns: []*Ann{{nm("n"), []KV{{nm("k"), "1"}}}},
			Stmts: []*Stmt{{Call: &Call{Fn: nm("t"), Args: []*Expr{vr("$" + nm("q"))}}}, {Call: &Call{Recv: []string{"$" + nm("r")}, Ext: nm("x"), Fn: nm("m"), Args: []*Expr{vr("$" + nm("p"))}}}}})
	case "str", "num", "esc":
		v := "'" + filler(n-2, "s%d, é=") + "'"
		if dim == "num" {
			v = "1" + filler(n-1, "%d")
		}
		if dim == "esc" {
			v = "'" + strings.Repeat("\\'", n/2-1) + "'"
		}
		d.Exts = append(d.Exts, &Ext{Name: "e", Alias: "e2", Braces: true, Cfg: []KV{{"k", v}}})
		tab(&Table{Name: "t", Cols: []*Col{{"a", "int", []Attr{{"default", v}}}}})
		act(&Action{Name: "a", Anns: []*Ann{{"n", []KV{{"k", v}, {"l", "1"}}}}, Stmts: []*Stmt{{Call: &Call{Fn: "one", Args: []*Expr{lit(v), lit("2")}}}}})
	case "sql":
		s := filler(n, "x%d é\n")
		act(&Action{Name: "a", Stmts: []*Stmt{{SQL: "select '" + s + "'"}, {SQL: "select 1" + strings.Repeat(" ", n) + ", 2"}, {SQL: "select 1 /*" + s + "*/, 3"}, {SQL: "SELECT  2"}}})
	case "sqllist":
		v := make([]string, n)
		for i := range v {
			v[i] = hx("(%d, 'x%d')", i, i)
		}
		act(&Action{Name: "a", Stmts: []*Stmt{{SQL: "insert into t (a, b)  values " + strings.Join(v, ",\n ")}, {SQL: "SELECT  2"}}})
	case "fkgraph", "fkdag": // every table refers to every other one, or to every later one
		for i := 0; i < n; i++ {
			t := &Table{Name: hx("t%d", i), Cols: []*Col{{"a", "int", nil}, {"b", "int", nil}}}
			for j := 0; j < n; j++ {
				if j > i || j != i && dim == "fkgraph" {
					t.Items = append(t.Items, &TItem{FK: &FK{Child: []string{"a"}, Parent: hx("t%d", j), ParentCols: []string{"b"}, Acts: []FKAct{{"on_update", dos[j%5], false}}}})
				}
			}
			tab(t)
		}
	case "callgraph", "calldag": // every action calls every other one, or every later one
		for i := 0; i < n; i++ {
			a := &Action{Name: hx("a%d", i), Params: []string{"$p"}, Mods: []string{"public"}, Stmts: []*Stmt{{SQL: "select 1"}}}
			for j := 0; j < n; j++ {
				if j > i || j != i && dim == "callgraph" {
					a.Stmts = append(a.Stmts, &Stmt{Call: &Call{Fn: hx("a%d", j), Args: []*Expr{vr("$p")}}})
				}
			}
			act(a)
		}
	case "tree": // an expression of 2^n operands
		var grow func(k, i int) *Expr
		grow = func(k, i int) *Expr {
			if k == 0 {
				return []*Expr{vr("$p"), lit(hx("%d", i)), vr("$q"), lit(hx("'x%d'", i))}[i%4]
			}
			e := &Expr{Op: "bin", Tok: []string{"+", "-", "*", "/"}[(k+i)%4], Args: []*Expr{grow(k-1, 2*i), grow(k-1, 2*i+1)}}
			if k%3 == 0 {
				return &Expr{Op: "fn", Tok: "abs", Args: []*Expr{e}}
			}
			return &Expr{Op: "paren", Args: []*Expr{e}}
		}
		k := n
		for k > 12 {
			k -= 5
		}
		act(&Action{Name: "a", Params: []string{"$p", "$q"}, Stmts: []*Stmt{{Call: &Call{Fn: "a", Args: []*Expr{grow(k, 1), vr("$q")}}}}})
	case "wide": // the same lists again and again: n tables with n columns, indexes, actions with n parameters
		for i := 0; i < n; i++ {
			t := &Table{Name: hx("t%d", i)}
			a := &Action{Name: hx("a%d", i), Mods: []string{"view"}}
			c := &Call{Fn: hx("a%d", n-1-i)}
			var all []string
			for j := 0; j < n; j++ {
				t.Cols = append(t.Cols, &Col{hx("c%d", j), "int", nil})
				all = append(all, hx("c%d", (i+j)%n))
				t.Items = append(t.Items, &TItem{Idx: &Index{hx("i%d", j), kinds[(i+j)%3], append([]string{}, all...)}})
				a.Params = append(a.Params, hx("$p%d", j))
				c.Args = append(c.Args, vr(hx("$p%d", (i+j)%n)))
			}
			a.Stmts = []*Stmt{{Call: c}}
			tab(t)
			act(a)
		}
	case "runes":
		mid = runesDoc(d, n, tab, act)
	case "lines":
		mid = strings.Repeat("\n", n/2) + strings.Repeat("\r\n", n/2)
	case "blanks":
		mid = strings.Repeat(" \t", n/2)
	case "comment":
		mid = "/*" + filler(n, "c%d; } é\n*") + "*/ // " + filler(n, "x%d ") + "\n"
	case "comments":
		mid = strings.Repeat("// x\n/* y */", n/2)
	default:
		panic(dim)
	}
	return d, mid
}

func (d *Doc) hugeSrc(mid string) string {
	s := d.plainSrc()
	i := strings.IndexByte(s, ';') + 1
	return s[:i] + mid + s[i:]
}

type hugeMake func(d *Doc, dim string, n int, mid string) *Case

// hugeSet runs the check of a property on the huge documents of some dimensions.
// vastDims have documents of more than 65536 elements, too, for these checks and
// in thorough runs.
var vastDims = strings.Fields("tables cols idx fks fkcols acts params anns stmts sqls recv args exts cfg sqllist")
var vast = map[string]bool{"C01": true, "C02": true, "C05": true, "C28": true}

func hugeSet(id, dims string, spoils bool, mk hugeMake) func(e *env) (int, int, *Failure, []string) {
	return func(e *env) (int, int, *Failure, []string) {
		ds := strings.Fields(dims)
		if dims == "all" {
			ds = sortedKeys(hugeDims)
		}
		type job struct {
			dim string
			n   int
		}
		var jobs []job
		for _, dim := range ds {
			sizes := hugeDims[dim]
			if isFaulty(dim) {
				sizes = []int{3, 40, 301, 1100}
			}
			if sizes == nil {
				panic(dim)
			}
			for _, n := range sizes {
				jobs = append(jobs, job{dim, n})
				for v := 1; v < 6 && spoils && n < 5000; v++ { // another fault, or at another place
					jobs = append(jobs, job{dim, n + v})
				}
			}
			if big := sizes[len(sizes)-1]; (e.tier == "thorough" || id == "C14") && big > 300 {
				jobs = append(jobs, job{dim, 3 * big})
				if e.tier == "thorough" && id == "C14" {
					jobs = append(jobs, job{dim, 6 * big})
				}
			}
		}
		for _, dim := range ds {
			if id == "C14" && hasStr(vastDims, dim) && !spoils {
				jobs = append(jobs, job{dim, 19900})
			}
			if hasStr(vastDims, dim) && (vast[id] || e.tier == "thorough" && !spoils) {
				jobs = append(jobs, job{dim, 65700})
			}
		}
		type res struct {
			c   *Case
			st  oneStatus
			msg string
		}
		decide := func(j job) (r res) {
			n := j.n + int(mix(e.seed)%7)
			d, mid := hugeDoc(j.dim, n)
			if n > 19000 && hasStr(vastDims, j.dim) {
				// the rules have been looked at in the smaller ones
			} else if bad := refErrs(d); (len(bad) > 0) != isFaulty(j.dim) || !d.clean() {
				panic(hx("huge document %s %d: %v", j.dim, n, bad))
			}
			if r.c = mk(d, j.dim, n, mid); r.c == nil {
				return
			}
			r.c.Prop = id
			r.c.Labels = append(r.c.Labels, "huge-"+j.dim)
			if n > 19000 && hasStr(vastDims, j.dim) {
				r.c.label("vast")
			}
			t0 := time.Now()
			r.st, r.msg = runOne(r.c, scratchDir())
			if os.Getenv("KF_TIMES") != "" {
				fmt.Fprintf(os.Stderr, "%s %s %d %.1fs\n", id, j.dim, n, time.Since(t0).Seconds())
			}
			return
		}
		out := make([]res, len(jobs))
		sem := make(chan bool, 8)
		var wg sync.WaitGroup
		for i := range jobs {
			wg.Add(1)
			sem <- true
			go func() {
				defer func() { <-sem; wg.Done() }()
				out[i] = decide(jobs[i])
			}()
		}
		wg.Wait()
		n := 0
		for i, r := range out {
			if r.c == nil {
				continue
			}
			n++
			switch r.st {
			case oneViolated:
				for sz := jobs[i].n / 2; sz > 2; sz /= 2 { // shrink by halving
					r2 := decide(job{jobs[i].dim, sz})
					if r2.c == nil || r2.st != oneViolated {
						break
					}
					r = r2
				}
				return n, n, &Failure{r.c, r.msg}, nil
			case oneError:
				return n, n, nil, []string{"huge document " + jobs[i].dim + ": " + clip(r.msg, 500)}
			}
		}
		return n, n, nil, []string{fmt.Sprintf("%d fixed documents that are huge in one of the dimensions %s", n, strings.Join(ds, ", "))}
	}
}

// hugePlain makes cases of the document and what it must compile to.
func hugePlain(kind string) hugeMake {
	return func(d *Doc, dim string, n int, mid string) *Case {
		return &Case{Kind: kind, Src: d.hugeSrc(mid), Want: d.wantJSON()}
	}
}

// hugeSpoil makes cases of documents with a fault at their far end.
func hugeSpoil(with func(d *Doc, dim string, n int) bool) hugeMake {
	return func(d *Doc, dim string, n int, mid string) *Case {
		if !with(d, dim, n) {
			return nil
		}
		bad := breaches(d)
		b, err := json.Marshal(bad)
		if err != nil {
			panic(err)
		}
		if len(bad) != 1 {
			panic(hx("%s: %v", dim, sortedKeys(bad)))
		}
		return &Case{Kind: "huge-spoilt", Src: d.hugeSrc(mid), Errs: sortedKeys(bad), Want: b}
	}
}
