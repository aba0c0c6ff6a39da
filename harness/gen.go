package main

import (
	"fmt"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// G generates documents; every choice is a rapid draw.
type G struct {
	t   *rapid.T
	big string // the one dimension that is large in this document, if any
	// options
	noSQL    bool
	fewSQL   bool // mostly calls
	maxTabs  int
	maxActs  int
	maxExts  int
	safeName bool // short plain names only
	depth    int  // of expressions
	smallLit bool
	eol      string // in place of every line feed of the document
	noEcho   bool
	banExpr  []string // to be put in place of some expression of a statement
	banJoin  []string // to be put after some FROM table
	banIn    int      // how many places to let pass
}

func newG(t *rapid.T) *G { return &G{t: t, maxTabs: 4, maxActs: 4, maxExts: 3, depth: 3} }

func (g *G) n(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return rapid.IntRange(lo, hi).Draw(g.t, "n")
}

func (g *G) b() bool { return rapid.Bool().Draw(g.t, "b") }

// one in k
func (g *G) p(k int) bool { return g.n(0, k-1) == k/2 }

func pickOf[T any](g *G, xs ...T) T { return xs[g.n(0, len(xs)-1)] }

var dims = []string{"exts", "cfg", "tables", "cols", "idx", "idxcols", "fks", "fkcols", "acts", "params", "anns", "annattrs", "stmts", "recv", "args", "depth", "name", "lit", "sql"}

// chooseBig makes one dimension large in some documents.
func (g *G) chooseBig(oneIn int, among ...string) {
	if len(among) == 0 {
		among = dims
	}
	if g.p(oneIn) {
		g.big = pickOf(g, among...)
	}
}

// size of a list: usually lo..typ, more if dim is the large one.
func (g *G) size(dim string, lo, typ int) int {
	if g.big == dim {
		hi := 70
		switch dim {
		case "stmts", "args", "params", "cols", "cfg":
			hi = 150
		case "tables", "acts", "exts":
			hi = 60
		case "anns", "idx", "fks":
			hi = 40
		}
		if g.p(4) {
			return g.n(hi, hi*2)
		}
		return g.n(typ+1, hi)
	}
	return g.n(lo, typ)
}

var kwCS = strings.Fields("database use as table action init public private owner view int text blob min max minlen maxlen notnull primary default unique index foreign_key fk references ref on_update on_delete do no_action cascade set_null set_default restrict not and or")
var kwCI = strings.Fields("select insert update delete with")
var isKw = map[string]bool{}

func init() {
	for _, k := range kwCS {
		isKw[k] = true
	}
	for _, k := range kwCI {
		isKw[k] = true
	}
}

func reserved(s string) bool { return isKw[s] || isKw[strings.ToLower(s)] && isKwCI(s) }

func isKwCI(s string) bool {
	l := strings.ToLower(s)
	for _, k := range kwCI {
		if k == l {
			return true
		}
	}
	return false
}

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
const wordChars = letters + "0123456789_"

var plainPool = []string{"users", "posts", "id", "name", "wallet", "amount", "a", "b", "c", "x", "y", "z", "t1", "t2", "col_1", "user_id", "balance", "caller", "Users", "ID", "A", "B", "erc20", "transfer", "get_all", "a__", "value", "block_height"}

// the cases of special names: words other parts of the language know
var oddPool = []string{"TABLE", "Table", "INT", "Text", "Init", "INIT", "init_", "initx", "table1", "action_", "Public", "PRIVATE", "viewer", "owners", "selects", "select_all", "withdraw", "inserted", "updates", "delete_all", "insert1", "UPDATED", "update_", "notnull1", "not1", "NOT", "AND", "Or", "android", "order", "group", "where", "from", "null", "true", "int1", "text_", "blob2", "mini", "maxi", "min1", "max_len", "minlength", "fk1", "refs", "refer", "asx", "as1", "AS", "user", "used", "uses", "do1", "done", "databases", "indexes", "index1", "uniques", "defaults", "primary_key", "not_null", "unique_btree", "btree", "on_updates", "cascade_", "column", "current", "lower", "count", "abs", "error", "owner_", "update1", "a_b", "a__b", "e1", "E1", "x0", "o", "l", "I", "public_", "view_", "constructor", "toString", "proto", "owner1",
	"sqlite_x", "sqlite_master", "sqlite_sequence", "pg_x", "kwil_x", "rowid", "oid", "temp", "main", "information_schema", "sys_x", "dual", "master", "schema", "tables", "current_user", "system", "admin", "root", "test", "tmp_x", "new", "old", "excluded", "hasOwnProperty", "length", "undefined", "NaN", "Infinity", "nil", "nul", "con", "self", "this", "int4", "int8", "varchar", "timestamp", "date", "txid", "foreign_caller", "dbid", "actions", "extensions", "inputs", "mutability", "auxiliaries", "statements", "attributes", "foreign_keys", "parent_table", "child_keys", "type", "func", "interface", "Aa", "BB", "AaAa", "BBBB", "AaBB", "costarring", "liquid", "declinate", "macallums", "altarage", "zinke", "plumless", "buckeroo", "codding", "gnu"}

// confusable names have the same hash by some common function, or differ only
// in what one convention or another ignores.
var confusable = map[string]string{"Aa": "BB", "BB": "Aa", "AaAa": "BBBB", "BBBB": "AaBB", "AaBB": "BBBB", "costarring": "liquid", "liquid": "costarring", "declinate": "macallums", "macallums": "declinate", "altarage": "zinke", "zinke": "altarage", "plumless": "buckeroo", "buckeroo": "plumless", "codding": "gnu", "gnu": "codding"}

func (g *G) rawName() string {
	if g.safeName {
		return pickOf(g, plainPool...)
	}
	k := g.n(0, 9)
	if g.news(6) {
		return g.dictName()
	}
	if g.big == "name" && g.b() {
		k = 10
	}
	switch {
	case k <= 4:
		return pickOf(g, plainPool...)
	case k == 5, k == 6:
		return pickOf(g, oddPool...)
	case k == 7: // keyword with a suffix or another case
		kw := pickOf(g, append(append([]string{}, kwCS...), kwCI...)...)
		switch g.n(0, 2) {
		case 0:
			return kw + string(pickOf(g, []byte("_0a1sS")...))
		case 1:
			return string(pickOf(g, []byte("aXz")...)) + kw
		}
		return strings.ToUpper(kw[:1]) + kw[1:] + pickOf(g, "", "_", "9")
	case k == 10:
		n := g.n(20, 400)
		c := string(letters[g.n(0, len(letters)-1)])
		return c + strings.Repeat(pickOf(g, "a", "ab_", "Z9", "_", "x1"), n/2+1)
	}
	if k == 9 {
		return g.dictName()
	}
	n := g.n(0, 8)
	var sb strings.Builder
	sb.WriteByte(letters[g.n(0, len(letters)-1)])
	for i := 0; i < n; i++ {
		sb.WriteByte(wordChars[g.n(0, len(wordChars)-1)])
	}
	return sb.String()
}

// near makes a name that is easily confused with s.
func (g *G) near(s string) string {
	if o := confusable[s]; o != "" && g.b() {
		return o
	}
	switch g.n(0, 8) {
	case 6: // two neighbours swapped
		if len(s) > 1 {
			i := g.n(0, len(s)-2)
			b := []byte(s)
			b[i], b[i+1] = b[i+1], b[i]
			if alpha(b[0]) {
				return string(b)
			}
		}
	case 7: // the same by a hash that multiplies by 31
		for i := 0; i+1 < len(s); i++ {
			a, b := s[i]+1, s[i+1]-31
			if s[i+1] > 31 && isWordByte(a) && isWordByte(b) && (i > 0 || alpha(a)) {
				return s[:i] + string(a) + string(b) + s[i+2:]
			}
		}
	case 8: // underscores added or removed
		if i := strings.IndexByte(s, '_'); i > 0 {
			return s[:i] + s[i+1:]
		}
		i := g.n(1, len(s))
		return s[:i] + "_" + s[i:]
	case 0, 1: // flip the case of one letter
		i := g.n(0, len(s)-1)
		c := s[i]
		switch {
		case c >= 'a' && c <= 'z':
			c -= 32
		case c >= 'A' && c <= 'Z':
			c += 32
		default:
			return s + "a"
		}
		return s[:i] + string(c) + s[i+1:]
	case 2:
		return s + string(wordChars[g.n(0, len(wordChars)-1)])
	case 3:
		if len(s) > 1 {
			return s[:len(s)-1]
		}
		return s + "_"
	case 4:
		return string(letters[g.n(0, len(letters)-1)]) + s
	}
	return s + s
}

// fresh draws a name that is not in used (and registers it).
func (g *G) fresh(used map[string]bool, order *[]string) string {
	var s string
	if len(*order) > 0 && g.p(4) {
		s = g.near((*order)[g.n(0, len(*order)-1)])
	} else {
		s = g.rawName()
	}
	for i := 0; reserved(s) || used[s]; i++ {
		if i == 0 {
			s += "_"
		}
		s = strings.TrimRight(s, "0123456789") + fmt.Sprint(len(used)+i)
	}
	used[s] = true
	*order = append(*order, s)
	return s
}

type names struct {
	used  map[string]bool
	order []string
}

func newNames() *names             { return &names{used: map[string]bool{}} }
func (g *G) name(ns *names) string { return g.fresh(ns.used, &ns.order) }
func (ns *names) add(s string)     { ns.used[s] = true; ns.order = append(ns.order, s) }
func (g *G) anyName() string       { return g.name(newNames()) }

// ---- literals

func (g *G) number() string {
	switch g.n(0, 7) {
	case 0:
		return "0"
	case 1:
		return pickOf(g, "007", "00", "9223372036854775807", "9223372036854775808", "18446744073709551616", "2147483648", "10000000000000000000000", "1000000", "255", "256", "65536", "08")
	}
	if ns := dictInts(); len(ns) > 0 && (g.p(12) || g.newTexts(6)) {
		return fmt.Sprint(pickDict(g, ns, dict().fresh.ints) + g.n(-1, 1))
	}
	if g.big == "lit" && g.b() {
		return "1" + strings.Repeat(pickOf(g, "0", "9", "12"), g.n(5, 300))
	}
	return fmt.Sprint(g.n(0, 100000))
}

var strPieces = []string{"a", "b", "Z", " ", "  ", "hello", "x=1", ",", "(", ")", "=", ")(", "0", "//", "/*", "*/", "--", ";", "}", "{", "\"", "`", "#", "$a", "@b", "$", "@", "select 1", "é", "中文", "😀", "\u2028", "\u00a0", "\t", "\x01", "<>&", "|", "~", ":", ".", "+", "%", "%s", "%d", "\\'", "\\\\", "\\n", "\\\"", "\\0", "\\x", "\\\n", "\\,", "\\)", "a=1,b='", "not", "null", "NULL", "\x7f", "\ufeff", "\u0000", "é́", "database", "\\u003c", "\\u0026", "\\u003e", "\\u2028", "\\/", "\\t", "&lt;", "&amp;", "\\u0000", "\\ud83d", "${a}", "{{", "\\\\u003c", "null,", "[]", "\\r"}

// str draws a Kuneiform string literal.
func (g *G) str() string {
	n := g.n(0, 5)
	if g.big == "lit" {
		n = g.n(10, 200)
	}
	var sb strings.Builder
	sb.WriteByte('\'')
	for i := 0; i < n; i++ {
		if g.smallLit {
			sb.WriteString(pickOf(g, "a", "b", " ", "x1", "é"))
			continue
		}
		p := pickOf(g, strPieces...)
		if g.p(16) {
			p = g.oddRune()
		}
		if g.p(16) || g.newTexts(8) {
			p = g.dictText()
		}
		if p == "a=1,b='" {
			p = "a=1,b=\\'"
		}
		sb.WriteString(p)
	}
	sb.WriteByte('\'')
	return sb.String()
}

func (g *G) lit() string {
	if g.b() {
		return g.number()
	}
	return g.str()
}

// ---- tables

var intAttrs = []string{"primary", "notnull", "unique", "default", "min", "max"}
var textAttrs = []string{"primary", "notnull", "unique", "default", "minlen", "maxlen"}
var blobAttrs = []string{"primary", "notnull", "unique", "default", "min", "max", "minlen", "maxlen"}

func attrsFor(typ string) []string {
	switch typ {
	case "int":
		return intAttrs
	case "text":
		return textAttrs
	}
	return blobAttrs
}

func (g *G) attr(typ, kind string) Attr {
	a := Attr{Kind: kind}
	switch kind {
	case "default":
		switch typ {
		case "int":
			a.Val = g.number()
		case "text":
			a.Val = g.str()
		default:
			a.Val = g.lit()
		}
	case "min", "max", "minlen", "maxlen":
		a.Val = g.number()
	}
	return a
}

func (g *G) shuffle(xs []string) []string {
	r := append([]string{}, xs...)
	for i := len(r) - 1; i > 0; i-- {
		j := g.n(0, i)
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (g *G) col(ns *names) *Col {
	c := &Col{Name: g.name(ns), Type: pickOf(g, "int", "text", "blob")}
	kinds := attrsFor(c.Type)
	n := g.n(0, 3)
	if g.p(6) {
		n = g.n(0, len(kinds))
	}
	if n > 0 {
		for _, k := range g.shuffle(kinds)[:n] {
			c.Attrs = append(c.Attrs, g.attr(c.Type, k))
		}
	}
	return c
}

func (g *G) someCols(cols []*Col, n int) []string {
	var all []string
	for _, c := range cols {
		all = append(all, c.Name)
	}
	if n > len(all) {
		n = len(all)
	}
	if n == 1 {
		return []string{all[g.n(0, len(all)-1)]}
	}
	return g.shuffle(all)[:n]
}

var fkDos = []string{"no_action", "cascade", "set_null", "set_default", "restrict"}

func (g *G) fkActs() (r []FKAct) {
	ons := []string{"on_update", "on_delete"}
	if g.b() {
		ons[0], ons[1] = ons[1], ons[0]
	}
	for _, on := range ons[:g.n(0, 2)] {
		r = append(r, FKAct{On: on, Do: pickOf(g, fkDos...), Kw: g.b()})
	}
	return
}

// tables draws tables with valid indexes and foreign keys (self, forward, cyclic).
func (g *G) tables(n int) []*Table {
	ns := newNames()
	var ts []*Table
	for i := 0; i < n; i++ {
		t := &Table{Name: g.name(ns)}
		cn := newNames()
		if g.p(5) {
			cn.order = append(cn.order, t.Name) // columns may resemble the table
		}
		nc := g.size("cols", 1, 4)
		if (g.big == "idxcols" || g.big == "fkcols") && i < 2 {
			nc = g.n(12, 60)
		}
		for j := 0; j < nc; j++ {
			t.Cols = append(t.Cols, g.col(cn))
		}
		for j := g.size("idx", 0, 2); j > 0; j-- {
			k := g.n(1, 3)
			if g.big == "idxcols" {
				k = g.n(3, 60)
			}
			t.Items = append(t.Items, &TItem{Idx: &Index{Name: g.name(cn), Kind: pickOf(g, "index", "unique", "primary"), Cols: g.someCols(t.Cols, k)}})
		}
		t.Trailing = g.p(4)
		ts = append(ts, t)
	}
	for _, t := range ts {
		for j := g.size("fks", 0, 2); j > 0; j-- {
			p := ts[g.n(0, len(ts)-1)]
			k := g.n(1, 3)
			if g.big == "fkcols" {
				k = g.n(3, 60)
			}
			if k > len(p.Cols) {
				k = len(p.Cols)
			}
			if k > len(t.Cols) {
				k = len(t.Cols)
			}
			it := &TItem{FK: &FK{Long: g.b(), LongRef: g.b(), Child: g.someCols(t.Cols, k), Parent: p.Name, ParentCols: g.someCols(p.Cols, k), Acts: g.fkActs()}}
			switch g.n(0, 9) { // lists that do not match, or with repetitions
			case 0:
				it.FK.Child = g.someCols(t.Cols, g.n(1, 3))
			case 1:
				it.FK.ParentCols = g.someCols(p.Cols, g.n(1, 3))
			case 2:
				it.FK.Child = append(it.FK.Child, pickOf(g, it.FK.Child...))
			case 3:
				it.FK.ParentCols = append(it.FK.ParentCols, pickOf(g, it.FK.ParentCols...))
			}
			pos := g.n(0, len(t.Items))
			t.Items = append(t.Items[:pos], append([]*TItem{it}, t.Items[pos:]...)...)
		}
	}
	return ts
}

// ---- extensions

func (g *G) ext(ns *names) *Ext {
	x := &Ext{Name: g.anyName(), Alias: g.name(ns)}
	if g.p(6) && !ns.used[x.Name] {
		x.Alias = x.Name
		ns.add(x.Name)
	}
	if g.b() {
		x.Braces = true
		for i := g.size("cfg", 1, 3); i > 0; i-- {
			x.Cfg = append(x.Cfg, KV{g.anyName(), g.lit()})
		}
	}
	return x
}

func (g *G) exts(n int) (r []*Ext) {
	ns := newNames()
	for i := 0; i < n; i++ {
		x := g.ext(ns)
		if i > 0 && g.p(3) {
			x.Name = r[g.n(0, i-1)].Name
		}
		r = append(r, x)
	}
	return
}

// ---- actions

var callFns = []string{"abs", "length", "lower", "upper", "format", "count", "sum", "error"}
var callBin = []string{"+", "-", "*", "/", "%", "<", "<=", ">", ">=", "=", "!=", "<>", "and", "or"}

// expr draws an argument expression over the variables in scope.
func (g *G) expr(vars []string, depth int) *Expr {
	k := g.n(0, 9)
	if depth <= 0 && k > 4 {
		k = g.n(0, 4)
	}
	switch k {
	case 0, 1:
		return &Expr{Op: "lit", Tok: g.lit()}
	case 2, 3:
		if len(vars) > 0 {
			return &Expr{Op: "var", Tok: vars[g.n(0, len(vars)-1)]}
		}
		return &Expr{Op: "lit", Tok: g.number()}
	case 4:
		return &Expr{Op: "blk", Tok: "@caller"}
	case 5:
		return &Expr{Op: "paren", Args: []*Expr{g.expr(vars, depth-1)}}
	case 6:
		return &Expr{Op: "un", Tok: pickOf(g, "-", "+", "not"), Args: []*Expr{g.expr(vars, depth-1)}}
	case 7, 8:
		return &Expr{Op: "bin", Tok: pickOf(g, callBin...), Args: []*Expr{g.expr(vars, depth-1), g.expr(vars, depth-1)}}
	}
	if g.p(6) {
		return &Expr{Op: "fn", Tok: pickOf(g, "count", "COUNT"), Star: true}
	}
	e := &Expr{Op: "fn", Tok: pickOf(g, callFns...)}
	if g.p(4) {
		e.Tok = pickOf(g, strings.ToUpper(e.Tok), strings.ToUpper(e.Tok[:1])+e.Tok[1:])
	}
	for i := g.n(0, 2); i > 0; i-- {
		e.Args = append(e.Args, g.expr(vars, depth-1))
	}
	return e
}

func (g *G) args(vars []string) (r []*Expr) {
	for i := g.size("args", 0, 3); i > 0; i-- {
		d := g.n(0, g.depth)
		r = append(r, g.expr(vars, d))
	}
	if g.big == "depth" && g.b() {
		e := g.expr(vars, 1)
		for i := g.n(5, 60); i > 0; i-- {
			e = pickOf(g, &Expr{Op: "paren", Args: []*Expr{e}}, &Expr{Op: "un", Tok: "-", Args: []*Expr{e}}, &Expr{Op: "fn", Tok: "lower", Args: []*Expr{e}},
				&Expr{Op: "un", Tok: "not", Args: []*Expr{e}}, &Expr{Op: "bin", Tok: "+", Args: []*Expr{{Op: "lit", Tok: "1"}, {Op: "paren", Args: []*Expr{e}}}})
		}
		r = append(r, e)
	}
	return
}

func (g *G) ann() *Ann {
	a := &Ann{Name: g.anyName()}
	for i := g.size("annattrs", 1, 3); i > 0; i-- {
		a.Attrs = append(a.Attrs, KV{g.anyName(), g.lit()})
	}
	return a
}

// varName draws a variable name (with $) that is not in ns.
func (g *G) varName(ns *names) string {
	s := "$" + g.varRaw(ns)
	for i := 0; ns.used[s]; i++ {
		s = fmt.Sprintf("%s_%d", s, len(ns.used)+i)
	}
	ns.add(s)
	return s
}

func (g *G) varRaw(ns *names) string {
	if len(ns.order) > 0 && g.p(4) {
		return g.near(ns.order[g.n(0, len(ns.order)-1)][1:])
	}
	if g.p(8) { // keywords are fine as variable names
		return pickOf(g, append(append([]string{}, kwCS...), kwCI...)...)
	}
	return g.rawName()
}

// call draws a valid call; vars in scope, receivers are added to *vars.
func (g *G) call(vars *[]string, actions []string, exts []string, scope *names) *Call {
	c := &Call{}
	useExt := len(exts) > 0 && (len(actions) == 0 || g.b())
	if useExt {
		c.Ext = exts[g.n(0, len(exts)-1)]
		c.Fn = g.anyName()
	} else {
		c.Fn = actions[g.n(0, len(actions)-1)]
	}
	c.Args = g.args(*vars)
	if useExt {
		line := map[string]bool{}
		for i := g.size("recv", 0, 2); i > 0; i-- {
			var r string
			if len(*vars) > 0 && g.p(3) {
				r = (*vars)[g.n(0, len(*vars)-1)]
			} else {
				r = g.varName(scope)
			}
			if line[r] {
				continue
			}
			line[r] = true
			c.Recv = append(c.Recv, r)
		}
		for _, r := range c.Recv {
			*vars = append(*vars, r)
		}
	}
	return c
}

// stmts draws a valid body.
func (g *G) stmts(params []string, actions []string, exts []string) (r []*Stmt) {
	scope := newNames()
	vars := append([]string{}, params...)
	for _, p := range params {
		scope.add(p)
	}
	for i := g.size("stmts", 1, 3); i > 0; i-- {
		canCall := len(actions)+len(exts) > 0
		sql := !canCall || g.n(0, 2) == 0
		if g.fewSQL && canCall {
			sql = g.p(10)
		}
		if g.noSQL {
			if !canCall {
				panic("noSQL without callable")
			}
			sql = false
		}
		if sql {
			if g.big == "stmts" {
				r = append(r, &Stmt{SQL: pickOf(g, "select 1", "delete from users", "insert into t1 values ($a)", "select * from posts where id = @caller")})
			} else {
				r = append(r, &Stmt{SQL: g.sqlStmt()})
			}
		} else {
			r = append(r, &Stmt{Call: g.call(&vars, actions, exts, scope)})
		}
	}
	return
}

var allMods = []string{"public", "private", "view", "owner"}

func (g *G) mods() []string {
	var m []string
	switch g.n(0, 3) {
	case 0:
		m = append(m, "public")
	case 1:
		m = append(m, "private")
	case 2:
		m = append(m, "public")
	}
	if g.n(0, 2) == 0 {
		m = append(m, "view")
	}
	if g.n(0, 2) == 0 {
		m = append(m, "owner")
	}
	return g.shuffle(m)
}

func (g *G) params() (r []string) {
	ns := newNames()
	for i := g.size("params", 0, 3); i > 0; i-- {
		r = append(r, g.varName(ns))
	}
	return
}

func (g *G) action(name string, actions, exts []string) *Action {
	a := &Action{Name: name, Params: g.params(), Mods: g.mods()}
	if g.p(3) {
		for i := g.size("anns", 1, 2); i > 0; i-- {
			a.Anns = append(a.Anns, g.ann())
		}
	} else if g.big == "anns" || g.big == "annattrs" {
		a.Anns = append(a.Anns, g.ann())
	}
	a.Stmts = g.stmts(a.Params, actions, exts)
	return a
}

// doc draws a document that obeys every rule.
func (g *G) doc() *Doc {
	d := &Doc{Name: g.anyName()}
	d.Exts = g.exts(g.size("exts", 0, g.maxExts))
	var exts []string
	for _, x := range d.Exts {
		exts = append(exts, x.Alias)
	}
	nt := g.size("tables", 0, g.maxTabs)
	if (g.big == "cols" || g.big == "idx" || g.big == "fks" || g.big == "idxcols" || g.big == "fkcols") && nt == 0 {
		nt = 1
	}
	var ts []*Table
	if nt > 0 {
		ts = g.tables(nt)
	}
	na := g.size("acts", 0, g.maxActs)
	if na == 0 && (g.big == "params" || g.big == "stmts" || g.big == "args" || g.big == "anns" || g.big == "annattrs" || g.big == "recv" || g.big == "depth" || g.big == "sql") {
		na = 1
	}
	an := newNames()
	for _, t := range ts { // actions may resemble tables
		if g.p(4) {
			an.order = append(an.order, t.Name)
		}
	}
	var actNames []string
	for i := 0; i < na; i++ {
		actNames = append(actNames, g.name(an))
	}
	var acts []*Action
	for _, n := range actNames {
		acts = append(acts, g.action(n, actNames, exts))
	}
	hasInit := g.p(3)
	for len(ts)+len(acts) > 0 { // interleave
		if len(ts) > 0 && (len(acts) == 0 || g.b()) {
			d.Decls = append(d.Decls, &Decl{Table: ts[0]})
			ts = ts[1:]
		} else {
			d.Decls = append(d.Decls, &Decl{Action: acts[0]})
			acts = acts[1:]
		}
	}
	if hasInit && !(g.noSQL && len(actNames)+len(exts) == 0) {
		in := &Decl{Action: &Action{IsInit: true, Stmts: g.stmts(nil, actNames, exts)}}
		pos := g.n(0, len(d.Decls))
		d.Decls = append(d.Decls[:pos], append([]*Decl{in}, d.Decls[pos:]...)...)
	}
	if !g.noEcho && g.p(3) {
		g.echo(d)
	}
	if ns := d.allNames(); g.p(4) && len(ns) > 1 { // the database may be named like a part of it, or almost
		if s := pickOf(g, ns...); g.b() {
			d.Name = s
		} else if s = g.near(s); !reserved(s) {
			d.Name = s
		}
	}
	g.eol = ""
	if g.p(8) { // one kind of line ends throughout
		g.eol = pickOf(g, "\r", "\r", "\r\n", "\n", " ")
		for _, a := range d.bodies() {
			for _, s := range a.Stmts {
				if s.Call == nil && !strings.Contains(s.SQL, "--") {
					s.SQL = strings.Join(newlines.Split(s.SQL, -1), g.eol)
				}
			}
		}
	}
	return d
}

var newlines = regexp.MustCompile(`\r\n|\r|\n`)
