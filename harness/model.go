package main

import (
	"encoding/json"
	"strings"
)

// The model of a Kuneiform source, independent of the schema package.

type Doc struct {
	Name  string
	Exts  []*Ext
	Decls []*Decl // tables, actions and init in source order
}

type Decl struct {
	Table  *Table
	Action *Action // Init: an action with IsInit
}

type Ext struct {
	Name, Alias string
	Braces      bool // a configuration block is present
	Cfg         []KV
}

type KV struct{ K, V string }

type Table struct {
	Name     string
	Cols     []*Col
	Items    []*TItem // indexes and foreign keys in source order
	Trailing bool     // trailing comma
}

type Col struct {
	Name, Type string
	Attrs      []Attr
}

// Attr is a column constraint: Kind is the Kuneiform keyword.
type Attr struct{ Kind, Val string }

type TItem struct {
	Idx *Index
	FK  *FK
}

type Index struct {
	Name string // without '#'
	Kind string // primary, unique, index
	Cols []string
}

type FK struct {
	Long, LongRef bool // spelling
	Child         []string
	Parent        string
	ParentCols    []string
	Acts          []FKAct
}

type FKAct struct {
	On string // on_update, on_delete
	Do string // no_action, cascade, set_null, set_default, restrict
	Kw bool   // with the word do
}

type Action struct {
	IsInit bool
	Anns   []*Ann
	Name   string
	Params []string // with $
	Mods   []string // public private view owner
	Stmts  []*Stmt
}

type Ann struct {
	Name  string // without @
	Attrs []KV
}

type Stmt struct {
	SQL  string // text without the semicolon
	Call *Call
}

type Call struct {
	Recv []string // with $
	Ext  string   // "" for an action call
	Fn   string
	Args []*Expr
}

// Expr is an argument expression.
type Expr struct {
	Op   string // lit var blk paren un bin fn
	Tok  string // literal or variable text, operator, function name
	Args []*Expr
	Star bool // fn(*)
}

func (d *Doc) Tables() (r []*Table) {
	for _, x := range d.Decls {
		if x.Table != nil {
			r = append(r, x.Table)
		}
	}
	return
}

func (d *Doc) Actions() (r []*Action) {
	for _, x := range d.Decls {
		if x.Action != nil && !x.Action.IsInit {
			r = append(r, x.Action)
		}
	}
	return
}

func (d *Doc) Inits() (r []*Action) {
	for _, x := range d.Decls {
		if x.Action != nil && x.Action.IsInit {
			r = append(r, x.Action)
		}
	}
	return
}

// ---- tokens

func (e *Expr) toks(out []string) []string {
	switch e.Op {
	case "lit", "var", "blk":
		return append(out, e.Tok)
	case "paren":
		out = append(out, "(")
		out = e.Args[0].toks(out)
		return append(out, ")")
	case "un":
		return e.Args[0].toks(append(out, e.Tok))
	case "bin":
		out = e.Args[0].toks(out)
		out = append(out, e.Tok)
		return e.Args[1].toks(out)
	case "fn":
		out = append(out, e.Tok, "(")
		if e.Star {
			out = append(out, "*")
		}
		for i, a := range e.Args {
			if i > 0 {
				out = append(out, ",")
			}
			out = a.toks(out)
		}
		return append(out, ")")
	}
	panic("bad expr " + e.Op)
}

func (c *Call) toks() []string {
	var out []string
	for i, r := range c.Recv {
		if i > 0 {
			out = append(out, ",")
		}
		out = append(out, r)
	}
	if len(c.Recv) > 0 {
		out = append(out, "=")
	}
	if c.Ext != "" {
		out = append(out, c.Ext, ".")
	}
	out = append(out, c.Fn, "(")
	for i, a := range c.Args {
		if i > 0 {
			out = append(out, ",")
		}
		out = a.toks(out)
	}
	return append(out, ")", ";")
}

func isWordByte(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// joinCall is the canonical text of a call: the tokens without blanks, except
// between two tokens that the language would read as one.
func joinCall(toks []string) string {
	var b strings.Builder
	for i, t := range toks {
		if i > 0 && fuses(toks[i-1], t) {
			b.WriteByte(' ')
		}
		b.WriteString(t)
	}
	return b.String()
}

// fuses: a number ends where its digits end, every other word goes on.
func fuses(a, b string) bool {
	return isWordByte(a[len(a)-1]) && isWordByte(b[0]) && !(a[0] >= '0' && a[0] <= '9' && !(b[0] >= '0' && b[0] <= '9'))
}

// ---- expected JSON (field names written down from the JSON contract)

func strs(s []string) []any {
	r := make([]any, len(s))
	for i := range s {
		r[i] = s[i]
	}
	return r
}

var attrJSON = map[string]string{"primary": "primary_key", "unique": "unique", "notnull": "not_null", "default": "default",
	"min": "min", "max": "max", "minlen": "min_length", "maxlen": "max_length"}
var idxJSON = map[string]string{"index": "btree", "unique": "unique_btree", "primary": "primary"}
var onJSON = map[string]string{"on_update": "UPDATE", "on_delete": "DELETE"}
var doJSON = map[string]string{"no_action": "NO ACTION", "cascade": "CASCADE", "set_null": "SET NULL", "set_default": "SET DEFAULT", "restrict": "RESTRICT"}

func (t *Table) want() map[string]any {
	m := map[string]any{"name": t.Name}
	var cols, idx, fks []any
	for _, c := range t.Cols {
		cm := map[string]any{"name": c.Name, "type": c.Type}
		var as []any
		for _, a := range c.Attrs {
			am := map[string]any{"type": attrJSON[a.Kind]}
			if attrHasVal(a.Kind) {
				am["value"] = a.Val
			}
			as = append(as, am)
		}
		cm["attributes"] = as
		cols = append(cols, cm)
	}
	for _, it := range t.Items {
		if it.Idx != nil {
			idx = append(idx, map[string]any{"name": it.Idx.Name, "type": idxJSON[it.Idx.Kind], "columns": strs(it.Idx.Cols)})
		} else {
			var acts []any
			for _, a := range it.FK.Acts {
				acts = append(acts, map[string]any{"on": onJSON[a.On], "do": doJSON[a.Do]})
			}
			fks = append(fks, map[string]any{"child_keys": strs(it.FK.Child), "parent_keys": strs(it.FK.ParentCols),
				"parent_table": it.FK.Parent, "actions": acts})
		}
	}
	m["columns"], m["indexes"], m["foreign_keys"] = cols, idx, fks
	return m
}

func attrHasVal(k string) bool {
	return k != "primary" && k != "unique" && k != "notnull"
}

func (a *Ann) text() string {
	var b strings.Builder
	b.WriteString(a.Name)
	b.WriteByte('(')
	for i, kv := range a.Attrs {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(kv.K + "=" + kv.V)
	}
	b.WriteByte(')')
	return b.String()
}

func (s *Stmt) text() string {
	if s.Call != nil {
		return joinCall(s.Call.toks())
	}
	return s.SQL + ";"
}

func (a *Action) want() map[string]any {
	m := map[string]any{"name": a.Name, "public": false, "mutability": "update"}
	if a.IsInit {
		m["name"] = "init"
	}
	var anns, aux, st []any
	for _, x := range a.Anns {
		anns = append(anns, x.text())
	}
	for _, md := range a.Mods {
		switch md {
		case "public":
			m["public"] = true
		case "view":
			m["mutability"] = "view"
		case "owner":
			aux = append(aux, "owner")
		}
	}
	for _, s := range a.Stmts {
		st = append(st, s.text())
	}
	m["annotations"], m["inputs"], m["auxiliaries"], m["statements"] = anns, strs(a.Params), aux, st
	return m
}

func (x *Ext) want() map[string]any {
	var cfg []any
	for _, kv := range x.Cfg {
		cfg = append(cfg, map[string]any{"argument": kv.K, "value": kv.V})
	}
	return map[string]any{"name": x.Name, "alias": x.Alias, "config": cfg}
}

func (d *Doc) want() map[string]any {
	var ts, as, xs []any
	for _, t := range d.Tables() {
		ts = append(ts, t.want())
	}
	for _, a := range d.Actions() {
		as = append(as, a.want())
	}
	for _, a := range d.Inits() {
		as = append(as, a.want())
	}
	for _, x := range d.Exts {
		xs = append(xs, x.want())
	}
	return map[string]any{"owner": "", "name": d.Name, "tables": ts, "actions": as, "extensions": xs}
}

func (d *Doc) wantJSON() json.RawMessage {
	b, err := json.Marshal(d.want())
	if err != nil {
		panic(err)
	}
	return b
}

// normal drops nulls, empty lists and the like, so that absent, null and []
// compare equal.
func normal(v any) any {
	switch x := v.(type) {
	case map[string]any:
		r := map[string]any{}
		for k, e := range x {
			if n := normal(e); n != nil {
				r[k] = n
			}
		}
		return r
	case []any:
		if len(x) == 0 {
			return nil
		}
		r := make([]any, len(x))
		for i := range x {
			r[i] = normal(x[i])
		}
		return r
	}
	return v
}
