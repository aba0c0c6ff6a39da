package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/antlr4-go/antlr/v4"
	"github.com/kwilteam/kuneiform/kfgrammar"
	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/kfparser/ast"
	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/utils"
	"pgregory.net/rapid"
)

// ---- C31: errors name what is wrong

// hasWord tells whether s contains w and no longer word at that place.
func hasWord(s, w string) bool {
	for i := 0; i+len(w) <= len(s); i++ {
		if s[i:i+len(w)] != w {
			continue
		}
		if i > 0 && isWordByte(w[0]) && (isWordByte(s[i-1]) || s[i-1] == '$' || s[i-1] == '@') {
			continue
		}
		if e := i + len(w); e < len(s) && isWordByte(w[len(w)-1]) && isWordByte(s[e]) {
			continue
		}
		return true
	}
	return false
}

func namesOffender(c *Case) string {
	o := compile(c.Src)
	if m := o.verdict(c.Errs); m != "" {
		return m
	}
	msg := o.Err.Error()
	if c.Kind == "statement" { // SQL that is not of the dialect: the statement is told
		for _, s := range c.Srcs {
			if !strings.Contains(msg, s) {
				return fmt.Sprintf("the error does not tell the statement %q: %s", s, clip(msg, 400))
			}
		}
		return ""
	}
	var bad map[string][][]string
	if err := json.Unmarshal(c.Want, &bad); err != nil {
		panic(err)
	}
	var kinds []string
	for _, k := range kindsOf(o.Err) {
		if _, ok := bad[k]; !ok {
			return fmt.Sprintf("the error is also of the kind %s, which the source does not deserve: %s", k, clip(msg, 400))
		}
		kinds = append(kinds, k)
	}
	if len(kinds) != 1 {
		return fmt.Sprintf("the error has %d kinds: %s", len(kinds), clip(msg, 400))
	}
	text := errKinds[kinds[0]].Error()
	if !strings.Contains(msg, text) {
		return fmt.Sprintf("the error does not say %q: %s", text, clip(msg, 400))
	}
	detail := strings.Replace(msg, text, "", 1)
	for _, words := range bad[kinds[0]] {
		all := true
		for _, w := range words {
			if !hasWord(detail, w) {
				all = false
			}
		}
		if all {
			return ""
		}
	}
	return fmt.Sprintf("the error names none of the offenders %v: %s", bad[kinds[0]], clip(msg, 400))
}

// ---- C32: listeners and lists of errors

type errOp struct {
	Op  string // add, syntax
	Msg string
	Ln  int
	Col int
	On  int // which listener
}

func listenerCase(g *G, c *Case) {
	c.Kind = "operations"
	var ops []errOp
	n := g.n(0, 6)
	if g.p(20) {
		n = g.n(7, 300)
	}
	on := g.n(0, 3)
	for i := n; i > 0; i-- {
		op := errOp{Op: pickOf(g, "add", "add-kind", "syntax", "add", "add-kind", "syntax", "again", "odd", "list"), Msg: pickOf(g, "", "x", "line 1", "%s", "a\nb", "é", "with 2+ errors"), Ln: g.n(0, 1000000), Col: g.n(0, 1000)}
		if op.Op == "add-kind" {
			op.Msg = pickOf(g, sortedKeys(errKinds)...)
		}
		op.On = g.n(0, on)
		ops = append(ops, op)
	}
	b, err := json.Marshal(ops)
	if err != nil {
		panic(err)
	}
	c.Want = b
	c.Plain = len(ops) == 0
	c.label(c.Kind)
	if n > 6 {
		n = 7
	}
	c.label(fmt.Sprintf("errors:%d", n))
}

// oddError is an error whose values cannot be compared.
type oddError []string

func (e oddError) Error() string { return strings.Join(e, " ") }

func listenerOps(c *Case) string {
	var ops []errOp
	if err := json.Unmarshal(c.Want, &ops); err != nil {
		panic(err)
	}
	// several listeners, some of them made when others have errors already
	type listener struct {
		l     *utils.ErrorListener
		model []error // nil: a syntax error
		texts []string
	}
	ls := map[int]*listener{}
	at := func(i int) *listener {
		if ls[i] == nil {
			ls[i] = &listener{l: utils.NewErrorListener()}
		}
		return ls[i]
	}
	at(0)
	check := func(i int) string {
		l, model, texts := ls[i].l, ls[i].model, ls[i].texts
		want := "no errors"
		switch n := len(texts); {
		case n == 1:
			want = texts[0]
		case n > 1:
			want = fmt.Sprintf("%s (with %d+ errors)", texts[0], n-1)
		}
		if got := l.Error(); got != want {
			return fmt.Sprintf("the listener says %q, want %q", got, want)
		}
		if len(l.ErrorList) != len(texts) {
			return fmt.Sprintf("the listener has %d errors, want %d", len(l.ErrorList), len(texts))
		}
		for k, e := range l.ErrorList {
			if e == nil || e.Error() != texts[k] {
				return fmt.Sprintf("error %d of the listener is %v, want %q", k, e, texts[k])
			}
		}
		err := l.Err()
		if (err == nil) != (len(texts) == 0) {
			return fmt.Sprintf("Err() is %v after %d errors", err, len(texts))
		}
		if err != nil && err.Error() != want {
			return fmt.Sprintf("Err() says %q, want %q", err, want)
		}
		if err == nil {
			if u := l.Unwrap(); u != nil {
				return fmt.Sprintf("Unwrap() of no error is %v", u)
			}
		} else {
			first := model[0]
			if first == nil {
				first = utils.ErrInvalidSyntax
			}
			_, odd := first.(*oddError)
			if odd {
				var as oddError
				if !errors.As(err, &as) || !errors.As(l, &as) {
					return fmt.Sprintf("the list is not of the type of its first error %v", first)
				}
			} else if !errors.Is(err, first) || !errors.Is(l, first) {
				return fmt.Sprintf("the list is not its first error %v", first)
			}
			for k, e := range errKinds {
				if errors.Is(err, e) && !errors.Is(first, e) {
					return fmt.Sprintf("the list is of the kind %s, its first error is %v", k, first)
				}
			}
		}
		return ""
	}
	checkAll := func() string {
		for i := range 4 {
			if ls[i] == nil {
				continue
			}
			if m := check(i); m != "" {
				return fmt.Sprintf("%s (listener %d of %d)", m, i, len(ls))
			}
		}
		return ""
	}
	var why string
	if p := call(func() {
		if why = checkAll(); why != "" {
			return
		}
		for _, op := range ops {
			o := at(op.On)
			switch op.Op {
			case "add":
				e := errors.New(op.Msg)
				o.l.Add(e)
				o.model, o.texts = append(o.model, e), append(o.texts, op.Msg)
			case "add-kind":
				e := fmt.Errorf("%w: x", errKinds[op.Msg])
				o.l.Add(e)
				o.model, o.texts = append(o.model, e), append(o.texts, e.Error())
			case "again": // the very same error once more
				if k := len(o.model); k > 0 && o.model[k-1] != nil {
					o.l.Add(o.model[k-1])
					o.model, o.texts = append(o.model, o.model[k-1]), append(o.texts, o.texts[k-1])
				}
			case "odd": // its values cannot be compared
				e := oddError{op.Msg, "odd"}
				o.l.Add(e)
				o.model, o.texts = append(o.model, &e), append(o.texts, e.Error())
			case "list": // a list is an error, too
				e := &utils.ErrorList{errKinds["dup-table"], errors.New(op.Msg)}
				if op.Ln%2 == 0 {
					*e = append(*e, errors.New("third"))
				}
				o.l.Add(e)
				o.model, o.texts = append(o.model, e), append(o.texts, e.Error())
			case "syntax":
				o.l.SyntaxError(nil, nil, op.Ln, op.Col, op.Msg, nil)
				o.model, o.texts = append(o.model, nil), append(o.texts, fmt.Sprintf("syntax error: line %d:%d %s", op.Ln, op.Col, op.Msg))
			}
			if why = checkAll(); why != "" {
				return
			}
		}
	}); p != "" {
		return p
	}
	return why
}

// ownListener: a fresh listener of the caller changes nothing and has the errors.
func ownListener(c *Case) string {
	o := compile(c.Src)
	l := utils.NewErrorListener()
	var a ast.Ast
	var err error
	if p := call(func() { a, err = kfparser.ParseKF(c.Src, l, kfparser.Default) }); p != "" {
		return p
	}
	if o.Panicked != "" {
		return o.Panicked
	}
	if (err == nil) != (o.Err == nil) || err != nil && err.Error() != o.Err.Error() {
		return fmt.Sprintf("with a listener of the caller the error is %v, without %v", clipErr(err), clipErr(o.Err))
	}
	lerr := l.Err()
	if (err == nil) != (lerr == nil) || err != nil && lerr.Error() != err.Error() {
		return fmt.Sprintf("the error is %v, the listener has %v", clipErr(err), clipErr(lerr))
	}
	// every complaint of the lexer and the parser is in the list, in order
	raw := &rawErrors{}
	if p := call(func() { raw.run(c.Src) }); p == "" && len(raw.texts) > 0 {
		var got []string
		for _, e := range l.ErrorList {
			got = append(got, e.Error())
		}
		for i, w := range raw.texts {
			if i >= len(got) || !strings.Contains(got[i], w) {
				return fmt.Sprintf("error %d of the listener is not %q: %q", i, clip(w, 200), clip(strings.Join(got, "\n"), 600))
			}
		}
		if len(got) != len(raw.texts) {
			return fmt.Sprintf("the listener has %d errors, the lexer and the parser report %d: %q", len(got), len(raw.texts), clip(strings.Join(got, "\n"), 600))
		}
	} else if p == "" && err != nil && len(l.ErrorList) != 1 {
		return fmt.Sprintf("one rule is broken, the listener has %d errors", len(l.ErrorList))
	}
	if !reflect.DeepEqual(kindsOf(err), kindsOf(o.Err)) {
		return fmt.Sprintf("kinds of error: %v with a listener, %v without", kindsOf(err), kindsOf(o.Err))
	}
	if err == nil {
		s, ok := a.(*schema.Schema)
		if !ok || !reflect.DeepEqual(s, o.Sch) {
			return "with a listener of the caller the schema is another"
		}
	}
	// later compilations with listeners of their own leave this one alone
	had := fmt.Sprint(l.ErrorList)
	var later []*utils.ErrorListener
	for _, src := range []string{"database d; table t { a", "?? ;", "database d; init() { select 1; } init() { select 2; }", c.Src} {
		k := utils.NewErrorListener()
		if p := call(func() { kfparser.ParseKF(src, k, kfparser.Default) }); p != "" {
			return p
		}
		later = append(later, k)
	}
	if now := fmt.Sprint(l.ErrorList); now != had {
		return fmt.Sprintf("compilations with other listeners changed the errors of this one: %q, then %q", clip(had, 400), clip(now, 400))
	}
	if now := fmt.Sprint(later[3].ErrorList); now != had {
		return fmt.Sprintf("the same source later gives other errors: %q, then %q", clip(had, 400), clip(now, 400))
	}
	return ""
}

// rawErrors are the complaints of the generated lexer and parser on their own.
type rawErrors struct {
	antlr.DefaultErrorListener
	texts []string
}

func (r *rawErrors) SyntaxError(_ antlr.Recognizer, _ any, line, column int, msg string, _ antlr.RecognitionException) {
	r.texts = append(r.texts, fmt.Sprintf("%d:%d %s", line, column, msg))
}

func (r *rawErrors) run(src string) {
	lexer := kfgrammar.NewKuneiformLexer(antlr.NewInputStream(src))
	lexer.RemoveErrorListeners()
	lexer.AddErrorListener(r)
	p := kfgrammar.NewKuneiformParser(antlr.NewCommonTokenStream(lexer, antlr.TokenDefaultChannel))
	p.RemoveErrorListeners()
	p.AddErrorListener(r)
	p.Source_unit()
}

// ---- C33: nodes and their visitors

type recVisitor struct {
	schema.Validator // nil: methods of later versions
	seen             []any
	err              error
}

func (r *recVisitor) on(what string, x any) error {
	r.seen = append(r.seen, what, x)
	return r.err
}
func (r *recVisitor) VisitSchema(x *schema.Schema) error         { return r.on("schema", x) }
func (r *recVisitor) VisitExtension(x *schema.Extension) error   { return r.on("extension", x) }
func (r *recVisitor) VisitTable(x *schema.Table) error           { return r.on("table", x) }
func (r *recVisitor) VisitColumn(x *schema.Column) error         { return r.on("column", x) }
func (r *recVisitor) VisitAttribute(x *schema.Attribute) error   { return r.on("attribute", x) }
func (r *recVisitor) VisitIndex(x *schema.Index) error           { return r.on("index", x) }
func (r *recVisitor) VisitForeignKey(x *schema.ForeignKey) error { return r.on("foreign key", x) }
func (r *recVisitor) VisitAction(x *schema.Action) error         { return r.on("action", x) }

func acceptsVisitors(c *Case) string {
	if c.Kind == "wild" {
		s := wildSchema(c.N)
		b, err := s.ToJSON()
		if err != nil {
			return err.Error()
		}
		return visitAll(s, string(b))
	}
	o := compile(c.Src)
	if m := o.accepted(); m != "" {
		return m
	}
	return visitAll(o.Sch, string(o.JSON))
}

// visitAll gives every node of a schema to recording visitors.
func visitAll(s *schema.Schema, before string) string {
	why := ""
	try := func(what string, x ast.Ast) {
		for _, e := range []error{nil, errors.New("mine"), schema.ErrDuplicateTable} {
			if why != "" {
				return
			}
			v := &recVisitor{err: e}
			var got error
			if p := call(func() { x.Node(); got = x.Accept(v) }); p != "" {
				why = p
				return
			}
			if got != e {
				why = fmt.Sprintf("Accept of a %s returned %v, the visitor %v", what, got, e)
			} else if len(v.seen) != 2 || v.seen[0] != what || v.seen[1] != any(x) {
				why = fmt.Sprintf("Accept of a %s visited %v", what, v.seen)
			}
		}
	}
	try("schema", s)
	for i := range s.Extensions {
		try("extension", &s.Extensions[i])
	}
	for i := range s.Tables {
		t := &s.Tables[i]
		try("table", t)
		for j := range t.Columns {
			try("column", &t.Columns[j])
			for k := range t.Columns[j].Attributes {
				try("attribute", &t.Columns[j].Attributes[k])
			}
		}
		for j := range t.Indexes {
			try("index", &t.Indexes[j])
		}
		for j := range t.ForeignKeys {
			try("foreign key", &t.ForeignKeys[j])
		}
	}
	for i := range s.Actions {
		try("action", &s.Actions[i])
	}
	if why == "" {
		if b, err := s.ToJSON(); err != nil || string(b) != before {
			why = "visiting changed the schema"
		}
	}
	return why
}

// ---- C34: the annotation reader on text of any origin

// looseAnn writes an annotation in the documented form target(k=v, k='v', ...)
// with blanks wherever the reader's documentation leaves room.
func looseAnn(g *G) (text string, want map[string]any, ok bool) {
	a := g.ann()
	if g.p(6) {
		a.Attrs = nil
	}
	bl := func() string {
		if g.b() {
			return ""
		}
		return pickOf(g, " ", "  ", "\t", "\n", " \r\n ")
	}
	var b strings.Builder
	b.WriteString(a.Name + "(")
	var attrs []any
	for i, kv := range a.Attrs {
		if i > 0 {
			b.WriteString(bl() + ",")
		}
		if g.p(12) { // more than an identifier is read as a name
			kv.K = pickOf(g, "2nd", "_x", "0", "__", "9a_", "A_1") + kv.K
		}
		b.WriteString(bl() + kv.K + bl() + "=" + bl() + kv.V)
		attrs = append(attrs, map[string]any{"name": kv.K, "value": kv.V})
	}
	b.WriteString(bl() + ")")
	return b.String(), map[string]any{"target": a.Name, "attributes": attrs}, true
}

// readAnn reads a text, three times; what the owner of a reading does to it is
// no business of the next.
func readAnn(c *Case) string {
	for i := 0; i < 3; i++ {
		ann, m := readOnce(c)
		if m != "" {
			if i > 0 {
				m = "read again, after the first reading was changed by its owner: " + m
			}
			return m
		}
		if ann != nil {
			scribble(reflect.ValueOf(ann))
		}
	}
	return ""
}

func readOnce(c *Case) (ann *utils.Annotation, msg string) {
	msg = func() string {
		var err error
		if p := call(func() { ann, err = utils.ParseAnnotation(c.Src) }); p != "" {
			return p
		}
		if c.Kind == "no-form" {
			if err == nil {
				return fmt.Sprintf("%q is read as an annotation: %+v", clip(c.Src, 200), ann)
			}
			if ann != nil {
				return "an annotation and an error"
			}
			return ""
		}
		if err != nil || ann == nil {
			return fmt.Sprintf("annotation %q is not read: %v", clip(c.Src, 300), err)
		}
		b, err := json.Marshal(ann)
		if err != nil {
			return err.Error()
		}
		got, err := decode(b)
		if err != nil {
			return err.Error()
		}
		want, err := decode(c.Want)
		if err != nil {
			panic(err)
		}
		if d := diff("annotation", got, want); d != "" {
			return d
		}
		// the reading, written down in the canonical form, reads the same
		var sb strings.Builder
		sb.WriteString(ann.Target + "(")
		for i, at := range ann.Attributes {
			if i > 0 {
				sb.WriteString(", ")
			}
			sb.WriteString(at.Name + "=" + at.Value)
		}
		sb.WriteString(")")
		again, err := utils.ParseAnnotation(sb.String())
		if err != nil || !reflect.DeepEqual(again, ann) {
			return fmt.Sprintf("%q, written again as %q, reads differently", c.Src, sb.String())
		}
		return ""
	}()
	return
}

func init() {
	register(&Prop{ID: "C31", Quick: 30000, Thorough: 1800000,
		Rule: "dense and mutated documents that break rules (the reference rules give the offenders of every kind), and bodies with SQL statements that are not of the dialect. Non-trivial: every case that must be rejected.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			c := &Case{}
			if g.p(6) {
				c.Kind = "statement"
				bad := ""
				if g.b() {
					bad, _, _ = g.bannedStmt()
				} else {
					bad = pickOf(g, "select from t", "insert into", "update t set", "delete from t where", "select 1)", "select * from t where id ==== 1", "select 'a")
				}
				g.fewSQL = true
				d := g.doc()
				a := &Action{Name: "zz_bad", Mods: g.mods(), Stmts: []*Stmt{{SQL: bad}}}
				if g.b() {
					a.Stmts = append([]*Stmt{{SQL: "select 1"}}, a.Stmts...)
				}
				if g.b() {
					a.Stmts = append(a.Stmts, &Stmt{SQL: g.alikeSQL("select 'hello world'")})
				}
				for _, x := range d.Actions() {
					if x.Name == a.Name {
						a.Name += "2"
					}
				}
				pos := g.n(0, len(d.Decls))
				d.Decls = append(d.Decls[:pos:pos], append([]*Decl{{Action: a}}, d.Decls[pos:]...)...)
				c.Errs = []string{"any"}
				c.Srcs = []string{strings.TrimRight(bad, " \t\r\n")}
				c.Src = d.src(g.layout())
				c.label(c.Kind)
				return c
			}
			var d *Doc
			for i := 0; i < 3; i++ {
				if g.b() {
					c.Kind = "dense"
					d = g.denseDoc(dense{g.b(), g.b(), g.b(), g.b(), g.b(), g.b(), 3, 3, 2, 3})
				} else {
					c.Kind = "mutated"
					g.chooseBig(6, "tables", "cols", "idx", "fks", "acts", "params", "exts", "stmts", "recv", "args", "depth", "name")
					g.fewSQL = true
					d = g.doc()
					g.mutate(d)
				}
				if len(refErrs(d)) > 0 && d.clean() {
					break
				}
			}
			bad := breaches(d)
			if len(bad) == 0 || !d.clean() {
				c.Kind, c.Plain = "no-error", true
			}
			b, err := json.Marshal(bad)
			if err != nil {
				panic(err)
			}
			c.Want = b
			c.Errs = sortedKeys(bad)
			c.Src = d.src(g.layout())
			c.label(c.Kind)
			for _, k := range c.Errs {
				c.label("rejected:" + k)
			}
			return c
		},
		Check: func(c *Case) string {
			if c.Kind == "no-error" {
				return ""
			}
			return namesOffender(c)
		},
	})

	register(&Prop{ID: "C32", Quick: 24000, Thorough: 1400000,
		Rule: "sequences of errors reported to a listener against a list model, and sources of all sorts compiled with a fresh listener of the caller and without. Non-trivial: not the empty sequence or source.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			c := &Case{}
			switch g.n(0, 3) {
			case 0:
				listenerCase(g, c)
				return c
			case 1, 2:
				c.Src, _ = g.syntaxCase(false)
				c.Kind = "mostly-syntax"
			default:
				c.Src = g.anyDoc().src(g.layout())
				c.Kind = "document"
			}
			c.Plain = c.Src == ""
			c.label(c.Kind)
			return c
		},
		Check: func(c *Case) string {
			if c.Kind == "operations" {
				return listenerOps(c)
			}
			return ownListener(c)
		},
	})

	register(&Prop{ID: "C33", Quick: 16000, Thorough: 900000,
		Rule: "schemas compiled from valid documents and schemas filled with arbitrary values, every node given to a recording visitor that returns nil or an error. Non-trivial: schemas with a table or an action, and all filled ones.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			c := &Case{Kind: "schema"}
			if g.p(4) {
				c.Kind, c.N = "wild", g.n(1, 1<<40)
				c.label(c.Kind)
				return c
			}
			g.chooseBig(6)
			g.fewSQL = true
			d := g.doc()
			c.Src = d.src(g.layout())
			c.Plain = len(d.Decls) == 0
			c.label(c.Kind)
			return c
		},
		Check: acceptsVisitors,
	})

	register(&Prop{ID: "C34", Quick: 60000, Thorough: 3600000,
		Rule: "annotations in the documented form with blanks at every place it leaves room for, and texts that lack the form (no parenthesis, nothing after the last one). Non-trivial: every case.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			c := &Case{}
			if g.p(5) {
				c.Kind = "no-form"
				text, _, _ := looseAnn(g)
				switch g.n(0, 3) {
				case 0:
					c.Src = text[:len(text)-1] + pickOf(g, "x", " ", "'", "]", "}", "\n")
				case 1:
					c.Src = strings.ReplaceAll(text, "(", pickOf(g, "", " ", "["))
				case 2:
					c.Src = pickOf(g, "", "a", "(", ")", "a)", "()"[:1], "ab", "a(", "abc", "a b=1)")
				default:
					c.Src = text + pickOf(g, " ", ";", "x", "\n", " b", "'")
				}
				c.label(c.Kind)
				return c
			}
			g.chooseBig(6, "annattrs", "lit", "name")
			text, want, _ := looseAnn(g)
			c.Kind, c.Src = "form", text
			b, err := json.Marshal(want)
			if err != nil {
				panic(err)
			}
			c.Want = b
			c.label(c.Kind)
			return c
		},
		Check: readAnn,
	})
}
