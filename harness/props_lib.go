package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"

	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/schema"
	"pgregory.net/rapid"
)

// weird names: no source could spell them, but a schema in memory can hold them
var weirdPool = []string{"", " ", "a b", "1", "1a", "é", "中文", "select", "table", "int", "a;b", "#i", "$x", "@y", "a.b", "'", "\"", "\\", "\n", "A", "a", "a ", " a", "init", "owner", "null", "_", "-", "{", "%s", "\x00", "column", "index", "current"}

// handBuilt draws the document of a schema in memory.
func (g *G) handBuilt() (*Doc, string) {
	var d *Doc
	kind := "dense"
	switch g.n(0, 3) {
	case 0, 1:
		d = g.denseDoc(dense{names: g.b(), refs: g.b(), calls: g.b(), vars: g.b(), attrs: g.b(), tables: 3, acts: 3, exts: 3, size: 3})
	case 2:
		kind = "mutated"
		g.fewSQL = true
		g.chooseBig(6, "tables", "cols", "acts", "idx", "fks", "params", "stmts", "exts", "idxcols")
		d = g.doc()
		g.mutate(d)
	default:
		kind = "valid"
		g.fewSQL = true
		g.chooseBig(6)
		d = g.doc()
	}
	if g.b() { // names of tables, columns and indexes that no source can have
		used := map[string]string{}
		taken := newNames()
		ren := func(s *string) {
			if used[*s] == "" {
				n := *s
				if g.b() {
					n = pickOf(g, weirdPool...)
					if g.p(6) || g.newTexts(3) {
						n = g.dictText()
					}
				}
				for i := 0; taken.used[n]; i++ {
					n += fmt.Sprint(i)
				}
				taken.add(n)
				used[*s] = "=" + n
			}
			*s = used[*s][1:]
		}
		only := &Doc{}
		for _, x := range d.Decls {
			if x.Table != nil {
				only.Decls = append(only.Decls, x)
			}
		}
		only.visit(ren, func(*string) {})
		d.Name = only.Name
	}
	return d, kind
}

func init() {
	register(&Prop{ID: "C25", Quick: 50000, Thorough: 3000000,
		Rule: "schemas in memory: dense ones over few names, valid ones and ones with a mutation, with aliases left empty, names no source can have, nil or empty lists; the validator's verdict must be that of the reference rules, twice, and leave the schema as it was. Non-trivial: at least one declaration.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			d, kind := g.handBuilt()
			c := &Case{Kind: kind}
			var blank []bool
			for _, x := range d.Exts { // an empty alias stands for the name
				b := g.p(3)
				if b {
					x.Name = x.Alias
				}
				blank = append(blank, b)
			}
			for _, e := range refErrs(d) {
				switch e {
				case "visibility", "mutability", "auxiliary": // cannot be said in a schema
				case "multi-init":
					c.Errs = append(c.Errs, "dup-action")
				default:
					c.Errs = append(c.Errs, e)
				}
			}
			c.Errs = uniq(c.Errs)
			if !d.clean() {
				c.Kind, c.Plain = "undecided", true
			}
			for i, x := range d.Exts {
				if blank[i] {
					x.Alias = ""
				}
			}
			c.Want = d.wantJSON()
			if g.p(3) { // no rule speaks of it
				w := g.dictText()
				c.Map = map[string]string{"owner": pickOf(g, append([]string{w, w, "0x" + w, "0xAbCdEf0123456789abcdef0123456789abcdef01", "0x1", strings.Repeat("f", g.n(1, 70))}, weirdPool...)...)}
			}
			c.N = g.n(0, 2) // nil lists, empty lists, decoded
			c.Plain = c.Plain || len(d.Decls)+len(d.Exts) == 0
			c.label(c.Kind)
			if len(c.Errs) == 0 {
				c.label("accepted")
			}
			for _, e := range c.Errs {
				c.label("rejected:" + e)
			}
			return c
		},
		Check: func(c *Case) string {
			if c.Kind == "undecided" {
				return ""
			}
			mk := func() *schema.Schema {
				s := &schema.Schema{}
				if err := json.Unmarshal(c.Want, s); err != nil {
					panic(err)
				}
				if w, ok := c.Map["owner"]; ok {
					s.Owner = w
				}
				emptyLists(reflect.ValueOf(s).Elem(), c.N)
				return s
			}
			s, same := mk(), mk()
			held := roomy(reflect.ValueOf(s).Elem())
			var first string
			for i := 0; i < 4; i++ {
				var err error
				if i == 3 { // the same object had another content when it was checked before
					valid := anotherSchema(min(40, len(same.Tables)), min(40, len(same.Actions)))
					*s = *valid
					if p := call(func() { err = s.Accept(schema.NewCtxValidator()) }); p != "" || err != nil {
						return fmt.Sprintf("a schema that breaks no rule, in an object that held another, is rejected: %v %s", clipErr(err), p)
					}
					*s = *mk()
				}
				if p := call(func() { err = s.Accept(schema.NewCtxValidator()) }); p != "" {
					return "validation panicked: " + p
				}
				if !reflect.DeepEqual(s, same) {
					return "validation changed the schema"
				}
				if !held() {
					return "validation changed what shares an array with a list of the schema"
				}
				text := "accepted"
				if err != nil {
					text = err.Error()
				}
				if i == 0 {
					first = text
				} else if text != first {
					return fmt.Sprintf("a fresh validator gives another verdict: %q, then %q", first, text)
				}
				if len(c.Errs) == 0 {
					if err != nil {
						return "a schema that breaks no rule is rejected: " + clipErr(err)
					}
					continue
				}
				if err == nil {
					return "accepted, but must be rejected as " + strings.Join(c.Errs, " or ")
				}
				ok := false
				for _, k := range kindsOf(err) {
					ok = ok || hasStr(c.Errs, k)
				}
				if !ok {
					return fmt.Sprintf("must be rejected as %s, but the error is: %s", strings.Join(c.Errs, " or "), clipErr(err))
				}
			}
			return ""
		},
	})

	register(&Prop{ID: "C26", Quick: 400000, Thorough: 3600000, Extra: everyKeyword,
		Rule: "every keyword of the three lookups in every letter case (exhaustive), and random near misses, keywords of other kinds and arbitrary text. Non-trivial: all.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			w := pickOf(g, lookupWords()...)
			switch g.n(0, 8) {
			case 7, 8:
				w = g.dictText()
				if g.b() {
					w = g.dictName()
				}
			case 0:
				w = g.near(w)
			case 1:
				w = pickOf(g, " ", "\t", "\n", "_", "é", "\x00", "x") + w
			case 2:
				w += pickOf(g, " ", "\t", "\n", "_", "s", "é", "\x00", "()", "(1)")
			case 3:
				w = pickOf(g, append(append([]string{}, kwCS...), kwCI...)...)
			case 4:
				w = g.rawName()
			case 5:
				w = pickOf(g, "", "primary_key", "not_null", "min_length", "max_length", "btree", "unique_btree", "notnull ", "not null", "integer", "string", "bool", "uuid", "NULL", "minlength", "pk", "key", "default()", "int8", "ınt", "ındex", "ｉｎｔ", "mın", "tеxt", "unıque")
			}
			b := []byte(w)
			for i := range b {
				if b[i] >= 'a' && b[i] <= 'z' && g.p(3) {
					b[i] -= 32
				}
			}
			c := &Case{Kind: "word", Src: string(b)}
			return c
		},
		Check: func(c *Case) string {
			if c.Kind == "emitted" {
				return emittedType(c)
			}
			return lookup(c.Src)
		},
	})

	register(&Prop{ID: "C27", Quick: 10000, Thorough: 600000,
		Rule: "sources of all sorts (valid, breaking rules, not sentences) compiled with tracing on and off in the library, one in eight with traced and untraced compilations at the same time, one in ten also by the command with --trace and without. Non-trivial: not the empty source.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			c := &Case{Kind: "library"}
			var d *Doc
			switch g.n(0, 2) {
			case 0:
				c.Src, _ = g.syntaxCase(false)
			default:
				d = g.anyDoc()
				if g.p(5) {
					g.fused(d)
					c.label("fused")
				}
				c.Src = d.src(g.layout())
			}
			if g.p(10) {
				c.Kind = "command"
				c.N = g.n(0, 3) // form of the flag
			}
			c.Plain = c.Src == ""
			c.label(c.Kind)
			if d != nil && len(refErrs(d)) == 0 {
				c.label("accepted")
			}
			return c
		},
		Check: func(c *Case) string {
			var o1, o3 *Out
			if t := printed(func() { o1, o3 = compile(c.Src), compileMode(c.Src, kfparser.Default, false) }); t != "" {
				return "without tracing the compiler prints " + clip(t, 200)
			}
			if d := sameOut(o1, o3); d != "" {
				return "in default mode: " + d
			}
			modes := []kfparser.Mode{kfparser.Trace, 0, kfparser.Trace | kfparser.Default}
			if len(c.Src)%4 == 0 {
				modes = append(modes, kfparser.Default, 4, kfparser.Trace|8, 8, 1<<40)
			}
			for _, m := range modes {
				if m&kfparser.Trace == 0 {
					var o2 *Out
					if t := printed(func() { o2 = compileMode(c.Src, m, false) }); t != "" {
						return fmt.Sprintf("without tracing (mode %d) the compiler prints %s", m, clip(t, 200))
					}
					if d := sameOut(o1, o2); d != "" {
						return fmt.Sprintf("in mode %d: %s", m, d)
					}
					continue
				}
				var o2 *Out
				t := printed(func() { o2 = compileMode(c.Src, m, false) })
				if d := sameOut(o1, o2); d != "" {
					return "with tracing: " + d
				}
				if o1.Err == nil && o1.Sch != nil {
					for _, x := range o1.Sch.Tables {
						if !strings.Contains(t, x.Name) {
							return "the trace does not mention table " + x.Name
						}
					}
					for _, x := range o1.Sch.Actions {
						if !strings.Contains(t, x.Name) {
							return "the trace does not mention action " + x.Name
						}
					}
				}
			}
			if len(c.Src)%8 == 0 {
				if m := traceTogether(c); m != "" {
					return m
				}
			}
			if c.Kind == "command" && os.Getenv("KF_CLI") != "" {
				return traceCommand(c, o1)
			}
			return ""
		},
	})
}

// traceTogether compiles with and without tracing at the same time.
func traceTogether(c *Case) string {
	const mark = "marked_by_the_check"
	plain := "database " + mark + "; table " + mark + " { " + mark + " int } action " + mark + "() public { select 1; }"
	want, traced := compile(plain), compile(c.Src)
	var outs [6]*Out
	t := printed(func() {
		var wg sync.WaitGroup
		for i := range outs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if i%3 == 0 {
					outs[i] = compileMode(c.Src, kfparser.Trace, false)
				} else {
					for j := 0; j < 3; j++ {
						outs[i] = compileMode(plain, kfparser.Default, false)
					}
				}
			}()
		}
		wg.Wait()
	})
	for i, o := range outs {
		w := want
		if i%3 == 0 {
			w = traced
		}
		if d := sameOut(w, o); d != "" {
			return "with others at the same time, some traced: " + d
		}
	}
	if strings.Contains(t, mark) {
		return "a compilation without tracing prints while another one is traced"
	}
	return ""
}

var printFile *os.File

// printed runs f and returns what it wrote to standard output and error.
func printed(f func()) string {
	if printFile == nil {
		var err error
		printFile, err = os.CreateTemp(os.Getenv("KF_SCRATCH"), "printed")
		must(err)
		os.Remove(printFile.Name())
	}
	so, se := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = printFile, printFile
	func() {
		defer func() { os.Stdout, os.Stderr = so, se }()
		f()
	}()
	n, err := printFile.Seek(0, io.SeekCurrent)
	must(err)
	if n == 0 {
		return ""
	}
	b := make([]byte, n)
	_, err = printFile.ReadAt(b, 0)
	must(err)
	must(printFile.Truncate(0))
	_, err = printFile.Seek(0, io.SeekStart)
	must(err)
	return string(b)
}

// emptyLists turns nil lists of a schema into empty ones (mode 1).
// roomy moves the lists in v into arrays with room behind them that somebody
// else uses; held tells whether it still has what was there.
func roomy(v reflect.Value) (held func() bool) {
	var rooms []reflect.Value
	var fill func(v reflect.Value, s string)
	fill = func(v reflect.Value, s string) {
		switch v.Kind() {
		case reflect.String:
			v.SetString(s)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				fill(v.Field(i), s)
			}
		}
	}
	var move func(v reflect.Value)
	move = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				move(v.Field(i))
			}
		case reflect.Slice:
			n := v.Len()
			if v.IsNil() {
				return
			}
			m := reflect.MakeSlice(v.Type(), n+2, n+2)
			reflect.Copy(m, v)
			fill(m.Index(n), "room")
			fill(m.Index(n+1), "more room")
			rooms = append(rooms, m)
			v.Set(m.Slice(0, n))
			for i := 0; i < n; i++ {
				move(v.Index(i))
			}
		}
	}
	move(v)
	return func() bool {
		for _, m := range rooms {
			n := m.Len() - 2
			for i, s := range []string{"room", "more room"} {
				w := reflect.New(m.Type().Elem()).Elem()
				fill(w, s)
				if !reflect.DeepEqual(m.Index(n+i).Interface(), w.Interface()) {
					return false
				}
			}
		}
		return true
	}
}

func emptyLists(v reflect.Value, mode int) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			emptyLists(v.Field(i), mode)
		}
	case reflect.Slice:
		if v.Len() == 0 {
			switch mode {
			case 0:
				v.Set(reflect.Zero(v.Type()))
			case 1:
				v.Set(reflect.MakeSlice(v.Type(), 0, 0))
			}
		}
		for i := 0; i < v.Len(); i++ {
			emptyLists(v.Index(i), mode)
		}
	}
}

// sameOut: the same schema and bytes, or the same error text.
func sameOut(o1, o2 *Out) string {
	if o1.Panicked != "" || o2.Panicked != "" {
		return "compilation panicked: " + o1.Panicked + o2.Panicked
	}
	e1, e2 := "none", "none"
	if o1.Err != nil {
		e1 = o1.Err.Error()
	}
	if o2.Err != nil {
		e2 = o2.Err.Error()
	}
	if (o1.Err == nil) != (o2.Err == nil) || e1 != e2 {
		return fmt.Sprintf("the errors differ: %q and %q", clip(e1, 400), clip(e2, 400))
	}
	if o1.Err == nil {
		if !bytes.Equal(o1.JSON, o2.JSON) {
			return "the JSON differs " + firstDiff(string(o2.JSON), string(o1.JSON))
		}
		if !reflect.DeepEqual(o1.Sch, o2.Sch) {
			return "the schemas differ"
		}
	}
	return ""
}

// ---- C26

var colWords = map[string]string{"int": "int", "text": "text", "blob": "blob", "null": "null"}

func lookupWords() []string {
	m := map[string]bool{}
	for _, x := range []map[string]string{colWords, attrJSON, idxJSON} {
		for k := range x {
			m[k] = true
		}
	}
	return sortedKeys(m)
}

func lookup(w string) string {
	low := make([]byte, 0, len(w))
	for i := 0; i < len(w); i++ { // ASCII letters only
		c := w[i]
		if c >= 'A' && c <= 'Z' {
			c += 32
		}
		low = append(low, c)
	}
	one := func(what string, want map[string]string, got string, err error) string {
		x, ok := want[string(low)]
		switch {
		case ok && err != nil:
			return fmt.Sprintf("%s %q is refused: %v", what, w, err)
		case ok && got != x:
			return fmt.Sprintf("%s %q gives %q, want %q", what, w, got, x)
		case !ok && err == nil:
			return fmt.Sprintf("%s %q is accepted as %q", what, w, got)
		case !ok && got != "":
			return fmt.Sprintf("%s %q is refused, but with the type %q", what, w, got)
		}
		return ""
	}
	ct, err := schema.GetColumnType(w)
	if m := one("column type", colWords, string(ct), err); m != "" {
		return m
	}
	at, err := schema.GetAttributeType(w)
	if m := one("attribute", attrJSON, string(at), err); m != "" {
		return m
	}
	it, err := schema.GetIndexType(w)
	return one("index kind", idxJSON, string(it), err)
}

// emittedType: c.Src is a keyword, c.Map["of"] its kind; the compiler must emit
// what the lookup gives.
func emittedType(c *Case) string {
	w := c.Src
	var src, want string
	var path []any
	switch c.Map["of"] {
	case "column":
		t, err := schema.GetColumnType(w)
		if err != nil {
			return err.Error()
		}
		src, want = "table t { c "+w+" }", string(t)
		path = []any{"tables", 0, "columns", 0, "type"}
	case "attribute":
		t, err := schema.GetAttributeType(w)
		if err != nil {
			return err.Error()
		}
		v := ""
		if attrHasVal(w) {
			v = "(1)"
		}
		src, want = "table t { c blob "+w+v+" }", string(t)
		path = []any{"tables", 0, "columns", 0, "attributes", 0, "type"}
	default:
		t, err := schema.GetIndexType(w)
		if err != nil {
			return err.Error()
		}
		src, want = "table t { c int, #i "+w+"(c) }", string(t)
		path = []any{"tables", 0, "indexes", 0, "type"}
	}
	o := compile("database d; " + src)
	if m := o.accepted(); m != "" {
		return m
	}
	if got := str(get(decodedMap(o.JSON), path...)); got != want {
		return fmt.Sprintf("the compiler emits %q for %s, the lookup gives %q", got, w, want)
	}
	return ""
}

func everyKeyword(e *env) (int, int, *Failure, []string) {
	n := 0
	for _, w := range lookupWords() {
		for mask := 0; mask < 1<<len(w); mask++ {
			b := []byte(w)
			for i := range b {
				if mask>>i&1 == 1 {
					b[i] -= 32
				}
			}
			c := &Case{Prop: "C26", Kind: "word", Src: string(b)}
			n++
			if m := lookup(c.Src); m != "" {
				return n, n, &Failure{c, m}, nil
			}
		}
	}
	kinds := map[string]map[string]string{"column": colWords, "attribute": attrJSON, "index": idxJSON}
	for _, k := range sortedKeys(kinds) {
		for _, w := range sortedKeys(kinds[k]) {
			if w == "null" {
				continue
			}
			c := &Case{Prop: "C26", Kind: "emitted", Src: w, Map: map[string]string{"of": k}}
			n++
			if m := emittedType(c); m != "" {
				return n, n, &Failure{c, m}, nil
			}
		}
	}
	return n, n, nil, []string{fmt.Sprintf("exhaustive part: %d words", n)}
}

// ---- C27, the command

var scratchOnce sync.Once
var scratchSub string

// caseDir is an empty directory for one case.
func caseDir() string {
	scratchOnce.Do(func() {
		d, err := os.MkdirTemp(scratchDir(), "case")
		if err != nil {
			panic(err)
		}
		os.Chmod(d, 0o755)
		scratchSub = d
	})
	d, err := os.MkdirTemp(scratchSub, "d")
	if err != nil {
		panic(err)
	}
	os.Chmod(d, 0o755)
	return d
}

func traceCommand(c *Case, o *Out) string {
	dir := caseDir()
	defer os.RemoveAll(dir)
	in := filepath.Join(dir, "s.kf")
	if err := os.WriteFile(in, []byte(c.Src), 0o644); err != nil {
		panic(err)
	}
	run := func(out string, args ...string) (int, string, string, []byte) {
		cmd := exec.Command(os.Getenv("KF_CLI"), append(args, "-o", out, in)...)
		cmd.Dir = dir
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		err := cmd.Run()
		if _, ok := err.(*exec.ExitError); err != nil && !ok {
			panic(err)
		}
		b, _ := os.ReadFile(filepath.Join(out, "s.json"))
		return cmd.ProcessState.ExitCode(), so.String(), se.String(), b
	}
	flag := []string{"--trace", "-t", "--trace=true", "-t=true"}[c.N]
	c1, so1, se1, b1 := run(filepath.Join(dir, "o1"))
	c2, so2, se2, b2 := run(filepath.Join(dir, "o2"), flag)
	if c1 != c2 {
		return fmt.Sprintf("the command exits with %d, with %s it exits with %d: %s %s", c1, flag, c2, clip(so2, 200), clip(se2, 200))
	}
	if !bytes.Equal(b1, b2) {
		return "the command with " + flag + " writes another file"
	}
	if (c1 == 0) != (o.Err == nil) {
		return fmt.Sprintf("the command exits with %d, the library says %v: %s", c1, clipErr(o.Err), clip(se1+so1, 300))
	}
	if c1 == 0 && !bytes.Equal(b1, o.JSON) {
		return "the command writes other JSON than the library gives"
	}
	if n := strings.Count(strings.TrimSpace(so1+se1), "\n"); c1 == 0 && n > 0 {
		return fmt.Sprintf("without tracing the command prints more than one line: %s", clip(so1+se1, 300))
	}
	if c1 == 0 {
		for _, t := range o.Sch.Tables {
			if !strings.Contains(so2+se2, t.Name) {
				return "the trace does not mention table " + t.Name
			}
		}
		for _, a := range o.Sch.Actions {
			if !strings.Contains(so2+se2, a.Name) {
				return "the trace does not mention action " + a.Name
			}
		}
		if len(so2)+len(se2) <= len(so1)+len(se1) {
			return "tracing printed nothing"
		}
	}
	return ""
}

// wildSchema is a schema with arbitrary values in every field.
func wildSchema(seed int) *schema.Schema {
	x := uint64(seed)
	n := func(k int) int { x = mix(x); return int(x % uint64(k)) }
	words := append([]string{"UPDATE", "DELETE", "CASCADE", "NO ACTION", "SET NULL", "btree", "unique_btree", "primary", "primary_key", "not_null", "int", "text", "view", "update", "t", "t", "a", "b", "$p", "a($p);", "$x = e.m();", "n(k=1)", "007", "1e3", "<&>", "\u2028", "\u200b"}, weirdPool...)
	var fill func(v reflect.Value, depth int)
	fill = func(v reflect.Value, depth int) {
		switch v.Kind() {
		case reflect.String:
			v.SetString(words[n(len(words))])
		case reflect.Bool:
			v.SetBool(n(2) == 0)
		case reflect.Interface:
			if n(3) > 0 {
				v.Set(reflect.ValueOf(words[n(len(words))]))
			} else if n(4) == 0 { // not what a source gives, but it can be said
				vs := []any{0, 7, -1, int64(1) << 60, int64(9007199254740993), uint64(math.MaxUint64), 1.5, 1e21, true, false, json.Number("10000000000000000000001"), json.Number("1.50"), int8(-5)}
				v.Set(reflect.ValueOf(vs[n(len(vs))]))
			}
		case reflect.Slice:
			if k := n(4); k > 0 {
				v.Set(reflect.MakeSlice(v.Type(), k-n(2), k+n(3)))
			}
			for i := 0; i < v.Len(); i++ {
				fill(v.Index(i), depth+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				fill(v.Field(i), depth+1)
			}
		default:
			panic(v.Kind().String())
		}
	}
	s := &schema.Schema{}
	fill(reflect.ValueOf(s).Elem(), 0)
	for i := range s.Tables {
		for j := range s.Tables[i].Indexes {
			if x := &s.Tables[i].Indexes[j]; x.Type == "" { // an empty one is left out
				x.Type = schema.IdxBtree
			}
		}
	}
	return s
}

// anotherSchema is a schema that breaks no rule, of so many tables and actions.
func anotherSchema(tables, actions int) *schema.Schema {
	s := &schema.Schema{Name: "another"}
	for i := range tables {
		s.Tables = append(s.Tables, schema.Table{Name: fmt.Sprintf("vtable%d", i), Columns: []schema.Column{{Name: "c", Type: schema.ColInt}}})
	}
	for i := range actions {
		s.Actions = append(s.Actions, schema.Action{Name: fmt.Sprintf("vaction%d", i), Public: true, Statements: []string{"SELECT 1;"}})
	}
	return s
}
