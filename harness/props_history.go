package main

import (
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"strings"
	"sync"

	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/utils"
	"pgregory.net/rapid"
)

// text is everything observable of an outcome.
func (o *Out) text() string {
	switch {
	case o.Panicked != "":
		return "panic " + firstLine(o.Panicked)
	case o.Err != nil:
		return "error " + o.Err.Error()
	}
	return fmt.Sprintf("json %s %v", o.JSON, o.JSONErr)
}

// freshMain compiles one source from standard input in this new process.
func freshMain() int {
	b, err := readAll(os.Stdin)
	if err != nil {
		return 3
	}
	os.Stdout.WriteString(compile(string(b)).text())
	return 0
}

func fresh(src string) (string, error) {
	cmd := exec.Command(os.Getenv("KF_FRESH"), "fresh")
	cmd.Stdin = strings.NewReader(src)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	return string(b), err
}

func init() {
	register(&Prop{ID: "C15", Quick: 2900, Thorough: 120000, Extra: longHistory,
		Rule: "histories over 3 to 7 sources (valid, breaking rules, not sentences): each source is compiled in a new process, then all of them in one long-lived process in a random order with repetitions, then by 4 to 8 goroutines at once that also validate, serialise and read the earlier results, and use the look-ups and listeners, sometimes with 3000 other compilations in between; a binary built with the race detector runs this; single sources, most of them with several faults, compiled a dozen times in a row; a history of 84000 compilations in one process. Non-trivial: at least two different sources, or one with a declaration.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			if !g.p(6) {
				return g.again()
			}
			c := &Case{Kind: "history"}
			for i := g.n(3, 7); i > 0; i-- {
				g.big = ""
				switch g.n(0, 3) {
				case 0:
					s, _ := g.syntaxCase(true)
					c.Srcs = append(c.Srcs, s)
					c.label("maybe-not-a-sentence")
				case 1:
					c.Srcs = append(c.Srcs, g.denseDoc(dense{true, true, true, true, true, true, 2, 2, 2, 3}).src(g.layout()))
				default:
					d := g.anyDoc("tables", "acts", "cols", "stmts")
					c.Srcs = append(c.Srcs, d.src(g.layout()))
					if len(refErrs(d)) == 0 {
						c.label("accepted")
						if g.p(3) { // the same again in another layout, or without its last declaration
							e := d.clone()
							if len(e.Decls) > 0 && g.b() {
								e.Decls = e.Decls[:len(e.Decls)-1]
							}
							c.Srcs = append(c.Srcs, e.src(g.layout()))
						}
					}
				}
			}
			order := ""
			for i := g.n(8, 24); i > 0; i-- {
				order += string(rune('a' + g.n(0, len(c.Srcs)-1)))
			}
			c.Src = order
			c.N = g.n(4, 8)
			if g.p(32) {
				c.Soak = 3000
				c.label("soak")
			}
			seen := map[string]bool{}
			for _, s := range c.Srcs {
				seen[s] = true
			}
			c.Plain = len(seen) < 2
			return c
		},
		Check: historyCase,
	})
}

// longSources are compiled again and again in a long history.
var longSources = []string{"database d; use e as x;", "database d; action a($b) { a($b); }", "database e; table t { a int, a int }", "database e; use x as e; table t { a int, #a index(a) }", "database d; ?", "database d; @n(k=1) action c() { $r = x.y(); }"}

// longHistory compiles more often than 16 bits can count.
func longHistory(e *env) (int, int, *Failure, []string) {
	c := &Case{Prop: "C15", Kind: "long", Srcs: longSources[:4], Src: "abcdabcd", N: 4, Soak: 84000}
	if e.tier == "thorough" {
		c.Soak = 300000
	}
	st, msg := runOne(c, scratchDir())
	switch st {
	case oneViolated:
		return 1, 1, &Failure{c, msg}, nil
	case oneError:
		return 0, 0, nil, []string{"long history: " + clip(msg, 500)}
	}
	return 1, 1, nil, []string{fmt.Sprintf("a history of %d compilations in one process", c.Soak)}
}

// again is one source, mostly with faults in several places, to be compiled a
// dozen times.
func (g *G) again() *Case {
	c := &Case{Kind: "again", N: 12}
	var d *Doc
	switch g.n(0, 5) {
	case 0, 1: // the same fault in several places, and perhaps another in others
		kinds := sortedKeys(faultKinds)
		d = faultyDoc(pickOf(g, kinds...), g.n(2, 6))
		if g.b() {
			e := faultyDoc(pickOf(g, kinds...), g.n(2, 6))
			ren := func(s *string) { *s = strings.TrimRight(*s, "_") + "_" }
			if g.b() {
				e.visit(ren, func(*string) {})
			}
			d.Decls = append(d.Decls, e.Decls...)
			if g.b() {
				d.Exts = append(d.Exts, e.Exts...)
			}
		}
	case 2:
		g.chooseBig(4)
		d = g.doc()
		for i := g.n(2, 5); i > 0; i-- {
			func() {
				defer func() { // a mutation may need what an earlier one has taken away
					if r := recover(); r != nil {
						if _, ok := r.(runtime.Error); !ok {
							panic(r)
						}
					}
				}()
				g.mutate(d)
			}()
		}
	case 3:
		d = g.anyDoc("tables", "acts", "cols", "exts")
	case 4:
		s, _ := g.syntaxCase(true)
		c.Srcs = []string{s}
		c.label("again-maybe-not-a-sentence")
		return c
	default:
		d = g.denseDoc(dense{true, true, true, true, true, true, 4, 4, 4, 4})
	}
	c.Srcs = []string{d.src(g.layout())}
	c.Plain = len(d.Decls)+len(d.Exts) == 0
	c.label(fmt.Sprintf("again-%d-rules-broken", min(3, len(uniq(refErrs(d))))))
	return c
}

func againCase(c *Case) string {
	was := compile(c.Srcs[0]).text()
	for i := 1; i < c.N; i++ {
		if t := compile(c.Srcs[0]).text(); t != was {
			return fmt.Sprintf("compilation %d of the same source gives another result: %s", i, firstDiff(t, was))
		}
	}
	return ""
}

func historyCase(c *Case) string {
	if c.Kind == "again" {
		return againCase(c)
	}
	base := make([]string, len(c.Srcs))
	errs := make([]error, len(c.Srcs))
	var wg sync.WaitGroup
	for i := range c.Srcs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			base[i], errs[i] = fresh(c.Srcs[i])
		}()
	}
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			panic(fmt.Sprintf("compiling %q in a new process: %v", c.Srcs[i], err))
		}
	}
	var firsts = make([]*Out, len(c.Srcs))
	for n, ch := range c.Src {
		i := int(ch - 'a')
		o := compile(c.Srcs[i])
		if t := o.text(); t != base[i] {
			return fmt.Sprintf("source %d: compilation %d of the history gives another result than a new process: %s", i, n, firstDiff(t, base[i]))
		}
		if firsts[i] == nil {
			firsts[i] = o
		} else if !reflect.DeepEqual(firsts[i].Sch, o.Sch) {
			return fmt.Sprintf("source %d: two compilations give different schemas", i)
		} else if o.Sch != nil && o.Sch == firsts[i].Sch {
			return fmt.Sprintf("source %d: two compilations share one schema object", i)
		}
	}
	// a long history in between
	same := map[uint64]string{}
	for n := 0; n < c.Soak && c.Kind == "long"; n++ {
		k := mix(uint64(n)) % uint64(len(longSources)+1)
		src := fmt.Sprintf("database soak%d; table t%d { c%d int }", n, n, n)
		if k > 0 {
			src = longSources[k-1]
		}
		t := compile(src).text()
		if was, ok := same[k]; k > 0 && ok && t != was {
			return fmt.Sprintf("compilation %d of a long history gives another result for %q: %s", n, src, firstDiff(t, was))
		}
		same[k] = t
	}
	for n := 0; n < c.Soak && c.Kind != "long"; n++ {
		switch n % 3 {
		case 0:
			compile(fmt.Sprintf("database soak%d; table t%d { c%d int } action a%d($p%d) public { select %d; }", n, n, n, n, n, n))
		case 1:
			compile("database soak; use ext as e; table t { a int, b text, #i index(a) } @n(k='v') action x($a) public { $b = e.f($a); y($b); } action y($a) public { delete from t; } init() { select 1; }")
		default:
			compile("database soak; table t { a int, a int }")
		}
	}
	// at once; earlier results stay as they were
	bad := make(chan string, 64)
	start := make(chan bool)
	for w := 0; w < c.N; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := range c.Srcs {
				i := (k*(w%3+1) + w) % len(c.Srcs)
				if t := compile(c.Srcs[i]).text(); t != base[i] {
					select {
					case bad <- fmt.Sprintf("source %d: compiled among others at the same time it gives another result: %s", i, firstDiff(t, base[i])):
					default:
					}
				}
				if w%2 == 0 {
					runtime.Gosched()
				}
				// the results of the history are used at the same time
				if o := firsts[i]; o != nil && o.Sch != nil {
					if m := useShared(o); m != "" {
						select {
						case bad <- fmt.Sprintf("source %d: a schema used by several goroutines: %s", i, m):
						default:
						}
					}
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	select {
	case m := <-bad:
		return m
	default:
	}
	for i, o := range firsts {
		if o == nil || o.Sch == nil || o.Err != nil {
			continue
		}
		b, err := o.Sch.ToJSON()
		if err != nil || string(b) != string(o.JSON) {
			return fmt.Sprintf("source %d: an earlier result changed while others were compiled", i)
		}
	}
	// whatever a caller does to a schema is no business of later compilations
	for _, o := range firsts {
		if o == nil || o.Sch == nil || o.Err != nil {
			continue
		}
		scribble(reflect.ValueOf(o.Sch))
	}
	for i := range c.Srcs {
		if t := compile(c.Srcs[i]).text(); t != base[i] {
			return fmt.Sprintf("source %d: after the schemas of earlier compilations were changed by their owner it gives another result: %s", i, firstDiff(t, base[i]))
		}
	}
	return ""
}

// useShared does what several owners of a schema may do with it at once.
func useShared(o *Out) string {
	v := schema.NewCtxValidator()
	if err := o.Sch.Accept(v); err != nil {
		return "it is no longer valid: " + err.Error()
	}
	if b, err := o.Sch.ToJSON(); err != nil || string(b) != string(o.JSON) {
		return "it has another JSON"
	}
	for _, a := range o.Sch.Actions {
		for _, text := range a.Annotations {
			if n, err := utils.ParseAnnotation(text); err != nil || n == nil || !strings.HasPrefix(text, n.Target+"(") {
				return fmt.Sprintf("annotation %q is read as %v, %v", clip(text, 100), n, err)
			}
		}
	}
	for _, t := range o.Sch.Tables {
		for _, col := range t.Columns {
			if ct, err := schema.GetColumnType(string(col.Type)); err != nil || ct != col.Type {
				return fmt.Sprintf("column type %q is looked up as %q, %v", col.Type, ct, err)
			}
			if ct, err := schema.GetColumnType(strings.ToUpper(string(col.Type))); err != nil || ct != col.Type {
				return fmt.Sprintf("column type %q in capitals is looked up as %q, %v", col.Type, ct, err)
			}
		}
	}
	for kw, want := range map[string]schema.AttributeType{"Primary": schema.AttrPrimaryKey, "notNULL": schema.AttrNotNull, "max": schema.AttrMax, "nothing": ""} {
		if at, err := schema.GetAttributeType(kw); at != want || (err == nil) != (want != "") {
			return fmt.Sprintf("attribute %q is looked up as %q, %v", kw, at, err)
		}
	}
	for kw, want := range map[string]schema.IndexType{"Unique": schema.IdxUniqueBtree, "INDEX": schema.IdxBtree, "nothing": ""} {
		if it, err := schema.GetIndexType(kw); it != want || (err == nil) != (want != "") {
			return fmt.Sprintf("index kind %q is looked up as %q, %v", kw, it, err)
		}
	}
	l := utils.NewErrorListener()
	for i := range 3 {
		l.Add(fmt.Errorf("error %d", i))
	}
	if l.Error() != "error 0 (with 2+ errors)" {
		return fmt.Sprintf("a listener with three errors says %q", l.Error())
	}
	return ""
}

// scribble overwrites everything reachable from a schema.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scribble(v.Field(i))
			}
		}
	case reflect.Slice:
		full := v.Slice(0, v.Cap()) // spare room belongs to the owner, too
		for i := 0; i < full.Len(); i++ {
			scribble(full.Index(i))
		}
	case reflect.String:
		v.SetString("\x00scribbled")
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Interface:
		if v.CanSet() && !v.IsNil() {
			v.Set(reflect.ValueOf("\x00scribbled"))
		}
	}
}
