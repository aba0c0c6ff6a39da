package main

import (
	"pgregory.net/rapid"
)

// C07 to C12: the verdict of the compiler against the reference rules.

func semantic(id, rule string, o dense, big []string, doc func(g *G) *Doc) {
	var names []string
	for _, n := range sortedKeys(mutators[id]) {
		names = append(names, n)
	}
	register(&Prop{ID: id, Quick: 40000, Thorough: 3000000, Rule: rule,
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			c := &Case{}
			var d *Doc
			switch g.n(0, 4) {
			case 0, 1:
				c.Kind = "dense"
				d = g.denseDoc(o)
			case 2, 3:
				g.chooseBig(4, big...)
				d = doc(g)
				c.Kind = "mutated"
				m := pickOf(g, names...)
				if mutators[id][m](g, d) {
					c.Kind = "mutated-" + m
				} else {
					for _, m := range g.shuffle(names) {
						if mutators[id][m](g, d) {
							c.Kind = "mutated-" + m
							break
						}
					}
				}
			default:
				g.chooseBig(4, big...)
				d = doc(g)
				c.Kind = "valid"
			}
			c.Errs = refErrs(d)
			if !d.clean() { // outside the defined area unless another rule decides
				if len(c.Errs) == 0 {
					c.Kind, c.Plain = "undecided", true
				} else {
					c.Errs = []string{"any"}
				}
			}
			c.Src = d.src(g.layout())
			c.label(c.Kind)
			if len(c.Errs) == 0 {
				c.label("accepted")
			}
			for _, e := range c.Errs {
				c.label("rejected:" + e)
			}
			if c.Kind == "mutated" || len(d.Decls)+len(d.Exts) == 0 {
				c.Plain = true
			}
			return c
		},
		Check: func(c *Case) string {
			if c.Kind == "undecided" {
				return ""
			}
			return compile(c.Src).verdict(c.Errs)
		},
	})
}

func init() {
	tabs := func(g *G) *Doc {
		g.maxActs, g.maxExts = 1, 1
		g.maxTabs = 5
		g.depth = 1
		d := g.doc()
		if len(d.Tables()) == 0 {
			for _, tb := range g.tables(g.n(1, 4)) {
				d.Decls = append(d.Decls, &Decl{Table: tb})
			}
		}
		return d
	}
	acts := func(g *G) *Doc {
		g.maxTabs, g.maxActs, g.maxExts = 1, 4, 3
		g.fewSQL = true
		return g.doc()
	}
	mixed := func(g *G) *Doc {
		g.fewSQL = true
		return g.doc()
	}
	const how = "two in five cases dense documents over two to eight easily confused names, two in five one mutation at a random place of a valid, perhaps large, document, the rest valid documents; expected verdict and error kinds from reference rules on the model. "
	semantic("C07", how+"Non-trivial: any declaration, and a mutation that applied.", dense{names: true, tables: 3, acts: 3, exts: 3, size: 3},
		[]string{"tables", "cols", "idx", "acts", "params", "exts", "recv"}, mixed)
	semantic("C08", how+"Non-trivial: any declaration, and a mutation that applied.", dense{refs: true, tables: 3, acts: 1, exts: 0, size: 4},
		[]string{"tables", "cols", "idx", "fks", "idxcols", "fkcols"}, tabs)
	semantic("C09", how+"Non-trivial: any declaration, and a mutation that applied.", dense{calls: true, tables: 2, acts: 3, exts: 3, size: 2},
		[]string{"acts", "stmts", "exts", "depth"}, acts)
	semantic("C10", how+"Non-trivial: any declaration, and a mutation that applied.", dense{vars: true, tables: 0, acts: 3, exts: 2, size: 1},
		[]string{"params", "stmts", "recv", "args", "depth", "acts"}, acts)
	semantic("C11", how+"Non-trivial: any declaration, and a mutation that applied.", dense{attrs: true, tables: 2, acts: 0, exts: 0, size: 3},
		[]string{"tables", "cols"}, tabs)
	semantic("C12", how+"Non-trivial: any declaration, and a mutation that applied.", dense{mods: true, tables: 2, acts: 3, exts: 1, size: 2},
		[]string{"tables", "fks", "acts"}, mixed)
}
