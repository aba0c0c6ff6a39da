package main

// Earley recognition of the Kuneiform grammar over the reference lexer's tokens.

type rule struct {
	lhs int
	rhs []int // >= 0: nonterminal, < 0: terminal ^index
}

type cfg struct {
	names map[string]int
	rules [][]rule // by lhs
	terms map[string]int
	start int
	null  []bool
}

func (g *cfg) nt(n string) int {
	if i, ok := g.names[n]; ok {
		return i
	}
	g.names[n] = len(g.names)
	g.rules = append(g.rules, nil)
	return len(g.names) - 1
}

func (g *cfg) t(n string) int {
	if i, ok := g.terms[n]; ok {
		return i
	}
	g.terms[n] = ^len(g.terms)
	return g.terms[n]
}

// grammar in a small notation: "lhs: a b | c" with upper-case or quoted words as terminals
func mkCfg(defs map[string][][]string, start string) *cfg {
	g := &cfg{names: map[string]int{}, terms: map[string]int{}}
	for _, l := range sortedKeys(defs) {
		g.nt(l)
	}
	for _, l := range sortedKeys(defs) {
		li := g.nt(l)
		for _, alt := range defs[l] {
			r := rule{lhs: li}
			for _, s := range alt {
				if _, ok := defs[s]; ok {
					r.rhs = append(r.rhs, g.nt(s))
				} else {
					r.rhs = append(r.rhs, g.t(s))
				}
			}
			g.rules[li] = append(g.rules[li], r)
		}
	}
	g.start = g.nt(start)
	g.null = make([]bool, len(g.rules))
	for changed := true; changed; {
		changed = false
		for l, rs := range g.rules {
			if g.null[l] {
				continue
			}
			for _, r := range rs {
				all := true
				for _, s := range r.rhs {
					if s < 0 || !g.null[s] {
						all = false
						break
					}
				}
				if all {
					g.null[l] = true
					changed = true
					break
				}
			}
		}
	}
	return g
}

type eitem struct {
	lhs, alt, dot, from int
}

// firstBad returns the index of the first token that no sentence continues
// with, len(toks) if only the end of input comes too early, or -1 for a sentence.
func (g *cfg) firstBad(toks []string) int {
	type set struct {
		items []eitem
		have  map[eitem]bool
		want  map[int][]eitem // items waiting for a nonterminal
	}
	newSet := func() *set { return &set{have: map[eitem]bool{}, want: map[int][]eitem{}} }
	sets := []*set{newSet()}
	add := func(s *set, it eitem) {
		if !s.have[it] {
			s.have[it] = true
			s.items = append(s.items, it)
		}
	}
	for i := range g.rules[g.start] {
		add(sets[0], eitem{g.start, i, 0, 0})
	}
	for k := 0; ; k++ {
		s := sets[k]
		next := newSet()
		tt, known := 0, false
		if k < len(toks) {
			tt, known = g.terms[toks[k]], false
			if _, ok := g.terms[toks[k]]; ok {
				known = true
			}
		}
		done := false
		for i := 0; i < len(s.items); i++ {
			it := s.items[i]
			rhs := g.rules[it.lhs][it.alt].rhs
			if it.dot == len(rhs) {
				if it.lhs == g.start && it.from == 0 {
					done = true
				}
				for _, w := range sets[it.from].want[it.lhs] {
					add(s, eitem{w.lhs, w.alt, w.dot + 1, w.from})
				}
				continue
			}
			sym := rhs[it.dot]
			if sym < 0 {
				if known && sym == tt {
					add(next, eitem{it.lhs, it.alt, it.dot + 1, it.from})
				}
				continue
			}
			s.want[sym] = append(s.want[sym], it)
			for a := range g.rules[sym] {
				add(s, eitem{sym, a, 0, k})
			}
			if g.null[sym] {
				add(s, eitem{it.lhs, it.alt, it.dot + 1, it.from})
			}
		}
		if k == len(toks) {
			if done {
				return -1
			}
			return k
		}
		if len(next.items) == 0 {
			return k
		}
		sets = append(sets, next)
	}
}

func kfGrammar(lenient bool) *cfg {
	d := map[string][][]string{
		"unit":   {{"database", "ID", ";", "exts", "decls"}},
		"exts":   {{}, {"exts", "ext"}},
		"ext":    {{"use", "ID", "as", "ID", ";"}, {"use", "ID", "{", "cfgs", "}", "as", "ID", ";"}},
		"cfgs":   {{"cfg"}, {"cfgs", ",", "cfg"}},
		"cfg":    {{"ID", ":", "lit"}},
		"lit":    {{"NUM"}, {"STR"}},
		"decls":  {{}, {"decls", "decl"}},
		"decl":   {{"tab"}, {"act"}, {"ini"}},
		"tab":    {{"table", "ID", "{", "cols", "items", "ocomma", "}"}},
		"ocomma": {{}, {","}},
		"cols":   {{"col"}, {"cols", ",", "col"}},
		"col":    {{"ID", "type", "cons"}},
		"type":   {{"int"}, {"text"}, {"blob"}},
		"cons":   {{}, {"cons", "con"}},
		"con": {{"primary"}, {"notnull"}, {"unique"}, {"default", "(", "lit", ")"},
			{"min", "(", "NUM", ")"}, {"max", "(", "NUM", ")"}, {"minlen", "(", "NUM", ")"}, {"maxlen", "(", "NUM", ")"}},
		"items": {{}, {"items", ",", "item"}},
		"item":  {{"INDEX", "ikind", "(", "names", ")"}, {"fkw", "(", "names", ")", "refw", "ID", "(", "names", ")", "fkacts"}},
		"ikind": {{"primary"}, {"unique"}, {"index"}},
		"names": {{"ID"}, {"names", ",", "ID"}},
		"fkw":   {{"fk"}, {"foreign_key"}},
		"refw":  {{"ref"}, {"references"}},
		"fkacts": {{}, {"fkacts", "fkon", "fkdo"},
			{"fkacts", "fkon", "do", "fkdo"}},
		"fkon":   {{"on_update"}, {"on_delete"}},
		"fkdo":   {{"no_action"}, {"cascade"}, {"set_null"}, {"set_default"}, {"restrict"}},
		"act":    {{"anns", "action", "ID", "(", "params", ")", "mods", "body"}},
		"anns":   {{}, {"anns", "ann"}},
		"ann":    {{"AT", "(", "aattrs", ")"}},
		"aattrs": {{"aattr"}, {"aattrs", ",", "aattr"}},
		"aattr":  {{"ID", "=", "lit"}},
		"params": {{}, {"params1"}},
		"params1": {{"VAR"},
			{"params1", ",", "VAR"}},
		"mods":  {{}, {"mods", "mod"}},
		"mod":   {{"public"}, {"private"}, {"view"}, {"owner"}},
		"ini":   {{"init", "(", ")", "body"}},
		"body":  {{"{", "stmts", "}"}},
		"stmts": {{"stmt"}, {"stmts", "stmt"}},
		"stmt":  {{"SQL", ";"}, {"call", ";"}, {"VAR", "recvs", "=", "call", ";"}},
		"recvs": {{}, {"recvs", ",", "VAR"}},
		"call":  {{"callee", "(", "args", ")"}},
		"callee": {{"ID"},
			{"ID", ".", "ID"}},
		"args":  {{}, {"args1"}},
		"args1": {{"expr"}, {"args1", ",", "expr"}},
		"expr":  {{"prim"}, {"un", "expr"}, {"expr", "binop", "expr"}},
		"un":    {{"+"}, {"-"}, {"~"}, {"not"}},
		"binop": {{"+"}, {"-"}, {"*"}, {"/"}, {"%"}, {"<"}, {"<="}, {">"}, {">="}, {"="}, {"!="}, {"<>"}, {"and"}, {"or"},
			{"||"}, {"<<"}, {">>"}, {"&"}, {"|"}, {"=="}},
		"prim": {{"lit"}, {"VAR"}, {"AT"}, {"(", "expr", ")"}, {"ID", "(", "args", ")"}, {"ID", "(", "*", ")"}},
	}
	if lenient {
		// forms the generated parser takes that the documentation does not show
		d["params"] = [][]string{{}, {"params1"}, {"lparams"}}
		d["lparams"] = [][]string{{",", "VAR"}, {"lparams", ",", "VAR"}}
		d["args1"] = append(d["args1"], []string{",", "expr"})
	}
	return mkCfg(d, "unit")
}

var strictG, lenientG = kfGrammar(false), kfGrammar(true)

// refSyntax: -1 a sentence; otherwise the position (in runes) of the first
// character or token that no sentence continues with (len for the end).
func refSyntax(g *cfg, src []rune) int {
	toks, bad := refLexRunes(src)
	ks := make([]string, len(toks))
	for i, t := range toks {
		ks[i] = t.kind
	}
	fb := g.firstBad(ks)
	switch {
	case fb < 0:
		return bad
	case fb == len(toks):
		if bad >= 0 {
			return bad
		}
		return len(src)
	}
	return toks[fb].pos
}
