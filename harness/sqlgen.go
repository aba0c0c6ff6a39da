package main

import (
	"fmt"
	"strings"
)

// SQL statements of the supported dialect, as token lists that are then laid out.

var sqlTabs = []string{"users", "posts", "t1", "wallets", "Orders", "\"quoted tab\"", "`bt`", "[br]", "x_1"}
var sqlCols = []string{"id", "name", "c_1", "Amount", "wallet", "\"q col\"", "age", "x", "post_id"}
var sqlStrs = []string{"'a'", "''", "'it''s'", "'hello world'", "'é中😀'", "'--x'", "'/*'", "'  '", "'a\nb'", "'\\'", "'$a'", "'\"'", "'%'", "'SELECT'", "'<&>'", "'//'", "'\t'", "'\\u003c'", "'&lt\\u0026'", "'\u2028'", "'\\n\\\\'"}

func (g *G) sqlTab() string { return g.sqlName(sqlTabs) }
func (g *G) sqlCol() string { return g.sqlName(sqlCols) }
func (g *G) sqlName(pool []string) string {
	if g.p(20) || g.news(10) {
		return "\"" + g.dictName() + "\""
	}
	return pickOf(g, pool...)
}

func (g *G) kw(s string) []string {
	var r []string
	for _, w := range strings.Fields(s) {
		switch g.n(0, 3) {
		case 0:
			w = strings.ToUpper(w)
		case 1:
			if g.p(3) {
				w = strings.ToUpper(w[:1]) + w[1:]
			}
		}
		r = append(r, w)
	}
	return r
}

func cat(xs ...[]string) (r []string) {
	for _, x := range xs {
		r = append(r, x...)
	}
	return
}

func commaSep(n int, f func(i int) []string) (r []string) {
	for i := 0; i < n; i++ {
		if i > 0 {
			r = append(r, ",")
		}
		r = append(r, f(i)...)
	}
	return
}

func (g *G) sqlLit() string {
	switch g.n(0, 4) {
	case 0:
		if g.p(12) {
			return "'" + pickOf(g, "", "a") + g.oddRune() + pickOf(g, "", "b") + "'"
		}
		if g.p(12) || g.newTexts(6) {
			return "'" + g.dictText() + pickOf(g, "", " ", "b") + "'"
		}
		return pickOf(g, sqlStrs...)
	case 1:
		return pickOf(g, "null", "NULL", "true", "FALSE")
	}
	return pickOf(g, "0", "1", "42", "1000000", "9223372036854775807", "007", fmt.Sprint(g.n(0, 999)))
}

func (g *G) sqlVar() string {
	if g.p(4) {
		return pickOf(g, "@caller", "@block_height", "@x")
	}
	return pickOf(g, "$a", "$b", "$id", "$name_1", "$Z")
}

var sqlFn1 = []string{"abs", "length", "lower", "upper", "format", "error", "ABS", "Lower"}
var sqlAgg = []string{"count", "sum", "COUNT", "Sum"}

// sqlExpr: parentheses are kept shallow, since the dialect's parser needs
// time exponential in their nesting (a known finding of C14).
func (g *G) sqlExpr(d int) []string {
	if g.banExpr != nil {
		g.banIn--
		if g.banIn < 0 {
			e := g.banExpr
			g.banExpr = nil
			return e
		}
	}
	k := g.n(0, 15)
	if d <= 0 && k > 4 {
		k = g.n(0, 4)
	}
	switch k {
	case 0:
		return []string{g.sqlLit()}
	case 1:
		return []string{g.sqlVar()}
	case 2, 3:
		return []string{g.sqlCol()}
	case 4:
		return []string{g.sqlTab(), ".", g.sqlCol()}
	case 5:
		return cat([]string{"("}, g.sqlExpr(d-2), []string{")"})
	case 6, 7:
		return cat(g.sqlExpr(d-1), []string{pickOf(g, "+", "-", "*", "/", "%")}, g.sqlExpr(d-1))
	case 8, 9:
		return cat(g.sqlExpr(d-1), []string{pickOf(g, "=", "<", "<=", ">", ">=", "!=", "<>")}, g.sqlExpr(d-1))
	case 10:
		return cat(g.sqlExpr(d-1), g.kw(pickOf(g, "and", "or")), g.sqlExpr(d-1))
	case 11:
		return cat([]string{pickOf(g, sqlFn1...), "("}, g.sqlExpr(d-1), []string{")"})
	case 12:
		return cat(g.kw("not"), g.sqlExpr(d-1))
	case 13:
		switch g.n(0, 3) {
		case 0:
			return cat([]string{g.sqlCol()}, g.kw(pickOf(g, "is null", "is not null", "isnull", "notnull", "is true")))
		case 1:
			return cat([]string{g.sqlCol()}, g.kw(pickOf(g, "like", "not like")), []string{pickOf(g, sqlStrs...)})
		case 2:
			return cat([]string{g.sqlCol()}, g.kw(pickOf(g, "between", "not between")), []string{g.sqlLit()}, g.kw("and"), []string{g.sqlVar()})
		}
		return cat([]string{g.sqlCol()}, g.kw(pickOf(g, "in", "not in")), []string{"("}, commaSep(g.n(1, 3), func(int) []string { return []string{g.sqlLit()} }), []string{")"})
	case 14:
		if g.b() {
			return cat(g.kw("case when"), []string{g.sqlCol(), "=", g.sqlLit()}, g.kw("then"), []string{g.sqlLit()}, g.kw("else"), []string{g.sqlVar()}, g.kw("end"))
		}
		return cat(g.kw(pickOf(g, "exists", "not exists")), []string{"("}, g.sqlSelect(0), []string{")"})
	}
	return cat([]string{g.sqlCol()}, g.kw(pickOf(g, "in", "not in")), []string{"("}, g.sqlSelect(0), []string{")"})
}

func (g *G) sqlWhere(d int) []string {
	if g.b() {
		return nil
	}
	return cat(g.kw("where"), g.sqlExpr(d))
}

func (g *G) sqlJoin() []string {
	var op []string
	switch g.n(0, 4) {
	case 0:
		op = g.kw("join")
	case 1:
		op = g.kw("inner join")
	case 2:
		op = g.kw(pickOf(g, "left join", "right join", "full join"))
	case 3:
		op = g.kw(pickOf(g, "left outer join", "right outer join", "full outer join"))
	default:
		op = g.kw("join")
	}
	b := g.sqlTab()
	var as []string
	if g.p(3) {
		al := pickOf(g, "p", "q", "j1")
		as = cat(g.kw("as"), []string{al})
		b2 := al
		return cat(op, []string{b}, as, g.kw("on"), []string{g.sqlTab(), ".", g.sqlCol(), "=", b2, ".", g.sqlCol()})
	}
	return cat(op, []string{b}, g.kw("on"), []string{g.sqlTab(), ".", g.sqlCol(), "=", b, ".", g.sqlCol()})
}

func (g *G) sqlFrom(d int) []string {
	if d > 0 && g.p(4) {
		return cat(g.kw("from"), []string{"("}, g.sqlSelect(d-1), []string{")"}, g.kw("as"), []string{pickOf(g, "sub", "s1")})
	}
	r := cat(g.kw("from"), []string{g.sqlTab()})
	if g.p(4) {
		r = cat(r, g.kw("as"), []string{pickOf(g, "u", "tt")})
	}
	if g.banJoin != nil {
		g.banIn--
		if g.banIn < 0 {
			j := g.banJoin
			g.banJoin = nil
			return cat(r, j)
		}
	}
	for i := g.n(0, 2); i > 1; i-- {
		r = cat(r, g.sqlJoin())
	}
	return r
}

func (g *G) sqlCols(d int) []string {
	switch g.n(0, 4) {
	case 0, 1:
		return []string{"*"}
	case 2:
		return []string{g.sqlTab(), ".", "*"}
	case 3:
		if g.b() {
			return []string{pickOf(g, "count", "COUNT"), "(", "*", ")"}
		}
		return cat([]string{pickOf(g, sqlAgg...), "("}, func() []string {
			if g.p(3) {
				return g.kw("distinct")
			}
			return nil
		}(), []string{g.sqlCol(), ")"})
	}
	return commaSep(g.n(1, 3), func(int) []string {
		e := g.sqlExpr(d)
		if g.p(4) {
			e = cat(e, g.kw("as"), []string{pickOf(g, "al", "res_1")})
		}
		return e
	})
}

func (g *G) sqlCore(d int) []string {
	r := g.kw("select")
	if g.p(6) {
		r = cat(r, g.kw("distinct"))
	}
	r = cat(r, g.sqlCols(d), g.sqlFrom(d), g.sqlWhere(d))
	if g.p(6) {
		r = cat(r, g.kw("group by"), []string{g.sqlCol()})
		if g.b() {
			r = cat(r, g.kw("having"), []string{g.sqlCol(), ">", "1"})
		}
	}
	return r
}

func (g *G) sqlSelect(d int) []string {
	r := g.sqlCore(d)
	if g.p(8) {
		r = cat(r, g.kw(pickOf(g, "union", "union all", "intersect", "except")), g.sqlCore(0))
	}
	if g.p(4) {
		r = cat(r, g.kw("order by"), []string{g.sqlCol()}, g.kw(pickOf(g, "", "asc", "desc", "desc nulls last")))
	}
	if g.p(4) {
		r = cat(r, g.kw("limit"), []string{pickOf(g, "10", "$a")})
		if g.b() {
			r = cat(r, g.kw("offset"), []string{"5"})
		}
	}
	return r
}

func (g *G) sqlReturning() []string {
	if !g.p(5) {
		return nil
	}
	return cat(g.kw("returning"), []string{pickOf(g, "*", "id", "name")})
}

func (g *G) sqlStmtToks() []string {
	var pre []string
	if g.p(8) {
		pre = cat(g.kw("with"), commaSep(g.n(1, 2), func(i int) []string {
			return cat([]string{fmt.Sprintf("cte%d", i)}, g.kw("as"), []string{"("}, g.sqlSelect(0), []string{")"})
		}))
	}
	d := g.n(0, 2)
	rows := g.n(1, 2)
	if g.big == "sql" {
		d = g.n(2, 4)
		rows = g.n(5, 120)
	}
	switch g.n(0, 4) {
	case 0, 1:
		return cat(pre, g.sqlSelect(d))
	case 2:
		r := cat(pre, g.kw("insert into"), []string{g.sqlTab()})
		n := g.n(1, 3)
		if g.b() {
			r = cat(r, []string{"("}, commaSep(n, func(int) []string { return []string{g.sqlCol()} }), []string{")"})
		}
		r = cat(r, g.kw("values"), commaSep(rows, func(int) []string {
			return cat([]string{"("}, commaSep(n, func(int) []string { return g.sqlExpr(d - 1) }), []string{")"})
		}))
		if g.p(5) {
			r = cat(r, g.kw("on conflict"))
			if g.b() {
				r = cat(r, g.kw("do nothing"))
			} else {
				r = cat(r, []string{"(", "id", ")"}, g.kw("do update set"), []string{"name", "="}, g.sqlExpr(0))
			}
		}
		return cat(r, g.sqlReturning())
	case 3:
		r := cat(pre, g.kw("update"), []string{g.sqlTab()}, g.kw("set"), commaSep(g.n(1, 3), func(int) []string {
			return cat([]string{g.sqlCol(), "="}, g.sqlExpr(d))
		}))
		return cat(r, g.sqlWhere(d), g.sqlReturning())
	}
	return cat(pre, g.kw("delete from"), []string{g.sqlTab()}, g.sqlWhere(d), g.sqlReturning())
}

func sqlWordish(c byte) bool { return isWordByte(c) || c == '$' || c == '@' || c >= 0x80 }

// sqlComment is a comment between two tokens.
func (g *G) sqlComment() string {
	s := ""
	switch g.n(0, 5) {
	case 0, 1:
		s = g.dictText()
	case 2:
		s = pickOf(g, "", "select", "random()", "é", "'", "\"", "$a", "--", "(", "nolint", "unsafe", "*", "+ index", "?", ",")
	default:
		s = pickOf(g, "c", "x")
	}
	s = strings.NewReplacer("/*", "", "*/", "", "/", "").Replace(s)
	if g.b() {
		return pickOf(g, " /* ", " /*", "/*") + strings.TrimRight(s, "*") + pickOf(g, " */ ", "*/", "*/ ")
	}
	return " --" + pickOf(g, "", " ") + s + "\n"
}

// layoutSQL joins SQL tokens: blanks where needed, more blanks, line breaks and
// comments elsewhere. The first gap must be white space (the statement token of
// Kuneiform starts with a keyword and white space).
func (g *G) layoutSQL(toks []string) string {
	style := g.n(0, 3)
	var b strings.Builder
	for i, t := range toks {
		if i > 0 {
			prev := toks[i-1]
			need := sqlWordish(prev[len(prev)-1]) && sqlWordish(t[0]) ||
				prev[len(prev)-1] == '\'' && t[0] == '\'' || prev == "-" && t[0] == '-' || prev == "/" && t[0] == '*' ||
				strings.ContainsAny(prev[len(prev)-1:], "<>=!") && strings.ContainsAny(t[:1], "<>=") ||
				prev[0] >= '0' && prev[0] <= '9' || t[0] >= '0' && t[0] <= '9'
			sep := " "
			switch style {
			case 0: // as tight as possible
				if !need {
					sep = ""
				}
			case 2, 3:
				sep = pickOf(g, " ", "\n", "  ", "\t", "\r\n", " \n ", " /* c */ ", " -- x\n", "\n\t", " ")
				if strings.Contains(sep, "/*") || strings.Contains(sep, "--") {
					sep = g.sqlComment()
				}
				if !need && g.p(3) {
					sep = ""
				}
			}
			if i == 1 && (sep == "" || sep[0] == '/') {
				sep = " " + sep
			}
			b.WriteString(sep)
		}
		b.WriteString(t)
	}
	if g.p(6) {
		b.WriteString(pickOf(g, " ", "\n", "\t ", " /* end */", " \r\n"))
	}
	return b.String()
}

// sqlStmt draws the text of a statement the dialect accepts (no semicolon).
func (g *G) sqlStmt() string {
	if g.p(3) {
		return pickOf(g, "select 1", "SELECT * FROM users", "delete from posts where id = $id", "insert into t1 values ($a, 'x')", "update users set name = $a where id = @caller", "select *", "with c as (select 1) select * from c")
	}
	return g.layoutSQL(g.sqlStmtToks())
}
