package main

import (
	"fmt"
	"strings"

	sqlparser "github.com/kwilteam/kwil-db/parse/sql"
	"pgregory.net/rapid"
)

// functions the documentation bans (date and time functions take 'now')
var bannedFns = strings.Fields("date datetime time julianday unixepoch strftime random randomblob changes last_insert_rowid total_changes acos acosh asin asinh atan atan2 atanh ceil ceiling cos cosh degrees exp floor ln log log10 log2 mod pi pow power radians sin sinh sqrt tan tanh trunc")

func (g *G) bannedCall() []string {
	f := pickOf(g, bannedFns...)
	switch g.n(0, 3) {
	case 0:
		f = strings.ToUpper(f)
	case 1:
		f = strings.ToUpper(f[:1]) + f[1:]
	}
	switch strings.ToLower(f) {
	case "date", "datetime", "time", "julianday", "unixepoch":
		return []string{f, "(", "'now'", ")"}
	case "strftime":
		return []string{f, "(", "'%s'", ",", "'now'", ")"}
	case "random", "changes", "last_insert_rowid", "total_changes", "pi":
		return []string{f, "(", ")"}
	case "atan2", "mod", "pow", "power":
		return []string{f, "(", g.sqlCol(), ",", "2", ")"}
	}
	return []string{f, "(", pickOf(g, "1", "$a", "id", "2"), ")"}
}

func (g *G) bannedJoin() []string {
	switch g.n(0, 6) {
	case 0:
		return cat(g.kw("cross join"), []string{g.sqlTab()})
	case 1:
		return cat(g.kw(pickOf(g, "natural join", "natural left join", "natural inner join")), []string{g.sqlTab()})
	case 2:
		return []string{",", g.sqlTab()}
	case 3:
		return cat(g.kw("join"), []string{"posts"}, g.kw("on"), []string{pickOf(g, "true", "TRUE", "1", "$a")})
	case 4:
		return cat(g.kw(pickOf(g, "join", "left join")), []string{"posts"}, g.kw("on"), []string{"users", ".", "id", pickOf(g, ">", "<", "!=", "<>", "<=", ">="), "posts", ".", "id"})
	case 5:
		return cat(g.kw("inner join"), []string{"posts"}, g.kw("on"), []string{"users", ".", "id", "=", "posts", ".", "id"}, g.kw(pickOf(g, "and", "or")), []string{"users", ".", "x", "=", "posts", ".", "x"})
	}
	return cat(g.kw("join"), []string{"posts"}, g.kw("on"), []string{"users", ".", "id", "=", pickOf(g, "1", "$a", "'x'")})
}

// bannedStmt draws a statement that is fine but for one banned thing, nested
// anywhere; sib is the same statement with a harmless thing in its place.
func (g *G) bannedStmt() (stmt, sib, kind string) {
	for i := 0; i < 4; i++ {
		g.banIn = g.n(0, 6)
		if i == 3 {
			g.banIn = 0
		}
		kind := "banned-function"
		var bad, good string
		if g.b() {
			g.banExpr = []string{banMark}
			bad, good = strings.Join(g.bannedCall(), ""), pickOf(g, "id", "abs(1)", "$a", "lower(name)")
		} else {
			kind = "banned-join"
			g.banJoin = []string{banMark}
			bad, good = strings.Join(g.bannedJoin(), " "), "join posts as zz on zz.id = posts.id"
		}
		ts := g.sqlStmtToks()
		if g.banExpr == nil && g.banJoin == nil {
			s := g.layoutSQL(ts)
			return strings.Replace(s, banMark, " "+bad+" ", 1), strings.Replace(s, banMark, " "+good+" ", 1), kind
		}
		g.banExpr, g.banJoin = nil, nil
	}
	s := g.layoutSQL(cat(g.kw("select"), g.bannedCall(), g.kw("from"), []string{"users"}))
	return s, "select 1", "banned-function"
}

const banMark = "\u27ea\u27eb"

var sqlNoise = []string{"(", ")", ",", ".", "+", "=", "==", "||", "*", "select", "from", "where", "join", "on", "and", "not", "values", "set", "1", "1.5", "'x'", "id", "users", "$a", "@caller", "null", "group", "by", "?", "#", "{", "!", "\\", "\"", "`", "'", "~", "&", "|", "<<", "create", "drop", "table", "pragma", "random ( )", "current_time", "int", "as", "over", "union", "é", ":", "cast ( id as int )", "match", "collate nocase", "glob", "->", "x'00'", "$", "@", "0x1f", "1e5", "limit", "order by", "desc", "default values", "returning", "begin", "commit", "using ( id )"}

// brokenStmt corrupts the tokens of a statement but its first two, or the text
// of a given valid statement in its second half.
func (g *G) brokenStmt(sib string) string {
	ts := g.sqlStmtToks()
	for n := g.n(1, 2); n > 0 && len(ts) > 3; n-- {
		i := g.n(2, len(ts)-1)
		switch g.n(0, 4) {
		case 0, 1:
			ts = append(ts[:i:i], ts[i+1:]...)
		case 2:
			ts = append(ts[:i:i], append([]string{pickOf(g, sqlNoise...)}, ts[i:]...)...)
		case 3:
			ts = append(ts[:i:i], append([]string{pickOf(g, sqlNoise...)}, ts[i+1:]...)...)
		default:
			ts = ts[:i]
		}
	}
	s := g.layoutSQL(ts)
	if sib != "" && g.b() { // the damage comes late in a copy of another statement
		i := len(sib)/2 + g.n(0, len(sib)-len(sib)/2-1)
		for i > 0 && sib[i-1] >= 0x80 {
			i--
		}
		if sp := strings.IndexAny(sib, " \t\r\n"); i > sp+1 {
			s = sib[:i] + pickOf(g, "", " ", " "+pickOf(g, sqlNoise...)+" ")
			if g.b() && i+1 < len(sib) && sib[i] < 0x80 {
				s += sib[i+1:]
			}
		}
	}
	s = strings.NewReplacer(";", ",", "}", ")").Replace(s)
	if parenDepth(s) > 8 {
		s = "select )"
	}
	return s
}

// dialect asks the SQL dialect's own parser, in the way the documentation of
// the compiler describes: the statement must parse and be expressible.
func dialect(stmt string) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	a, err := sqlparser.ParseSql(stmt, 1, nil, false)
	if err != nil {
		return false
	}
	_, err = a.ToSQL()
	return err == nil
}

func init() {
	register(&Prop{ID: "C13", Quick: 40000, Thorough: 2400000,
		Rule: "one to four bodies of one to five SQL statements, at most one of them suspicious: with a banned function or join at any nesting, with corrupted tokens, or valid; banned ones must be rejected, for the others the SQL dialect's own parser decides. Non-trivial: every case.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			c := &Case{}
			sib := ""
			good := func() string {
				if sib != "" && g.b() {
					if g.p(3) {
						return g.alikeSQL(sib)
					}
					return sib
				}
				if g.n(0, 3) > 0 {
					return pickOf(g, "select 1", "delete from users where id = $a", "insert into t1 values ($a)", "update users set name = $a")
				}
				return g.sqlStmt()
			}
			bad := ""
			switch g.n(0, 5) {
			case 0, 1:
				bad, sib, c.Kind = g.bannedStmt()
				c.Errs = []string{"any"}
			case 2, 3:
				if g.b() {
					sib = g.sqlStmt()
				}
				bad, c.Kind = g.brokenStmt(sib), "corrupted"
				c.Srcs = []string{bad + ";"}
			case 4:
				g.chooseBig(4, "sql")
				bad, c.Kind = g.sqlStmt(), "valid"
			default:
				bad = pickOf(g, "select from", "select 1 from", "insert into", "insert t values (1)", "update t", "update t set", "delete t", "delete from", "with c as select 1 select * from c", "with c (select 1)",
					"select (1", "select 1)", "select * from t where", "select 'a", "select * from", "select * from t order", "insert into t (a values (1)", "insert into t values", "insert into t values (1", "update t set a", "update t set a = ", "delete from t where", "select a b c from t",
					"select ,", "with x", "select * from t join u", "create table t (a int)", "select * frm t", "insert or values (1)", "update set a = 1", "delete * from t", "SELECT", "select 1.5", "select sum(*) from t",
					"select * from t where id ==== 1", "select * from t limit", "select * from t group id", "select * from (select 1", "select case when 1 then 2", "select * from t where id in (1", "select * from t where not", "select @ from t", "select $ from t", "select * from t where exists select 1")
				if !strings.ContainsAny(bad, " ") {
					bad += " )"
				}
				c.Kind, c.Errs = "malformed", []string{"any"}
				sib = pickOf(g, "", "select 1", "select * from t", "insert into t values (1)", "update t set a = 1", "delete from t where a = 1")
			}
			if sib != "" && !dialect(sib+";") { // cannot be: counted as an invalid case
				c.label("odd-sibling")
				sib = ""
			}
			if sib != "" {
				c.label("sibling")
			}
			nb := g.n(1, 4)
			which := g.n(0, nb-1)
			d := &Doc{Name: "d"}
			hasInit := g.p(3)
			initAt := g.n(0, nb-1)
			for i := 0; i < nb; i++ {
				a := &Action{Name: fmt.Sprintf("act%d", i), Params: []string{"$a"}, Mods: g.mods()}
				switch g.n(0, 3) {
				case 0:
					a.Params = nil
				case 1:
					a.Params = append(a.Params, "$b", "$c")
				}
				if g.p(6) {
					a.Anns = append(a.Anns, g.ann())
				}
				if hasInit && i == initAt {
					a = &Action{IsInit: true}
				}
				ns := g.n(1, 4)
				at := g.n(0, ns-1)
				for j := 0; j < ns; j++ {
					switch {
					case i == which && j == at:
						a.Stmts = append(a.Stmts, &Stmt{SQL: bad})
					case g.p(5) && nb > 1 && !(hasInit && nb == 1):
						k := 0
						if hasInit && initAt == 0 {
							k = 1
						}
						a.Stmts = append(a.Stmts, &Stmt{Call: &Call{Fn: fmt.Sprintf("act%d", k)}})
					default:
						a.Stmts = append(a.Stmts, &Stmt{SQL: good()})
					}
				}
				d.Decls = append(d.Decls, &Decl{Action: a})
			}
			c.Src = d.src(g.layout())
			c.label(c.Kind)
			if hasInit && initAt == which {
				c.label("in-init")
			}
			if strings.Contains(strings.ToLower(bad), "with") {
				c.label("with")
			}
			return c
		},
		Check: func(c *Case) string {
			o := compile(c.Src)
			errs := c.Errs
			if len(c.Srcs) > 0 && !dialect(c.Srcs[0]) {
				errs = []string{"any"}
			}
			if m := o.verdict(errs); m != "" {
				if len(c.Srcs) > 0 {
					m += fmt.Sprintf(" (statement %q)", c.Srcs[0])
				}
				return m
			}
			return ""
		},
	})
}
