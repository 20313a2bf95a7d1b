package main

import (
	"fmt"
	"strings"
)

// Model statements: each knows the tokens that write it and the observation a parsed statement must give.

// mstmt is one model statement.
type mstmt struct {
	t   toks
	obs string
}

func (m mstmt) sql() string { return m.t.String() }

// space is a finite, indexable set of model statements.
type space struct {
	name string
	n    int
	at   func(i int) mstmt
}

func (s space) head(n int) space {
	if n < s.n {
		s.n = n
	}
	return s
}

func listSpace(name string, ms []mstmt) space {
	return space{name, len(ms), func(i int) mstmt { return ms[i] }}
}

// mname is a table name with an optional qualifier.
type mname struct{ s, n string }

func (m mname) toks() toks {
	if m.s == "" {
		return id(m.n)
	}
	return cat(id(m.s), pu("."), id(m.n))
}

func (m mname) full() string {
	if m.s == "" {
		return m.n
	}
	return m.s + "." + m.n
}

// mlit is a literal or another value.
type mlit struct {
	t   toks
	obs string
}

// escape writes s as a quoted literal.
func escape(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

func lstr(s string) mlit { return mlit{li(escape(s)), "S:" + q(s)} }
func lraw(s string) mlit { return mlit{li(s), "R:" + q(norm(s))} }
func lkey(s string) mlit { return mlit{li(s), "R:" + q(norm(s))} }

var lq = mlit{li("?"), `P:"?"`}

// marith is an arithmetic assignment: column op operand.
func marith(col, op string, operand toks) mlit {
	return mlit{cat(id(col), pu(op), operand),
		"E:" + op + "(" + q(norm(col)) + "," + q(norm(operand.String())) + ")/" + op}
}

// verbatim marks the keywords of t as text that is reported as written.
func verbatim(t toks) toks {
	out := append(toks{}, t...)
	for i := range out {
		if out[i].k == 'k' || out[i].k == 'f' {
			out[i].k -= 'a' - 'A'
		}
	}
	return out
}

// mtext is any other expression, kept as text.
func mtext(t toks) mlit {
	t = verbatim(t)
	return mlit{t, "R:" + q(norm(t.String()))}
}

// mcond is a condition; the zero value is none.
type mcond struct {
	t   toks
	obs string
}

func (m mcond) observed() string {
	if len(m.t) == 0 {
		return "NONE"
	}
	return m.obs
}

func (m mcond) clause() toks {
	if len(m.t) == 0 {
		return nil
	}
	return cat(kw("WHERE"), m.t)
}

var cmpOps = []struct{ s, o string }{
	{"=", "EQ"}, {"!=", "NEQ"}, {"<>", "NEQ"}, {"<", "LT"}, {"<=", "LE"}, {">", "GT"}, {">=", "GE"},
}

func mcmp(col string, op int, v mlit) mcond {
	return mcond{cat(id(col), pu(cmpOps[op].s), v.t), "(" + col + " " + cmpOps[op].o + " " + v.obs + ")"}
}

func mlog(op string, a, b mcond) mcond {
	return mcond{cat(a.t, kw(op), b.t), "(" + a.obs + " " + op + " " + b.obs + ")"}
}

// mraw is a condition that is kept as source text.
func mraw(t toks) mcond {
	t = verbatim(t)
	return mcond{t, "X:" + q(norm(t.String()))}
}

// msel is a selector.
type msel struct {
	t   toks
	obs string
}

func sstar() msel        { return msel{pu("*"), `*:"*"`} }
func scol(n string) msel { return msel{id(n), "C:" + q(norm(n))} }
func sqcol(n mname) msel { return msel{n.toks(), "C:" + q(norm(n.full()))} }
func stext(t toks) msel  { return msel{t, "C:" + q(norm(t.String()))} }

var fnTypes = map[string]string{
	"ABS": "math", "CEIL": "math", "FLOOR": "math", "ROUND": "math", "SQRT": "math", "LOG": "math", "LOG10": "math",
	"EXP": "math", "POWER": "math", "MOD": "math", "SIN": "math", "COS": "math", "TAN": "math", "RAND": "math", "PI": "math",
	"UPPER": "string", "LOWER": "string", "TRIM": "string",
	"CURRENT_TIMESTAMP": "time", "NOW": "time",
	"MAX": "aggr", "MIN": "aggr", "SUM": "aggr", "AVG": "aggr", "COUNT": "aggr",
}

// sfn is a function selector.
func sfn(name string, args ...toks) msel {
	t := cat(toks{{name, 'f'}}, pu("("))
	a := []string{}
	for n, x := range args {
		if n > 0 {
			t = cat(t, pu(","))
		}
		t = cat(t, x)
		a = append(a, q(norm(x.String())))
	}
	t = cat(t, pu(")"))
	ty, ok := fnTypes[strings.ToUpper(name)]
	if !ok {
		ty = "unknown"
	}
	return msel{t, "F:" + strings.ToUpper(name) + "(" + strings.Join(a, ",") + ")/" + ty}
}

// exprToks are the tokens of an expression of several words, kept as written; a single word is a name.
func exprToks(s string) toks {
	if !strings.Contains(s, " ") || s[0] == '`' {
		return id(s)
	}
	out := toks{}
	for _, w := range strings.Split(s, " ") {
		switch {
		case strings.HasPrefix(w, "'"):
			out = append(out, tok{strings.ReplaceAll(w, "~", " "), 'l'})
		case len(w) > 1 && strings.ToUpper(w) == w && w[0] >= 'A':
			out = append(out, tok{w, 'K'})
		case w[0] >= 'a':
			out = append(out, tok{w, 'i'})
		default:
			out = append(out, tok{w, 'p'})
		}
	}
	return out
}

// exprTexts are expressions of several tokens (~ is a space in a string).
var exprTexts = []string{
	"a IS NULL", "a IS NOT NULL", "NOT a", "a NOTNULL", "a ISNULL", "a NOT NULL", "a LIKE 'x~~y'", "a NOT LIKE 'x'", "a BETWEEN 1 AND 2", "a IS b", "a IS NOT b",
	"CASE WHEN a THEN 1 ELSE 2 END", "CASE a WHEN 1 THEN 'x~''~y' ELSE b END", "CAST ( a AS INT )", "a COLLATE NOCASE", "a IN ( 1 , 2 )", "a NOT IN ( b , c )",
	"a + b", "a - - b", "- a", "- - a", "a || 'x~y' || b", "a * b + c", "t.a IS NULL", "NOT EXISTS ( SELECT b FROM u WHERE c IS NULL )",
	"a / b", "a % b", "a << 2", "a == b", "'x' LIKE 'y'", "( a )", "( ( a IS NULL ) )", "a GLOB 'x*'",
}

// mord is an order term; dir is "", "ASC" or "DESC".
type mord struct{ col, dir string }

// mlimit is a limit clause.
type mlimit struct {
	form          int // 0 none, 1 LIMIT n, 2 LIMIT n OFFSET m, 3 LIMIT m, n
	limit, offset int
}

type mselect struct {
	distinct string // "", "DISTINCT" or "ALL"
	sels     []msel
	from     []mname
	where    mcond
	group    string
	orders   []mord
	lim      mlimit
}

func commas(n int, f func(i int) toks) toks {
	out := toks{}
	for i := 0; i < n; i++ {
		if i > 0 {
			out = append(out, tok{",", 'p'})
		}
		out = append(out, f(i)...)
	}
	return out
}

func obsList(n int, f func(i int) string) string {
	out := make([]string, n)
	for i := range out {
		out[i] = f(i)
	}
	return strings.Join(out, ", ")
}

func (m mselect) stmt() mstmt {
	t := kw("SELECT")
	if m.distinct != "" {
		t = cat(t, kw(m.distinct))
	}
	t = cat(t, commas(len(m.sels), func(i int) toks { return m.sels[i].t }), kw("FROM"),
		commas(len(m.from), func(i int) toks { return m.from[i].toks() }), m.where.clause())
	if m.group != "" {
		t = cat(t, kw("GROUP BY"), exprToks(m.group))
	}
	if len(m.orders) > 0 {
		t = cat(t, kw("ORDER BY"), commas(len(m.orders), func(i int) toks {
			return cat(exprToks(m.orders[i].col), kw(m.orders[i].dir))
		}))
	}
	lim, off := 0, 0
	num := func(n int) toks { return li(fmt.Sprint(n)) }
	switch m.lim.form {
	case 1:
		t, lim = cat(t, kw("LIMIT"), num(m.lim.limit)), m.lim.limit
	case 2:
		t, lim, off = cat(t, kw("LIMIT"), num(m.lim.limit), kw("OFFSET"), num(m.lim.offset)), m.lim.limit, m.lim.offset
	case 3:
		t, lim, off = cat(t, kw("LIMIT"), num(m.lim.offset), pu(","), num(m.lim.limit)), m.lim.limit, m.lim.offset
	}
	tbl := make([]string, len(m.from))
	for i := range tbl {
		tbl[i] = q(m.from[i].full())
		if m.from[i].s != "" {
			tbl[i] += " in " + q(m.from[i].s)
		}
	}
	o := fmt.Sprintf("SELECT distinct=%v [%s] from=[%s] where=%s group=%s order=[%s] limit=%d offset=%d",
		m.distinct == "DISTINCT", obsList(len(m.sels), func(i int) string { return m.sels[i].obs }), strings.Join(tbl, ","),
		m.where.observed(), q(norm(exprToks(m.group).String())), obsList(len(m.orders), func(i int) string {
			d := m.orders[i].dir
			if d == "" {
				d = "ASC"
			}
			return q(norm(exprToks(m.orders[i].col).String())) + " " + d
		}), lim, off)
	return mstmt{t, o}
}

type minsert struct {
	verb string // INSERT or REPLACE
	tbl  mname
	cols []string // nil: positional
	rows [][]mlit
}

func (m minsert) stmt() mstmt {
	v := m.verb
	if v == "" {
		v = "INSERT"
	}
	t := cat(kw(v), kw("INTO"), m.tbl.toks())
	if m.cols != nil {
		t = cat(t, pu("("), commas(len(m.cols), func(i int) toks { return id(m.cols[i]) }), pu(")"))
	}
	t = cat(t, kw("VALUES"))
	rows := make([]string, len(m.rows))
	for n, row := range m.rows {
		if n > 0 {
			t = cat(t, pu(","))
		}
		t = append(t, cat(pu("("), commas(len(row), func(i int) toks { return row[i].t }), pu(")"))...)
		rows[n] = "(" + obsList(len(row), func(i int) string {
			c := ""
			if m.cols != nil {
				c = m.cols[i]
			}
			return q(c) + "=" + row[i].obs
		}) + ")"
	}
	return mstmt{t, "INSERT " + q(m.tbl.full()) + " " + strings.Join(rows, " ")}
}

type mset struct {
	col string
	v   mlit
}

type mupdate struct {
	tbl   mname
	sets  []mset
	where mcond
}

func (m mupdate) stmt() mstmt {
	t := cat(kw("UPDATE"), m.tbl.toks(), kw("SET"), commas(len(m.sets), func(i int) toks {
		return cat(id(m.sets[i].col), pu("="), m.sets[i].v.t)
	}), m.where.clause())
	return mstmt{t, "UPDATE " + q(m.tbl.full()) + " [" + obsList(len(m.sets), func(i int) string {
		return q(m.sets[i].col) + "=" + m.sets[i].v.obs
	}) + "] where=" + m.where.observed()}
}

func mdelete(tbl mname, w mcond) mstmt {
	return mstmt{cat(kw("DELETE FROM"), tbl.toks(), w.clause()), "DELETE " + q(tbl.full()) + " where=" + w.observed()}
}

// mtype is a column type: how it is written and how it is reported.
type mtype struct {
	name, typ string
	size      []int
}

func (m mtype) toks() toks {
	t := kw(m.name)
	if len(m.size) > 0 {
		t = cat(toks{{m.name, 'f'}}, pu("("), commas(len(m.size), func(i int) toks { return li(fmt.Sprint(m.size[i])) }), pu(")"))
	}
	return t
}

func (m mtype) obs() string {
	s := 0
	def := strings.ReplaceAll(m.typ, " ", "")
	if len(m.size) > 0 {
		s = m.size[0]
		x := make([]string, len(m.size))
		for i := range x {
			x[i] = fmt.Sprint(m.size[i])
		}
		def += "(" + strings.Join(x, ",") + ")"
	}
	return fmt.Sprintf("%s %d %s", m.typ, s, def)
}

type mcol struct {
	name string
	typ  mtype
	pk   bool
}

type mindex struct {
	kind string // "PRIMARY KEY", "INDEX" or "KEY"
	name string
	cols []string
}

func names(cols []string) string {
	out := make([]string, len(cols))
	for i := range out {
		out[i] = q(cols[i])
	}
	return strings.Join(out, ",")
}

func (m mindex) toks() toks {
	t := kw(m.kind)
	if m.kind != "PRIMARY KEY" {
		t = cat(t, id(m.name))
	}
	return cat(t, pu("("), commas(len(m.cols), func(i int) toks { return id(m.cols[i]) }), pu(")"))
}

func (m mindex) obs() string {
	if m.kind == "PRIMARY KEY" {
		return "PRIMARY(" + names(m.cols) + ")"
	}
	return "INDEX:" + q(m.name) + "(" + names(m.cols) + ")"
}

type mcreate struct {
	ifne bool
	tbl  mname
	cols []mcol
	idx  []mindex
}

func (m mcreate) stmt() mstmt {
	t := kw("CREATE TABLE")
	if m.ifne {
		t = cat(t, kw("IF NOT EXISTS"))
	}
	t = cat(t, m.tbl.toks(), pu("("))
	pks := []string{}
	t = append(t, commas(len(m.cols)+len(m.idx), func(i int) toks {
		if i >= len(m.cols) {
			x := m.idx[i-len(m.cols)]
			if x.kind != "PRIMARY KEY" {
				return verbatim(x.toks()) // this form is only recognised in upper case
			}
			return x.toks()
		}
		c := m.cols[i]
		x := cat(id(c.name), c.typ.toks())
		if c.pk {
			x = cat(x, kw("PRIMARY KEY"))
			pks = append(pks, "PRIMARY("+q(c.name)+")")
		}
		return x
	})...)
	t = cat(t, pu(")"))
	cols := make([]string, len(m.cols))
	for i, c := range m.cols {
		cols[i] = q(c.name) + " " + c.typ.obs()
	}
	idx := pks
	for _, x := range m.idx {
		idx = append(idx, x.obs())
	}
	return mstmt{t, fmt.Sprintf("CREATE TABLE ifne=%v %s [%s] {%s}", m.ifne, q(m.tbl.full()), strings.Join(cols, "; "), strings.Join(idx, "; "))}
}

func ifne(b bool) toks {
	if b {
		return kw("IF NOT EXISTS")
	}
	return nil
}

func ife(b bool) toks {
	if b {
		return kw("IF EXISTS")
	}
	return nil
}

func mcreateIndex(unique, f bool, name, tbl string, cols []string, dirs []string) mstmt {
	t := kw("CREATE")
	if unique {
		t = cat(t, kw("UNIQUE"))
	}
	t = cat(t, kw("INDEX"), ifne(f), id(name), kw("ON"), id(tbl), pu("("), commas(len(cols), func(i int) toks {
		d := ""
		if i < len(dirs) {
			d = dirs[i]
		}
		return cat(id(cols[i]), kw(d))
	}), pu(")"))
	return mstmt{t, fmt.Sprintf("CREATE INDEX ifne=%v on=%s INDEX:%s(%s)", f, q(tbl), q(name), names(cols))}
}

// mdropIndex drops an index; the qualifier is reported as the table.
func mdropIndex(f bool, n mname) mstmt {
	return mstmt{cat(kw("DROP INDEX"), ife(f), n.toks()), fmt.Sprintf("DROP INDEX ife=%v on=%s %s", f, q(n.s), q(n.n))}
}

func tableNames(ns []mname) string {
	out := make([]string, len(ns))
	for i := range out {
		out[i] = q(ns[i].full())
	}
	return strings.Join(out, ",")
}

func mdropTable(f bool, ns []mname, tail string) mstmt {
	return mstmt{cat(kw("DROP TABLE"), ife(f), commas(len(ns), func(i int) toks { return ns[i].toks() }), kw(tail)),
		fmt.Sprintf("DROP TABLE ife=%v [%s]", f, tableNames(ns))}
}

func mtruncate(word string, ns []mname) mstmt {
	return mstmt{cat(kw("TRUNCATE"), kw(word), commas(len(ns), func(i int) toks { return ns[i].toks() })),
		"TRUNCATE [" + tableNames(ns) + "]"}
}

func malter(n mname, t toks, obs string) mstmt {
	return mstmt{cat(kw("ALTER TABLE"), n.toks(), t), "ALTER TABLE " + q(n.full()) + " " + obs}
}
