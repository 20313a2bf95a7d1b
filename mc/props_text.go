package main

import (
	"strings"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/query"
)

// repStmts are representative statements of every kind and form.
func repStmts() []mstmt {
	t := mname{"", "t"}
	ty := func(n string, size ...int) mtype { return mtype{n, n, size} }
	out := []mstmt{}
	for i, c := range baseConds() {
		m := mselect{sels: []msel{scol("a"), scol("Bb")}, from: []mname{{"", "t"}, {"s", "u"}}, where: c}
		if i%2 == 1 {
			m.distinct = "DISTINCT"
		}
		out = append(out, m.stmt())
	}
	out = append(out,
		mselect{sels: []msel{sstar()}, from: []mname{t}}.stmt(),
		mselect{distinct: "ALL", sels: []msel{sfn("COUNT", pu("*")), sfn("ABS", id("a")), sfn("POWER", id("a"), li("2"))}, from: []mname{t}, group: "a"}.stmt(),
		mselect{sels: []msel{scol("a")}, from: []mname{t}, orders: []mord{{"a", ""}, {"b", "ASC"}, {"c", "DESC"}}, lim: mlimit{2, 5, 3}}.stmt(),
		mselect{sels: []msel{scol("a")}, from: []mname{t}, where: mcmp("a", 0, lstr("x;y")), group: "a", orders: []mord{{"a", "DESC"}}, lim: mlimit{3, 5, 3}}.stmt(),
		mselect{sels: []msel{scol("a")}, from: []mname{t}, lim: mlimit{1, 5, 0}}.stmt(),
		minsert{tbl: t, cols: []string{"a", "B"}, rows: [][]mlit{{lraw("1"), lstr("x")}, {lraw("-2.5"), lstr("it's; -- ok")}}}.stmt(),
		minsert{tbl: mname{"s", "t"}, rows: [][]mlit{{lraw("NULL"), lraw("TRUE"), lq, lraw("x'0A'")}}}.stmt(),
		minsert{verb: "REPLACE", tbl: t, cols: []string{"a"}, rows: [][]mlit{{lstr("")}}}.stmt(),
		mupdate{t, []mset{{"a", lraw("1")}, {"b", lstr("x /* y */")}, {"c", marith("c", "+", li("1"))}}, mcmp("a", 0, lraw("1"))}.stmt(),
		mupdate{mname{"s", "t"}, []mset{{"a", lq}}, mcond{}}.stmt(),
		mupdate{t, []mset{{"a", mtext(cat(toks{{"ABS", 'f'}}, pu("("), id("b"), pu(")")))}}, mlog("OR", mcmp("a", 1, lq), mcmp("b", 4, lstr("AND")))}.stmt(),
		mdelete(t, mcond{}),
		mdelete(mname{"s", "t"}, mlog("AND", mcmp("a", 3, lraw("1")), mcmp("b", 6, lstr("x")))),
		mdelete(t, rawConds()[0]),
		mcreate{tbl: t, cols: []mcol{{"a", ty("INT"), true}, {"b", ty("VARCHAR", 20), false}, {"c", ty("DECIMAL", 10, 2), false}}}.stmt(),
		mcreate{ifne: true, tbl: mname{"s", "t"}, cols: []mcol{{"a", ty("DOUBLE PRECISION"), false}, {"b", ty("TEXT"), false}}, idx: []mindex{{"PRIMARY KEY", "", []string{"b", "a"}}}}.stmt(),
		mcreate{tbl: t, cols: []mcol{{"a", ty("INT"), false}, {"b", ty("TIMESTAMP"), false}}, idx: []mindex{{"INDEX", "i", []string{"a"}}, {"KEY", "k", []string{"b"}}, {"PRIMARY KEY", "", []string{"a"}}}}.stmt(),
		mcreateIndex(false, false, "i", "t", []string{"a", "b"}, nil),
		mcreateIndex(true, true, "i", "t", []string{"a"}, []string{"DESC"}),
		mdropIndex(false, mname{"", "i"}), mdropIndex(true, mname{"s", "i"}),
		mdropTable(false, []mname{t}, ""), mdropTable(true, []mname{{"s", "t"}, {"", "u"}}, "CASCADE"),
		mtruncate("", []mname{t}), mtruncate("TABLE", []mname{t, {"", "u"}}),
		malter(t, cat(kw("RENAME TO"), id("u")), `RENAME-TO "u"`),
		malter(t, cat(kw("RENAME COLUMN"), id("a"), kw("TO"), id("b")), `RENAME-COLUMN "a" "b"`),
		malter(mname{"s", "t"}, cat(kw("ADD COLUMN"), id("a"), kw("INT")), `ADD-COLUMN "a" INT 0 INT`),
		malter(t, cat(kw("ADD"), id("a"), toks{{"VARCHAR", 'f'}}, pu("("), li("9"), pu(")")), `ADD-COLUMN "a" VARCHAR 9 VARCHAR(9)`),
		malter(t, cat(kw("ADD PRIMARY KEY"), pu("("), id("a"), pu(","), id("b"), pu(")")), `ADD-INDEX PRIMARY("a","b")`),
		malter(t, cat(kw("ADD INDEX"), id("i"), pu("("), id("a"), pu(")")), `ADD-INDEX INDEX:"i"("a")`),
		malter(t, cat(kw("DROP COLUMN"), id("a")), `DROP-COLUMN "a"`),
		mstmt{cat(kw("CREATE DATABASE"), id("d")), `CREATE DATABASE ifne=false "d"`},
		mstmt{cat(kw("CREATE DATABASE IF NOT EXISTS"), id("d")), `CREATE DATABASE ifne=true "d"`},
		mstmt{cat(kw("DROP DATABASE IF EXISTS"), id("d")), `DROP DATABASE ife=true "d"`},
		mstmt{cat(kw("ALTER DATABASE"), id("d"), kw("RENAME TO"), id("e")), `ALTER DATABASE "d" to "e"`},
		mstmt{cat(kw("USE"), id("d")), `USE "d"`},
		mstmt{kw("BEGIN"), "BEGIN"}, mstmt{kw("BEGIN IMMEDIATE TRANSACTION"), "BEGIN"}, mstmt{kw("COMMIT"), "COMMIT"}, mstmt{kw("END TRANSACTION"), "COMMIT"}, mstmt{kw("ROLLBACK"), "ROLLBACK"},
		mcopy(t, []string{"a", "b"}, "STDIN", "STDIN", "WITH FORMAT CSV", "CSV"), mcopy(t, nil, "STDIN", "STDIN", "", "TEXT"),
		mstmt{cat(kw("VACUUM"), id("t")), `VACUUM "t"`}, mstmt{cat(kw("VACUUM ANALYZE"), id("t")), `VACUUM "t"`},
	)
	return out
}

// oneOfEach picks one statement of every kind.
func oneOfEach() []mstmt {
	seen := map[string]bool{}
	out := []mstmt{}
	for _, m := range repStmts() {
		k := m.t[0].s
		if len(m.t) > 1 && (k == "CREATE" || k == "DROP" || k == "ALTER") {
			k += m.t[1].s
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, m)
		}
	}
	return out
}

// badTexts are texts that are never a statement.
var badTexts = []string{
	"SELEC a FROM t", "SELECT a FROM t WHERE a =", "INSERT INTO t (a) VALUES (1", "UPDATE t SET", "DELETE t", "CREATE TABLE t", "DROP", "SELECT 'x FROM t", ")", "SELECT a FROM t )",
	"INSERT INTO t (a, b) VALUES (1)", "INSERT INTO t SELECT * FROM u", "EXPLAIN SELECT a FROM t", "SAVEPOINT x", "PRAGMA foo", "xyz", "1", "'x'", "ALTER TABLE t",
}

func obsScript(ms []mstmt) string {
	o := make([]string, len(ms))
	for i := range ms {
		o[i] = ms[i].obs
	}
	return "OK " + strings.Join(o, " ;; ")
}

var separators = []string{";", "; ", " ; ", ";\n", ";\t", "; -- c\n", "; /* c */ ", ";;", "; ;", " /* a;b */ ;\n\n"}

func init() {
	register(&Prop{ID: "C10", Rule: "every script of the listed spaces is parsed by a fresh parser; the observation must be the concatenation of the observations of its statements, or an error without statements if any of them is invalid", Run: func(r *Run) {
		reps := repStmts()
		check := func(c *Case, text string, ms []mstmt) {
			c.In(text)
			c.Step(1)
			stmts, err := parse(text)
			o := obsParse(stmts, err)
			if err != nil {
				o += " " + err.Error()
			}
			c.State(o)
			c.Trace()
			c.Eq("statements of the script", o, obsScript(ms))
		}
		// Every ordered pair of the representative statements.
		d := dims{len(reps), len(reps)}
		r.Block("pairs", d.size(), func(i int, c *Case) {
			x := d.at(i)
			ms := []mstmt{reps[x[0]], reps[x[1]]}
			check(c, ms[0].sql()+"; "+ms[1].sql(), ms)
		})
		// Every pair of kinds with every separator and end.
		kinds := oneOfEach()
		ends := []string{"", ";", ";\n", " ; ", "; -- end", ";/**/", "\n"}
		seps := []string{}
		for _, s := range separators {
			if s != ";;" { // an empty statement between two semicolons
				seps = append(seps, s)
			}
		}
		d2 := dims{len(kinds), len(seps), len(ends)}
		r.Block("separators", d2.size(), func(i int, c *Case) {
			x := d2.at(i)
			ms := []mstmt{kinds[x[0]], kinds[(x[0]*7+3)%len(kinds)]}
			check(c, ms[0].sql()+seps[x[1]]+ms[1].sql()+ends[x[2]], ms)
		})
		// All scripts of one to three (four) statements over all kinds.
		depth := r.Pick(3, 4)
		ks := kinds
		r.Block("sequences", seqCount(len(ks), depth)-1, func(i int, c *Case) {
			ms := []mstmt{}
			tx := []string{}
			for _, k := range seqAt(len(ks), i+1) {
				ms = append(ms, ks[k])
				tx = append(tx, ks[k].sql())
			}
			check(c, strings.Join(tx, ";"), ms)
		})
		// Long scripts.
		ls := lengths(r)
		r.Block("long", len(ls)*3, func(i int, c *Case) {
			n := ls[i/3]
			ms := []mstmt{}
			tx := []string{}
			for k := 0; k < n; k++ {
				m := reps[(k*5+i%3)%len(reps)]
				if i%3 == 2 {
					m = minsert{tbl: mname{"", "t"}, cols: []string{"a"}, rows: [][]mlit{{lraw(itoa(k))}}}.stmt()
				}
				ms = append(ms, m)
				tx = append(tx, m.sql())
			}
			check(c, strings.Join(tx, ";\n")+";", ms)
		})
		// One invalid statement at every position of scripts of up to four statements.
		d3 := dims{len(badTexts), 4, 4, len(kinds)}
		r.Block("invalid", d3.size(), func(i int, c *Case) {
			x := d3.at(i)
			n, pos := x[1]+1, x[2]
			if pos >= n {
				return
			}
			tx := []string{}
			for k := 0; k < n; k++ {
				if k == pos {
					tx = append(tx, badTexts[x[0]])
				} else {
					tx = append(tx, kinds[(x[3]+k*5)%len(kinds)].sql())
				}
			}
			text := strings.Join(tx, "; ")
			c.In(text)
			c.Step(1)
			stmts, err := parse(text)
			c.Trace()
			c.Eq("script with an invalid statement", obsParse(stmts, err), "ERROR")
		})
	}})

	register(&Prop{ID: "C11", Rule: "every representative statement is written in every listed layout - each keyword in every case pattern, every subset of keywords in lower case, each gap with every separator, minimal spacing - and must give the model's observation", Run: runLayouts})

	register(&Prop{ID: "C14", Rule: "one parser instance parses every sequence of the listed texts up to the depth; every result must equal the result of a fresh parser and statements returned earlier must still give the same observation and printed text", Run: func(r *Run) {
		texts := []string{
			"SELECT a FROM t WHERE a = 1", "INSERT INTO t (a, b) VALUES (1, 'x')", "UPDATE t SET a = a + 1 WHERE b = 'y'", "DELETE FROM t", "CREATE TABLE t (a INT PRIMARY KEY, b TEXT)",
			"ALTER TABLE t ADD COLUMN c INT", "BEGIN; DELETE FROM t WHERE a = 1; COMMIT", "", ";", "SELECT a FROM", "SELECT 'open", "INSERT INTO t (a, b) VALUES (1)", "garbage ( ]",
			"SELECT a, b FROM t GROUP BY a ORDER BY a DESC LIMIT 3", "EXPLAIN SELECT 1", "/* open comment", "COPY t FROM STDIN", "SELECT COUNT(*) FROM t;",
		}
		long := minsert{tbl: mname{"", "t"}, cols: []string{"a"}}
		for k := 0; k < 200; k++ {
			long.rows = append(long.rows, []mlit{lraw(itoa(k))})
		}
		texts = append(texts, long.stmt().sql(), "SELECT a FROM t WHERE a = 1 "+strings.Repeat("(", 20))
		fresh := make([]string, len(texts))
		for i, t := range texts {
			stmts, err := parse(t)
			fresh[i] = obsParse(stmts, err) + printAll(stmts)
		}
		run := func(c *Case, seq []int) {
			tx := []string{}
			for _, k := range seq {
				tx = append(tx, texts[k])
			}
			c.In(strings.Join(tx, " | "))
			p := sql.NewParser()
			type kept struct {
				s []query.Statement
				o string
			}
			all := []kept{}
			for n, k := range seq {
				c.Step(1)
				stmts, err := p.ParseString(texts[k])
				o := obsParse(stmts, err) + printAll(stmts)
				c.State(o)
				if !c.Eq("parse "+itoa(n+1)+" of "+clip(texts[k]), o, fresh[k]) {
					return
				}
				all = append(all, kept{stmts, o})
			}
			for n, a := range all {
				o := ""
				if len(a.s) > 0 {
					o = obsParse(a.s, nil) + printAll(a.s)
					if !c.Eq("result "+itoa(n+1)+" read again at the end", o, a.o) {
						return
					}
				}
			}
			c.Trace()
		}
		depth := r.Pick(3, 4)
		r.Block("sequences", seqCount(len(texts), depth)-1, func(i int, c *Case) { run(c, seqAt(len(texts), i+1)) })
		ls := []int{10, 50, 200}
		if r.Thorough() {
			ls = append(ls, 1000, 3000)
		}
		r.Block("long-histories", len(ls)*len(texts), func(i int, c *Case) {
			seq := []int{}
			for k := 0; k < ls[i/len(texts)]; k++ {
				seq = append(seq, (k*7+i)%len(texts))
			}
			seq = append(seq, i%len(texts))
			run(c, seq)
		})
		// The same valid text many times, and after many failures.
		r.Block("repeats", len(texts)*len(texts), func(i int, c *Case) {
			seq := []int{}
			for k := 0; k < 12; k++ {
				seq = append(seq, i/len(texts))
			}
			run(c, append(seq, i%len(texts)))
		})
	}})
}

func printAll(stmts []query.Statement) string {
	out := ""
	for _, s := range stmts {
		out += " | " + s.String()
	}
	return out
}

// layout writes tokens with the given separator before each token (index 0 is the start) and the given case function.
func layout(t toks, gap func(i int) string, cas func(i int, t tok) string) string {
	sb := strings.Builder{}
	for i, x := range t {
		if i > 0 || gap(0) != "" {
			sb.WriteString(gap(i))
		}
		sb.WriteString(cas(i, x))
	}
	return sb.String()
}

func defaultGap(t toks) func(i int) string {
	return func(i int) string {
		if i == 0 || tight(t[i-1], t[i]) {
			return ""
		}
		return " "
	}
}

func casePattern(s string, bits int) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' || b[i] >= 'a' && b[i] <= 'z' {
			up := bits>>(uint(i)%16)&1 == 0
			if up {
				b[i] &^= 0x20
			} else {
				b[i] |= 0x20
			}
		}
	}
	return string(b)
}

// canJoin reports whether two tokens may be written without anything between them.
func canJoin(a, b tok) bool {
	if len(a.s) == 0 || len(b.s) == 0 {
		return false
	}
	pa, pb := a.k == 'p', b.k == 'p'
	if !pa && !pb {
		return false
	}
	x := a.s[len(a.s)-1]
	y := b.s[0]
	if x == '-' && y == '-' || x == '/' && y == '*' {
		return false
	}
	if y == '-' && !pa || x == '.' && y >= '0' && y <= '9' || y == '?' || x == '?' {
		return false
	}
	if pa && pb && strings.ContainsAny(a.s, "<>=!|") && strings.ContainsAny(b.s, "<>=!|") {
		return false
	}
	return true
}

func runLayouts(r *Run) {
	reps := repStmts()
	asIs := func(i int, t tok) string { return t.s }
	check := func(c *Case, m mstmt, text string) {
		c.In(text)
		_, o, ok := parse1(c, text)
		if !ok {
			return
		}
		c.Trace()
		c.State(text)
		c.Eq("observed statement", o, m.obs)
	}
	isWord := func(t tok) bool { return t.k == 'k' || t.k == 'f' }
	// Keyword case: every pattern of every keyword, one keyword at a time.
	type kc struct {
		m    mstmt
		i    int
		bits int
	}
	cases := []kc{}
	for _, m := range reps {
		for i, t := range m.t {
			if !isWord(t) {
				continue
			}
			n := min(len(t.s), r.Pick(6, 9))
			for b := 1; b < 1<<uint(n); b++ {
				cases = append(cases, kc{m, i, b})
			}
			cases = append(cases, kc{m, i, 1<<16 - 1}, kc{m, i, 0x5555}, kc{m, i, 0xAAAA})
		}
	}
	r.Block("keyword-case", len(cases), func(i int, c *Case) {
		k := cases[i]
		check(c, k.m, layout(k.m.t, defaultGap(k.m.t), func(n int, t tok) string {
			if n == k.i {
				return casePattern(t.s, k.bits)
			}
			return t.s
		}))
	})
	// Every subset of keywords in lower case.
	type sub struct {
		m    mstmt
		mask int
	}
	subs := []sub{}
	for _, m := range reps {
		n := 0
		for _, t := range m.t {
			if isWord(t) {
				n++
			}
		}
		n = min(n, r.Pick(8, 11))
		for k := 1; k < 1<<uint(n); k++ {
			subs = append(subs, sub{m, k})
		}
		subs = append(subs, sub{m, 1<<30 - 1})
	}
	r.Block("keyword-subsets", len(subs), func(i int, c *Case) {
		k := subs[i]
		w := 0
		check(c, k.m, layout(k.m.t, defaultGap(k.m.t), func(n int, t tok) string {
			if !isWord(t) {
				return t.s
			}
			low := k.mask>>uint(min(w, 29))&1 == 1
			w++
			if low {
				return strings.ToLower(t.s)
			}
			return t.s
		}))
	})
	// Separators: each gap alone, all gaps, start and end.
	gaps := []string{"  ", "\t", "\n", "\r\n", " \n\t ", "/* c */", "/**/", " -- c\n", "--\n", "/* ; */", " /* it's */ ", "/* \" */", "\f", "\v", "/* -- */", "-- /*\n", " /* a */ /* b */ ", "\n\n\n"}
	seps := []string{}
	for _, g := range gaps {
		if _, err := parse("SELECT" + g + "a" + g + "FROM" + g + "t"); err == nil || !strings.ContainsAny(g, "\f\v") {
			seps = append(seps, g)
		}
	}
	type gp struct {
		m mstmt
		i int // -1: all
		g string
	}
	gc := []gp{}
	for _, m := range reps {
		for _, g := range seps {
			for i := -1; i <= len(m.t); i++ {
				if i > 0 && i < len(m.t) && m.t[i].k == 'F' {
					continue
				}
				gc = append(gc, gp{m, i, g})
			}
		}
	}
	r.Block("separators", len(gc), func(i int, c *Case) {
		k := gc[i]
		def := defaultGap(k.m.t)
		text := layout(k.m.t, func(n int) string {
			if n == k.i || (k.i == -1 && n > 0) {
				return k.g
			}
			return def(n)
		}, asIs)
		if k.i == len(k.m.t) {
			text += k.g
		}
		check(c, k.m, text)
	})
	// No separator wherever none is needed: all of them and each alone.
	type jn struct {
		m mstmt
		i int
	}
	js := []jn{}
	for _, m := range reps {
		js = append(js, jn{m, -1})
		for i := 1; i < len(m.t); i++ {
			if canJoin(m.t[i-1], m.t[i]) && defaultGap(m.t)(i) != "" {
				js = append(js, jn{m, i})
			}
		}
	}
	r.Block("no-space", len(js), func(i int, c *Case) {
		k := js[i]
		def := defaultGap(k.m.t)
		check(c, k.m, layout(k.m.t, func(n int) string {
			if n > 0 && (n == k.i || k.i == -1) && canJoin(k.m.t[n-1], k.m.t[n]) {
				return ""
			}
			return def(n)
		}, asIs))
	})
	// Long separators.
	lg := []int{10, 100, 1000, 5000}
	r.Block("long-separators", len(reps)*len(lg)*3, func(i int, c *Case) {
		m := reps[i/(len(lg)*3)]
		n := lg[i/3%len(lg)]
		g := []string{strings.Repeat(" ", n), "/*" + strings.Repeat("x", n) + "*/", strings.Repeat("\n", n)}[i%3]
		def := defaultGap(m.t)
		check(c, m, layout(m.t, func(k int) string {
			if k == len(m.t)/2 {
				return g
			}
			return def(k)
		}, asIs))
	})
	known := []mstmt{{cat(kw("create table"), id("t"), pu("("), id("a"), kw("int"), pu(","), kw("index"), id("i"), pu("("), id("a"), pu(")"), pu(")")),
		`CREATE TABLE ifne=false "t" ["a" INT 0 INT] {INDEX:"i"("a")}`}}
	r.Block("unusual", len(known), func(i int, c *Case) { check(c, known[i], known[i].sql()) })
}
