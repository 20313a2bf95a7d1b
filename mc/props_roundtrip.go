package main

import (
	"strings"

	"github.com/cybergarage/go-sqlparser/sql/query"
)

// allSpaces are the statement spaces of every kind.
func allSpaces(r *Run) []space {
	out := []space{}
	for _, f := range []func(r *Run) []space{selectSpaces, insertSpaces, updateSpaces, condSpaces, createTableSpaces, ddlSpaces, tclSpaces} {
		out = append(out, f(r)...)
	}
	for _, f := range []string{"select", "insert", "update", "cond", "create", "ddl", "tcl"} {
		k := keywordSpace(f)
		k.name += "-" + f
		out = append(out, k)
		more := sameSpaces(r, f)
		if f != "tcl" { // printed sources are not quoted: a recorded finding
			more = append(more, formSpaces(r, f)...)
		}
		for _, s := range more {
			s.name += "-" + f
			out = append(out, s)
		}
	}
	return out
}

// printedObs is what a statement must report after its printed text is parsed again.
func roundTrip(c *Case, stmt query.Statement, o string) {
	text := stmt.String()
	c.Step(1)
	stmts, err := parse(text)
	if err != nil {
		c.Failf("printed text %s is rejected: %v", clip(text), err)
		return
	}
	if len(stmts) != 1 {
		c.Failf("printed text %s is %d statements", clip(text), len(stmts))
		return
	}
	c.Trace()
	if !c.Eq("contents of the printed text "+clip(text), obsStmt(stmts[0]), o) {
		return
	}
	c.Eq("text printed again", stmts[0].String(), text)
}

func init() {
	register(&Prop{ID: "C08", Rule: "every model statement of the listed spaces is parsed, printed, parsed and printed again: the observations of both parses and both printed texts must be equal", Run: func(r *Run) {
		for _, s := range allSpaces(r) {
			r.Block(s.name, s.n, func(i int, c *Case) {
				m := s.at(i)
				sql := m.sql()
				c.In(sql)
				stmt, o, ok := parse1(c, sql)
				if !ok {
					return
				}
				c.State(o)
				// The contents are compared with what was written, so a loss common to both parses is found as well.
				if !c.Eq("observed statement", o, m.obs) {
					return
				}
				roundTrip(c, stmt, o)
			})
		}
		for _, s := range literalSpaces(r) {
			r.Block(s.name, s.n, func(i int, c *Case) {
				m := s.at(i)
				sql := m.sql()
				c.In(sql)
				stmt, o, ok := parse1(c, sql)
				if !ok {
					return
				}
				c.State(o)
				roundTrip(c, stmt, o)
			})
		}
		known := []string{
			"SELECT a FROM t LIMIT 0", "SELECT a FROM t LIMIT ?", "COPY t FROM 'a b.txt' CSV", `CREATE TABLE "my table" ("a b" INT)`,
			"CREATE TABLE t (a VARCHAR(0))",
		}
		r.Block("unusual", len(known), func(i int, c *Case) {
			c.In(known[i])
			stmt, o, ok := parse1(c, known[i])
			if !ok {
				return
			}
			roundTrip(c, stmt, o)
			if !c.Failed() && strings.Contains(known[i], "LIMIT") && !strings.Contains(stmt.String(), "LIMIT") {
				c.Failf("printed as %s, which has no limit", clip(stmt.String()))
			}
			if !c.Failed() && strings.Contains(known[i], "(0)") && !strings.Contains(stmt.String(), "(0)") {
				c.Failf("printed as %s, which has no size", clip(stmt.String()))
			}
		})
	}})
}

// stringSet are the string contents swept: every ASCII character, every pair of the characters that matter, and words.
func stringSet(r *Run) []string {
	out := []string{""}
	for ch := 1; ch < 128; ch++ {
		out = append(out, string(rune(ch)), "a"+string(rune(ch))+"b", string(rune(ch))+string(rune(ch)))
	}
	special := []string{"'", "''", "\"", "`", "\\", "%", "_", "?", "$1", "$", ";", "--", "/*", "*/", "\n", "\r", "\t", " ", ",", "(", ")", "a", "0", "é", "日", "😀", "\u00a0", "=", ":", "@", "#", ".", "x'00'", "NULL", "{}", "[", "]"}
	n := r.Pick(2, 3)
	for i := 1; i < seqCount(len(special), n); i++ {
		s := ""
		for _, k := range seqAt(len(special), i) {
			s += special[k]
		}
		out = append(out, s)
	}
	// Every string over the quote characters up to a length.
	qc := []string{"'", "\"", "a", "\\"}
	for i := 1; i < seqCount(len(qc), r.Pick(6, 8)); i++ {
		s := ""
		for _, k := range seqAt(len(qc), i) {
			s += qc[k]
		}
		out = append(out, s)
	}
	out = append(out, "NULL", "null", "TRUE", "CURRENT_TIMESTAMP", "1", "-1", "1.5", "x'41'", "SELECT * FROM t", "'; DROP TABLE t; --", "O'Reilly", " lead", "trail ", "tab\tinside", "line\nbreak",
		"ünïcödé", "日本語", "😀😀", "a' AND 'b", "?", "$1", ":a", "@b", "AND", "2020-01-01", "{\"a\": 'b'}", "\ufeff", "\u200b", "100%")
	for _, k := range []int{10, 100, 127, 128, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 100000} {
		out = append(out, strings.Repeat("x", k), strings.Repeat("'", k%2000), strings.Repeat("é", k%5000))
	}
	return out
}

// literalSpaces are statements that carry the swept literals at every place.
func literalSpaces(r *Run) []space {
	ss := stringSet(r)
	place := func(k int, l mlit) mstmt {
		switch k {
		case 0:
			return minsert{tbl: mname{"", "t"}, cols: []string{"a", "b", "c"}, rows: [][]mlit{{lraw("1"), l, lstr("z")}}}.stmt()
		case 1:
			return mupdate{mname{"", "t"}, []mset{{"a", l}, {"b", lraw("2")}}, mcmp("c", 0, lraw("3"))}.stmt()
		case 2:
			return mselect{sels: []msel{sstar()}, from: []mname{{"", "t"}}, where: mcmp("a", 0, l)}.stmt()
		case 3:
			return mdelete(mname{"", "t"}, mlog("AND", mcmp("a", 6, l), mcmp("b", 0, lstr("y"))))
		}
		return minsert{tbl: mname{"", "t"}, rows: [][]mlit{{l}, {l}}}.stmt()
	}
	const places = 5
	out := []space{{"strings", len(ss) * places, func(i int) mstmt { return place(i%places, lstr(ss[i/places])) }}}
	ns := numbers(r)
	ns = append(ns, "NULL", "TRUE", "FALSE", "null", "true", "False", "CURRENT_TIME", "CURRENT_DATE", "CURRENT_TIMESTAMP", "current_timestamp", "?", "x''", "X''")
	const hexd = "0123456789abcdefABCDEF"
	for i := 0; i < 22*22; i++ {
		ns = append(ns, "x'"+string(hexd[i/22])+string(hexd[i%22])+"'")
	}
	for _, k := range []int{2, 3, 4, 8, 16, 100, 1000} {
		ns = append(ns, "X'"+strings.Repeat("aF", k)+"'", strings.Repeat("7", k), "-0."+strings.Repeat("3", k))
	}
	if r.Thorough() {
		for i := 0; i < 20000; i++ {
			ns = append(ns, itoa(i), "-"+itoa(i), itoa(i)+"."+itoa(i*7%1000), itoa(i)+"e"+itoa(i%40))
		}
	}
	out = append(out, space{"numbers", len(ns) * places, func(i int) mstmt {
		n := ns[i/places]
		l := lraw(n)
		if n == "?" {
			l = lq
		}
		return place(i%places, l)
	}})
	return out
}
