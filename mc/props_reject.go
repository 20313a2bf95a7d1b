package main

import (
	_ "embed"
	"errors"
	"fmt"
	"os"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql/parser"
	"github.com/cybergarage/go-sqlparser/sql/query"
)

// vocabulary are the tokens of the token sequences.
var vocabulary = []string{
	"SELECT", "INSERT", "UPDATE", "DELETE", "CREATE", "DROP", "ALTER", "TABLE", "DATABASE", "INDEX", "FROM", "WHERE", "INTO", "VALUES", "SET", "GROUP", "ORDER", "BY", "LIMIT",
	"AND", "OR", "NOT", "IN", "IS", "NULL", "BEGIN", "COMMIT", "ROLLBACK", "USE", "COPY", "VACUUM", "TRUNCATE", "COUNT", "a", "t", "1", "'x'", "\"q\"", "?", "(", ")", ",", ";", "*", "=", ".", "-", "''",
	"EXPLAIN", "REPLACE", "ADD", "KEY", "PRIMARY", "INT", "$1", "x'41'", "--", "/*",
}

// specialBytes are the characters the lexer distinguishes.
const specialBytes = "\x00\t\n\r !\"#$%&'()*+,-./09:;<=>?@AZ[\\]^_`az{|}~\x7f\x80\xc3\xa9\xff"

// readAll parses a text and reads everything the result reports.
func readAll(c *Case, text string) (string, error) {
	c.Step(1)
	stmts, err := parse(text)
	if err != nil {
		if len(stmts) != 0 {
			c.Failf("an error and %d statements", len(stmts))
		}
		if err.Error() == "" {
			c.Failf("an error without a text")
		}
		return "ERROR", err
	}
	out := make([]string, len(stmts))
	for i, s := range stmts {
		if s == nil {
			c.Failf("statement %d is nil", i)
			return "", nil
		}
		o := obsStmt(s)
		if strings.HasPrefix(o, "BAD-KIND") || strings.HasPrefix(o, "INCONSISTENT") || strings.HasPrefix(o, "UNKNOWN-KIND") {
			c.Failf("statement %d: %s", i, o)
		}
		out[i] = o + s.String()
	}
	return strings.Join(out, ";"), nil
}

func mutate(m mstmt, f func(t []string) []string) string {
	t := make([]string, len(m.t))
	for i := range t {
		t[i] = m.t[i].s
	}
	return strings.Join(f(t), " ")
}

func init() {
	register(&Prop{ID: "C12", Rule: "every text of the listed spaces is parsed; the result must be an error without statements or statements that are all non-nil and whose kind, contents and printed text can be read without a panic", Run: func(r *Run) {
		check := func(c *Case, text string) {
			c.In(text)
			o, _ := readAll(c, text)
			c.State(o)
			c.Trace()
		}
		empty := []string{"", ";"}
		r.Block("empty", len(empty), func(i int, c *Case) {
			c.In(empty[i])
			_, err := readAll(c, empty[i])
			if !errors.Is(err, parser.ErrEmptyQuery) {
				c.Failf("not reported as an empty query: %v", err)
			}
			c.Trace()
		})
		r.Block("bytes", 256+65536, func(i int, c *Case) {
			if i < 256 {
				check(c, string([]byte{byte(i)}))
				return
			}
			i -= 256
			check(c, string([]byte{byte(i >> 8), byte(i)}))
		})
		sb := specialBytes
		n3 := len(sb) * len(sb) * len(sb)
		r.Block("characters", n3, func(i int, c *Case) {
			check(c, string([]byte{sb[i/(len(sb)*len(sb))], sb[i/len(sb)%len(sb)], sb[i%len(sb)]}))
		})
		nv := len(vocabulary)
		depth := r.Pick(3, 4)
		voc := vocabulary
		if r.Thorough() {
			voc = vocabulary[:44]
			nv = len(voc)
		}
		r.Block("tokens", seqCount(nv, depth)-1, func(i int, c *Case) {
			t := []string{}
			for _, k := range seqAt(nv, i+1) {
				t = append(t, voc[k])
			}
			check(c, strings.Join(t, " "))
		})
		reps := repStmts()
		// Every single change of one token.
		type mut struct{ s, pos int }
		ms := []mut{}
		for s, m := range reps {
			for p := 0; p <= len(m.t); p++ {
				ms = append(ms, mut{s, p})
			}
		}
		r.Block("token-changes", len(ms)*(2*len(vocabulary)+3), func(i int, c *Case) {
			m := ms[i/(2*len(vocabulary)+3)]
			k := i % (2*len(vocabulary) + 3)
			check(c, mutate(reps[m.s], func(t []string) []string {
				p := m.pos
				switch {
				case k < len(vocabulary): // insert
					return append(append(append([]string{}, t[:p]...), vocabulary[k]), t[p:]...)
				case p == len(t):
					return t
				case k < 2*len(vocabulary): // replace
					t[p] = vocabulary[k-len(vocabulary)]
					return t
				case k == 2*len(vocabulary): // delete
					return append(t[:p], t[p+1:]...)
				case k == 2*len(vocabulary)+1: // double
					return append(append(append([]string{}, t[:p]...), t[p]), t[p:]...)
				}
				if p+1 < len(t) { // exchange
					t[p], t[p+1] = t[p+1], t[p]
				}
				return t
			}))
		})
		// Every prefix and suffix, and every character replaced.
		type cut struct{ s, pos int }
		cs := []cut{}
		for s, m := range reps {
			for p := range m.sql() {
				cs = append(cs, cut{s, p})
			}
		}
		nb := len(sb) + 3
		r.Block("characters-changed", len(cs)*nb, func(i int, c *Case) {
			x := cs[i/nb]
			text := reps[x.s].sql()
			switch k := i % nb; k {
			case 0:
				check(c, text[:x.pos])
			case 1:
				check(c, text[x.pos:])
			case 2:
				check(c, text[:x.pos]+text[x.pos+1:])
			default:
				check(c, text[:x.pos]+string(sb[k-3])+text[x.pos+1:])
			}
		})
		// Nesting.
		nest := []struct{ pre, open, mid, cl, post string }{
			{"SELECT a FROM t WHERE ", "(", "a = 1", ")", ""}, {"SELECT a FROM t WHERE ", "NOT ", "a = 1", "", ""}, {"SELECT ", "ABS(", "a", ")", " FROM t"},
			{"SELECT ", "(", "a", ")", " FROM t"}, {"INSERT INTO t (a) VALUES (", "(", "1", ")", ")"}, {"UPDATE t SET a = ", "(", "1", ")", ""}, {"SELECT a FROM ", "(", "t", ")", ""},
			{"SELECT a FROM t WHERE ", "- ", "1", "", ""}, {"", "(", "", "", ""}, {"SELECT a FROM t WHERE ", "(", "", "", ""}, {"SELECT a FROM t WHERE a IN ", "(", "1", ")", ""}, {"DELETE FROM t WHERE ", "EXISTS (SELECT a FROM t WHERE ", "a = 1", ")", ""},
			{"CREATE TABLE t (a INT, PRIMARY KEY (", "(", "a", ")", "))"}, {"", ";", "", "", ""}, {"SELECT ", "CASE WHEN a THEN ", "b", " END", " FROM t"},
		}
		maxNest := r.Pick(12, 16)
		r.Block("nesting", len(nest)*maxNest, func(i int, c *Case) {
			n, k := nest[i/maxNest], i%maxNest+1
			check(c, n.pre+strings.Repeat(n.open, k)+n.mid+strings.Repeat(n.cl, k)+n.post)
		})
		// Long texts.
		ls := []int{100, 1000, 10000}
		pieces := []string{" ", "a", "1", "'", "\"", "(", ")", ",", ";", "-", "/", "SELECT ", "x'", "''", "?", "é", "\x00", "\n"}
		r.Block("long", len(ls)*len(pieces), func(i int, c *Case) {
			p := pieces[i%len(pieces)]
			n := ls[i/len(pieces)]
			if p == "(" && n > 100 {
				n = 12 // exponential in the generated parser
			}
			check(c, strings.Repeat(p, n))
		})
	}})
}

// unsupported are statements the library cannot represent.
var unsupported = []string{
	"EXPLAIN SELECT a FROM t", "EXPLAIN QUERY PLAN DELETE FROM t", "EXPLAIN DELETE FROM t", "EXPLAIN INSERT INTO t (a) VALUES (1)", "EXPLAIN DROP TABLE t", "EXPLAIN UPDATE t SET a = 1", "EXPLAIN BEGIN", "EXPLAIN COMMIT",
	"PRAGMA foo", "PRAGMA foo = 1", "SAVEPOINT x", "RELEASE x", "RELEASE SAVEPOINT x", "ATTACH DATABASE 'x' AS y", "DETACH DATABASE y", "DETACH y", "ANALYZE", "ANALYZE t", "REINDEX", "REINDEX t",
	"CREATE VIEW v AS SELECT a FROM t", "CREATE TRIGGER r AFTER INSERT ON t BEGIN DELETE FROM t; END", "CREATE VIRTUAL TABLE t USING m", "DROP VIEW v", "DROP TRIGGER r",
	"INSERT INTO t SELECT a FROM u", "INSERT INTO t (a) SELECT a FROM u", "INSERT INTO t DEFAULT VALUES", "INSERT INTO t (a) VALUES (1, 2)", "INSERT INTO t (a, b) VALUES (1)", "INSERT INTO t (a, b) VALUES (1, 2), (3)",
	"INSERT INTO t (a, b) VALUES (1, 2), (3, 4, 5)", "REPLACE INTO t SELECT a FROM u",
	"INSERT OR REPLACE INTO t (a) VALUES (1)", "INSERT OR IGNORE INTO t (a) VALUES (1)", "INSERT INTO t (a) VALUES (1) ON CONFLICT DO NOTHING", "INSERT INTO t (a) VALUES (1) ON CONFLICT (a) DO UPDATE SET a = 2",
	"WITH x AS (SELECT a FROM t) INSERT INTO t (a) VALUES (1)", "UPDATE OR IGNORE t SET a = 1", "UPDATE t SET a = 1 FROM u", "UPDATE t SET a = 1 FROM u WHERE b = 2", "UPDATE t SET (a, b) = (1, 2)", "WITH x AS (SELECT a FROM t) UPDATE t SET a = 1",
	"WITH x AS (SELECT a FROM t) DELETE FROM t", "WITH x AS (SELECT a FROM t) SELECT a FROM x",
	"SELECT a FROM t UNION SELECT b FROM u", "SELECT a FROM t UNION", "SELECT a FROM t WHERE", "SELECT a FROM t ORDER", "SELECT a FROM t GROUP", "SELECT a FROM t LIMIT", "SELECT a FROM t HAVING", "SELECT a FROM t LEFT JOIN", "SELECT a FROM t NATURAL", "SELECT a FROM t UNION ALL SELECT b FROM u", "SELECT a FROM t INTERSECT SELECT b FROM u", "SELECT a FROM t EXCEPT SELECT b FROM u", "VALUES (1)", "VALUES (1, 2), (3, 4)",
	"SELECT a FROM t JOIN u ON t.a = u.a", "SELECT a FROM t INNER JOIN u ON t.a = u.a", "SELECT a FROM t LEFT JOIN u ON t.a = u.a", "SELECT a FROM t CROSS JOIN u", "SELECT a FROM t NATURAL JOIN u", "SELECT a FROM t JOIN u USING (a)", "SELECT a FROM t JOIN u",
	"SELECT a FROM (SELECT a FROM t)", "SELECT a FROM (SELECT a FROM t) AS x", "SELECT a FROM f(1)", "SELECT a FROM t GROUP BY a HAVING a > 1", "SELECT a FROM t GROUP BY a, b", "SELECT a FROM t WINDOW w AS (ORDER BY a)",
	"SELECT COUNT(DISTINCT a) FROM t", "SELECT SUM(a) FILTER (WHERE a > 1) FROM t", "SELECT SUM(a) OVER () FROM t", "SELECT RANK() OVER (ORDER BY a) FROM t",
	"SELECT a FROM t LIMIT abc", "SELECT a FROM t LIMIT 'x'", "SELECT a FROM t LIMIT 10 OFFSET abc", "SELECT a FROM t LIMIT 99999999999999999999999", "SELECT a FROM t LIMIT abc, 10",
	"CREATE TABLE t AS SELECT a FROM u", "CREATE TABLE t (a INT, PRIMARY KEY (a + 1))", "CREATE TABLE t (a INT, INDEX i (b))", "CREATE TABLE t (a INT, KEY k (b))", "CREATE INDEX i ON t (a) WHERE a > 1", "CREATE INDEX i ON t (a + 1)", "CREATE INDEX i ON t (ABS(a))",
	"ALTER TABLE t ADD UNIQUE (a)", "ALTER TABLE t ADD INDEX", "ALTER TABLE t ADD INDEX i", "ALTER TABLE t ADD PRIMARY KEY", "ALTER TABLE t ADD KEY",
	"ROLLBACK TO x", "ROLLBACK TO SAVEPOINT x", "ROLLBACK TRANSACTION TO x", "VACUUM INTO 'x'", "VACUUM t INTO 'x'",
}

// lossy are statements that are accepted today although a part of them is lost.
var lossy = []struct{ text, lost string }{
	{"SELECT a FROM t ORDER BY a NULLS FIRST", "NULLS"}, {"INSERT INTO t (a) VALUES (1) RETURNING a", "RETURNING"}, {"UPDATE t SET a = 1 RETURNING a", "RETURNING"}, {"DELETE FROM t RETURNING a", "RETURNING"},
	{"CREATE TABLE t (a INT NOT NULL)", "NOT NULL"}, {"CREATE TABLE t (a INT UNIQUE)", "UNIQUE"}, {"CREATE TABLE t (a INT DEFAULT 1)", "DEFAULT"}, {"CREATE TABLE t (a INT, UNIQUE (a))", "UNIQUE"}, {"CREATE UNIQUE INDEX i ON t (a)", "UNIQUE"},
	{"CREATE TABLE t (a INT CHECK (a > 1))", "CHECK"}, {"CREATE TABLE t (a INT REFERENCES u (b))", "REFERENCES"}, {"CREATE TABLE t (a INT, FOREIGN KEY (a) REFERENCES u (b))", "REFERENCES"}, {"CREATE TABLE t (a INT, CHECK (a > 1))", "CHECK"},
	{"CREATE TABLE t (a PRIMARY KEY, b INT)", "PRIMARY"}, {"CREATE INDEX s.i ON t (a)", "s."}, {"ALTER DATABASE a.b RENAME TO c", "a."},
	{"ALTER TABLE t ADD COLUMN a INT NOT NULL", "NOT NULL"}, {"ALTER TABLE t ADD COLUMN a INT DEFAULT 1", "DEFAULT"},
}

//go:embed rejected.txt
var rejectedList string

// rejections are the changes of one token that make a representative statement invalid.
var rejections = []struct {
	name string
	n    func(m mstmt) int
	at   func(m mstmt, k int) string
}{
	{"truncate", func(m mstmt) int { return len(m.t) - 1 }, func(m mstmt, k int) string { return mutate(m, func(t []string) []string { return t[:k+1] }) }},
	{"delete", func(m mstmt) int { return len(m.t) }, func(m mstmt, k int) string {
		return mutate(m, func(t []string) []string { return append(t[:k], t[k+1:]...) })
	}},
	{"append", func(m mstmt) int { return len(vocabulary) }, func(m mstmt, k int) string {
		return mutate(m, func(t []string) []string { return append(t, vocabulary[k]) })
	}},
	{"prepend", func(m mstmt) int { return len(vocabulary) }, func(m mstmt, k int) string {
		return mutate(m, func(t []string) []string { return append([]string{vocabulary[k]}, t...) })
	}},
	{"double", func(m mstmt) int { return len(m.t) }, func(m mstmt, k int) string {
		return mutate(m, func(t []string) []string { return append(append(append([]string{}, t[:k]...), t[k]), t[k:]...) })
	}},
	{"exchange", func(m mstmt) int { return len(m.t) - 1 }, func(m mstmt, k int) string {
		return mutate(m, func(t []string) []string { t[k], t[k+1] = t[k+1], t[k]; return t })
	}},
	{"open", func(m mstmt) int { return len(m.t) + 1 }, func(m mstmt, k int) string {
		return mutate(m, func(t []string) []string { return append(append(append([]string{}, t[:k]...), "("), t[k:]...) })
	}},
	{"close", func(m mstmt) int { return len(m.t) + 1 }, func(m mstmt, k int) string {
		return mutate(m, func(t []string) []string { return append(append(append([]string{}, t[:k]...), ")"), t[k:]...) })
	}},
}

// genRejected writes rejected.txt: the changes that the current tree rejects.
func genRejected() {
	for s, m := range repStmts() {
		for _, rj := range rejections {
			ks := []string{}
			for k := 0; k < rj.n(m); k++ {
				text := rj.at(m, k)
				stmts, err := parse(text)
				if err != nil {
					ks = append(ks, itoa(k))
				} else {
					fmt.Fprintf(os.Stdout, "# %s %d: %s => %s\n", rj.name, k, text, obsParse(stmts, nil))
				}
			}
			fmt.Println(rj.name, s, strings.Join(ks, " "))
		}
	}
}

func init() {
	register(&Prop{ID: "C13", Rule: "every unsupported statement, alone and at every position of scripts, and every recorded truncation, deletion, insertion or exchange of one token that makes a statement invalid must be rejected with an error and no statements", Run: func(r *Run) {
		rejected := func(c *Case, text string) {
			c.In(text)
			c.Step(1)
			stmts, err := parse(text)
			c.Trace()
			o := obsParse(stmts, err)
			c.State(text)
			c.Eq("not rejected", o, "ERROR")
		}
		kinds := oneOfEach()
		d := dims{len(unsupported), 5, len(kinds)}
		r.Block("unsupported", d.size(), func(i int, c *Case) {
			x := d.at(i)
			u, k, k2 := unsupported[x[0]], kinds[x[2]].sql(), kinds[(x[2]*5+2)%len(kinds)].sql()
			switch x[1] {
			case 0:
				rejected(c, u+[]string{"", ";", "; ", "\n"}[x[2]%4])
			case 1:
				rejected(c, u+"; "+k)
			case 2:
				rejected(c, k+"; "+u)
			case 3:
				rejected(c, k+"; "+u+"; "+k2)
			default:
				rejected(c, k+"; "+k2+"; "+u+";")
			}
		})
		d2 := dims{len(unsupported), 2}
		r.Block("unsupported-lower", d2.size(), func(i int, c *Case) {
			x := d2.at(i)
			t := strings.ToLower(unsupported[x[0]])
			if x[0] > 0 && (strings.Contains(t, "index i (b)") || strings.Contains(t, "key k (b)") || strings.HasPrefix(t, "alter table t add ")) {
				return // only recognised in upper case
			}
			if x[1] == 1 {
				t = "/* c */ " + t + " -- c"
			}
			rejected(c, t)
		})
		reps := repStmts()
		type rc struct {
			text string
		}
		rcs := []rc{}
		for _, line := range strings.Split(rejectedList, "\n") {
			f := strings.Fields(line)
			if len(f) < 3 || f[0] == "#" {
				continue
			}
			for _, rj := range rejections {
				if rj.name != f[0] {
					continue
				}
				for _, k := range f[2:] {
					rcs = append(rcs, rc{rj.at(reps[atoi(f[1])], atoi(k))})
				}
			}
		}
		r.Block("changed-tokens", len(rcs), func(i int, c *Case) { rejected(c, rcs[i].text) })
		r.Block("changed-tokens-in-scripts", len(rcs), func(i int, c *Case) {
			if rcs[i].text == "" || strings.HasSuffix(rcs[i].text, ";") {
				return
			}
			rejected(c, "SELECT a FROM t; "+rcs[i].text)
		})
		// Trailing characters that are never part of a statement.
		junk := []string{")", "(", ",", "=", "]", "[", "<", ">", "!", "\\", "{", "}", "^", ".", "|", "+", "#", "'", "\"", "`", "'x", "1a(", ") ;", "~"}
		d3 := dims{len(reps), len(junk), 2}
		r.Block("trailing", d3.size(), func(i int, c *Case) {
			x := d3.at(i)
			t := reps[x[0]].sql() + " " + junk[x[1]]
			if x[2] == 1 {
				t = reps[x[0]].sql() + "; " + junk[x[1]]
			}
			rejected(c, t)
		})
		r.Block("lost-parts", len(lossy), func(i int, c *Case) {
			l := lossy[i]
			c.In(l.text)
			c.Step(1)
			stmts, err := parse(l.text)
			if err != nil {
				return
			}
			if len(stmts) != 1 || !reports(stmts[0], l.lost) {
				c.Failf("accepted without its %s: %s", l.lost, obsParse(stmts, nil))
			}
			c.Trace()
		})
	}})
}

// reports says whether a statement reports or prints a part.
func reports(s query.Statement, part string) bool {
	return strings.Contains(s.String(), part) || strings.Contains(obsStmt(s), part)
}
