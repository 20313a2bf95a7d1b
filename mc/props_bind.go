package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"

	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/stmt"
)

// bindText is a query: fixed text, and placeholders that are written between { and }: {0} is the first parameter.
// The names of the model: the same query with the values written as literals.
type bindForm int

const (
	bindQ      bindForm = iota // every placeholder is a ?; the template uses its parameters in order
	bindDollar                 // every placeholder is $n
)

// bindCase is one bound query: the query as it is bound and as the values would be written by hand.
func bindExpand(tmpl string, form bindForm, lits []string) (bound, written string) {
	b, w := strings.Builder{}, strings.Builder{}
	for i := 0; i < len(tmpl); {
		if tmpl[i] == '{' {
			j := i + strings.IndexByte(tmpl[i:], '}')
			k := atoi(tmpl[i+1 : j])
			if form == bindQ {
				b.WriteByte('?')
			} else {
				fmt.Fprintf(&b, "$%d", k+1)
			}
			w.WriteString(lits[k])
			i = j + 1
			continue
		}
		b.WriteByte(tmpl[i])
		w.WriteByte(tmpl[i])
		i++
	}
	return b.String(), w.String()
}

func bindParams(vals []any) stmt.BindParams {
	p := stmt.BindParams{}
	for _, v := range vals {
		p = append(p, stmt.NewBindParam(v))
	}
	return p
}

func bindRun(c *Case, q string, vals []any) ([]query.Statement, error) {
	c.In(fmt.Sprintf("%s with %s", q, showArgs(vals)))
	c.Step(1)
	return stmt.NewBindStatement(stmt.WithBindStatementQuery(q), stmt.WithBindStatementParams(bindParams(vals))).Statements()
}

// bindLit writes a value as a literal by hand.
func bindLit(v any) string {
	switch v := v.(type) {
	case string:
		return escape(v)
	case []byte:
		return escape(string(v))
	case nil:
		return "NULL"
	}
	return fmt.Sprint(v)
}

// bindObs is what a value is reported as.
func bindObs(v any) string {
	switch v := v.(type) {
	case string:
		return "S:" + q(v)
	case []byte:
		return "S:" + q(string(v))
	case nil:
		return `R:"NULL"`
	}
	return "R:" + q(norm(fmt.Sprint(v)))
}

// bindTemplate is a template and the observation of its statements, %0 standing for the value of parameter 0.
type bindTemplate struct {
	text string
	n    int // parameters, used in order by ?
	obs  string
}

// bindTemplates covers every place of a value and quoted text or comments around it.
func bindTemplates() []bindTemplate {
	sel := func(where string) string {
		return `SELECT distinct=false [*:"*"] from=["t"] where=` + where + ` group="" order=[] limit=0 offset=0`
	}
	upd := func(set, where string) string { return `UPDATE "t" [` + set + `] where=` + where }
	return []bindTemplate{
		{"INSERT INTO t (a) VALUES ({0})", 1, `INSERT "t" ("a"=%0)`},
		{"INSERT INTO t (a, b) VALUES ({0}, {1})", 2, `INSERT "t" ("a"=%0, "b"=%1)`},
		{"INSERT INTO t (a, b) VALUES ({0}, 'x'), ('?', {1})", 2, `INSERT "t" ("a"=%0, "b"=S:"x") ("a"=S:"?", "b"=%1)`},
		{"INSERT INTO t (a,b) VALUES({0},{1}),({2},{3})", 4, `INSERT "t" ("a"=%0, "b"=%1) ("a"=%2, "b"=%3)`},
		{"UPDATE t SET a = {0} WHERE b = {1}", 2, upd(`"a"=%0`, "(b EQ %1)")},
		{"UPDATE t SET a={0},b={1} WHERE c>={2}", 3, upd(`"a"=%0, "b"=%1`, "(c GE %2)")},
		{"DELETE FROM t WHERE a = {0}", 1, `DELETE "t" where=(a EQ %0)`},
		{"DELETE FROM t WHERE a <> {0} AND b < {1}", 2, `DELETE "t" where=((a NEQ %0) AND (b LT %1))`},
		{"SELECT * FROM t WHERE a = {0}", 1, sel("(a EQ %0)")},
		{"SELECT * FROM t WHERE a = {0} OR b = {1}", 2, sel("((a EQ %0) OR (b EQ %1))")},
		{"SELECT * FROM t WHERE a={0} AND b={1};", 2, sel("((a EQ %0) AND (b EQ %1))")},
		{"SELECT * FROM t WHERE a = '?' AND b = {0}", 1, sel(`((a EQ S:"?") AND (b EQ %0))`)},
		{"SELECT * FROM t WHERE a = {0} AND b = '?'", 1, sel(`((a EQ %0) AND (b EQ S:"?"))`)},
		{"SELECT * FROM t WHERE a = '$1' AND b = {0}", 1, sel(`((a EQ S:"$1") AND (b EQ %0))`)},
		{"SELECT * FROM t WHERE a = {0} AND b = '$1''$1'", 1, sel(`((a EQ %0) AND (b EQ S:"$1'$1"))`)},
		{"SELECT * FROM t WHERE a = 'it''s ?' AND b = {0}", 1, sel(`((a EQ S:"it's ?") AND (b EQ %0))`)},
		{"SELECT * FROM t WHERE a = '--' AND b = {0}", 1, sel(`((a EQ S:"--") AND (b EQ %0))`)},
		{"SELECT * FROM t WHERE a = '/*' AND b = {0}", 1, sel(`((a EQ S:"/*") AND (b EQ %0))`)},
		{"SELECT * FROM t WHERE a = '\"' AND b = {0}", 1, sel(`((a EQ S:"\"") AND (b EQ %0))`)},
		{"SELECT * FROM t WHERE a = '`' AND b = {0}", 1, sel("((a EQ S:\"`\") AND (b EQ %0))")},
		{"SELECT * FROM t WHERE a = '[' AND b = {0}", 1, sel(`((a EQ S:"[") AND (b EQ %0))`)},
		{"SELECT * FROM t WHERE a = '\\' AND b = {0}", 1, sel(`((a EQ S:"\\") AND (b EQ %0))`)},
		{"SELECT * FROM t WHERE a = '' AND b = {0}", 1, sel(`((a EQ S:"") AND (b EQ %0))`)},
		{"SELECT * /* ? $1 ' */ FROM t WHERE a = {0}", 1, sel("(a EQ %0)")},
		{"SELECT * FROM t WHERE a = {0} /* ? $1 */", 1, sel("(a EQ %0)")},
		{"SELECT * FROM t WHERE /**/ a = {0} /* ' */ AND b = {1} /* ' */", 2, sel("((a EQ %0) AND (b EQ %1))")},
		{"SELECT * /*/ ? $1 ' */ FROM t WHERE a = {0} /*/*/ AND b = {1}", 2, sel("((a EQ %0) AND (b EQ %1))")},
		{"SELECT * /***/ FROM t /** ? **/ WHERE a = {0} /* /* ? */ AND b = {1} /*/ */", 2, sel("((a EQ %0) AND (b EQ %1))")},
		{"SELECT * -- ? $1 '\nFROM t WHERE a = {0}", 1, sel("(a EQ %0)")},
		{"-- $1 ?\nSELECT * FROM t WHERE a = {0} -- ?", 1, sel("(a EQ %0)")},
		{"SELECT * FROM t WHERE a = {0} --\nAND b = {1}", 2, sel("((a EQ %0) AND (b EQ %1))")},
		{"DELETE FROM t WHERE a = {0}; DELETE FROM t WHERE a = {1}", 2, `DELETE "t" where=(a EQ %0) | DELETE "t" where=(a EQ %1)`},
		{"INSERT INTO t (a) VALUES ('?'); INSERT INTO t (a) VALUES ({0}); DELETE FROM t WHERE b = {1}", 2,
			`INSERT "t" ("a"=S:"?") | INSERT "t" ("a"=%0) | DELETE "t" where=(b EQ %1)`},
	}
}

func (t bindTemplate) want(vals []any) string {
	out := t.obs
	// The templates have no % except the parameters.
	parts := strings.Split(out, "%")
	b := strings.Builder{}
	b.WriteString(parts[0])
	for _, p := range parts[1:] {
		b.WriteString(bindObs(vals[p[0]-'0']))
		b.WriteString(p[1:])
	}
	return b.String()
}

func bindObserve(stmts []query.Statement, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	out := []string{}
	for _, s := range stmts {
		out = append(out, obsStmt(s))
	}
	return strings.Join(out, " | ")
}

// bindStrings is every string of the alphabet up to the length.
func bindStrings(alpha []string, max int) []string {
	out := []string{}
	for i := 0; i < seqCount(len(alpha), max); i++ {
		b := strings.Builder{}
		for _, k := range seqAt(len(alpha), i) {
			b.WriteString(alpha[k])
		}
		out = append(out, b.String())
	}
	return out
}

var bindAlphabet = []string{"'", "?", "$1", "$2", "\"", "`", "\\", "--", "/*", "*/", ";", " ", "\n", "a", "1", "%", "["}

var bindOdd = []string{"NULL", "null", "TRUE", "0x10", "X'00'", "-1", "1e9", "CURRENT_DATE", "); DELETE FROM t; --", "' OR '1'='1", "a = ?", "$0", "$10", "$1$2", "?1", ":a", "@b",
	"\x00", "\t", "\r\n", "é", "日本語", "😀", "{0}", "%s", "%!d", "\\'", "\\\\", "''", "'''", "''''", "]", "SELECT", "a\x01b", " ", "  a  ", "\u00a0", "\ufeff", "\u2028"}

func init() {
	register(&Prop{ID: "C16", Rule: "every template (value position, quoted text and comments around it, one or several statements) with ? and with $n placeholders in every assignment of parameters, every value of the alphabet, is bound and the statements compared with the ones the model gives for these values", Run: func(r *Run) {
		tmpls := bindTemplates()
		strs := append(bindStrings(bindAlphabet, r.Pick(2, 3)), bindOdd...)
		check := func(c *Case, t bindTemplate, form bindForm, vals []any) {
			lits := []string{}
			for _, v := range vals {
				lits = append(lits, bindLit(v))
			}
			bound, _ := bindExpand(t.text, form, lits)
			stmts, err := bindRun(c, bound, vals)
			got := bindObserve(stmts, err)
			c.Eq("bound statements", got, t.want(vals))
			c.State(got)
			c.Trace()
		}

		// Every string at every place, the other parameters being a string that looks like a placeholder.
		type place struct {
			t    bindTemplate
			form bindForm
			p    int
		}
		places := []place{}
		for _, t := range tmpls {
			for p := 0; p < t.n; p++ {
				places = append(places, place{t, bindQ, p}, place{t, bindDollar, p})
			}
		}
		r.Block("every string at every place", len(strs)*len(places), func(i int, c *Case) {
			pl := places[i%len(places)]
			vals := make([]any, pl.t.n)
			for k := range vals {
				vals[k] = []any{"$1", 7, "?", "it's"}[k%4]
			}
			s := strs[i/len(places)]
			if (i/len(places))%5 == 4 {
				vals[pl.p] = []byte(s)
			} else {
				vals[pl.p] = s
			}
			check(c, pl.t, pl.form, vals)
		})

		// Long strings over the alphabet in one place.
		deep := bindStrings(bindAlphabet, r.Pick(3, 4))
		r.Block("long strings", len(deep)*2, func(i int, c *Case) {
			t := tmpls[0]
			check(c, t, bindForm(i%2), []any{deep[i/2]})
		})

		// Every pair of values.
		pair := append(bindStrings(bindAlphabet, r.Pick(1, 2)), bindOdd...)
		two := []bindTemplate{}
		for _, t := range tmpls {
			if t.n == 2 {
				two = append(two, t)
			}
		}
		d := dims{len(pair), len(pair), r.Pick(2, 3), 2}
		r.Block("pairs of strings", d.size(), func(i int, c *Case) {
			x := d.at(i)
			check(c, two[x[2]*2], bindForm(x[3]), []any{pair[x[0]], pair[x[1]]})
		})

		// Every use of $n by the places of a statement: repeated, out of order.
		maxP := r.Pick(4, 5)
		uses := [][]int{}
		for n := 1; n <= maxP; n++ {
			all := 1
			for k := 0; k < n; k++ {
				all *= n
			}
			for k := 0; k < all; k++ {
				u, v := make([]int, n), k
				for j := range u {
					u[j] = v % n
					v /= n
				}
				uses = append(uses, u)
			}
		}
		valSets := [][]any{{1, 2, 3, 4, 5}, {"$2", "$3", "$1", "$5", "$4"}, {"?", "'", "$1", "--", "/*"}, {"", " ", "$1$1", nil, -7}}
		ud := dims{len(uses), len(valSets), 3}
		r.Block("uses of numbered parameters", ud.size(), func(i int, c *Case) {
			x := ud.at(i)
			u := uses[x[0]]
			params := 1
			for _, k := range u {
				if k+1 > params {
					params = k + 1
				}
			}
			vals := valSets[x[1]][:params]
			used := make([]bool, params)
			var text, obs string
			switch x[2] {
			case 0, 1: // one INSERT of a row
				cols, ph, o := []string{}, []string{}, []string{}
				for j, k := range u {
					used[k] = true
					cols = append(cols, colName(j))
					ph = append(ph, fmt.Sprintf("$%d", k+1))
					o = append(o, q(colName(j))+"="+bindObs(vals[k]))
				}
				sep := ", "
				if x[2] == 1 {
					sep = ","
				}
				text = "INSERT INTO t (" + strings.Join(cols, ", ") + ") VALUES (" + strings.Join(ph, sep) + ")"
				obs = `INSERT "t" (` + strings.Join(o, ", ") + ")"
			case 2: // an UPDATE per use
				ts, o := []string{}, []string{}
				for _, k := range u {
					used[k] = true
					ts = append(ts, fmt.Sprintf("UPDATE t SET a = $%d WHERE b = $%d", k+1, k+1))
					o = append(o, `UPDATE "t" ["a"=`+bindObs(vals[k])+`] where=(b EQ `+bindObs(vals[k])+`)`)
				}
				text, obs = strings.Join(ts, ";"), strings.Join(o, " | ")
			}
			complete := true
			for _, b := range used {
				complete = complete && b
			}
			stmts, err := bindRun(c, text, vals)
			if complete {
				c.Eq("bound statements", bindObserve(stmts, err), obs)
			} else if err == nil {
				c.Failf("a parameter without a placeholder is accepted: %s", bindObserve(stmts, err))
			}
			c.Trace()
		})

		// Many parameters: $1 and $10, $100; in every rotation of the order.
		maxN := r.Pick(24, 130)
		type many struct{ n, rot, form int }
		ms := []many{}
		for n := 1; n <= maxN; n++ {
			step := 1
			if n > 16 {
				step = 5
			}
			for rot := 0; rot < n; rot += step {
				ms = append(ms, many{n, rot, 1}, many{n, rot, 2})
			}
			ms = append(ms, many{n, 0, 0})
		}
		for _, n := range []int{25, 31, 32, 33, 63, 64, 65, 99, 100, 101, 109, 110, 111, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 512, 999, 1000, 1001} {
			ms = append(ms, many{n, 0, 0}, many{n, 0, 1}, many{n, 0, 2}, many{n, n / 2, 1}, many{n, n - 1, 2})
		}
		r.Block("many parameters", len(ms), func(i int, c *Case) {
			m := ms[i]
			vals := []any{}
			for k := 0; k < m.n; k++ {
				switch k % 3 {
				case 0:
					vals = append(vals, fmt.Sprintf("$%d", m.n-k))
				case 1:
					vals = append(vals, 1000+k)
				default:
					vals = append(vals, fmt.Sprintf("v%d ?", k))
				}
			}
			cols, ph, o := []string{}, []string{}, []string{}
			for j := 0; j < m.n; j++ {
				k := (j + m.rot) % m.n
				if m.form == 2 {
					k = (m.n - 1 - j + m.rot) % m.n
				}
				cols = append(cols, colName(j))
				if m.form == 0 {
					ph = append(ph, "?")
				} else {
					ph = append(ph, fmt.Sprintf("$%d", k+1))
				}
				o = append(o, q(colName(j))+"="+bindObs(vals[k]))
			}
			stmts, err := bindRun(c, "INSERT INTO t ("+strings.Join(cols, ", ")+") VALUES ("+strings.Join(ph, ", ")+")", vals)
			c.Eq("bound statements", bindObserve(stmts, err), `INSERT "t" (`+strings.Join(o, ", ")+")")
			c.Trace()
		})

		// ? and $n in one query: the n-th ? is the n-th parameter, whatever the $n around it are.
		maxMix := r.Pick(5, 6)
		r.Block("mixed placeholders", seqCount(4, maxMix)*len(valSets), func(i int, c *Case) {
			u := seqAt(4, i/len(valSets))
			if len(u) == 0 {
				return
			}
			params, std := 0, 0
			at := []int{}
			for _, k := range u {
				if k == 3 {
					k = std
					std++
				}
				at = append(at, k)
				params = max(params, k+1)
			}
			if params > 5 {
				return
			}
			vals := valSets[i%len(valSets)][:params]
			used := make([]bool, params)
			cols, ph, o := []string{}, []string{}, []string{}
			complete := true
			for j, k := range u {
				used[at[j]] = true
				cols = append(cols, colName(j))
				if k == 3 {
					ph = append(ph, "?")
				} else {
					ph = append(ph, fmt.Sprintf("$%d", k+1))
				}
				o = append(o, q(colName(j))+"="+bindObs(vals[at[j]]))
			}
			for _, b := range used {
				complete = complete && b
			}
			stmts, err := bindRun(c, "INSERT INTO t ("+strings.Join(cols, ", ")+") VALUES ("+strings.Join(ph, ", ")+")", vals)
			if complete {
				c.Eq("bound statements", bindObserve(stmts, err), `INSERT "t" (`+strings.Join(o, ", ")+")")
			} else if err == nil {
				c.Failf("a parameter without a placeholder is accepted: %s", bindObserve(stmts, err))
			}
			c.Trace()
		})

		// Placeholders without blanks around them: the tokens beside them stay tokens of their own.
		tight := []string{
			"UPDATE t SET a = a-{0}", "UPDATE t SET a = a -{0} WHERE b = {1}", "UPDATE t SET a = b+{0}", "UPDATE t SET a = b*{0} WHERE c={1}", "UPDATE t SET a = b/{0}", "UPDATE t SET a={0}WHERE b={1}",
			"SELECT * FROM t WHERE a={0}AND b={1}", "SELECT * FROM t WHERE a={0}OR b={1}", "SELECT * FROM t WHERE a>{0}AND b<{1}", "SELECT * FROM t WHERE a<>{0}ORDER BY a", "SELECT * FROM t WHERE a={0}LIMIT 1",
			"SELECT * FROM t WHERE a={0}GROUP BY a", "SELECT * FROM t WHERE a IN({0},{1})", "SELECT * FROM t WHERE a BETWEEN{0}AND{1}", "SELECT * FROM t WHERE a LIKE{0}", "SELECT * FROM t WHERE a-{0}=1",
			"DELETE FROM t WHERE a={0};DELETE FROM t WHERE b={1}", "DELETE FROM t WHERE a={0}--x\nAND b={1}", "DELETE FROM t WHERE a={0}/*x*/AND b={1}", "INSERT INTO t(a,b)VALUES({0},{1})", "INSERT INTO t(a)VALUES({0}),({1})",
			"INSERT INTO t(a)VALUES(-{0})",
		}
		tightVals := []any{1, -1, 0, -7.5, 1.5, "", "-", "--", "a", "'", "?", "$1", "x'", nil, true, false, int8(-128), uint64(math.MaxUint64), []byte("-1"), "AND", "1"}
		tdm := dims{len(tight), len(tightVals), len(tightVals), 2}
		r.Block("placeholders without blanks", tdm.size(), func(i int, c *Case) {
			x := tdm.at(i)
			text := tight[x[0]]
			n := strings.Count(text, "{")
			if n == 1 && x[2] != 0 {
				return
			}
			vals := []any{tightVals[x[1]], tightVals[x[2]]}[:n]
			lits := []string{}
			for _, v := range vals {
				lits = append(lits, " "+bindLit(v)+" ")
			}
			bound, written := bindExpand(text, bindForm(x[3]), lits)
			stmts, err := bindRun(c, bound, vals)
			ps, perr := parse(written)
			if perr != nil && err != nil {
				return
			}
			c.Eq("bound statements", bindObserve(stmts, err), bindObserve(ps, perr))
			c.Trace()
		})

		// Parameters without a placeholder.
		extra := []string{}
		for _, t := range tmpls {
			for f := bindQ; f <= bindDollar; f++ {
				b, _ := bindExpand(t.text, f, make([]string, t.n))
				extra = append(extra, fmt.Sprintf("%d\x00%s", t.n, b))
			}
		}
		extra = append(extra, "0\x00SELECT * FROM t WHERE a = '?'", "0\x00SELECT * FROM t WHERE a = '$1'", "0\x00SELECT * FROM t /* $1 ? */", "0\x00SELECT * FROM t -- ? $1",
			"0\x00SELECT * FROM t", "0\x00DELETE FROM t WHERE a = 'a''?'", "0\x00SELECT * FROM t WHERE a = 1", "0\x00",
			"0\x00SELECT * FROM t WHERE a = $0", "0\x00SELECT * FROM t /*/ ? $1 */", "0\x00SELECT * FROM t WHERE a = $", "0\x00SELECT * FROM t WHERE a = '$1''?'", "0\x00SELECT * FROM t --\r? $1", "0\x00SELECT * FROM t -- ? /*\n")
		ed := dims{len(extra), 4, 6}
		r.Block("parameters without a placeholder", ed.size(), func(i int, c *Case) {
			x := ed.at(i)
			n, text, _ := strings.Cut(extra[x[0]], "\x00")
			vals := []any{}
			for k := 0; k < atoi(n)+1+x[1]; k++ {
				switch x[2] {
				case 4:
					vals = append(vals, 1)
				case 5:
					vals = append(vals, "a")
				default:
					vals = append(vals, []any{"?", 1, "$1", nil}[(k+x[2])%4])
				}
			}
			if stmts, err := bindRun(c, text, vals); err == nil {
				c.Failf("a parameter without a placeholder is accepted: %s", bindObserve(stmts, err))
			}
			c.Trace()
		})

		// Places whose text is kept as it is written, and quoted names: as if the values were written by hand.
		raws := []bindTemplate{
			{text: "SELECT * FROM t WHERE a IN ({0}, {1})", n: 2}, {text: "SELECT * FROM t WHERE a LIKE {0}", n: 1}, {text: "SELECT * FROM t WHERE a BETWEEN {0} AND {1}", n: 2},
			{text: "DELETE FROM t WHERE NOT a = {0}", n: 1}, {text: "UPDATE t SET a = {0} WHERE (a = {1} OR b = {2}) AND c = {3}", n: 4}, {text: "SELECT ABS({0}) FROM t WHERE b = {1}", n: 2},
			{text: "SELECT * FROM t WHERE `a?` = '?' AND b = {0}", n: 1}, {text: "SELECT * FROM t WHERE \"a$1\" = '?' AND b = {0}", n: 1}, {text: "SELECT * FROM t WHERE [a?] = '$1' AND b = {0}", n: 1},
			{text: "SELECT * FROM t WHERE [it's] = {0} AND [x'] = {1}", n: 2}, {text: "SELECT * FROM t WHERE `it's` = {0} AND `x'` = {1}", n: 2},
			{text: "UPDATE t SET a = b + {0} WHERE c = {1}", n: 2}, {text: "UPDATE t SET a = UPPER({0})", n: 1},
		}
		rvals := append(bindStrings(bindAlphabet, 1), bindOdd...)
		rd := dims{len(raws), len(rvals), 2}
		r.Block("text places", rd.size(), func(i int, c *Case) {
			x := rd.at(i)
			t := raws[x[0]]
			vals, lits := []any{}, []string{}
			for k := 0; k < t.n; k++ {
				v := any(rvals[(x[1]+7*k)%len(rvals)])
				vals = append(vals, v)
				lits = append(lits, bindLit(v))
			}
			bound, written := bindExpand(t.text, bindForm(x[2]), lits)
			stmts, err := bindRun(c, bound, vals)
			ps, perr := parse(written)
			if perr != nil && err != nil {
				return
			}
			c.Eq("bound statements", bindObserve(stmts, err), bindObserve(ps, perr))
			c.Trace()
		})
		lims := []int{0, 1, 2, 10, 12345}
		ld := dims{len(lims), len(lims), 4}
		r.Block("limits", ld.size(), func(i int, c *Case) {
			x := ld.at(i)
			l, o := lims[x[0]], lims[x[1]]
			var stmts []query.Statement
			var err error
			switch x[2] {
			case 0:
				stmts, err = bindRun(c, "SELECT * FROM t LIMIT ? OFFSET ?", []any{l, o})
			case 1:
				stmts, err = bindRun(c, "SELECT * FROM t LIMIT $2 OFFSET $1", []any{o, l})
			case 2:
				stmts, err = bindRun(c, "SELECT * FROM t LIMIT ?, ?", []any{o, l})
			case 3:
				stmts, err = bindRun(c, "SELECT * FROM t LIMIT $1,$2", []any{o, l})
			}
			c.Eq("bound statements", bindObserve(stmts, err), fmt.Sprintf(`SELECT distinct=false [*:"*"] from=["t"] where=NONE group="" order=[] limit=%d offset=%d`, l, o))
			c.Trace()
		})

		// Numbers of every type keep their value.
		nums := []any{}
		for _, k := range []int64{0, 1, -1, 9, 10, 42, 127, -128} {
			nums = append(nums, int(k), int8(k), int16(k), int32(k), k, float32(k), float64(k))
			if k >= 0 {
				nums = append(nums, uint(k), uint8(k), uint16(k), uint32(k), uint64(k))
			}
		}
		for b := 1; b <= 63; b++ {
			for d := int64(-1); d <= 1; d++ {
				v := int64(uint64(1)<<b) + d
				nums = append(nums, v, -v, int(v), uint64(v), uint64(1)<<b+uint64(d))
				if f := float64(v); !math.IsInf(f, 0) {
					nums = append(nums, f, -f, 1/f)
				}
				if b < 32 {
					nums = append(nums, int32(v), uint32(v))
				}
			}
		}
		for e := -320; e <= 308; e += 4 {
			v, _ := strconv.ParseFloat(fmt.Sprintf("1.2345678901234567e%d", e), 64)
			nums = append(nums, v, -v)
			if math.Abs(float64(e)) < 38 {
				nums = append(nums, float32(v), float32(-v))
			}
		}
		nums = append(nums, 0.1, 0.5, 1.5, 123.456, 1e6, 1e20, 1e21, 1e-7, math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxInt64, math.MinInt64, uint64(math.MaxUint64), float32(0.1), float32(1e10), float32(math.MaxFloat32),
			int8(math.MinInt8), int16(math.MinInt16), int16(math.MaxInt16), int32(math.MinInt32), int32(math.MaxInt32), uint16(math.MaxUint16), uint8(255))
		r.Block("numbers", len(nums)*2, func(i int, c *Case) {
			v := nums[i/2]
			stmts, err := bindRun(c, []string{"INSERT INTO t (a) VALUES (?)", "UPDATE t SET a = $1"}[i%2], []any{v})
			if err != nil || len(stmts) != 1 {
				c.Failf("%v", bindObserve(stmts, err))
				return
			}
			var cols query.Columns
			switch s := stmts[0].(type) {
			case query.Insert:
				cols = s.Columns()
			case query.Update:
				cols = s.Columns()
			}
			if len(cols) != 1 || cols[0].Name() != "a" {
				c.Failf("%v", bindObserve(stmts, err))
				return
			}
			text := strings.ReplaceAll(fmt.Sprint(cols[0].Value()), " ", "")
			got, ok := new(big.Rat).SetString(text)
			want := new(big.Rat)
			bits := 64
			switch n := v.(type) {
			case float32:
				bits = 32
				want.SetFloat64(float64(n))
			case float64:
				want.SetFloat64(n)
			default:
				want.SetString(fmt.Sprint(n))
			}
			if !ok {
				c.Failf("not a number: %s", obsStmt(stmts[0]))
				return
			}
			switch v.(type) {
			case float32, float64:
				// The text must read back as the same floating point number.
				if f, err := strconv.ParseFloat(text, bits); err != nil || new(big.Rat).SetFloat64(f).Cmp(want) != 0 {
					c.Failf("value %s", text)
				}
			default:
				if got.Cmp(want) != 0 {
					c.Failf("value %s", text)
				}
			}
			if o := obsStmt(stmts[0]); strings.Contains(o, `"a"=S:`) {
				c.Failf("the number is a string: %s", o)
			}
			c.Trace()
		})

		// Other values.
		others := []struct {
			v   any
			obs []string
		}{
			{nil, []string{`R:"NULL"`}}, {true, []string{`R:"true"`, `R:"TRUE"`, `R:"1"`}}, {false, []string{`R:"false"`, `R:"FALSE"`, `R:"0"`}},
			{time.Date(2024, 2, 29, 13, 5, 9, 0, time.UTC), []string{`S:"2024-02-29 13:05:09"`}},
			{time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC), []string{`S:"0001-01-01 00:00:00"`}},
			{time.Date(1999, 12, 31, 23, 59, 59, 123456000, time.UTC), []string{`S:"1999-12-31 23:59:59.123456"`}},
			{time.Date(1999, 12, 31, 23, 59, 59, 120000000, time.UTC), []string{`S:"1999-12-31 23:59:59.120000"`, `S:"1999-12-31 23:59:59.12"`}},
			{time.Date(1999, 12, 31, 23, 59, 59, 1000, time.UTC), []string{`S:"1999-12-31 23:59:59.000001"`}},
			{time.Date(2024, 2, 29, 13, 5, 9, 0, time.FixedZone("", 9*3600)), []string{`S:"2024-02-29 13:05:09"`}},
			{time.Date(2024, 12, 31, 23, 5, 9, 5000, time.FixedZone("X", -5*3600-1800)), []string{`S:"2024-12-31 23:05:09.000005"`}},
			{[]byte{}, []string{`S:""`}}, {[]byte("a'b?"), []string{`S:"a'b?"`}}, {"", []string{`S:""`}},
		}
		od := dims{len(others), 4}
		r.Block("other values", od.size(), func(i int, c *Case) {
			x := od.at(i)
			o := others[x[0]]
			t := [][2]string{{"INSERT INTO t (a) VALUES (?)", `INSERT "t" ("a"=`}, {"INSERT INTO t (a) VALUES ($1)", `INSERT "t" ("a"=`},
				{"DELETE FROM t WHERE a = ?", `DELETE "t" where=(a EQ `}, {"DELETE FROM t WHERE a=$1", `DELETE "t" where=(a EQ `}}[x[1]]
			stmts, err := bindRun(c, t[0], []any{o.v})
			got := bindObserve(stmts, err)
			for _, w := range o.obs {
				if got == t[1]+w+")" {
					c.Trace()
					return
				}
			}
			c.Failf("%s, want one of %v", got, o.obs)
		})

		// A bind statement gives the same statements again, and other statements are not affected.
		r.Block("reuse", len(tmpls)*2*len(valSets), func(i int, c *Case) {
			t := tmpls[i%len(tmpls)]
			form := bindForm(i / len(tmpls) % 2)
			vals := append([]any{}, valSets[i/len(tmpls)/2][:t.n]...)
			bound, _ := bindExpand(t.text, form, make([]string, t.n))
			c.In(bound)
			params := bindParams(vals)
			a := stmt.NewBindStatement(stmt.WithBindStatementQuery(bound), stmt.WithBindStatementParams(params))
			b := stmt.NewBindStatement(stmt.WithBindStatementParams(params), stmt.WithBindStatementQuery("DELETE FROM x"))
			first := bindObserve(a.Statements())
			c.Eq("bound statements", first, t.want(vals))
			_, err := b.Statements()
			if err == nil {
				c.Failf("a parameter without a placeholder is accepted")
			}
			c.Eq("bound again", bindObserve(a.Statements()), first)
			c.Step(3)
			c.Trace()
		})
		r.Extra("strings", len(strs))
		r.Extra("templates", len(tmpls))
	}})
}
