package main

import (
	"fmt"
	"regexp"
	"strings"
)

// lengths are the list lengths swept: every small one and the neighbourhoods of larger powers.
func lengths(r *Run) []int {
	out := []int{}
	for i := 1; i <= r.Pick(40, 130); i++ {
		out = append(out, i)
	}
	big := []int{63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 512, 1000}
	if r.Thorough() {
		big = []int{100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025}
	}
	return append(out, big...)
}

// namer names the columns of a list of n: by letters, and by numbers for an odd n.
func namer(n int) func(k int) string {
	if n%2 == 1 {
		return colName
	}
	return func(k int) string {
		letter := string(rune('a' + k%26))
		switch {
		case k < 26:
			return letter
		case k < 52:
			return "x" + letter
		}
		return colName(k)
	}
}

// nameLengths are the identifier lengths swept.
func nameLengths(r *Run) []int {
	out := []int{}
	for i := 1; i <= r.Pick(130, 600); i++ {
		out = append(out, i)
	}
	return append(out, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000)
}

// wordsLike are identifiers that look like keywords, functions or numbers.
var wordsLike = []string{
	"a", "A", "z", "Z", "_", "_a", "a1", "aB", "Ab", "AB", "a_b", "x9", "selects", "select1", "from1", "froms", "where_", "orderby", "order_1",
	"groups", "group1", "bys", "limits", "limit1", "offset1", "ascii", "asc1", "descr", "desc1", "distinct1", "alls", "values1",
	"nulls1", "trueish", "falsey", "current_times", "counts", "count1", "sums", "minx", "maxx", "avgs", "absx", "abs1", "now1", "pi1", "e", "E", "x", "X",
	"e1", "x1", "inner1", "primarykey", "key1", "indexes", "tables", "table1", "inta", "text1", "sets", "set1", "intoo", "andy", "orx", "nota", "inx",
	"like1", "between1", "isx", "exists1", "begin1", "commits", "used", "copyx", "vacuums", "truncated", "altered", "dropped", "columnx", "renamed", "too", "onx",
	"_1", "__", "id", "ID", "name", "Name", "value", "user", "users", "data", "price", "age", "col", "col1", "foo", "bar", "test", "total", "number", "status", "description", "createdat", "t", "s", "k", "v",
}

func longName(n int) string {
	const abc = "abcdefghijklmnopqrstuvwxyz0123456789_ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	b := make([]byte, n)
	for i := range b {
		b[i] = abc[(i*7+n)%len(abc)]
	}
	b[0] = 'n'
	return string(b)
}

func colName(i int) string { return fmt.Sprintf("c%d", i) }

// numbers are the numeric literals swept.
var numberText = regexp.MustCompile(`^([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?$`)

func numbers(r *Run) []string {
	out := []string{"0", "1", "2", "9", "10", "00", "007", "0.0", "0.5", ".5", "1.", "1.25", "3.14159265358979323846264338327950288", "1e3", "1E3", "1e+3", "1e-3",
		"2.5e10", "1e308", "1e309", "1e-400", "123456789012345678901234567890", "0.000000000000000000000000000001"}
	for k := 1; k <= 66; k++ {
		p := pow2(k)
		for _, d := range []int{-1, 0, 1} {
			out = append(out, bigAdd(p, d))
		}
	}
	for _, s := range texts([]string{"0", "1", "7", ".", "e", "E", "+", "-"}, r.Pick(5, 6)) {
		if numberText.MatchString(s) {
			out = append(out, s)
		}
	}
	neg := []string{}
	for _, s := range out {
		neg = append(neg, "-"+s)
	}
	out = append(out, neg...)
	return append(out, "+1", "+1.5")
}

func pow2(k int) string {
	d := []int{1}
	for i := 0; i < k; i++ {
		c := 0
		for j := range d {
			v := d[j]*2 + c
			d[j], c = v%10, v/10
		}
		if c > 0 {
			d = append(d, c)
		}
	}
	sb := strings.Builder{}
	for j := len(d) - 1; j >= 0; j-- {
		sb.WriteByte(byte('0' + d[j]))
	}
	return sb.String()
}

func bigAdd(s string, n int) string {
	b := []byte(s)
	for j := len(b) - 1; j >= 0 && n != 0; j-- {
		v := int(b[j]-'0') + n
		switch {
		case v < 0:
			b[j], n = byte('0'+v+10), -1
		case v > 9:
			b[j], n = byte('0'+v-10), 1
		default:
			b[j], n = byte('0'+v), 0
		}
	}
	return string(b)
}

// basicLits are the kinds of literal values.
func basicLits() []mlit {
	return []mlit{
		lraw("1"), lraw("-2"), lraw("3.5"), lraw("1e10"), lstr("x"), lstr(""), lstr("it's"), lstr("NULL"), lstr("?"), lstr("a, b) (c"), lraw("NULL"), lraw("TRUE"), lraw("FALSE"),
		lraw("x'0AFF'"), lraw("CURRENT_TIMESTAMP"), lraw("CURRENT_DATE"), lraw("CURRENT_TIME"), lq,
	}
}

// baseSels are the selectors used in the cross products.
func baseSels() []msel {
	return []msel{
		sstar(), scol("a"), scol("Bb"), sqcol(mname{"t", "a"}), sfn("COUNT", pu("*")), sfn("SUM", id("a")), sfn("min", id("b")), sfn("Max", id("t.a")),
		sfn("AVG", id("a")), sfn("ABS", id("a")), sfn("UPPER", id("b")), sfn("POWER", id("a"), li("2")), sfn("NOW"), sfn("FOO", id("a"), id("b"), id("c")),
	}
}

func baseOrders() [][]mord {
	return [][]mord{
		nil, {{"a", ""}}, {{"a", "ASC"}}, {{"a", "DESC"}}, {{"a", ""}, {"b", "DESC"}}, {{"b", "DESC"}, {"a", ""}}, {{"t.a", "DESC"}, {"b", "ASC"}, {"c", ""}},
	}
}

func baseConds() []mcond {
	return []mcond{
		{}, mcmp("a", 0, lraw("1")), mcmp("b", 4, lstr("x y")), mlog("AND", mcmp("a", 3, lraw("1")), mcmp("b", 0, lstr("x"))),
		mlog("OR", mcmp("b", 1, lq), mcmp("a", 6, lraw("-1.5"))), mraw(cat(id("a"), kw("IN"), pu("("), li("1"), pu(","), li("2"), pu(")"))),
		mraw(cat(id("a"), kw("IS NOT NULL"))), mraw(cat(id("b"), kw("BETWEEN"), li("1"), kw("AND"), li("2"))),
	}
}

func baseLimits() []mlimit {
	return []mlimit{{}, {1, 1, 0}, {1, 100, 0}, {2, 5, 3}, {3, 5, 3}, {2, 1, 0}, {3, 7, 0}}
}

func baseTables() [][]mname {
	return [][]mname{{{"", "t"}}, {{"s", "t"}}, {{"", "t"}, {"", "u"}}, {{"s", "u"}, {"", "T"}, {"s2", "t"}}}
}

func selectSpaces(r *Run) []space {
	out := []space{}
	sels := [][]msel{}
	bs := baseSels()
	for _, k := range [][]int{{0}, {1}, {3}, {4}, {1, 2}, {5, 1}, {9, 4, 2}, {13, 0}} {
		l := []msel{}
		for _, x := range k {
			l = append(l, bs[x])
		}
		sels = append(sels, l)
	}
	if r.Thorough() {
		for i := range bs {
			sels = append(sels, []msel{bs[i], bs[(i*5+3)%len(bs)]})
		}
	}
	dist := []string{"", "DISTINCT", "ALL"}
	froms, conds, orders, limits := baseTables(), baseConds(), baseOrders(), baseLimits()
	groups := []string{"", "a", "t.a"}
	if !r.Thorough() {
		conds, orders, limits = conds[:5], orders[:6], limits[:5]
		froms = [][]mname{froms[1], froms[3]}
	}
	d := dims{len(dist), len(sels), len(froms), len(conds), len(groups), len(orders), len(limits)}
	out = append(out, space{"select-clauses", d.size(), func(i int) mstmt {
		x := d.at(i)
		return mselect{dist[x[0]], sels[x[1]], froms[x[2]], conds[x[3]], groups[x[4]], orders[x[5]], limits[x[6]]}.stmt()
	}})
	depth := r.Pick(3, 4)
	out = append(out, space{"select-selectors", seqCount(len(bs), depth) - 1, func(i int) mstmt {
		l := []msel{}
		for _, k := range seqAt(len(bs), i+1) {
			l = append(l, bs[k])
		}
		return mselect{sels: l, from: []mname{{"", "t"}}}.stmt()
	}})
	ot := []mord{}
	for _, c := range []string{"a", "b", "t.a"} {
		for _, dr := range []string{"", "ASC", "DESC"} {
			ot = append(ot, mord{c, dr})
		}
	}
	out = append(out, space{"select-orders", seqCount(len(ot), r.Pick(3, 5)) - 1, func(i int) mstmt {
		l := []mord{}
		for _, k := range seqAt(len(ot), i+1) {
			l = append(l, ot[k])
		}
		return mselect{sels: []msel{sstar()}, from: []mname{{"", "t"}}, orders: l}.stmt()
	}})
	// Expressions of several tokens as function arguments, group and order terms.
	ne := len(exprTexts)
	de := dims{ne, ne, 5}
	out = append(out, space{"select-expressions", de.size(), func(i int) mstmt {
		x := de.at(i)
		e, f := exprTexts[x[0]], exprTexts[x[1]]
		m := mselect{sels: []msel{scol("a")}, from: []mname{{"", "t"}}}
		switch x[2] {
		case 0:
			m.sels = []msel{sfn("MAX", exprToks(e)), sfn("foo", exprToks(f))}
		case 1:
			m.sels = []msel{sfn("POWER", exprToks(e), exprToks(f)), scol("b")}
		case 2:
			m.group, m.orders = e, []mord{{f, "DESC"}}
		case 3:
			m.orders, m.lim = []mord{{e, ""}, {f, "ASC"}}, mlimit{1, 3, 0}
		case 4:
			m.sels, m.group = []msel{sfn("COUNT", exprToks(f))}, e
			m.where = mcmp("a", 0, lraw("1"))
		}
		return m.stmt()
	}})
	tt := []mname{{"", "t"}, {"", "u"}, {"s", "t"}, {"t", "s"}, {"S", "T"}}
	out = append(out, space{"select-tables", seqCount(len(tt), r.Pick(4, 6)) - 1, func(i int) mstmt {
		l := []mname{}
		for _, k := range seqAt(len(tt), i+1) {
			l = append(l, tt[k])
		}
		return mselect{sels: []msel{scol("a")}, from: l, where: mcmp("a", 0, lraw("1"))}.stmt()
	}})
	// Limits and offsets.
	nums := []int{}
	for i := 1; i <= 20; i++ {
		nums = append(nums, i)
	}
	for k := 5; k <= 62; k++ {
		if r.Thorough() || k%8 == 0 || k == 31 || k == 53 || k == 62 {
			nums = append(nums, 1<<k-1, 1<<k, 1<<k+1)
		}
	}
	small := []int{1, 2, 10, 255, 1000, 1 << 31, 1<<62 + 1}
	dl := dims{len(nums), len(small), 6}
	out = append(out, space{"select-limits", dl.size(), func(i int) mstmt {
		x := dl.at(i)
		l := mlimit{1, nums[x[0]], 0}
		switch x[2] {
		case 1:
			l = mlimit{2, nums[x[0]], small[x[1]]}
		case 2:
			l = mlimit{2, small[x[1]], nums[x[0]]}
		case 3:
			l = mlimit{3, small[x[1]], nums[x[0]]}
		case 4: // no limit
			l = mlimit{2 + x[1]%2, 0, nums[x[0]]}
		case 5: // no offset
			l = mlimit{2 + x[1]%2, nums[x[0]], 0}
		}
		return mselect{sels: []msel{scol("a")}, from: []mname{{"", "t"}}, lim: l}.stmt()
	}})
	// Long lists.
	ls := lengths(r)
	out = append(out, space{"select-long-lists", len(ls) * 5, func(i int) mstmt {
		colName := namer(ls[i/5])
		n := ls[i/5]
		m := mselect{sels: []msel{scol("a")}, from: []mname{{"", "t"}}}
		switch i % 5 {
		case 0:
			m.sels = nil
			for k := 0; k < n; k++ {
				m.sels = append(m.sels, scol(colName(k)))
			}
		case 1:
			m.from = nil
			for k := 0; k < n; k++ {
				m.from = append(m.from, mname{"", fmt.Sprintf("t%d", k)})
			}
		case 2:
			for k := 0; k < n; k++ {
				m.orders = append(m.orders, mord{colName(k), []string{"", "ASC", "DESC"}[k%3]})
			}
		case 3:
			a := []toks{}
			for k := 0; k < n; k++ {
				a = append(a, id(colName(k)))
			}
			m.sels = []msel{sfn("FOO", a...)}
		case 4:
			m.sels = nil
			fns := []string{"COUNT", "sum", "MIN", "Max", "AVG", "ABS", "upper"}
			for k := 0; k < n; k++ {
				m.sels = append(m.sels, sfn(fns[k%len(fns)], id(colName(k))))
			}
		}
		return m.stmt()
	}})
	// Names.
	nn := append([]string{}, wordsLike...)
	for _, n := range nameLengths(r) {
		nn = append(nn, longName(n))
	}
	out = append(out, space{"select-names", len(nn) * 5, func(i int) mstmt {
		n := nn[i/5]
		m := mselect{sels: []msel{scol("a")}, from: []mname{{"", "t"}}}
		switch i % 5 {
		case 0:
			m.sels = []msel{scol(n), sqcol(mname{"t", n}), sfn("COUNT", id(n))}
		case 1:
			m.from = []mname{{"", n}, {"s", n}, {n, "t"}}
		case 2:
			m.group = n
		case 3:
			m.orders = []mord{{n, ""}, {n, "DESC"}}
		case 4:
			m.where = mcmp(n, 0, lraw("1"))
		}
		return m.stmt()
	}})
	// Functions: every registered name in three spellings and 0 to 3 arguments of different kinds.
	args := []toks{id("a"), id("t.b"), li("1"), li("-2.5"), li("'x y'"), pu("*")}
	fnames := []string{}
	for n := range fnTypes {
		if n != "CURRENT_TIMESTAMP" {
			fnames = append(fnames, n)
		}
	}
	fnames = append(fnames, "FOO", "concat", "COUNTX", "SU", "Version")
	sortStrings(fnames)
	nargs := seqCount(len(args), r.Pick(2, 3))
	df := dims{len(fnames), 3, nargs}
	out = append(out, space{"select-functions", df.size(), func(i int) mstmt {
		x := df.at(i)
		n := fnames[x[0]]
		switch x[1] {
		case 0:
			n = strings.ToUpper(n)
		case 1:
			n = strings.ToLower(n)
		case 2:
			n = strings.ToUpper(n[:1]) + strings.ToLower(n[1:])
		}
		l := []toks{}
		sq := seqAt(len(args), x[2])
		for _, k := range sq {
			if len(sq) > 1 && args[k][0].s == "*" {
				l = append(l, id("c"))
				continue
			}
			l = append(l, args[k])
		}
		return mselect{sels: []msel{sfn(n, l...)}, from: []mname{{"", "t"}}}.stmt()
	}})
	return out
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func insertSpaces(r *Run) []space {
	out := []space{}
	lits := basicLits()
	t := mname{"", "t"}
	few := []mlit{lits[0], lits[1], lits[4], lits[5], lits[6], lits[10], lits[13], lits[17]}
	if r.Thorough() {
		few = lits
	}
	d := dims{len(few), len(few), len(few)}
	out = append(out, space{"insert-values", d.size(), func(i int) mstmt {
		x := d.at(i)
		return minsert{tbl: t, cols: []string{"a", "b", "c"}, rows: [][]mlit{{few[x[0]], few[x[1]], few[x[2]]}}}.stmt()
	}})
	// Values which are expressions, at every position between other values.
	vals := []mlit{lraw("1"), lstr("x"), lq}
	for _, e := range append([]string{"UPPER ( 'x' )", "'x' || 'y~z'", "( 1 )", "NOT 1", "- 1", "CAST ( 1 AS INT )"}, exprTexts...) {
		vals = append(vals, mtext(exprToks(e)))
	}
	de := dims{len(vals), len(vals), 4}
	out = append(out, space{"insert-expressions", de.size(), func(i int) mstmt {
		x := de.at(i)
		v, w := vals[x[0]], vals[x[1]]
		m := minsert{tbl: t, cols: []string{"a", "b", "c"}, rows: [][]mlit{{v, lraw("7"), w}}}
		switch x[2] {
		case 1:
			m.rows = [][]mlit{{v, w, lstr("z")}, {lraw("7"), v, v}}
		case 2:
			m.cols = nil
		case 3:
			m.cols, m.rows = []string{"b", "a"}, [][]mlit{{w, v}, {v, w}}
		}
		return m.stmt()
	}})
	dk := dims{len(lits), len(lits), 2, 2}
	out = append(out, space{"insert-value-kinds", dk.size(), func(i int) mstmt {
		x := dk.at(i)
		m := minsert{tbl: t, cols: []string{"k", "v"}, rows: [][]mlit{{lits[x[0]], lits[x[1]]}, {lits[x[1]], lits[x[0]]}}}
		if x[2] == 1 {
			m.cols = nil
		}
		if x[3] == 1 {
			m.verb, m.tbl = "REPLACE", mname{"s", "t"}
		}
		return m.stmt()
	}})
	// Every order of four columns against two rows.
	perms := permutations(r.Pick(5, 6))
	out = append(out, space{"insert-column-orders", len(perms), func(i int) mstmt {
		m := minsert{tbl: mname{"s", "t"}}
		r0, r1 := []mlit{}, []mlit{}
		for n, k := range perms[i] {
			m.cols = append(m.cols, colName(k))
			r0 = append(r0, lraw(fmt.Sprint(n)))
			r1 = append(r1, lstr(fmt.Sprintf("v%d", k)))
		}
		m.rows = [][]mlit{r0, r1}
		return m.stmt()
	}})
	nums := numbers(r)
	out = append(out, space{"insert-numbers", len(nums), func(i int) mstmt {
		n := lraw(nums[i])
		return minsert{tbl: t, cols: []string{"a", "b"}, rows: [][]mlit{{n, lstr(nums[i])}, {lraw("1"), n}}}.stmt()
	}})
	dg := dims{7, 7, 3}
	out = append(out, space{"insert-shapes", dg.size(), func(i int) mstmt {
		x := dg.at(i)
		m := minsert{tbl: t}
		if x[2] == 1 {
			m.tbl = mname{"db", "T"}
		}
		for c := 0; c <= x[0]; c++ {
			m.cols = append(m.cols, colName(c))
		}
		for w := 0; w <= x[1]; w++ {
			row := []mlit{}
			for c := 0; c <= x[0]; c++ {
				switch (w + c) % 3 {
				case 0:
					row = append(row, lraw(fmt.Sprint(w*100+c)))
				case 1:
					row = append(row, lstr(fmt.Sprintf("r%dc%d", w, c)))
				default:
					row = append(row, lits[(w*7+c)%len(lits)])
				}
			}
			m.rows = append(m.rows, row)
		}
		if x[2] == 2 {
			m.cols = nil
		}
		return m.stmt()
	}})
	ls := lengths(r)
	out = append(out, space{"insert-long", len(ls) * 3, func(i int) mstmt {
		colName := namer(ls[i/3])
		n := ls[i/3]
		m := minsert{tbl: t}
		switch i % 3 {
		case 0:
			m.cols = []string{"a", "b"}
			for k := 0; k < n; k++ {
				m.rows = append(m.rows, []mlit{lraw(fmt.Sprint(k)), lstr(fmt.Sprint("v", k))})
			}
		case 1:
			row := []mlit{}
			for k := 0; k < n; k++ {
				m.cols = append(m.cols, colName(k))
				row = append(row, lraw(fmt.Sprint(k)))
			}
			m.rows = [][]mlit{row, row}
		case 2:
			row := []mlit{}
			for k := 0; k < n; k++ {
				row = append(row, lstr(fmt.Sprint(k)))
			}
			m.rows = [][]mlit{row}
		}
		return m.stmt()
	}})
	nn := append([]string{}, wordsLike...)
	for _, n := range nameLengths(r) {
		nn = append(nn, longName(n))
	}
	out = append(out, space{"insert-names", len(nn), func(i int) mstmt {
		n := nn[i]
		return minsert{tbl: mname{"", n}, cols: []string{n, n + "2", "q"}, rows: [][]mlit{{lraw("1"), lstr(n), lraw("3")}}}.stmt()
	}})
	return out
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	out := [][]int{}
	for _, p := range permutations(n - 1) {
		for k := 0; k <= len(p); k++ {
			x := append([]int{}, p[:k]...)
			x = append(x, n-1)
			out = append(out, append(x, p[k:]...))
		}
	}
	return out
}

// assigned are the right-hand sides of assignments to column a.
func assigned() []mlit {
	out := basicLits()
	for _, op := range []string{"+", "-", "*", "/", "%"} {
		out = append(out, marith("a", op, li("1")), marith("b", op, li("2.5")), marith("a", op, id("b")), marith("a", op, li("-1")), marith("a", op, li("?")))
	}
	return append(out,
		mtext(id("b")), mtext(cat(toks{{"ABS", 'f'}}, pu("("), id("b"), pu(")"))), mtext(cat(toks{{"NOW", 'f'}}, pu("("), pu(")"))),
		mtext(cat(toks{{"CONCAT", 'f'}}, pu("("), li("'x y'"), pu(","), id("b"), pu(")"))),
		mtext(cat(pu("("), id("a"), pu("+"), li("1"), pu(")"))), mtext(cat(id("a"), pu("||"), id("b"))), mtext(cat(pu("-"), id("a"))),
		mtext(cat(kw("NOT"), id("a"))))
}

func updateSpaces(r *Run) []space {
	out := []space{}
	as := assigned()
	conds := baseConds()
	tbls := []mname{{"", "t"}, {"s", "T"}}
	d := dims{len(as), len(conds), len(tbls)}
	out = append(out, space{"update-one", d.size(), func(i int) mstmt {
		x := d.at(i)
		return mupdate{tbls[x[2]], []mset{{"a", as[x[0]]}}, conds[x[1]]}.stmt()
	}})
	d2 := dims{len(as), len(as)}
	out = append(out, space{"update-two", d2.size(), func(i int) mstmt {
		x := d2.at(i)
		return mupdate{tbls[0], []mset{{"a", as[x[0]]}, {"b", as[x[1]]}}, conds[1]}.stmt()
	}})
	// Operands of several tokens.
	de := dims{len(exprTexts), 5, 2}
	out = append(out, space{"update-operands", de.size(), func(i int) mstmt {
		x := de.at(i)
		v := marith("a", []string{"+", "-", "*", "/", "%"}[x[1]], exprToks(exprTexts[x[0]]))
		sets := []mset{{"a", v}}
		if x[2] == 1 {
			sets = []mset{{"b", lraw("1")}, {"a", v}, {"c", lstr("x")}}
		}
		return mupdate{tbls[0], sets, conds[1]}.stmt()
	}})
	raws := rawConds()
	out = append(out, space{"update-conditions", len(raws) * 2, func(i int) mstmt {
		if i%2 == 1 {
			return mdelete(tbls[i/2%2], raws[i/2])
		}
		return mupdate{tbls[i/2%2], []mset{{"a", as[i/2%len(as)]}}, raws[i/2]}.stmt()
	}})
	nums := numbers(r)
	out = append(out, space{"update-numbers", len(nums) * 2, func(i int) mstmt {
		n := nums[i/2]
		if i%2 == 1 {
			return mupdate{tbls[0], []mset{{"a", marith("a", "+", li(n))}}, mcmp("b", 0, lraw(n))}.stmt()
		}
		return mupdate{tbls[0], []mset{{"a", lraw(n)}, {"b", lraw("1")}}, mcond{}}.stmt()
	}})
	perms := permutations(r.Pick(5, 6))
	out = append(out, space{"update-orders", len(perms), func(i int) mstmt {
		sets := []mset{}
		for n, k := range perms[i] {
			sets = append(sets, mset{colName(k), as[(n*5+k)%len(as)]})
		}
		return mupdate{tbls[1], sets, conds[3]}.stmt()
	}})
	ls := lengths(r)
	out = append(out, space{"update-long", len(ls), func(i int) mstmt {
		colName := namer(ls[i])
		sets := []mset{}
		for k := 0; k < ls[i]; k++ {
			v := lraw(fmt.Sprint(k))
			switch k % 3 {
			case 1:
				v = lstr(fmt.Sprint("v", k))
			case 2:
				v = marith(colName(k), "+", li(fmt.Sprint(k)))
			}
			sets = append(sets, mset{colName(k), v})
		}
		return mupdate{tbls[0], sets, conds[1]}.stmt()
	}})
	nn := append([]string{}, wordsLike...)
	for _, n := range nameLengths(r) {
		nn = append(nn, longName(n))
	}
	out = append(out, space{"update-names", len(nn), func(i int) mstmt {
		n := nn[i]
		return mupdate{mname{"", n}, []mset{{n, lraw("1")}, {"b", marith(n, "+", li("1"))}}, mcmp(n, 0, lstr(n))}.stmt()
	}})
	dd := dims{len(conds), 3}
	out = append(out, space{"delete", dd.size(), func(i int) mstmt {
		x := dd.at(i)
		return mdelete([]mname{{"", "t"}, {"s", "t"}, {"S", "Tt"}}[x[1]], conds[x[0]])
	}})
	out = append(out, space{"delete-names", len(nn), func(i int) mstmt {
		return mdelete(mname{[]string{"", "s"}[i%2], nn[i]}, mcmp(nn[i], 2, lstr(nn[i])))
	}})
	return out
}

// rawConds are accepted conditions that are kept as source text.
func rawConds() []mcond {
	par := func(t toks) toks { return cat(pu("("), t, pu(")")) }
	list := func(n int, f func(i int) toks) toks { return par(commas(n, f)) }
	num := func(i int) toks { return li(fmt.Sprint(i)) }
	eq := cat(id("a"), pu("="), li("1"))
	eq2 := cat(id("b"), pu("<"), li("'x y'"))
	out := []mcond{}
	add := func(t toks) { out = append(out, mraw(t)) }
	for n := 1; n <= 12; n++ {
		add(cat(id("a"), kw("IN"), list(n, num)))
		add(cat(id("a"), kw("NOT IN"), list(n, func(i int) toks { return li(fmt.Sprintf("'v %d'", i)) })))
	}
	add(cat(id("t.a"), kw("IN"), list(2, num)))
	for _, v := range []string{"'x%'", "'_y'", "'a''b'", "'?'", "'AND'", "''", "'x  y'", "' x '", "'  '", "'x\ty'", "'x\n\ny'", "'x /* y */ z'", "'x -- y'", "'( x )'", "'a , b'"} {
		add(cat(id("a"), kw("LIKE"), li(v)))
		add(cat(id("a"), kw("NOT LIKE"), li(v)))
		add(cat(id("a"), kw("GLOB"), li(v)))
		add(cat(id("a"), kw("IN"), list(1, func(i int) toks { return li(v) })))
		add(cat(id("a"), pu("=="), li(v)))
	}
	add(cat(id("a"), kw("IS NULL")))
	add(cat(id("a"), kw("IS NOT NULL")))
	add(cat(id("a"), kw("ISNULL")))
	add(cat(id("a"), kw("NOTNULL")))
	add(cat(id("a"), kw("IS"), li("1")))
	add(cat(id("a"), kw("BETWEEN"), li("1"), kw("AND"), li("2")))
	add(cat(id("a"), kw("NOT BETWEEN"), li("-1"), kw("AND"), li("2.5")))
	add(cat(id("a"), kw("BETWEEN"), li("'x'"), kw("AND"), li("'y'")))
	add(cat(kw("NOT"), eq))
	add(cat(kw("NOT"), id("a"), kw("IN"), list(3, num)))
	add(par(eq))
	add(par(par(eq)))
	add(par(cat(eq, kw("AND"), eq2)))
	add(par(cat(eq, kw("OR"), eq2)))
	add(cat(kw("NOT"), par(cat(eq, kw("OR"), eq2))))
	add(cat(kw("NOT"), par(eq)))
	add(cat(kw("EXISTS"), par(cat(kw("SELECT"), li("1")))))
	add(cat(id("a"), kw("IN"), par(cat(kw("SELECT"), id("b"), kw("FROM"), id("u")))))
	for _, w := range []string{"a", "t.a", "s.t.a"} {
		add(id(w))
	}
	for _, w := range []string{"1", "0", "2.5", "-1", "TRUE", "FALSE", "NULL", "true", "False", "null", "'x'", "''", "'x  y'", "?", "$1", "x'00'", "CURRENT_DATE", "current_timestamp"} {
		add(li(w))
		add(par(li(w)))
		add(cat(kw("NOT"), li(w)))
		add(cat(id("a"), kw("IS"), li(w)))
		add(cat(id("a"), kw("IS NOT"), li(w)))
		add(cat(id("a"), kw("IN"), list(1, func(int) toks { return li(w) })))
		add(cat(id("a"), kw("BETWEEN"), li(w), kw("AND"), li(w)))
	}
	for _, n := range []int{0, 1, 2, 3, 8} {
		add(cat(toks{{"ABS", 'F'}}, pu("("), commas(n, func(i int) toks { return id(colName(i)) }), pu(")")))
	}
	add(cat(id("a"), pu("+"), li("1")))
	add(cat(id("a"), pu("=="), li("1")))
	return out
}

func condSpaces(r *Run) []space {
	verbs := func(i int, w mcond) mstmt {
		switch i {
		case 0:
			return mselect{sels: []msel{sstar()}, from: []mname{{"", "t"}}, where: w}.stmt()
		case 1:
			return mupdate{mname{"", "t"}, []mset{{"c", lraw("1")}}, w}.stmt()
		case 2:
			return mdelete(mname{"", "t"}, w)
		}
		return mselect{sels: []msel{scol("a")}, from: []mname{{"s", "t"}}, where: w, group: "a", orders: []mord{{"a", "DESC"}}, lim: mlimit{2, 3, 4}}.stmt()
	}
	out := []space{}
	lits := basicLits()
	// Every operator and literal kind, in every statement.
	d := dims{4, len(cmpOps), len(lits)}
	out = append(out, space{"where-comparison", d.size(), func(i int) mstmt {
		x := d.at(i)
		return verbs(x[0], mcmp("a", x[1], lits[x[2]]))
	}})
	// Every pair of comparisons under AND and OR.
	sl := []mlit{lits[0], lits[1], lits[4], lits[6], lits[10], lq}
	if r.Thorough() {
		sl = lits
	}
	d2 := dims{r.Pick(3, 4), 2, len(cmpOps), len(cmpOps), len(sl), len(sl)}
	out = append(out, space{"where-and-or", d2.size(), func(i int) mstmt {
		x := d2.at(i)
		return verbs(x[0], mlog([]string{"AND", "OR"}[x[1]], mcmp("a", x[2], sl[x[4]]), mcmp("b", x[3], sl[x[5]])))
	}})
	// The same column on both sides, and swapped columns.
	cn := []string{"a", "b", "Ab", "aB"}
	d3 := dims{3, 2, len(cn), len(cn), 3}
	out = append(out, space{"where-columns", d3.size(), func(i int) mstmt {
		x := d3.at(i)
		return verbs(x[0], mlog([]string{"AND", "OR"}[x[1]], mcmp(cn[x[2]], x[4], lraw("1")), mcmp(cn[x[3]], 2-x[4], lraw("2"))))
	}})
	// Comparisons which are equal or almost equal.
	same := []mlit{lstr("x"), lstr("X"), lstr("x "), lstr(" x"), lstr("xx"), lraw("1"), lraw("1.0"), lraw("01"), lstr("1"), lraw("10"), lstr(""), lraw("NULL"), lstr("NULL")}
	ds := dims{3, 2, len(cmpOps), 3, len(same), len(same)}
	out = append(out, space{"where-similar", ds.size(), func(i int) mstmt {
		x := ds.at(i)
		op := x[2]
		if x[3] == 1 {
			op = (op + 1) % len(cmpOps)
		}
		return verbs(x[0], mlog([]string{"AND", "OR"}[x[1]], mcmp("a", x[2], same[x[4]]), mcmp([]string{"a", "a", "A"}[x[3]], op, same[x[5]])))
	}})
	raws := rawConds()
	d4 := dims{4, len(raws)}
	out = append(out, space{"where-other-forms", d4.size(), func(i int) mstmt {
		x := d4.at(i)
		return verbs(x[0], raws[x[1]])
	}})
	nn := append([]string{}, wordsLike...)
	for _, n := range nameLengths(r) {
		nn = append(nn, longName(n))
	}
	out = append(out, space{"where-names", len(nn), func(i int) mstmt {
		return verbs(i%3, mlog("OR", mcmp(nn[i], 1, lraw("1")), mcmp("b", 5, lstr(nn[i]))))
	}})
	ns := numbers(r)
	out = append(out, space{"where-numbers", len(ns) * 2, func(i int) mstmt {
		return verbs(i%3, mlog([]string{"AND", "OR"}[i%2], mcmp("a", i%len(cmpOps), lraw(ns[i/2])), mcmp("b", 0, lraw(ns[(i/2+1)%len(ns)]))))
	}})
	ls := lengths(r)
	out = append(out, space{"where-long-in", len(ls) * 2, func(i int) mstmt {
		t := cat(id("a"), kw("IN"), pu("("), commas(ls[i/2], func(k int) toks {
			if i%2 == 0 {
				return li(fmt.Sprint(k))
			}
			return li(fmt.Sprintf("'v %d'", k))
		}), pu(")"))
		return verbs(i%3, mraw(t))
	}})
	// Nested parentheses and NOT to a depth.
	depth := r.Pick(7, 10)
	n := (1 << (depth + 1)) - 2
	out = append(out, space{"where-nested", n * 2, func(i int) mstmt {
		t := cat(id("a"), pu("="), li("1"))
		if i%2 == 1 {
			t = cat(id("a"), pu("="), li("'x'"), kw("OR"), id("b"), pu("!="), li("2"))
			t = cat(pu("("), t, pu(")"))
		}
		for _, k := range seqAt(2, i/2+1) {
			if k == 0 {
				t = cat(pu("("), t, pu(")"))
			} else {
				t = cat(kw("NOT"), t)
			}
		}
		return verbs(i%3, mraw(t))
	}})
	return out
}
