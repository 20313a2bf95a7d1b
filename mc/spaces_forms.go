package main

import (
	"fmt"
	"strings"
)

// The spaces of unusual forms: quoted names, written forms of limits, sequences of column constraints, sources of COPY.

// texts are all the texts over the letters of 1 to n letters.
func texts(letters []string, n int) []string {
	out := []string{}
	for i := 1; i < seqCount(len(letters), n); i++ {
		s := ""
		for _, k := range seqAt(len(letters), i) {
			s += letters[k]
		}
		out = append(out, s)
	}
	return out
}

// quotedNames are names which have to be quoted.
func quotedNames(r *Run) []string {
	out := texts([]string{"a", "B", " ", ".", "-"}, r.Pick(3, 4))
	out = append(out, texts([]string{"a", "\t", "\n", "1", ",", ";", "é", "?", "$1", "--", "/*", "\"", "日", "%", "=", "[", "]", "\\"}, 2)...)
	for _, w := range strings.Fields(grammarKeywords) {
		out = append(out, w, strings.ToLower(w))
	}
	for _, n := range []int{1, 2, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000} {
		out = append(out, strings.Repeat("a ", n)+"b", " "+longName(n)+" ")
	}
	return out
}

// quotedForms are the forms of the family in which a name is quoted with the quote, and the names. A parsed name may
// be reported with or without its quotes, so observations are compared up to the quotes.
func quotedSpace(r *Run, family, quote string, skip ...string) space {
	fs := []wordForm{}
	for _, f := range wordForms()[family] {
		ok := true
		for _, s := range skip {
			ok = ok && f.name != s
		}
		if ok {
			fs = append(fs, f)
		}
	}
	ns := quotedNames(r)
	return space{"quoted-names " + quote, len(fs) * len(ns), func(i int) mstmt {
		return fs[i%len(fs)].at(quote + ns[i/len(fs)] + quote)
	}}
}

// unquoted is an observation without the quotes of names.
func unquoted(o, quote string) string { return strings.ReplaceAll(o, quote, "") }

func checkQuoted(r *Run, s space, quote string) {
	r.Block(s.name, s.n, func(i int, c *Case) {
		m := s.at(i)
		sql := m.sql()
		c.In(sql)
		_, o, ok := parse1(c, sql)
		if !ok {
			return
		}
		c.Trace()
		c.State(o)
		c.Eq("observed statement up to quotes", unquoted(o, quote), unquoted(m.obs, quote))
	})
}

// spellings are all the spellings of a word in upper and lower case letters.
func spellings(w string) []string {
	out := []string{}
	for i := 0; i < 1<<len(w); i++ {
		b := []byte(strings.ToUpper(w))
		for k := range b {
			if i&(1<<k) != 0 {
				b[k] += 'a' - 'A'
			}
		}
		out = append(out, string(b))
	}
	return out
}

// limitForms are written limits and offsets with what they mean; no limit is reported as 0.
func limitForms() []struct {
	s string
	n int
} {
	type form = struct {
		s string
		n int
	}
	out := []form{{"1", 1}, {"10", 10}, {"010", 10}, {"00000000000000000000000000000012", 12}, {"1e2", 100}, {"5.0", 5}, {"1E0", 1}, {"9223372036854775807", 1<<63 - 1}}
	for _, w := range []string{"NULL", "ALL"} {
		for _, c := range spellings(w) {
			out = append(out, form{c, 0})
		}
	}
	for k := 0; k <= 64; k++ {
		out = append(out, form{"-" + pow2(k), 0})
		if k > 0 {
			out = append(out, form{"-" + bigAdd(pow2(k), 1), 0})
		}
	}
	return out
}

func formSpaces(r *Run, family string) []space {
	intT, textT := mtype{"INT", "INT", nil}, mtype{"TEXT", "TEXT", nil}
	switch family {
	case "select":
		fs := limitForms()
		offs := fs[:12]
		d := dims{len(fs), len(offs) + 1, 4}
		return []space{{"limit-forms", d.size(), func(i int) mstmt {
			x := d.at(i)
			m := mselect{sels: []msel{scol("a")}, from: []mname{{"", "t"}}}
			lim, off := fs[x[0]], fs[0]
			if x[1] > 0 {
				off = offs[x[1]-1]
			}
			t := cat(kw("LIMIT"), li(lim.s))
			l, o := lim.n, 0
			switch {
			case x[1] == 0:
			case x[2] == 0:
				t, o = cat(t, kw("OFFSET"), li(off.s)), off.n
			case x[2] == 1:
				t, l, o = cat(t, pu(","), li(off.s)), off.n, lim.n
			case x[2] == 2:
				t, l, o = cat(kw("LIMIT"), li(off.s), kw("OFFSET"), li(lim.s)), off.n, lim.n
			case x[2] == 3:
				t, o = cat(kw("LIMIT"), li(off.s), pu(","), li(lim.s)), off.n
			}
			st := m.stmt()
			return mstmt{cat(st.t, t), strings.TrimSuffix(st.obs, "limit=0 offset=0") + fmt.Sprintf("limit=%d offset=%d", l, o)}
		}}}
	case "create":
		cons := []toks{kw("NOT NULL"), kw("NULL"), kw("UNIQUE"), cat(kw("DEFAULT"), li("1")), cat(kw("DEFAULT"), li("'x y'")), cat(kw("COLLATE"), id("nocase")), cat(kw("CONSTRAINT"), id("q"), kw("NOT NULL"))}
		nc := len(cons)
		d := dims{seqCount(nc+2, r.Pick(3, 4)), 3}
		one := func(k, col int, t toks) (toks, string) {
			switch {
			case k < nc:
				return cat(t, cons[k]), ""
			case k == nc:
				return cat(t, kw("PRIMARY KEY")), "PRIMARY(" + q(colName(col)) + ")"
			}
			n := fmt.Sprintf("i%d", col)
			return cat(t, kw("INDEX"), id(n)), "INDEX:" + q(n) + "(" + q(colName(col)) + ")"
		}
		names3 := []string{"a", "b", "c"}
		return []space{
			{"column-constraints", d.size(), func(i int) mstmt {
				x := d.at(i)
				t := cat(kw("CREATE TABLE"), id("t"), pu("("))
				m := mcreate{tbl: mname{"", "t"}}
				idx := []string{}
				for c := 0; c < 3; c++ {
					if c > 0 {
						t = cat(t, pu(","))
					}
					ty := []mtype{intT, {"VARCHAR", "VARCHAR", []int{9}}, textT}[c]
					m.cols = append(m.cols, mcol{colName(c), ty, false})
					t = cat(t, id(colName(c)), ty.toks())
					if c != x[1] {
						continue
					}
					for _, k := range seqAt(nc+2, x[0]) {
						o := ""
						if t, o = one(k, c, t); o != "" {
							idx = append(idx, o)
						}
					}
				}
				return mstmt{cat(t, pu(")")), strings.TrimSuffix(m.stmt().obs, "{}") + "{" + strings.Join(idx, "; ") + "}"}
			}},
			sameSpace("same-primary-key", names3, r.Pick(5, 7), func(w []string) mstmt {
				m := mcreate{tbl: mname{"", "t"}, idx: []mindex{{"PRIMARY KEY", "", append([]string{}, w...)}}}
				for _, n := range names3 {
					m.cols = append(m.cols, mcol{n, intT, false})
				}
				return m.stmt()
			}),
		}
	case "tcl":
		ss := texts([]string{"'", "\"", " ", "(", ")", "a", "/", ".", "`", "\n", "é", ";", "--"}, r.Pick(3, 4))
		out := []space{{"copy-sources", len(ss) * 2, func(i int) mstmt {
			s := ss[i/2]
			return mcopy(mname{"", "t"}, nil, escape(s), s, []string{"CSV", ""}[i%2], []string{"CSV", "TEXT"}[i%2])
		}}}
		return out
	}
	return nil
}
