package main

import "fmt"

// dataTypes are the data type names of the documentation, with a size where one is usual.
var dataTypeNames = []string{
	"BIGINT", "BINARY", "BIT", "BLOB", "BOOLEAN", "CHAR", "CHARACTER", "CLOB", "DATE", "DATETIME", "DECIMAL", "DOUBLE", "DOUBLE PRECISION", "FLOAT", "INT", "INTEGER",
	"LONGBLOB", "LONGTEXT", "MEDIUMBLOB", "MEDIUMINT", "MEDIUMTEXT", "NUMERIC", "REAL", "SET", "SMALLINT", "TEXT", "TIME", "TIMESTAMP", "TINYBLOB", "TINYINT", "TINYTEXT",
	"VARBINARY", "VARCHAR", "VARCHARACTER", "YEAR", "SERIAL", "BIGSERIAL", "SMALLSERIAL", "NAME",
}

func sizedTypes() []mtype {
	out := []mtype{}
	for _, n := range dataTypeNames {
		if n != "BINARY" { // a keyword of COPY that the grammar does not take as a type
			out = append(out, mtype{n, n, nil})
		}
	}
	for _, n := range []string{"VARCHAR", "CHAR", "INT", "DECIMAL", "FLOAT", "BIT", "VARBINARY"} {
		out = append(out, mtype{n, n, []int{1}}, mtype{n, n, []int{255}})
	}
	out = append(out, mtype{"DECIMAL", "DECIMAL", []int{10, 2}}, mtype{"NUMERIC", "NUMERIC", []int{38, 10}}, mtype{"FLOAT", "FLOAT", []int{7, 4}})
	out = append(out, mtype{"int", "INT", nil}, mtype{"Text", "TEXT", nil}, mtype{"varchar", "VARCHAR", []int{20}}, mtype{"double precision", "DOUBLE PRECISION", nil})
	out = append(out, mtype{"DOUBLE PRECISION", "DOUBLE PRECISION", []int{10}}, mtype{"Double Precision", "DOUBLE PRECISION", []int{12, 3}})
	return out
}

func createTableSpaces(r *Run) []space {
	out := []space{}
	types := sizedTypes()
	t := mname{"", "t"}
	// Every pair of types (triples on the thorough tier), with the primary key at each place.
	k := r.Pick(2, 3)
	d := dims{len(types), len(types), k + 2}
	if r.Thorough() {
		d = dims{len(types), len(types), k + 2, len(types)}
	}
	out = append(out, space{"create-types", d.size(), func(i int) mstmt {
		x := d.at(i)
		m := mcreate{tbl: t, cols: []mcol{{"a", types[x[0]], false}, {"b", types[x[1]], false}}}
		if len(x) > 3 {
			m.cols = append(m.cols, mcol{"c", types[x[3]], false})
		}
		if x[2] > 0 && x[2] <= len(m.cols) {
			m.cols[x[2]-1].pk = true
		} else if x[2] > len(m.cols) {
			m.idx = []mindex{{"PRIMARY KEY", "", []string{"b", "a"}}}
		}
		return m.stmt()
	}})
	// Sizes.
	sizes := []int{}
	for i := 1; i <= r.Pick(300, 3000); i++ {
		sizes = append(sizes, i)
	}
	for s := 9; s < 31; s++ {
		sizes = append(sizes, 1<<s-1, 1<<s, 1<<s+1)
	}
	out = append(out, space{"create-sizes", len(sizes) * 2, func(i int) mstmt {
		s := sizes[i/2]
		if i%2 == 0 {
			return mcreate{tbl: t, cols: []mcol{{"a", mtype{"VARCHAR", "VARCHAR", []int{s}}, false}}}.stmt()
		}
		return mcreate{tbl: t, cols: []mcol{{"a", mtype{"DECIMAL", "DECIMAL", []int{s, s % 40}}, true}}}.stmt()
	}})
	// Keys and indexes: every combination of a primary key form and up to three secondary indexes.
	pk := [][]string{nil, {"c0"}, {"c2"}, {"c0", "c1"}, {"c2", "c0"}, {"c3", "c1", "c0", "c2"}}
	sec := []mindex{{"INDEX", "i0", []string{"c0"}}, {"INDEX", "i1", []string{"c1"}}, {"KEY", "k2", []string{"c2"}}, {"INDEX", "c3", []string{"c3"}}, {"KEY", "z", []string{"c0"}}}
	inline := 5
	ns := seqCount(len(sec), r.Pick(3, 4))
	d2 := dims{2, 2, len(pk), inline, ns}
	out = append(out, space{"create-keys", d2.size(), func(i int) mstmt {
		x := d2.at(i)
		m := mcreate{ifne: x[0] == 1, tbl: mname{[]string{"", "s"}[x[1]], "t"}}
		for c := 0; c < 4; c++ {
			m.cols = append(m.cols, mcol{colName(c), types[(c*11+i)%len(types)], x[3] == c+1})
		}
		idx := []mindex{}
		for _, s := range seqAt(len(sec), x[4]) {
			idx = append(idx, sec[s])
		}
		if pk[x[2]] != nil {
			p := mindex{"PRIMARY KEY", "", pk[x[2]]}
			// Table constraints stand behind the definitions in this dialect.
			idx = append(idx, p)
		}
		m.idx = idx
		return m.stmt()
	}})
	ls := lengths(r)
	out = append(out, space{"create-long", len(ls) * 3, func(i int) mstmt {
		colName := namer(ls[i/3])
		n := ls[i/3]
		m := mcreate{tbl: t}
		for c := 0; c < n; c++ {
			m.cols = append(m.cols, mcol{colName(c), types[c%len(types)], i%3 == 1 && c == n-1})
		}
		if i%3 == 2 {
			p := mindex{"PRIMARY KEY", "", nil}
			for c := n - 1; c >= 0; c-- {
				p.cols = append(p.cols, colName(c))
			}
			m.idx = []mindex{p}
		}
		return m.stmt()
	}})
	out = append(out, space{"create-many-indexes", len(ls), func(i int) mstmt {
		colName := namer(ls[i])
		n := ls[i]
		m := mcreate{tbl: t}
		for c := 0; c < n; c++ {
			m.cols = append(m.cols, mcol{colName(c), types[c%len(types)], false})
		}
		for c := 0; c < n; c++ {
			m.idx = append(m.idx, mindex{[]string{"INDEX", "KEY"}[c%2], fmt.Sprintf("i%d", c), []string{colName((c * 7) % n)}})
		}
		return m.stmt()
	}})
	nn := append([]string{}, wordsLike...)
	for _, n := range nameLengths(r) {
		nn = append(nn, longName(n))
	}
	out = append(out, space{"create-names", len(nn) * 2, func(i int) mstmt {
		n := nn[i/2]
		m := mcreate{tbl: mname{"", n}, cols: []mcol{{n, types[13], i%2 == 0}, {n + "2", types[24], false}}}
		if i%2 == 1 {
			m.tbl = mname{n, "t"}
			m.idx = []mindex{{"INDEX", n, []string{n}}, {"PRIMARY KEY", "", []string{n + "2", n}}}
		}
		return m.stmt()
	}})
	// The index of a column definition.
	out = append(out, space{"create-column-index", 16, func(i int) mstmt {
		m := mcreate{tbl: t}
		x := cat(kw("CREATE TABLE"), id("t"), pu("("))
		for c := 0; c < 4; c++ {
			if c > 0 {
				x = cat(x, pu(","))
			}
			x = cat(x, id(colName(c)), kw("INT"))
			m.cols = append(m.cols, mcol{colName(c), mtype{"INT", "INT", nil}, false})
			if i&(1<<c) != 0 {
				x = cat(x, kw("INDEX"), id(fmt.Sprintf("i%d", c)))
				m.idx = append(m.idx, mindex{"INDEX", fmt.Sprintf("i%d", c), []string{colName(c)}})
			}
		}
		return mstmt{cat(x, pu(")")), m.stmt().obs}
	}})
	return out
}

func ddlSpaces(r *Run) []space {
	out := []space{}
	tn := []mname{{"", "t"}, {"s", "t"}, {"S", "Tt"}, {"", "u"}}
	// CREATE INDEX.
	cs := [][]string{{"a"}, {"b", "a"}, {"a", "b", "c"}, {"c", "a", "d", "b"}}
	dirs := [][]string{nil, {"ASC"}, {"DESC"}, {"", "DESC"}, {"ASC", "", "DESC", "DESC"}}
	d := dims{2, 2, 3, len(cs), len(dirs)}
	out = append(out, space{"create-index", d.size(), func(i int) mstmt {
		x := d.at(i)
		return mcreateIndex(x[0] == 1, x[1] == 1, []string{"i", "Idx_1", "t"}[x[2]], []string{"t", "Tt", "i"}[x[2]], cs[x[3]], dirs[x[4]])
	}})
	perms := permutations(r.Pick(5, 6))
	out = append(out, space{"create-index-orders", len(perms), func(i int) mstmt {
		c := []string{}
		for _, k := range perms[i] {
			c = append(c, colName(k))
		}
		return mcreateIndex(false, false, "i", "t", c, nil)
	}})
	// DROP INDEX.
	out = append(out, space{"drop-index", 2 * len(tn), func(i int) mstmt { return mdropIndex(i%2 == 1, tn[i/2]) }})
	// DROP TABLE and TRUNCATE with up to four tables; only the first one can be qualified in this dialect.
	nt := []mname{{"", "t"}, {"", "u"}, {"", "Tt"}, {"", "v1"}}
	ns := seqCount(len(nt), r.Pick(3, 5)) - 1
	d2 := dims{ns, 2, 2, 2}
	out = append(out, space{"drop-table", d2.size(), func(i int) mstmt {
		x := d2.at(i)
		l := []mname{}
		for _, k := range seqAt(len(nt), x[0]+1) {
			l = append(l, nt[k])
		}
		if x[2] == 1 {
			l[0].s = "s"
		}
		return mdropTable(x[1] == 1, l, []string{"", "CASCADE"}[x[3]])
	}})
	d3 := dims{ns, 2}
	out = append(out, space{"truncate", d3.size(), func(i int) mstmt {
		x := d3.at(i)
		l := []mname{}
		for _, k := range seqAt(len(nt), x[0]+1) {
			l = append(l, nt[k])
		}
		return mtruncate([]string{"", "TABLE"}[x[1]], l)
	}})
	// ALTER TABLE.
	types := sizedTypes()
	opt := func(b bool, w string) toks {
		if b {
			return kw(w)
		}
		return nil
	}
	out = append(out, space{"alter-rename-table", len(tn) * 4, func(i int) mstmt {
		n := []string{"u", "T2", "t", "tt"}[i%4]
		return malter(tn[i/4], cat(kw("RENAME TO"), id(n)), "RENAME-TO "+q(n))
	}})
	cn := []string{"a", "b", "Aa", "A"}
	d4 := dims{len(tn), 2, len(cn), len(cn)}
	out = append(out, space{"alter-rename-column", d4.size(), func(i int) mstmt {
		x := d4.at(i)
		return malter(tn[x[0]], cat(kw("RENAME"), opt(x[1] == 1, "COLUMN"), id(cn[x[2]]), kw("TO"), id(cn[x[3]])), "RENAME-COLUMN "+q(cn[x[2]])+" "+q(cn[x[3]]))
	}})
	d5 := dims{len(tn), 2, len(cn), len(types)}
	out = append(out, space{"alter-add-column", d5.size(), func(i int) mstmt {
		x := d5.at(i)
		return malter(tn[x[0]], cat(kw("ADD"), opt(x[1] == 1, "COLUMN"), id(cn[x[2]]), types[x[3]].toks()), "ADD-COLUMN "+q(cn[x[2]])+" "+types[x[3]].obs())
	}})
	d6 := dims{len(tn), 2, len(cn)}
	out = append(out, space{"alter-drop-column", d6.size(), func(i int) mstmt {
		x := d6.at(i)
		return malter(tn[x[0]], cat(kw("DROP"), opt(x[1] == 1, "COLUMN"), id(cn[x[2]])), "DROP-COLUMN "+q(cn[x[2]]))
	}})
	d7 := dims{len(tn), 3, len(perms)}
	out = append(out, space{"alter-add-index", d7.size(), func(i int) mstmt {
		x := d7.at(i)
		m := mindex{"PRIMARY KEY", "", nil}
		if x[1] > 0 {
			m = mindex{"INDEX", []string{"", "i", "Idx"}[x[1]], nil}
		}
		for n, k := range perms[x[2]] {
			if n <= x[2]%5 {
				m.cols = append(m.cols, colName(k))
			}
		}
		return malter(tn[x[0]], cat(kw("ADD"), m.toks()), "ADD-INDEX "+m.obs())
	}})
	// Databases.
	dn := append([]string{}, wordsLike...)
	for _, n := range nameLengths(r) {
		dn = append(dn, longName(n))
	}
	out = append(out, space{"database", len(dn) * 6, func(i int) mstmt {
		n := dn[i/6]
		m := dn[(i/6+7)%len(dn)]
		switch i % 6 {
		case 0, 1:
			return mstmt{cat(kw("CREATE DATABASE"), ifne(i%2 == 1), id(n)), fmt.Sprintf("CREATE DATABASE ifne=%v %s", i%2 == 1, q(n))}
		case 2, 3:
			return mstmt{cat(kw("DROP DATABASE"), ife(i%2 == 1), id(n)), fmt.Sprintf("DROP DATABASE ife=%v %s", i%2 == 1, q(n))}
		case 4:
			return mstmt{cat(kw("ALTER DATABASE"), id(n), kw("RENAME TO"), id(m)), fmt.Sprintf("ALTER DATABASE %s to %s", q(n), q(m))}
		}
		return mstmt{cat(kw("USE"), id(n)), "USE " + q(n)}
	}})
	out = append(out, space{"ddl-names", len(dn) * 6, func(i int) mstmt {
		n := dn[i/6]
		switch i % 6 {
		case 0:
			return mcreateIndex(false, true, n, n+"x", []string{n, n + "y"}, nil)
		case 1:
			return mdropIndex(true, mname{"", n})
		case 2:
			return mdropTable(true, []mname{{n, n}, {"", n}}, "")
		case 3:
			return mtruncate("TABLE", []mname{{"", n}, {"", "t"}})
		case 4:
			return malter(mname{"", n}, cat(kw("RENAME COLUMN"), id(n), kw("TO"), id(n+"z")), "RENAME-COLUMN "+q(n)+" "+q(n+"z"))
		}
		return malter(mname{n, n}, cat(kw("ADD INDEX"), id(n), pu("("), id(n), pu(")")), "ADD-INDEX INDEX:"+q(n)+"("+q(n)+")")
	}})
	ls := lengths(r)
	out = append(out, space{"ddl-long", len(ls) * 5, func(i int) mstmt {
		colName := namer(ls[i/5])
		c := []string{}
		tb := []mname{}
		for k := 0; k < ls[i/5]; k++ {
			c = append(c, colName(k))
			tb = append(tb, mname{"", fmt.Sprintf("t%d", k)})
		}
		switch i % 5 {
		case 0:
			return mcreateIndex(false, false, "i", "t", c, nil)
		case 1:
			return mdropTable(false, tb, "")
		case 2:
			return mtruncate("", tb)
		case 3:
			m := mindex{"PRIMARY KEY", "", c}
			return malter(mname{"", "t"}, cat(kw("ADD"), m.toks()), "ADD-INDEX "+m.obs())
		}
		m := mindex{"INDEX", "i", c}
		return malter(mname{"s", "t"}, cat(kw("ADD"), m.toks()), "ADD-INDEX "+m.obs())
	}})
	return out
}

// tclStmts are the transaction and utility statements.
func tclSpaces(r *Run) []space {
	ms := []mstmt{}
	for _, m := range []string{"", "DEFERRED", "IMMEDIATE", "EXCLUSIVE"} {
		for _, t := range []string{"", "TRANSACTION"} {
			ms = append(ms, mstmt{kw("BEGIN " + m + " " + t), "BEGIN"})
		}
		for _, n := range []string{"x", "tx_1", "commits"} {
			ms = append(ms, mstmt{cat(kw("BEGIN "+m+" TRANSACTION"), id(n)), "BEGIN"})
		}
	}
	for _, w := range []string{"COMMIT", "END"} {
		ms = append(ms, mstmt{kw(w), "COMMIT"}, mstmt{kw(w + " TRANSACTION"), "COMMIT"})
	}
	ms = append(ms, mstmt{kw("ROLLBACK"), "ROLLBACK"}, mstmt{kw("ROLLBACK TRANSACTION"), "ROLLBACK"})
	ms = append(ms, mstmt{kw("VACUUM"), `VACUUM ""`}, mstmt{kw("VACUUM ANALYZE"), `VACUUM ""`})
	nn := append([]string{}, wordsLike...)
	for _, n := range nameLengths(r) {
		nn = append(nn, longName(n))
	}
	for _, n := range nn {
		if n == "analyze" {
			continue
		}
		ms = append(ms, mstmt{cat(kw("VACUUM"), id(n)), "VACUUM " + q(n)}, mstmt{cat(kw("VACUUM ANALYZE"), id(n)), "VACUUM " + q(n)})
	}
	out := []space{listSpace("transactions", ms)}
	forms := []struct{ w, f string }{
		{"", "TEXT"}, {"WITH", "TEXT"}, {"TEXT", "TEXT"}, {"CSV", "CSV"}, {"BINARY", "BINARY"}, {"FORMAT TEXT", "TEXT"}, {"FORMAT CSV", "CSV"}, {"FORMAT BINARY", "BINARY"},
		{"WITH TEXT", "TEXT"}, {"WITH CSV", "CSV"}, {"WITH BINARY", "BINARY"}, {"WITH FORMAT TEXT", "TEXT"}, {"WITH FORMAT CSV", "CSV"}, {"WITH FORMAT BINARY", "BINARY"},
	}
	tn := []mname{{"", "t"}, {"s", "t"}, {"", "Tt"}}
	src := []struct{ w, o string }{{"STDIN", "STDIN"}, {"src", "src"}, {"'file'", "file"}, {"'data_1'", "data_1"}}
	perms := permutations(4)
	cols := [][]string{nil, {"a"}, {"b", "a"}, {"a", "B", "c"}}
	for _, p := range perms {
		c := []string{}
		for _, k := range p {
			c = append(c, colName(k))
		}
		cols = append(cols, c)
	}
	d := dims{len(tn), len(cols), len(src), len(forms)}
	out = append(out, space{"copy", d.size(), func(i int) mstmt {
		x := d.at(i)
		return mcopy(tn[x[0]], cols[x[1]], src[x[2]].w, src[x[2]].o, forms[x[3]].w, forms[x[3]].f)
	}})
	out = append(out, space{"copy-names", len(nn) * 3, func(i int) mstmt {
		n := nn[i/3]
		switch i % 3 {
		case 0:
			return mcopy(mname{"", n}, nil, "STDIN", "STDIN", "", "TEXT")
		case 1:
			return mcopy(mname{"", "t"}, []string{n, "b", n + "2"}, "STDIN", "STDIN", "CSV", "CSV")
		}
		return mcopy(mname{"", "t"}, nil, n, n, "WITH FORMAT BINARY", "BINARY")
	}})
	ls := lengths(r)
	out = append(out, space{"copy-long", len(ls), func(i int) mstmt {
		colName := namer(ls[i])
		c := []string{}
		for k := 0; k < ls[i]; k++ {
			c = append(c, colName(k))
		}
		return mcopy(mname{"", "t"}, c, "STDIN", "STDIN", "", "TEXT")
	}})
	return out
}

func mcopy(t mname, cols []string, src, srcObs, form, f string) mstmt {
	x := cat(kw("COPY"), t.toks())
	if cols != nil {
		x = cat(x, pu("("), commas(len(cols), func(i int) toks { return id(cols[i]) }), pu(")"))
	}
	s := id(src)
	if src[0] == '\'' {
		s = li(src)
	}
	return mstmt{cat(x, kw("FROM"), s, kw(form)), fmt.Sprintf("COPY %s (%s) %s %s", q(t.full()), names(cols), q(srcObs), f)}
}
