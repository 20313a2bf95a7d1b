package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
	"github.com/cybergarage/go-sqlparser/sql/system"
)

// condEval evaluates a condition text of comparisons, IN lists, AND, OR and parentheses for column values.
type condEval struct {
	toks []string
	pos  int
	vals map[string]string
	bad  string
}

func (e *condEval) next() string {
	if e.pos < len(e.toks) {
		e.pos++
		return e.toks[e.pos-1]
	}
	return ""
}

func (e *condEval) peek() string {
	if e.pos < len(e.toks) {
		return e.toks[e.pos]
	}
	return ""
}

func (e *condEval) str() string {
	t := e.next()
	if len(t) < 2 || t[0] != '\'' {
		e.bad = "not a string: " + t
		return ""
	}
	return strings.ReplaceAll(t[1:len(t)-1], "''", "'")
}

func (e *condEval) or() bool {
	v := e.and()
	for strings.EqualFold(e.peek(), "OR") {
		e.next()
		w := e.and()
		v = v || w
	}
	return v
}

func (e *condEval) and() bool {
	v := e.term()
	for strings.EqualFold(e.peek(), "AND") {
		e.next()
		w := e.term()
		v = v && w
	}
	return v
}

func (e *condEval) term() bool {
	if e.peek() == "(" {
		e.next()
		v := e.or()
		if e.next() != ")" {
			e.bad = "parenthesis"
		}
		return v
	}
	col := strings.ToUpper(e.next())
	val, ok := e.vals[col]
	if !ok {
		e.bad = "unknown column " + col
		return false
	}
	switch op := strings.ToUpper(e.next()); op {
	case "=":
		return e.str() == val
	case "IN":
		if e.next() != "(" {
			e.bad = "no list"
			return false
		}
		found := false
		for {
			found = e.str() == val || found
			switch e.next() {
			case ",":
			case ")":
				return found
			default:
				e.bad = "list"
				return false
			}
		}
	default:
		e.bad = "operator " + op
		return false
	}
}

// selects reports whether the printed SELECT selects the rows of the database and table.
func selects(text, db, table string) (bool, string) {
	ts := tokenize(text)
	k := -1
	for n, t := range ts {
		if strings.EqualFold(t, "WHERE") {
			k = n
			break
		}
	}
	head := ts
	if k >= 0 {
		head = ts[:k]
	}
	if !strings.EqualFold(strings.Join(head, ""), "SELECT*FROMinformation_schema.COLUMNS") {
		return false, "not a SELECT on the schema columns: " + strings.Join(head, " ")
	}
	if k < 0 {
		return true, ""
	}
	e := &condEval{toks: ts[k+1:], vals: map[string]string{"TABLE_SCHEMA": db, "TABLE_NAME": table}}
	v := e.or()
	if e.pos != len(e.toks) && !(e.pos == len(e.toks)-1 && e.peek() == ";") {
		e.bad = "rest " + strings.Join(e.toks[e.pos:], " ")
	}
	return v, e.bad
}

// checkSchemaSelect checks that the SELECT selects exactly the database (none: all) and the tables (none: all).
func checkSchemaSelect(c *Case, what string, sel sql.Select, db string, tables []string) {
	if sel == nil {
		c.Failf("%s: no statement", what)
		return
	}
	if !system.IsSchemaColumsQuery(sel) {
		c.Failf("%s: not recognised as a schema columns query", what)
	}
	text := sel.String()
	dbs := []string{db, db + "x", "other", ""}
	tbls := append(append([]string{}, tables...), "other", "", "'", "a' OR 'a' = 'a")
	for _, t := range tables {
		tbls = append(tbls, t+"x", strings.ToUpper(t)+"_")
	}
	for _, d := range dbs {
		for _, t := range tbls {
			want := (db == "" || d == db) && (len(tables) == 0 || slices.Contains(tables, t))
			got, bad := selects(text, d, t)
			if bad != "" || got != want {
				c.Failf("%s: %q selects (%q, %q): %v %s, want %v", what, text, d, t, got, bad, want)
				return
			}
		}
	}
	// The statement itself is equal to its text.
	stmts, err := parse(text)
	if err != nil || len(stmts) != 1 {
		c.Failf("%s: %q is not parsed: %v", what, text, err)
		return
	}
	c.Eq(what+" reparsed", obsStmt(stmts[0]), obsStmt(sel))
}

// readBack reads the names back from a SELECT.
func readBack(c *Case, what string, sel sql.Select, db string, tables []string, must bool) {
	st, err := system.NewSchemaColumnsStatement(system.WithSchemaColumnsStatementSelect(sel))
	c.Step(1)
	if err != nil {
		if must {
			c.Failf("%s: reading back: %v", what, err)
		}
		return
	}
	c.Eq(what+": database", st.DatabaseName(), db)
	got := append([]string{}, st.TableNames()...)
	if len(got) != len(tables) || !slices.Equal(got, append([]string{}, tables...)) {
		c.Failf("%s: the tables read back are %q, want %q", what, got, tables)
	}
	if st.Statement() == nil || st.Statement().String() != sel.String() {
		c.Failf("%s: the statement read back differs", what)
	}
}

func genSchemaStmt(c *Case, db string, tables []string, ord int) (system.SchemaColumnsStatement, error) {
	opts := []system.SchemaColumnsStatementOption{}
	if db != "" || ord >= 2 {
		opts = append(opts, system.WithSchemaColumnsStatementDatabaseName(db))
	}
	if tables != nil || ord >= 2 {
		opts = append(opts, system.WithSchemaColumnsStatementTableNames(tables))
	}
	if ord%2 == 1 {
		slices.Reverse(opts)
	}
	c.Step(1)
	return system.NewSchemaColumnsStatement(opts...)
}

// checkSchemaStmt checks the statement generated for the names; must tells whether errors are violations.
func checkSchemaStmt(c *Case, db string, tables []string, ord int, mustGen, mustRead bool) {
	st, err := genSchemaStmt(c, db, tables, ord)
	if err != nil {
		if mustGen {
			c.Failf("generating: %v", err)
		}
		return
	}
	c.Eq("database", st.DatabaseName(), db)
	if !slices.Equal(append([]string{}, st.TableNames()...), append([]string{}, tables...)) {
		c.Failf("the tables are %q", st.TableNames())
	}
	checkSchemaSelect(c, "generated", st.Statement(), db, tables)
	if c.Failed() {
		return
	}
	readBack(c, "generated", st.Statement(), db, tables, mustRead)
	stmts, err := parse(st.Statement().String())
	if err == nil && len(stmts) == 1 {
		if sel, ok := stmts[0].(sql.Select); ok {
			readBack(c, "reparsed", sel, db, tables, mustRead)
		}
	}
	c.Trace()
}

func schemaNames(r *Run) []string {
	alpha := []string{"a", "'", "\"", ";", "?", " ", "%", "\\", "-", "$1", "`", "B", "\n", "é"}
	out := []string{}
	depth := 2
	n := seqCount(len(alpha), depth)
	for i := 1; i < n; i++ {
		s := ""
		for _, k := range seqAt(len(alpha), i) {
			s += alpha[k]
		}
		out = append(out, s)
	}
	out = append(out, "select", "NULL", "null", "TABLE_NAME", "'a' OR 'a'='a", "a' OR TABLE_NAME = 'b", "a'; DROP TABLE t; --", "a''b", "'''", "--x", "/*x*/", "information_schema", "COLUMNS", "0", "007", "1e3", "TRUE", "my table", "a,b", "a','b", "(a)", "a)", "[a]", "x.y", "日本", strings.Repeat("n", 300))
	return out
}

func init() {
	register(&Prop{
		ID:   "C29",
		Rule: "all databases and tables over an alphabet of special characters: the generated SELECT is evaluated by an independent reader of its text for all near names and read back; all near tables for the recognition; all schema lists within the bounds for the result set",
		Assume: []string{
			"a database and two or more tables need a condition beyond the grammar; they are recorded as findings",
			"the TABLE_SCHEMA column of the result set is not checked",
		},
		Run: func(r *Run) {
			names := schemaNames(r)
			dbs := append([]string{"", "db"}, names...)
			if !r.Thorough() {
				dbs = append([]string{"", "db"}, names[:14]...)
				dbs = append(dbs, names[len(names)-26:]...)
			}
			r.Block("one-table", len(dbs)*(len(names)+1), func(i int, c *Case) {
				db, k := dbs[i/(len(names)+1)], i%(len(names)+1)
				var tables []string
				if k > 0 {
					tables = []string{names[k-1]}
				}
				c.Inf("database %q tables %q", db, tables)
				c.State(c.input)
				checkSchemaStmt(c, db, tables, i%2, true, true)
			})
			r.Block("plain", 2*4*3, func(i int, c *Case) {
				d := dims{2, 4, 3}.at(i)
				db := []string{"", "db"}[d[0]]
				tables := [][]string{nil, {}, {"t"}, {"T2"}}[d[1]]
				c.Inf("database %q tables %q options %d", db, tables, d[2])
				checkSchemaStmt(c, db, tables, d[2], true, true)
			})
			// Several tables: lists over a few names, with repetition.
			few := []string{"a", "b", "A", "it's", "a','b", "x y"}
			depth := r.Pick(4, 5)
			n := seqCount(len(few), depth)
			r.Block("tables", n, func(i int, c *Case) {
				tables := []string{}
				for _, k := range seqAt(len(few), i) {
					tables = append(tables, few[k])
				}
				c.Inf("tables %q", tables)
				c.State(c.input)
				checkSchemaStmt(c, "", tables, 0, true, len(tables) < 2)
				checkSchemaStmt(c, "db", tables, 0, len(tables) < 2, len(tables) < 2)
				c.Step(1)
				sel, err := system.NewSchemaColumnsQueryFromTableNames(tables)
				if err != nil {
					c.Failf("query of the table names: %v", err)
					return
				}
				checkSchemaSelect(c, "query of the table names", sel, "", tables)
			})
			r.Block("name-queries", len(names), func(i int, c *Case) {
				for _, tables := range [][]string{{names[i]}, {"t", names[i]}, {names[i], "t", "u"}} {
					c.Inf("query of the table names %q", tables)
					sel, err := system.NewSchemaColumnsQueryFromTableNames(tables)
					c.Step(1)
					if err != nil {
						c.Failf("%v", err)
						return
					}
					checkSchemaSelect(c, "query", sel, "", tables)
				}
				c.Trace()
			})
			// The statements every user would expect (known findings where the grammar cannot express them).
			must := []struct {
				db     string
				tables []string
			}{{"db", []string{"a", "b"}}, {"", []string{"a", "b"}}, {"db", []string{"a"}}, {"", nil}}
			r.Block("several", len(must), func(i int, c *Case) {
				c.Inf("database %q tables %q", must[i].db, must[i].tables)
				checkSchemaStmt(c, must[i].db, must[i].tables, 0, true, true)
			})
			r.otherConditions()
			r.recognition()
			r.schemaResults()
		},
	})
}

// otherConditions reads conditions on every column and with every operator back.
func (r *Run) otherConditions() {
	cols := []string{"TABLE_NAME", "table_name", "Table_Schema", "TABLE_SCHEMA", "COLUMN_NAME", "TABLE_CATALOG", "TABLE_TYPE", "TABLE_", "TABLE_NAMES", "TABLE_NAM", "NAME", "SCHEMA", "SCHEMA_NAME", "DATA_TYPE", "a"}
	ops := []string{"=", "<", ">", "<=", ">=", "<>", "!="}
	joins := []string{"", "AND", "OR"}
	d := dims{len(cols), len(ops), len(joins), len(cols), len(ops)}
	r.Block("other conditions", d.size(), func(i int, c *Case) {
		x := d.at(i)
		if x[2] == 0 && x[3]+x[4] > 0 {
			return
		}
		type cmp struct{ col, op, v string }
		cs := []cmp{{cols[x[0]], ops[x[1]], "x"}}
		text := "SELECT * FROM information_schema.columns WHERE " + cs[0].col + " " + cs[0].op + " 'x'"
		if x[2] > 0 {
			cs = append(cs, cmp{cols[x[3]], ops[x[4]], "Y y"})
			text += " " + joins[x[2]] + " " + cs[1].col + " " + cs[1].op + " 'Y y'"
		}
		dbs, tables, ok := []string{}, []string{}, x[2] < 2
		for _, m := range cs {
			ok = ok && m.op == "="
			switch strings.ToUpper(m.col) {
			case "TABLE_SCHEMA":
				dbs = append(dbs, m.v)
			case "TABLE_NAME":
				tables = append(tables, m.v)
			}
		}
		if len(dbs) > 1 {
			return
		}
		c.In(text)
		stmts, err := parse(text)
		if err != nil || len(stmts) != 1 {
			c.Failf("%v", err)
			return
		}
		st, err := system.NewSchemaColumnsStatement(system.WithSchemaColumnsStatementSelect(stmts[0].(query.Select)))
		c.Step(1)
		if (err == nil) != ok {
			c.Failf("%v", err)
			return
		}
		if ok && (st.DatabaseName() != strings.Join(dbs, "") || strings.Join(st.TableNames(), ",") != strings.Join(tables, ",")) {
			c.Failf("database %q tables %q, want %q %q", st.DatabaseName(), st.TableNames(), dbs, tables)
		}
		c.Trace()
	})
}

// recognition checks which SELECT statements are schema columns queries.
func (r *Run) recognition() {
	yes := []string{}
	base := "information_schema.columns"
	// Every single letter, prefix and suffix in upper case.
	for i := 0; i < len(base); i++ {
		yes = append(yes, base[:i]+strings.ToUpper(base[i:i+1])+base[i+1:], strings.ToUpper(base[:i])+base[i:], base[:i]+strings.ToUpper(base[i:]))
	}
	tails := []string{"", " WHERE TABLE_NAME = 'a'", " ORDER BY TABLE_NAME", " LIMIT 1", " GROUP BY TABLE_NAME"}
	no := []string{"columns", "information_schema", "t", "information_schema.tables", "information_schema.column", "information_schema.columnss", "information_schem.columns", "xinformation_schema.columns", "information_schema1.columns", "columns.information_schema", "db.columns", "information_schema.columns, t", "t, information_schema.columns", "information_schema.columns, information_schema.columns", "information_schema_columns", "informationschema.columns"}
	for i := 0; i < len(base); i++ {
		// One character dropped or changed.
		if base[i] != '.' {
			no = append(no, base[:i]+"x"+base[i+1:], base[:i]+base[i+1:])
		}
	}
	sels := []string{"*", "COLUMN_NAME", "COUNT(*)", "TABLE_NAME, DATA_TYPE"}
	all := append(append([]string{}, yes...), no...)
	r.Block("recognition", len(all)*len(tails)*len(sels), func(i int, c *Case) {
		d := dims{len(all), len(tails), len(sels)}.at(i)
		text := "SELECT " + sels[d[2]] + " FROM " + all[d[0]] + tails[d[1]]
		c.In(text)
		want := d[0] < len(yes)
		if all[d[0]] == base {
			want = true
		}
		stmts, err := parse(text)
		c.Step(1)
		if err != nil || len(stmts) != 1 {
			if want {
				c.Failf("not parsed: %v", err)
			}
			return
		}
		sel, ok := stmts[0].(sql.Select)
		if !ok {
			c.Failf("not a SELECT")
			return
		}
		if got := system.IsSchemaColumsQuery(sel); got != want {
			c.Failf("IsSchemaColumsQuery is %v, want %v", got, want)
		}
		c.Trace()
	})
}

type sysCol struct {
	table, name string
	t           query.DataType
}

// checkColumnsRS compares a result set of schema columns and what is read from it with the columns.
func checkColumnsRS(c *Case, make func() (resultset.ResultSet, error), cols []sysCol) {
	rs, err := make()
	c.Step(1)
	if err != nil || rs == nil {
		c.Failf("result set: %v", err)
		return
	}
	n := 0
	for rs.Next() {
		row, err := rs.Row()
		if err != nil {
			c.Failf("row %d: %v", n, err)
			return
		}
		c.Step(1)
		if n >= len(cols) {
			c.Failf("more than %d rows", len(cols))
			return
		}
		for k, w := range map[string]string{"TABLE_NAME": cols[n].table, "COLUMN_NAME": cols[n].name, "DATA_TYPE": cols[n].t.String()} {
			v, err := row.ValueBy(k)
			if err != nil || v != w {
				c.Failf("row %d: %s is %v (%v), want %s", n, k, v, err, w)
				return
			}
		}
		n++
	}
	if n != len(cols) {
		c.Failf("%d rows, want %d", n, len(cols))
		return
	}
	rs, err = make()
	if err != nil {
		c.Failf("result set: %v", err)
		return
	}
	checkReadColumns(c, rs, cols)
}

// checkReadColumns reads the schema columns of a result set.
func checkReadColumns(c *Case, rs resultset.ResultSet, cols []sysCol, prefixes ...string) {
	back, err := system.NewSchemaColumnsResultSetFromResultSet(rs)
	c.Step(1)
	if err != nil || back == nil {
		c.Failf("reading back: %v", err)
		return
	}
	got := back.Columns()
	if len(got) != len(cols) {
		c.Failf("%d columns are read back, want %d", len(got), len(cols))
		return
	}
	for i, w := range cols {
		g := got[i]
		if g.Table() != w.table || g.Name() != w.name || g.DataType() != w.t {
			c.Failf("column %d is read back as %s.%s %v, want %s.%s %v", i, g.Table(), g.Name(), g.DataType(), w.table, w.name, w.t)
			return
		}
		// The catalog and schema of other sources are derived from the column name.
		if len(prefixes) == 2 && (g.Catalog() != prefixes[0]+w.name || g.Schema() != prefixes[1]+w.name) {
			c.Failf("column %d is read back with the catalog %q and schema %q, want %q and %q", i, g.Catalog(), g.Schema(), prefixes[0]+w.name, prefixes[1]+w.name)
		}
	}
	for _, w := range cols {
		var first sysCol
		for _, x := range cols {
			if strings.EqualFold(x.name, w.name) {
				first = x
				break
			}
		}
		for _, n := range []string{w.name, strings.ToUpper(w.name), strings.ToLower(w.name)} {
			c.Step(1)
			g, err := back.LookupColumn(n)
			if err != nil {
				c.Failf("LookupColumn(%q): %v", n, err)
				return
			}
			if !strings.EqualFold(g.Name(), n) {
				c.Failf("LookupColumn(%q) is %s", n, g.Name())
			}
			same := 0
			for _, x := range cols {
				if strings.EqualFold(x.name, w.name) {
					same++
				}
			}
			if same == 1 && (g.Table() != first.table || g.Name() != first.name || g.DataType() != first.t) {
				c.Failf("LookupColumn(%q) is %s.%s %v, want %s.%s %v", n, g.Table(), g.Name(), g.DataType(), first.table, first.name, first.t)
			}
		}
	}
	for _, n := range []string{"", "nope", "TABLE_NAME"} {
		if _, err := back.LookupColumn(n); err == nil {
			c.Failf("LookupColumn(%q) is no error", n)
		}
	}
}

// schemaResults checks the result sets of schema lists.
func (r *Run) schemaResults() {
	types := allTypes()
	colSets := [][]string{{}, {"a"}, {"a", "b"}, {"b", "a"}, {"Id", "name", "x"}, {"c0", "c1", "c2", "c3", "c4", "c5"}}
	tbls := []string{"t", "u", "T2", "a b"}
	nl := r.Pick(3, 4)
	k := len(colSets) * len(tbls)
	total := 0
	if n := seqCount(k, nl); n > 0 {
		total = n
	}
	schemaOf := func(table string, cols []string, shift int) (query.Schema, []sysCol) {
		s := []query.Column{}
		out := []sysCol{}
		for n, name := range cols {
			t := types[(shift+n*5)%len(types)]
			s = append(s, newCol(name, t, 0))
			out = append(out, sysCol{table, name, t})
		}
		return query.NewSchemaWith(table, query.WithSchemaColumns(s)), out
	}
	r.Block("result-sets", total, func(i int, c *Case) {
		schemas := []query.Schema{}
		want := []sysCol{}
		in := []string{}
		for n, x := range seqAt(k, i) {
			s, w := schemaOf(tbls[x%len(tbls)], colSets[x/len(tbls)], i+n)
			schemas = append(schemas, s)
			want = append(want, w...)
			in = append(in, fmt.Sprintf("%s%v", tbls[x%len(tbls)], colSets[x/len(tbls)]))
		}
		c.Inf("schemas %v types from %d", in, i%len(types))
		c.State(fmt.Sprint(want))
		checkColumnsRS(c, func() (resultset.ResultSet, error) { return system.NewSchemaColumnsResultSetFromSchemas(schemas) }, want)
		c.Trace()
	})
	r.Block("types", len(types)*len(types), func(i int, c *Case) {
		want := []sysCol{{"t", "a", types[i/len(types)]}, {"t", "b", types[i%len(types)]}}
		c.Inf("types %v", want)
		s := query.NewSchemaWith("t", query.WithSchemaColumns([]query.Column{newCol("a", want[0].t, 0), newCol("b", want[1].t, 7)}))
		checkColumnsRS(c, func() (resultset.ResultSet, error) {
			return system.NewSchemaColumnsResultSetFromSchemas([]query.Schema{s})
		}, want)
		c.Trace()
	})
	r.schemaSizes(schemaOf)
	// Schemas of parsed CREATE TABLE statements.
	r.Block("parsed", 8, func(i int, c *Case) {
		text := "CREATE TABLE Tab (a INT, b VARCHAR(10), C DOUBLE, d TIMESTAMP, PRIMARY KEY (a))"
		want := []sysCol{{"Tab", "a", query.IntType}, {"Tab", "b", query.VarCharType}, {"Tab", "C", query.DoubleType}, {"Tab", "d", query.TimeStampType}}
		c.Inf("%d times %s", i, text)
		stmts, err := parse(strings.Repeat(text+";", i) + "SELECT 1 FROM t")
		if err != nil {
			c.Failf("%v", err)
			return
		}
		schemas := []query.Schema{}
		all := []sysCol{}
		for _, s := range stmts[:i] {
			schemas = append(schemas, s.(query.CreateTable).Schema())
			all = append(all, want...)
		}
		checkColumnsRS(c, func() (resultset.ResultSet, error) { return system.NewSchemaColumnsResultSetFromSchemas(schemas) }, all)
	})
	// Result sets of other sources: any column order and additional columns.
	five := []string{"TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "COLUMN_NAME", "DATA_TYPE"}
	perms := permutations(5)
	r.Block("other-sources", len(perms)*4*2, func(i int, c *Case) {
		d := dims{len(perms), 4, 2}.at(i)
		c.Inf("order %v, %d columns, rows from %d", perms[d[0]], d[1], d[2])
		want := []sysCol{}
		for n := 0; n < d[1]; n++ {
			want = append(want, sysCol{tbls[n%2], fmt.Sprintf("col%d", n), types[(i+n)%len(types)]})
		}
		names := []string{}
		for _, p := range perms[d[0]] {
			names = append(names, five[p])
		}
		names = append(names, "EXTRA")
		schema := rsSchemaOf(names...)
		rows := []resultset.Row{}
		for _, w := range want {
			m := map[string]any{"TABLE_CATALOG": "cat" + w.name, "TABLE_SCHEMA": "db" + w.name, "TABLE_NAME": w.table, "COLUMN_NAME": w.name, "DATA_TYPE": w.t.String(), "EXTRA": 1}
			if d[2] == 0 {
				rows = append(rows, resultset.NewRow(resultset.WithRowSchema(schema), resultset.WithRowObject(m)))
				continue
			}
			vals := []any{}
			for _, n := range names {
				vals = append(vals, m[n])
			}
			rows = append(rows, resultset.NewRow(resultset.WithRowSchema(schema), resultset.WithRowValues(vals)))
		}
		rs := resultset.NewResultSet(resultset.WithResultSetSchema(schema), resultset.WithResultSetRows(rows))
		checkReadColumns(c, rs, want, "cat", "db")
		c.Trace()
	})
}
