package main

import (
	"fmt"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
)

// obsColumnAll is everything a column reports.
func obsColumnAll(col query.Column) string {
	def := "none"
	if d := col.Definition(); d != nil {
		def = fmt.Sprintf("%s %d %v %s", d.DataType(), d.DataTypeSize(), d.Constraint(), d.String())
	}
	f := "none"
	if x, ok := col.Function(); ok {
		f = obsFunction(x)
	}
	args := []string{}
	for _, a := range col.Arguments() {
		args = append(args, a.Name())
	}
	up := ""
	if u, ok := col.(query.UpdatorStringer); ok {
		up = u.UpdatorString()
	}
	return fmt.Sprintf("%q def=%s type=%s/%d/%v value=%v %T(%v) lt=%v fn=%v %s args=%q def=%q str=%q val=%q up=%q *=%v ?=%v",
		col.Name(), def, col.DataType(), col.DataTypeSize(), col.Constraint(), col.HasValue(), col.Value(), col.Value(), col.ValueType(), col.IsFunction(), f, args,
		col.DefinitionString(), col.String(), col.ValueString(), up, col.IsAsterisk(), col.IsPlaceHolder())
}

func obsColumnsAll(cols query.Columns) string {
	out := []string{}
	for _, c := range cols {
		out = append(out, obsColumnAll(c))
	}
	return strings.Join(out, "; ")
}

// colMut is one change of a column through its interface.
type colMut struct {
	name string
	run  func(col query.Column)
}

func colMuts() []colMut {
	sch := func(t query.DataType, name string) query.Schema {
		return query.NewSchemaWith("t", query.WithSchemaColumns(query.NewColumnsWith(newCol(name, t, 3))))
	}
	return []colMut{
		{"SetValue(7)", func(c query.Column) { _ = c.SetValue(7) }},
		{"SetValue('x')", func(c query.Column) { _ = c.SetValue("x") }},
		{"SetValue(nil)", func(c query.Column) { _ = c.SetValue(nil) }},
		{"SetSchema(INT)", func(c query.Column) { _ = query.NewColumnsWith(c).SetSchema(sch(query.IntType, c.Name())) }},
		{"SetSchema(TEXT)", func(c query.Column) { _ = query.NewColumnsWith(c).SetSchema(sch(query.TextType, c.Name())) }},
		{"Arguments()[0]=", func(c query.Column) {
			if a := c.Arguments(); len(a) > 0 {
				a[0] = fn.NewArgumentWith("changed")
			}
		}},
		{"append(Arguments())", func(c query.Column) { _ = append(c.Arguments(), fn.NewArgumentWith("more")) }},
	}
}

// copyColumns is every kind of column.
func copyColumns() []struct {
	name string
	mk   func() query.Column
} {
	type mk = func() query.Column
	out := []struct {
		name string
		mk   func() query.Column
	}{}
	add := func(name string, f mk) {
		out = append(out, struct {
			name string
			mk   func() query.Column
		}{name, f})
	}
	defs := []func() query.ColumnDef{nil, func() query.ColumnDef { return query.NewDataDef(query.IntType, 0) }, func() query.ColumnDef { return query.NewDataDef(query.VarCharType, 20) }, query.NewUnknownDataDef}
	lits := []func() *query.Literal{nil, func() *query.Literal { return query.NewLiteralWith("12") }, func() *query.Literal {
		return query.NewLiteralWith("it's", query.WithLiteralType(query.StringLiteral))
	}, func() *query.Literal { return query.NewLiteralWith(nil) }, func() *query.Literal { return query.NewLiteralWith(5) }, func() *query.Literal { return query.NewLiteralWith("?") }, func() *query.Literal { return query.NewLiteralWith("*") }}
	fns := []func(*[]query.ColumnOption){nil, func(o *[]query.ColumnOption) {
		ex, _ := fn.NewExecutorForName("+")
		*o = append(*o, query.WithColumnFunctionExecutor(ex))
	}, func(o *[]query.ColumnOption) {
		ex, _ := fn.NewExecutorForName("ABS")
		*o = append(*o, query.WithColumnFunctionExecutor(ex))
	}}
	args := [][]string{nil, {"a"}, {"a", "1", "*"}}
	for _, name := range []string{"a", "", "*"} {
		for d := range defs {
			for l := range lits {
				for f := range fns {
					for a := range args {
						add(fmt.Sprintf("%s def %d lit %d fn %d args %v", name, d, l, f, args[a]), func() query.Column {
							o := []query.ColumnOption{query.WithColumnName(name)}
							if defs[d] != nil {
								o = append(o, query.WithColumnData(defs[d]()))
							}
							if lits[l] != nil {
								o = append(o, query.WithColumnLiteral(lits[l]()))
							}
							if fns[f] != nil {
								fns[f](&o)
							}
							if args[a] != nil {
								o = append(o, query.WithColumnArguments(append([]string{}, args[a]...)))
							}
							return query.NewColumnWithOptions(o...)
						})
					}
				}
			}
		}
	}
	parsed := func(text string, get func(s query.Statement) query.Column) {
		add(text, func() query.Column {
			stmts, err := parse(text)
			if err != nil {
				return query.NewColumnWithName("unparsed")
			}
			return get(stmts[0])
		})
	}
	ins := func(n int) func(s query.Statement) query.Column {
		return func(s query.Statement) query.Column { return s.(query.Insert).Columns()[n] }
	}
	upd := func(s query.Statement) query.Column { return s.(query.Update).Columns()[0] }
	for n := 0; n < 5; n++ {
		parsed("INSERT INTO t (a, b, c, d, e) VALUES (1, 'x', NULL, ?, 'it''s')", ins(n))
	}
	for _, t := range []string{"UPDATE t SET a = 1", "UPDATE t SET a = 'x'", "UPDATE t SET a = b + 1", "UPDATE t SET a = a % 3", "UPDATE t SET a = NULL", "UPDATE t SET a = ?", "UPDATE t SET a = UPPER(b)"} {
		parsed(t, upd)
	}
	for n := 0; n < 3; n++ {
		parsed("CREATE TABLE t (a INT PRIMARY KEY, b VARCHAR(20) NOT NULL, c)", func(s query.Statement) query.Column {
			return s.(query.CreateTable).Schema().Columns()[n]
		})
	}
	parsed("ALTER TABLE t ADD COLUMN x DECIMAL(10, 2)", func(s query.Statement) query.Column {
		c, _ := s.(query.AlterTable).AddColumn()
		return c
	})
	return out
}

// stmtParts are the changeable parts of a statement.
func stmtParts(s query.Statement) (cols []query.Column, lits []*query.Literal, schemas []query.Schema) {
	var expr func(e query.Expr)
	expr = func(e query.Expr) {
		switch e := e.(type) {
		case *query.CmpExpr:
			cols = append(cols, e.Left())
			lits = append(lits, e.Right())
		case *query.AndExpr:
			expr(e.Left())
			expr(e.Right())
		case *query.OrExpr:
			expr(e.Left())
			expr(e.Right())
		}
	}
	where := func(w query.Condition) {
		if w != nil && w.HasConditions() {
			expr(w.Expr())
		}
	}
	switch s := s.(type) {
	case query.Insert:
		for _, row := range s.Values() {
			cols = append(cols, row...)
		}
	case query.Update:
		cols = append(cols, s.Columns()...)
		where(s.Where())
	case query.Delete:
		where(s.Where())
	case query.Select:
		for _, x := range s.Selectors() {
			if c, ok := x.(query.Column); ok {
				cols = append(cols, c)
			}
		}
		where(s.Where())
	case query.CreateTable:
		schemas = append(schemas, s.Schema())
		cols = append(cols, s.Schema().Columns()...)
		for _, i := range s.Schema().Indexes() {
			cols = append(cols, i.Columns()...)
		}
	case query.CreateIndex:
		cols = append(cols, s.Index().Columns()...)
	case query.AlterTable:
		if c, ok := s.AddColumn(); ok {
			cols = append(cols, c)
		}
		if c, ok := s.DropColumn(); ok {
			cols = append(cols, c)
		}
		if f, t, ok := s.RenameColumns(); ok {
			cols = append(cols, f, t)
		}
		if i, ok := s.AddIndex(); ok {
			cols = append(cols, i.Columns()...)
		}
	case query.Copy:
		cols = append(cols, s.Columns()...)
	}
	return cols, lits, schemas
}

// obsWhole is everything of a statement including the definitions of its columns.
func obsWhole(s query.Statement) string {
	cols, lits, schemas := stmtParts(s)
	out := []string{obsStmt(s), s.String(), obsColumnsAll(cols)}
	for _, l := range lits {
		out = append(out, fmt.Sprintf("%T(%v) %v %q", l.Value(), l.Value(), l.ValueType(), l.String()))
	}
	for _, x := range schemas {
		out = append(out, x.TableName(), obsColumnsAll(x.Columns()), strings.Join(x.Indexes().IndexNames(), ","))
	}
	return strings.Join(out, "\n")
}

// changeStmt changes every changeable part of a statement in way n of stmtChanges.
const stmtChanges = 5

func changeStmt(s query.Statement, n int) {
	cols, lits, schemas := stmtParts(s)
	muts := colMuts()
	switch n {
	case 0, 1, 2:
		m := muts[[]int{0, 3, 5}[n]]
		for _, c := range cols {
			m.run(c)
		}
		for _, l := range lits {
			l.SetValue("changed")
			l.SetValueType(query.StringLiteral)
		}
	case 3:
		for _, x := range schemas {
			for _, c := range x.Columns().Names() {
				_ = x.DropColumn(c)
			}
			_ = x.AddColumn(newCol("zz", query.IntType, 0))
			for _, i := range x.Indexes().IndexNames() {
				_ = x.DropIndex(i)
			}
			_ = x.AddIndex(query.NewSecondaryIndexWith("zz", query.NewColumns()))
		}
		for _, l := range lits {
			l.SetValue(nil)
		}
	case 4:
		for _, c := range cols {
			_ = c.SetValue("'changed?'")
		}
		switch s := s.(type) {
		case query.Insert:
			vs := s.Values()
			for i := range vs {
				for j := range vs[i] {
					vs[i][j] = query.NewColumnWithName("replaced")
				}
			}
		case query.Update:
			for j := range s.Columns() {
				s.Columns()[j] = query.NewColumnWithName("replaced")
			}
		case query.Select:
			for j := range s.Selectors() {
				s.Selectors()[j] = query.NewColumnWithName("replaced")
			}
			for j := range s.From() {
				s.From()[j] = query.NewTableWith("replaced")
			}
		}
	}
}

var isolationTexts = []string{
	"INSERT INTO t (a, b) VALUES (1, 'x'), (2, 'y')",
	"INSERT INTO t (a) VALUES (NULL)",
	"INSERT INTO t VALUES (NULL, TRUE, ?)",
	"UPDATE t SET a = 1, b = 'x' WHERE c = 3",
	"UPDATE t SET a = a + 1",
	"UPDATE t SET a = NULL WHERE b = NULL",
	"DELETE FROM t WHERE a = 1 AND b = 'x'",
	"DELETE FROM t",
	"SELECT * FROM t",
	"SELECT a, COUNT(*), MAX(b) FROM t, u WHERE a = 1 OR b = ? GROUP BY a ORDER BY a LIMIT 1",
	"CREATE TABLE t (a INT PRIMARY KEY, b VARCHAR(10), c, INDEX i (b))",
	"CREATE TABLE u (a INT, b TEXT, PRIMARY KEY (a, b))",
	"CREATE INDEX i ON t (a, b)",
	"ALTER TABLE t ADD COLUMN x INT",
	"ALTER TABLE t DROP COLUMN x",
	"ALTER TABLE t ADD INDEX i (b)",
	"COPY t (a, b) FROM STDIN",
}

func init() {
	register(&Prop{ID: "C31", Rule: "every kind of column is copied and every sequence of changes to original, copy and second copy up to the depth is run, each leaving the others as they were; for every pair of statements parsed together, by one parser or by two, every kind of change to one leaves the other as parsed", Run: func(r *Run) {
		kinds := copyColumns()
		muts := colMuts()
		depth := r.Pick(2, 3)
		per := 1
		for k := 0; k < depth; k++ {
			per *= len(muts) * 3
		}
		r.Block("copies", len(kinds)*2, func(i int, c *Case) {
			k := kinds[i/2]
			c.In(k.name)
			col := k.mk()
			before := obsColumnAll(col)
			var cp query.Column
			if i%2 == 0 {
				cp = col.Copy()
			} else {
				l := query.NewColumnsWith(k.mk(), col, k.mk()).Copy()
				if len(l) != 3 {
					c.Failf("%d columns", len(l))
					return
				}
				cp = l[1]
				c.Eq("first of the copied list", obsColumnAll(l[0]), before)
				c.Eq("last of the copied list", obsColumnAll(l[2]), before)
			}
			c.Step(1)
			c.Eq("copy", obsColumnAll(cp), before)
			c.Eq("original", obsColumnAll(col), before)
			c.State(before)
			c.Trace()
		})
		r.Block("changes of copies", len(kinds)*per, func(i int, c *Case) {
			k := kinds[i/per]
			v := i % per
			cols := [3]query.Column{}
			cols[0] = k.mk()
			list := query.NewColumnsWith(cols[0])
			cols[1] = cols[0].Copy()
			cols[2] = list.Copy()[0]
			obs := [3]string{}
			for n := range cols {
				obs[n] = obsColumnAll(cols[n])
			}
			in := k.name
			for s := 0; s < depth; s++ {
				who, m := v%3, v/3%len(muts)
				v /= 3 * len(muts)
				in += fmt.Sprintf("; %d.%s", who, muts[m].name)
				muts[m].run(cols[who])
				c.Step(1)
				for n := range cols {
					now := obsColumnAll(cols[n])
					if n == who {
						obs[n] = now
					} else if now != obs[n] {
						c.In(in)
						c.Failf("column %d was %s and is %s", n, obs[n], now)
					}
				}
				// A copy of the changed column is a copy again.
				if cp := obsColumnAll(cols[who].Copy()); cp != obs[who] {
					c.In(in)
					c.Failf("the copy of %s is %s", obs[who], cp)
				}
			}
			c.Trace()
		})
		r.Block("lists", len(kinds)*len(muts), func(i int, c *Case) {
			k, m := kinds[i/len(muts)], muts[i%len(muts)]
			c.In(k.name + " " + m.name)
			list := query.NewColumnsWith(k.mk(), k.mk(), k.mk())
			cp := list.Copy()
			a, b := obsColumnsAll(list), obsColumnsAll(cp)
			c.Eq("copy", b, a)
			for n := range cp {
				m.run(cp[n])
			}
			cp[0] = query.NewColumnWithName("other")
			c.Eq("original", obsColumnsAll(list), a)
			cp = list.Copy()
			for n := range list {
				m.run(list[n])
			}
			list[2] = query.NewColumnWithName("other")
			c.Eq("copy", obsColumnsAll(cp), a)
			c.Trace()
		})
		n := len(isolationTexts)
		d := dims{n, n, stmtChanges, 4}
		r.Block("pairs of statements", d.size(), func(i int, c *Case) {
			x := d.at(i)
			a, b := isolationTexts[x[0]], isolationTexts[x[1]]
			c.Inf("%s | %s, way %d", a, b, x[3])
			var first, second query.Statement
			one := func(p interface {
				ParseString(string) ([]query.Statement, error)
			}, t string) query.Statement {
				s, err := p.ParseString(t)
				if err != nil || len(s) != 1 {
					c.Failf("%v", err)
					return nil
				}
				return s[0]
			}
			switch x[3] {
			case 0, 3:
				stmts, err := parse(a + "; " + b)
				if err != nil || len(stmts) != 2 {
					c.Failf("%v", err)
					return
				}
				first, second = stmts[0], stmts[1]
				if x[3] == 3 {
					first, second = second, first
				}
			case 1:
				p := sql.NewParser()
				first, second = one(p, a), one(p, b)
			case 2:
				first, second = one(sql.NewParser(), a), one(sql.NewParser(), b)
			}
			if c.Failed() {
				return
			}
			before := obsWhole(second)
			changeStmt(first, x[2])
			c.Step(1)
			c.Eq("the other statement", obsWhole(second), before)
			// A statement parsed afterwards is not changed either.
			if x[3] == 2 {
				if third := one(sql.NewParser(), b); third != nil {
					c.Eq("a statement parsed afterwards", obsWhole(third), before)
				}
			}
			c.Trace()
		})
		// The rows of one statement.
		r.Block("rows of an INSERT", 3*len(muts)*6, func(i int, c *Case) {
			who, m := i%3, muts[i/3%len(muts)]
			vals := []string{"1", "'x'", "NULL", "?", "TRUE", "1.5"}[i/3/len(muts)]
			text := fmt.Sprintf("INSERT INTO t (a, b) VALUES (%s, %s), (%s, %s), (%s, %s)", vals, vals, vals, vals, vals, vals)
			c.In(text + " " + m.name)
			stmts, err := parse(text)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			rows := stmts[0].(query.Insert).Values()
			before := obsColumnsAll(rows[(who+1)%3]) + obsColumnsAll(rows[(who+2)%3]) + obsColumnAll(rows[who][1])
			m.run(rows[who][0])
			c.Eq("the other values", obsColumnsAll(rows[(who+1)%3])+obsColumnsAll(rows[(who+2)%3])+obsColumnAll(rows[who][1]), before)
			c.Trace()
		})
	}})
}
