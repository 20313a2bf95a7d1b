package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
)

// Statements built with the constructors: each part knows how to build itself and what is to be observed.

type bval struct {
	mk  func() *query.Literal
	obs string // of the built literal
	lit bool   // the grammar takes the printed value for a literal of a comparison
}

func bstr(s string) bval {
	return bval{func() *query.Literal { return query.NewLiteralWith(s, query.WithLiteralType(query.StringLiteral)) }, "S:" + q(s), true}
}

func bany(v any) bval {
	s := fmt.Sprint(v)
	return bval{func() *query.Literal { return query.NewLiteralWith(v) }, "R:" + q(norm(s)), !strings.HasPrefix(s, "-")}
}

type btab struct{ s, n string }

func (b btab) build() query.Table {
	if b.s == "" {
		return query.NewTableWith(b.n)
	}
	return query.NewTableWith(b.n, query.WithTableSchema(b.s))
}

func (b btab) full() string { return mname{b.s, b.n}.full() }

func (b btab) in() string {
	if b.s == "" {
		return q(b.full())
	}
	return q(b.full()) + " in " + q(b.s)
}

type bcond struct {
	mk  func() query.Condition
	obs string
}

func builtValues() []bval {
	out := []bval{}
	for _, s := range []string{"", "x", "it's", "''", "'", "a\"b", "?", "$1", "NULL", "--", "/*", ";", "a\nb", "\\", "é", "%", "x'y'z", " ", "0", "`"} {
		out = append(out, bstr(s))
	}
	for _, v := range []any{0, 1, -1, math.MaxInt64, math.MinInt64, int8(7), uint64(math.MaxUint64), 1.5, -0.25, 1e21, 1e-7, float32(0.5), true, false} {
		out = append(out, bany(v))
	}
	return out
}

var bOps = []struct {
	mk func(query.Column, *query.Literal) *query.CmpExpr
	o  string
}{
	{query.NewEQWith, "EQ"}, {query.NewNEQWith, "NEQ"}, {query.NewLTWith, "LT"}, {query.NewGTWith, "GT"}, {query.NewLEWith, "LE"}, {query.NewGEWith, "GE"},
	{func(c query.Column, l *query.Literal) *query.CmpExpr { return query.NewCmpExprWith(query.EQ, c, l) }, "EQ"},
	{func(c query.Column, l *query.Literal) *query.CmpExpr { return query.NewCmpExprWith(query.GE, c, l) }, "GE"},
}

func builtConds(thorough bool) []bcond {
	out := []bcond{
		{func() query.Condition { return query.NewCondition() }, "NONE"},
		{func() query.Condition { return query.NewConditionWith(nil) }, "NONE"},
	}
	type one struct {
		mk  func() query.Expr
		obs string
	}
	ones := []one{}
	vals := builtValues()
	for k, o := range bOps {
		for n, v := range vals {
			if !v.lit {
				continue
			}
			col := []string{"a", "b1", "_c"}[(k+n)%3]
			x := one{func() query.Expr { return o.mk(query.NewColumnWithName(col), v.mk()) }, "(" + col + " " + o.o + " " + v.obs + ")"}
			if len(ones) < len(bOps)*6 && n < 3 || n == 20 {
				ones = append(ones, x)
			}
			out = append(out, bcond{func() query.Condition { return query.NewConditionWith(x.mk()) }, x.obs})
		}
	}
	for _, a := range ones {
		for k, b := range ones {
			if !thorough && k%3 != 0 {
				continue
			}
			out = append(out,
				bcond{func() query.Condition { return query.NewConditionWith(query.NewAndExpr(a.mk(), b.mk())) }, "(" + a.obs + " AND " + b.obs + ")"},
				bcond{func() query.Condition { return query.NewConditionWith(query.NewOrExpr(a.mk(), b.mk())) }, "(" + a.obs + " OR " + b.obs + ")"})
		}
	}
	return out
}

// built checks one built statement: what it reports, and what its printed text reports.
func built(c *Case, stmt query.Statement, want string) {
	text := stmt.String()
	c.In(text)
	c.Step(1)
	got := obsStmt(stmt)
	if !c.Eq("built statement", got, want) {
		return
	}
	c.State(want)
	roundTrip(c, stmt, want)
}

func init() {
	register(&Prop{ID: "C32", Rule: "statements of every kind are built with the public constructors from every combination of parts within the bounds; what they report is compared with the given parts, and their printed text is parsed and must report the same", Run: func(r *Run) {
		tabs := []btab{{"", "t"}, {"s", "t"}, {"", "Tbl_1"}, {"S1", "_t"}}
		conds := builtConds(r.Thorough())
		vals := builtValues()
		few := []bcond{conds[0], conds[2], conds[40], conds[len(conds)-1], conds[len(conds)-2]}
		type bsel struct {
			mk  func() query.Selector
			obs string
		}
		sels := []bsel{{func() query.Selector { return query.NewColumnWithName("*") }, `*:"*"`}}
		for _, n := range []string{"a", "b1", "s.a"} {
			sels = append(sels, bsel{func() query.Selector { return query.NewColumnWithName(n) }, "C:" + q(norm(n))})
		}
		for _, f := range [][]string{{"SUM", "a"}, {"count", "*"}, {"Upper", "b1"}, {"POWER", "a", "2"}, {"PI"}, {"nosuch", "a", "b", "c"}} {
			sels = append(sels, bsel{func() query.Selector {
				args := []fn.Argument{}
				for _, a := range f[1:] {
					args = append(args, fn.NewArgumentWith(a))
				}
				return fn.NewFunction(fn.WithFunctionName(f[0]), fn.WithFunctionArguments(args...))
			}, func() string {
				a := []toks{}
				for _, x := range f[1:] {
					a = append(a, id(x))
				}
				return sfn(f[0], a...).obs
			}()})
		}
		orderSets := [][]mord{nil, {{"a", "ASC"}}, {{"b", "DESC"}}, {{"a", "DESC"}, {"b", "ASC"}}, {{"c", "ASC"}, {"a", "ASC"}, {"b", "DESC"}}}
		limits := [][2]uint{{0, 0}, {0, 1}, {3, 4}, {4, 4}, {0, math.MaxUint32}, {7, 0}}
		mkSelect := func(sl []bsel, tl []btab, w bcond, distinct bool, group string, orders []mord, lim [2]uint, way int) (query.Statement, string) {
			ss := query.NewSelectors()
			so := []string{}
			for _, s := range sl {
				ss = append(ss, s.mk())
				so = append(so, s.obs)
			}
			if way%2 == 1 {
				ss = query.NewSelectorsWith(ss...)
			}
			ts := query.NewTables()
			to := []string{}
			for _, t := range tl {
				ts = append(ts, t.build())
				to = append(to, t.in())
			}
			if way%2 == 1 {
				ts = query.NewTablesWith(ts...)
			}
			opts := []query.SelectOption{}
			if distinct {
				opts = append(opts, query.WithSelectDistinct())
			}
			if group != "" {
				opts = append(opts, query.WithSelectGroupBy(group))
			}
			oo := []string{}
			if orders != nil {
				list := []query.Order{}
				for _, o := range orders {
					list = append(list, query.NewOrderWith(o.col, query.NewOrderTypeWith(o.dir)))
					oo = append(oo, q(o.col)+" "+o.dir)
				}
				opts = append(opts, query.WithSelectOrderBy(query.NewOrderByWith(list)))
			}
			if lim != [2]uint{} {
				opts = append(opts, query.WithSelectLimit(lim[0], lim[1]))
			}
			if way%3 == 1 {
				for i, j := 0, len(opts)-1; i < j; i, j = i+1, j-1 {
					opts[i], opts[j] = opts[j], opts[i]
				}
			}
			return query.NewSelectWith(ss, ts, w.mk(), opts...), fmt.Sprintf("SELECT distinct=%v [%s] from=[%s] where=%s group=%s order=[%s] limit=%d offset=%d",
				distinct, strings.Join(so, ", "), strings.Join(to, ","), w.obs, q(group), strings.Join(oo, ", "), lim[1], lim[0])
		}
		// All combinations of clauses.
		d := dims{3, 3, 2, 3, len(orderSets), len(limits), len(few)}
		r.Block("select clauses", d.size(), func(i int, c *Case) {
			x := d.at(i)
			sl := [][]bsel{sels[:1], {sels[1], sels[4]}, {sels[5], sels[2], sels[6]}}[x[0]]
			tl := [][]btab{tabs[:1], tabs[1:3], {tabs[3]}}[x[1]]
			s, o := mkSelect(sl, tl, few[x[6]], x[2] == 1, []string{"", "a", "b1"}[x[3]], orderSets[x[4]], limits[x[5]], i)
			built(c, s, o)
		})
		ns := seqCount(len(sels), r.Pick(3, 4)) - 1
		r.Block("selectors", ns, func(i int, c *Case) {
			sl := []bsel{}
			for _, k := range seqAt(len(sels), i+1) {
				sl = append(sl, sels[k])
			}
			s, o := mkSelect(sl, tabs[:1], few[0], false, "", nil, [2]uint{}, i)
			built(c, s, o)
		})
		r.Block("no selectors", 1, func(i int, c *Case) {
			s := query.NewSelectWith(query.NewSelectors(), query.NewTablesWith(tabs[0].build()), query.NewCondition())
			c.Eq("text of a statement without selectors", s.String(), "SELECT * FROM t")
		})
		nt := seqCount(len(tabs), 3) - 1
		r.Block("tables", nt*2, func(i int, c *Case) {
			tl := []btab{}
			for _, k := range seqAt(len(tabs), i/2+1) {
				tl = append(tl, tabs[k])
			}
			s, o := mkSelect(sels[1:2], tl, few[i%len(few)], false, "", nil, [2]uint{}, i)
			built(c, s, o)
		})
		// Conditions of the three statements.
		r.Block("conditions", len(conds)*3, func(i int, c *Case) {
			w := conds[i/3]
			t := tabs[i%len(tabs)]
			switch i % 3 {
			case 0:
				s, o := mkSelect(sels[:1], []btab{t}, w, false, "", nil, [2]uint{}, i)
				built(c, s, o)
			case 1:
				built(c, query.NewDeleteWith(t.build(), w.mk()), "DELETE "+q(t.full())+" where="+w.obs)
			case 2:
				col := query.NewColumnWithOptions(query.WithColumnName("a"), query.WithColumnLiteral(vals[1].mk()))
				built(c, query.NewUpdateWith(t.build(), query.NewColumnsWith(col), w.mk()), "UPDATE "+q(t.full())+" [\"a\"="+vals[1].obs+"] where="+w.obs)
			}
		})
		// Values of INSERT and UPDATE.
		nv := len(vals)
		r.Block("values", nv*nv, func(i int, c *Case) {
			a, b := vals[i/nv], vals[i%nv]
			col := func(n string, v bval) query.Column {
				opts := []query.ColumnOption{query.WithColumnName(n), query.WithColumnLiteral(v.mk())}
				if i%2 == 1 {
					opts[0], opts[1] = opts[1], opts[0]
				}
				return query.NewColumnWithOptions(opts...)
			}
			t := tabs[i%len(tabs)]
			built(c, query.NewInsertWith(t.build(), []query.Columns{query.NewColumnsWith(col("a", a), col("b", b))}), "INSERT "+q(t.full())+" (\"a\"="+a.obs+", \"b\"="+b.obs+")")
			if c.Failed() {
				return
			}
			built(c, query.NewInsertWith(t.build(), []query.Columns{{col("a", b)}, {col("a", a)}, {col("a", b)}}), "INSERT "+q(t.full())+" (\"a\"="+b.obs+") (\"a\"="+a.obs+") (\"a\"="+b.obs+")")
			if c.Failed() {
				return
			}
			built(c, query.NewInsertWith(t.build(), []query.Columns{{col("", a), col("", b)}}), "INSERT "+q(t.full())+" (\"\"="+a.obs+", \"\"="+b.obs+")")
			if c.Failed() {
				return
			}
			w := few[i%len(few)]
			built(c, query.NewUpdateWith(t.build(), query.NewColumnsWith(col("b", a), col("a", b)), w.mk()), "UPDATE "+q(t.full())+" [\"b\"="+a.obs+", \"a\"="+b.obs+"] where="+w.obs)
		})
		// NULL values of columns: the one of the package and one made without a value.
		r.Block("null", 2, func(i int, c *Case) {
			l := []*query.Literal{query.NullLiteral, query.NewLiteralWith(nil)}[i]
			s := query.NewInsertWith(tabs[0].build(), []query.Columns{{query.NewColumnWithOptions(query.WithColumnName("a"), query.WithColumnLiteral(l))}})
			c.Inf("INSERT of the NULL literal %d", i)
			stmts, err := parse(s.String())
			if err != nil || len(stmts) != 1 {
				c.Failf("the printed text %s is rejected: %v", clip(s.String()), err)
				return
			}
			c.Eq("the printed text "+s.String(), obsStmt(stmts[0]), `INSERT "t" ("a"=R:"NULL")`)
		})
		// Arithmetic assignments.
		ops := []struct {
			name string
			mk   func() (fn.Executor, error)
		}{}
		for _, o := range []string{"+", "-", "*", "/", "%"} {
			ops = append(ops, struct {
				name string
				mk   func() (fn.Executor, error)
			}{o, func() (fn.Executor, error) { return fn.NewExecutorForName(o) }})
		}
		r.Block("arithmetic", len(ops)*4*len(few), func(i int, c *Case) {
			o, w := ops[i%len(ops)], few[i/len(ops)/4]
			arg := []string{"1", "2.5", "b", "c1"}[i/len(ops)%4]
			ex, err := o.mk()
			if err != nil {
				c.Failf("%v", err)
				return
			}
			col := query.NewColumnWithOptions(query.WithColumnName("a"), query.WithColumnFunctionExecutor(ex), query.WithColumnArguments([]string{"d", arg}))
			built(c, query.NewUpdateWith(tabs[1].build(), query.NewColumnsWith(col), w.mk()),
				"UPDATE \"s.t\" [\"a\"=E:"+o.name+"(\"d\","+q(norm(arg))+")/"+o.name+"] where="+w.obs)
		})
		// Definitions.
		types := []query.DataType{}
		for _, t := range allTypes() {
			if t.String() != "" && t != query.BinaryType && t != query.UnknownData {
				types = append(types, t)
			}
		}
		def := func(t query.DataType, size int) string {
			d := strings.ReplaceAll(t.String(), " ", "")
			if size > 0 {
				d += fmt.Sprintf("(%d)", size)
			}
			if size < 0 {
				size = 0
			}
			return fmt.Sprintf("%s %d %s", t, size, d)
		}
		sizes := []int{0, -1, 1, 255}
		colDef := func(n string, t query.DataType, size int) query.Column {
			return query.NewColumnWithOptions(query.WithColumnName(n), query.WithColumnData(query.NewDataDef(t, size)))
		}
		dc := dims{len(types), len(types), len(sizes), 2}
		r.Block("create table types", dc.size(), func(i int, c *Case) {
			x := dc.at(i)
			a, b := colDef("a", types[x[0]], sizes[x[2]]), colDef("b", types[x[1]], sizes[(x[2]+1)%4])
			s := query.NewSchemaWith("t", query.WithSchemaColumns(query.NewColumnsWith(a, b)))
			built(c, query.NewCreateTableWith(s, query.NewIfNotExistsWith(x[3] == 1)),
				fmt.Sprintf("CREATE TABLE ifne=%v \"t\" [\"a\" %s; \"b\" %s] {}", x[3] == 1, def(types[x[0]], sizes[x[2]]), def(types[x[1]], sizes[(x[2]+1)%4])))
		})
		idxCols := [][]string{{"a"}, {"b"}, {"a", "b"}, {"b", "a"}, {"c", "a", "b"}}
		cols := func(ns []string) query.Columns {
			out := query.NewColumns()
			for _, n := range ns {
				out = append(out, query.NewColumnWithName(n))
			}
			return out
		}
		ni := len(idxCols)
		oneCol := 2 // the first two have one column; the grammar takes no other for an index of a table definition
		di := dims{ni + 1, oneCol + 1, oneCol + 1, 2, 2}
		r.Block("create table indexes", di.size(), func(i int, c *Case) {
			x := di.at(i)
			idx, obs := query.NewIndexes(), []string{}
			primary := func(many bool) {
				// A key of several columns stands behind the indexes in this dialect.
				if x[0] < ni && (x[0] >= oneCol) == many {
					idx = append(idx, query.NewPrimaryIndexWith(cols(idxCols[x[0]])))
					obs = append(obs, "PRIMARY("+names(idxCols[x[0]])+")")
				}
			}
			primary(false)
			for k := 1; k < 3; k++ {
				if x[k] < oneCol {
					n := fmt.Sprint("i", k)
					if x[4] == 0 {
						idx = append(idx, query.NewSecondaryIndexWith(n, cols(idxCols[x[k]])))
					} else {
						idx = append(idx, query.NewIndexWith(n, query.SecondaryIndex, cols(idxCols[x[k]])))
					}
					obs = append(obs, "INDEX:"+q(n)+"("+names(idxCols[x[k]])+")")
				}
			}
			primary(true)
			cs := query.NewColumnsWith(colDef("a", query.IntType, 0), colDef("b", query.VarCharType, 10), colDef("c", query.TextType, -1))
			s := query.NewSchemaWith("s.t", query.WithSchemaIndexes(idx), query.WithSchemaColumns(cs))
			built(c, query.NewCreateTableWith(s, query.NewIfNotExistsWith(x[3] == 1)),
				fmt.Sprintf("CREATE TABLE ifne=%v \"s.t\" [\"a\" INT 0 INT; \"b\" VARCHAR 10 VARCHAR(10); \"c\" TEXT 0 TEXT] {%s}", x[3] == 1, strings.Join(obs, "; ")))
		})
		r.Block("create table with several columns in an index", 2, func(i int, c *Case) {
			idx := query.Indexes{query.NewSecondaryIndexWith("i1", cols(idxCols[2]))}
			obs := `INDEX:"i1"("a","b")`
			if i == 1 {
				idx = query.Indexes{query.NewPrimaryIndexWith(cols(idxCols[2])), query.NewSecondaryIndexWith("i1", cols(idxCols[0]))}
				obs = `PRIMARY("a","b"); INDEX:"i1"("a")`
			}
			s := query.NewSchemaWith("t", query.WithSchemaColumns(query.NewColumnsWith(colDef("a", query.IntType, 0), colDef("b", query.IntType, 0))), query.WithSchemaIndexes(idx))
			built(c, query.NewCreateTableWith(s, query.NewIfNotExistsWith(true)), `CREATE TABLE ifne=true "t" ["a" INT 0 INT; "b" INT 0 INT] {`+obs+`}`)
		})
		r.Block("create and drop index", ni*2*2, func(i int, c *Case) {
			cn, f := idxCols[i%ni], i/ni%2 == 1
			if i/ni/2 == 0 {
				s := query.NewSchemaWith("t", query.WithSchemaIndexes(query.Indexes{query.NewSecondaryIndexWith("i1", cols(cn))}))
				built(c, query.NewCreateIndexWith(s, query.NewIfNotExistsWith(f)), fmt.Sprintf("CREATE INDEX ifne=%v on=\"t\" INDEX:\"i1\"(%s)", f, names(cn)))
			} else {
				tn := []string{"", "t"}[i%2]
				built(c, query.NewDropIndexWith(tn, cn[0], query.NewIfExistsWith(f)), fmt.Sprintf("DROP INDEX ife=%v on=%s %s", f, q(tn), q(cn[0])))
			}
		})
		r.Block("drop, truncate and other", nt*3, func(i int, c *Case) {
			ts, to := query.NewTables(), []string{}
			for _, k := range seqAt(len(tabs), i/3+1) {
				ts = append(ts, tabs[k].build())
				to = append(to, q(tabs[k].full()))
			}
			for k, t := range ts {
				// Of these statements only the first name of DROP TABLE can be qualified in this dialect.
				if t.SchemaName() != "" && (k > 0 || i%3 == 2) {
					return
				}
			}
			switch i % 3 {
			case 0, 1:
				built(c, query.NewDropTableWith(ts, query.NewIfExistsWith(i%3 == 1)), fmt.Sprintf("DROP TABLE ife=%v [%s]", i%3 == 1, strings.Join(to, ",")))
			case 2:
				built(c, query.NewTruncateWith(ts), "TRUNCATE ["+strings.Join(to, ",")+"]")
			}
		})
		r.Block("drop tables of schemas", 1, func(i int, c *Case) {
			built(c, query.NewDropTableWith(query.NewTablesWith(tabs[0].build(), tabs[1].build()), query.NewIfExistsWith(false)), `DROP TABLE ife=false ["t","s.t"]`)
		})
		r.Block("truncate table of a schema", 1, func(i int, c *Case) {
			built(c, query.NewTruncateWith(query.NewTablesWith(tabs[1].build())), `TRUNCATE ["s.t"]`)
		})
		dbs := []string{"db", "Db_1", "_d"}
		r.Block("databases", len(dbs)*len(dbs)*6, func(i int, c *Case) {
			a, b := dbs[i/6%len(dbs)], dbs[i/6/len(dbs)]
			f := i%2 == 1
			switch i % 6 {
			case 0, 1:
				built(c, query.NewCreateDatabaseWith(a, query.NewIfNotExistsWith(f)), fmt.Sprintf("CREATE DATABASE ifne=%v %s", f, q(a)))
			case 2, 3:
				built(c, query.NewDropDatabaseWith(a, query.NewIfExistsWith(f)), fmt.Sprintf("DROP DATABASE ife=%v %s", f, q(a)))
			case 4:
				built(c, query.NewAlterDatabaseWith(a, b), fmt.Sprintf("ALTER DATABASE %s to %s", q(a), q(b)))
			case 5:
				built(c, query.NewUseWith(a), "USE "+q(a))
			}
		})
		type balter struct {
			opt query.AlterTableOption
			obs string
		}
		alters := []balter{}
		for _, n := range []string{"a", "B_1"} {
			alters = append(alters,
				balter{query.WithAlterTableRenameTo(query.NewTableWith(n)), "RENAME-TO " + q(n)},
				balter{query.WithAlterTableDropColumn(query.NewColumnWithName(n)), "DROP-COLUMN " + q(n)},
				balter{query.WithAlterTableRenameColumn(query.NewColumnWithName(n), query.NewColumnWithName("z")), "RENAME-COLUMN " + q(n) + ` "z"`},
				balter{query.WithAlterTableRenameColumn(query.NewColumnWithName("z"), query.NewColumnWithName(n)), `RENAME-COLUMN "z" ` + q(n)})
			for k, t := range types {
				size := sizes[k%4]
				alters = append(alters, balter{query.WithAlterTableAddColumn(colDef(n, t, size)), "ADD-COLUMN " + q(n) + " " + def(t, size)})
			}
			for _, cn := range idxCols {
				alters = append(alters, balter{query.WithAlterTableAddIndex(query.NewSecondaryIndexWith(n, cols(cn))), "ADD-INDEX INDEX:" + q(n) + "(" + names(cn) + ")"},
					balter{query.WithAlterTableAddIndex(query.NewPrimaryIndexWith(cols(cn))), "ADD-INDEX PRIMARY(" + names(cn) + ")"})
			}
		}
		r.Block("alter table", len(alters)*len(tabs), func(i int, c *Case) {
			a, t := alters[i/len(tabs)], tabs[i%len(tabs)]
			opts := []query.AlterTableOption{a.opt}
			if t.s != "" {
				opts = append(opts, query.WithAlterTableSchema(t.s))
			}
			built(c, query.NewAlterTableWith(t.n, opts...), "ALTER TABLE "+q(t.full())+" "+a.obs)
		})
		// Sizes.
		ls := lengths(r)
		const kindsOfSize = 12
		r.Block("sizes", len(ls)*kindsOfSize, func(i int, c *Case) {
			n := ls[i/kindsOfSize]
			ns := wideNames(n)
			switch i % kindsOfSize {
			case 0:
				sl := []bsel{}
				for k, nm := range ns {
					if k%3 == 2 {
						sl = append(sl, sels[k%len(sels)])
						continue
					}
					sl = append(sl, bsel{func() query.Selector { return query.NewColumnWithName(nm) }, "C:" + q(nm)})
				}
				s, o := mkSelect(sl, tabs[:1], few[n%len(few)], false, "", nil, [2]uint{}, n)
				built(c, s, o)
			case 1:
				tl := []btab{}
				for k, nm := range ns {
					tl = append(tl, btab{[]string{"", "s"}[k%2], nm})
				}
				s, o := mkSelect(sels[1:2], tl, few[n%len(few)], false, "", nil, [2]uint{}, n)
				built(c, s, o)
			case 2:
				ord := []mord{}
				for k, nm := range ns {
					ord = append(ord, mord{nm, []string{"ASC", "DESC"}[k%2]})
				}
				s, o := mkSelect(sels[1:2], tabs[:1], few[n%len(few)], false, "", ord, [2]uint{}, n)
				built(c, s, o)
			case 3, 4, 5, 6:
				// Rows x columns of INSERT: n x 1, 1 x n, n x 2; UPDATE of n columns.
				rn, cn := n, 1
				switch i % kindsOfSize {
				case 4, 6:
					rn, cn = 1, n
				case 5:
					cn = min(2, n)
				}
				rows, obs := []query.Columns{}, []string{}
				for k := 0; k < rn; k++ {
					row, ro := query.NewColumns(), []string{}
					for j := 0; j < cn; j++ {
						v := vals[(k*7+j*3)%len(vals)]
						row = append(row, query.NewColumnWithOptions(query.WithColumnName(ns[j]), query.WithColumnLiteral(v.mk())))
						ro = append(ro, q(ns[j])+"="+v.obs)
					}
					rows = append(rows, row)
					obs = append(obs, "("+strings.Join(ro, ", ")+")")
				}
				if i%kindsOfSize == 6 {
					built(c, query.NewUpdateWith(tabs[0].build(), rows[0], few[n%len(few)].mk()), "UPDATE \"t\" ["+strings.Trim(strings.Join(obs, ""), "()")+"] where="+few[n%len(few)].obs)
					return
				}
				built(c, query.NewInsertWith(tabs[0].build(), rows), "INSERT \"t\" "+strings.Join(obs, " "))
			case 7:
				cs, obs := query.NewColumns(), []string{}
				for k, nm := range ns {
					t, size := types[k%len(types)], sizes[k%4]
					cs = append(cs, colDef(nm, t, size))
					obs = append(obs, q(nm)+" "+def(t, size))
				}
				built(c, query.NewCreateTableWith(query.NewSchemaWith("t", query.WithSchemaColumns(cs), query.WithSchemaIndexes(query.Indexes{query.NewPrimaryIndexWith(cols(ns))})), query.NewIfNotExistsWith(n%2 == 1)),
					fmt.Sprintf("CREATE TABLE ifne=%v \"t\" [%s] {PRIMARY(%s)}", n%2 == 1, strings.Join(obs, "; "), names(ns)))
			case 8:
				idx, obs := query.NewIndexes(), []string{}
				for k, nm := range ns {
					idx = append(idx, query.NewSecondaryIndexWith(nm, cols([]string{[]string{"a", "b"}[k%2]})))
					obs = append(obs, "INDEX:"+q(nm)+"("+q([]string{"a", "b"}[k%2])+")")
				}
				cs := query.NewColumnsWith(colDef("a", query.IntType, 0), colDef("b", query.IntType, 0))
				built(c, query.NewCreateTableWith(query.NewSchemaWith("t", query.WithSchemaColumns(cs), query.WithSchemaIndexes(idx)), query.NewIfNotExistsWith(true)),
					`CREATE TABLE ifne=true "t" ["a" INT 0 INT; "b" INT 0 INT] {`+strings.Join(obs, "; ")+"}")
			case 9:
				s := query.NewSchemaWith("t", query.WithSchemaIndexes(query.Indexes{query.NewSecondaryIndexWith("i1", cols(ns))}))
				built(c, query.NewCreateIndexWith(s, query.NewIfNotExistsWith(false)), fmt.Sprintf("CREATE INDEX ifne=false on=\"t\" INDEX:\"i1\"(%s)", names(ns)))
			case 10:
				ts := query.NewTables()
				for _, nm := range ns {
					ts = append(ts, query.NewTableWith(nm))
				}
				built(c, query.NewDropTableWith(ts, query.NewIfExistsWith(n%2 == 1)), fmt.Sprintf("DROP TABLE ife=%v [%s]", n%2 == 1, names(ns)))
				if !c.Failed() {
					built(c, query.NewTruncateWith(ts), "TRUNCATE ["+names(ns)+"]")
				}
			case 11:
				built(c, query.NewCopyWith("t", "stdin", query.WithCopyColumns(cols(ns)...)), fmt.Sprintf("COPY \"t\" (%s) \"stdin\" TEXT", names(ns)))
			}
		})
		// Strings of every pair and triple of characters with a meaning, and of every length.
		chars := []string{"'", "\"", "\\", "%", "_", "?", "$", "-", "/", "*", ";", ",", "(", ")", "\n", "\t", " ", "a", "0", "é", "`", "@", "=", "N"}
		nch := seqCount(len(chars), r.Pick(3, 4))
		r.Block("strings", nch, func(i int, c *Case) {
			t := ""
			for _, k := range seqAt(len(chars), i) {
				t += chars[k]
			}
			v := bstr(t)
			if i%2 == 0 {
				built(c, query.NewInsertWith(tabs[0].build(), []query.Columns{{query.NewColumnWithOptions(query.WithColumnName("a"), query.WithColumnLiteral(v.mk()))}}), `INSERT "t" ("a"=`+v.obs+")")
				return
			}
			built(c, query.NewDeleteWith(tabs[0].build(), query.NewConditionWith(query.NewEQWith(query.NewColumnWithName("a"), v.mk()))), `DELETE "t" where=(a EQ `+v.obs+")")
		})
		nl := nameLengths(r)
		r.Block("lengths", len(nl)*4, func(i int, c *Case) {
			n := nl[i/4]
			t := strings.Repeat("n", n)
			v := bstr(strings.Repeat("x'", n)[:n])
			switch i % 4 {
			case 0:
				built(c, query.NewInsertWith(query.NewTableWith(t), []query.Columns{{query.NewColumnWithOptions(query.WithColumnName(t), query.WithColumnLiteral(v.mk()))}}), "INSERT "+q(t)+" ("+q(t)+"="+v.obs+")")
			case 1:
				s, o := mkSelect([]bsel{{func() query.Selector { return query.NewColumnWithName(t) }, "C:" + q(t)}}, []btab{{t, t}}, bcond{func() query.Condition {
					return query.NewConditionWith(query.NewEQWith(query.NewColumnWithName(t), v.mk()))
				}, "(" + t + " EQ " + v.obs + ")"}, false, t, []mord{{t, "DESC"}}, [2]uint{}, i)
				built(c, s, o)
			case 2:
				built(c, query.NewCreateTableWith(query.NewSchemaWith(t, query.WithSchemaColumns(query.NewColumnsWith(colDef(t, query.VarCharType, n)))), query.NewIfNotExistsWith(false)),
					fmt.Sprintf("CREATE TABLE ifne=false %s [%s VARCHAR %d VARCHAR(%d)] {}", q(t), q(t), n, n))
			case 3:
				built(c, query.NewAlterTableWith(t, query.WithAlterTableRenameColumn(query.NewColumnWithName(t), query.NewColumnWithName(t+"2"))), "ALTER TABLE "+q(t)+" RENAME-COLUMN "+q(t)+" "+q(t+"2"))
			}
		})
		r.Block("others", 5, func(i int, c *Case) {
			switch i {
			case 0:
				built(c, query.NewBegin(), "BEGIN")
			case 1:
				built(c, query.NewCommit(), "COMMIT")
			case 2:
				built(c, query.NewRollback(), "ROLLBACK")
			case 3:
				built(c, query.NewVacuum(), `VACUUM ""`)
			case 4:
				built(c, query.NewVacuumWith(query.NewTableWith("t")), `VACUUM "t"`)
			}
		})
		forms := []string{"", "TEXT", "CSV", "BINARY", "csv"}
		r.Block("copy", len(forms)*(len(idxCols)+1), func(i int, c *Case) {
			f := forms[i%len(forms)]
			opts := []query.CopyOption{}
			if f != "" {
				opts = append(opts, query.WithCopyFormat(f))
			} else {
				f = "TEXT"
			}
			cn := []string{}
			if k := i / len(forms); k > 0 {
				cn = idxCols[k-1]
				opts = append(opts, query.WithCopyColumns(cols(cn)...))
			}
			built(c, query.NewCopyWith("t", "stdin", opts...), fmt.Sprintf("COPY \"t\" (%s) \"stdin\" %s", names(cn), strings.ToUpper(f)))
		})
	}})
}
