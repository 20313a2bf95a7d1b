package main

import (
	stderrors "errors"
	"fmt"
	"math"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql/errors"
	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/net"
	"github.com/cybergarage/go-sqlparser/sql/parser"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
	"github.com/cybergarage/go-sqlparser/sql/system"
)

// The kinds of errors a caller can tell apart.
var errKinds = []struct {
	name string
	err  error
}{
	{"errors.ErrNotImplemented", errors.ErrNotImplemented}, {"errors.ErrNotSupported", errors.ErrNotSupported}, {"errors.ErrNotExist", errors.ErrNotExist},
	{"errors.ErrExist", errors.ErrExist}, {"errors.ErrNotEqual", errors.ErrNotEqual}, {"errors.ErrInvalid", errors.ErrInvalid},
	{"errors.ErrNotFound", errors.ErrNotFound}, {"errors.ErrNoRows", errors.ErrNoRows},
	{"query.ErrInvalid", query.ErrInvalid}, {"query.ErrNotFound", query.ErrNotFound}, {"query.ErrNotSupported", query.ErrNotSupported}, {"query.ErrNotSet", query.ErrNotSet},
	{"fn.ErrInvalid", fn.ErrInvalid}, {"fn.ErrNotFound", fn.ErrNotFound}, {"fn.ErrNoData", fn.ErrNoData}, {"fn.ErrNotSupported", fn.ErrNotSupported},
	{"fn.ErrNotImplemented", fn.ErrNotImplemented}, {"fn.ErrNegativeValue", fn.ErrNegativeValue},
	{"net.ErrExist", net.ErrExist}, {"net.ErrNotExist", net.ErrNotExist},
	{"parser.ErrEmptyQuery", parser.ErrEmptyQuery},
	{"system.ErrInvalid", system.ErrInvalid}, {"system.ErrNotFound", system.ErrNotFound},
}

// errKind names the kinds that the error matches. The kinds are distinguished by their last word only: which
// package a kind of the same meaning comes from is not part of the claim.
func errKind(err error) string {
	if err == nil {
		return "no error"
	}
	seen := map[string]bool{}
	out := []string{}
	for _, k := range errKinds {
		n := k.name[strings.Index(k.name, ".")+1:]
		if stderrors.Is(err, k.err) && !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	return strings.Join(out, "+")
}

func init() {
	register(&Prop{ID: "C33", Rule: "every error constructor and every failing operation is run with every name of a set, and the kinds the error matches and the names it carries are compared with the expected ones; SQLSTATE: every string of five characters 0-9A-Z is looked up and compared with the table of the standard", Run: func(r *Run) {
		names := []string{"", "x", "t.a", "it's", "%s", "%d%%", "a b", "é", "not exist", "invalid", strings.Repeat("n", 300)}
		type mk struct {
			name, kind string
			f          func(string) error
		}
		anyf := func(f func(any) error) func(string) error { return func(s string) error { return f(s) } }
		mks := []mk{
			{"NewErrNotImplemented", "ErrNotImplemented", errors.NewErrNotImplemented},
			{"NewErrNotExist", "ErrNotExist", errors.NewErrNotExist},
			{"NewErrExist", "ErrExist", errors.NewErrExist},
			{"NewErrNotSupported", "ErrNotSupported", errors.NewErrNotSupported},
			{"NewErrDatabaseNotExist", "ErrNotExist", errors.NewErrDatabaseNotExist},
			{"NewErrTableNotExist", "ErrNotExist", errors.NewErrTableNotExist},
			{"NewErrDatabaseExist", "ErrExist", errors.NewErrDatabaseExist},
			{"NewErrTableExist", "ErrExist", errors.NewErrTableExist},
			{"NewErrColumnNotExist", "ErrNotExist", anyf(errors.NewErrColumnNotExist)},
			{"NewErrColumnValueNotExist", "ErrNotExist", anyf(errors.NewErrColumnValueNotExist)},
			{"NewErrGroupByColumnValueNotFound", "ErrNotFound", anyf(errors.NewErrGroupByColumnValueNotFound)},
			{"NewErrPreparedStatementNotExist", "ErrNotExist", errors.NewErrPreparedStatementNotExist},
			{"NewErrPreparedPortalNotExist", "ErrNotExist", errors.NewErrPreparedPortalNotExist},
			{"NewErrMultiplePreparedStatementNotSupported", "ErrNotSupported", errors.NewErrMultiplePreparedStatementNotSupported},
			{"NewErrMultipleTableNotSupported", "ErrNotSupported", errors.NewErrMultipleTableNotSupported},
			{"NewErrNoTable", "", errors.NewErrNoTable},
			{"fn.NewErrNotSupportedFunction", "ErrNotSupported", fn.NewErrNotSupportedFunction},
			{"query.NewErrStatementInvalid", "ErrInvalid", func(s string) error { return query.NewErrStatementInvalid(query.NewUseWith(s)) }},
			{"query.NewErrStatementNotSupported", "ErrNotSupported", func(s string) error { return query.NewErrStatementNotSupported(query.NewUseWith(s)) }},
		}
		r.Block("constructors", len(mks)*len(names), func(i int, c *Case) {
			m, n := mks[i/len(names)], names[i%len(names)]
			c.Inf("%s(%s)", m.name, clip(q(n)))
			err := m.f(n)
			c.Step(1)
			c.State(m.name + q(n))
			if err == nil {
				c.Failf("no error")
				return
			}
			c.Eq("kind of "+clip(q(err.Error())), errKind(err), m.kind)
			if !strings.Contains(err.Error(), n) {
				c.Failf("%s does not carry the name", clip(q(err.Error())))
			}
			// Wrapping by a caller keeps the kind.
			c.Eq("kind of the wrapped error", errKind(fmt.Errorf("wrapped: %w", err)), m.kind)
		})
		ints := []int{0, 1, 2, 10, 255, -1, math.MaxInt64}
		r.Block("numbers", len(ints)*len(ints), func(i int, c *Case) {
			a, b := ints[i/len(ints)], ints[i%len(ints)]
			c.Inf("NewErrColumnsNotEqual(%d, %d)", a, b)
			err := errors.NewErrColumnsNotEqual(a, b)
			c.Step(1)
			c.Eq("kind", errKind(err), "ErrNotEqual")
			s := err.Error()
			x := strings.Index(s, fmt.Sprintf("(%d)", a))
			y := strings.LastIndex(s, fmt.Sprintf("(%d)", b))
			if x < 0 || y <= x {
				c.Failf("%s does not carry %d and %d in this order", q(s), a, b)
			}
		})
		r.Block("kinds are distinct", len(errKinds)*len(errKinds), func(i int, c *Case) {
			a, b := errKinds[i/len(errKinds)], errKinds[i%len(errKinds)]
			c.Inf("%s and %s", a.name, b.name)
			c.Step(1)
			if a.name != b.name && a.name[:strings.Index(a.name, ".")] == b.name[:strings.Index(b.name, ".")] && stderrors.Is(a.err, b.err) {
				c.Failf("%s is %s", a.name, b.name)
			}
		})
		// Failing operations.
		schema := func() query.Schema {
			return query.NewSchemaWith("t", query.WithSchemaColumns(query.NewColumnsWith(
				query.NewColumnWithOptions(query.WithColumnName("c0"), query.WithColumnData(query.NewDataDef(query.IntType, 0))),
				query.NewColumnWithOptions(query.WithColumnName("c1"), query.WithColumnData(query.NewDataDef(query.TextType, 0))))),
				query.WithSchemaIndexes(query.Indexes{query.NewSecondaryIndexWith("i0", query.NewColumns())}))
		}
		rsSchema := resultset.NewSchema(resultset.WithSchemaColumns([]resultset.Column{resultset.NewColumn(resultset.WithColumnName("c0"))}))
		row := func(k int) resultset.Row {
			switch k {
			case 0:
				return resultset.NewRow(resultset.WithRowSchema(rsSchema), resultset.WithRowValues([]any{1}))
			case 1:
				return resultset.NewRow(resultset.WithRowObject(map[string]any{"c0": 1}))
			}
			return resultset.NewRow()
		}
		e2 := func(_ any, err error) error { return err }
		missing := []string{"", "c2", "c0 ", "c", "c00", "*", "i", "i00", "t.c0"}
		lookups := []mk{
			{"Schema.LookupColumn", "ErrNotFound", func(s string) error { return e2(schema().LookupColumn(s)) }},
			{"Schema.LookupIndex", "ErrNotFound", func(s string) error { return e2(schema().LookupIndex(s)) }},
			{"Schema.DropColumn", "ErrNotFound", func(s string) error { return schema().DropColumn(s) }},
			{"Schema.DropIndex", "ErrNotFound", func(s string) error { return schema().DropIndex(s) }},
			{"Columns.LookupColumn", "ErrNotFound", func(s string) error { return e2(schema().Columns().LookupColumn(s)) }},
			{"Indexes.LookupIndex", "ErrNotFound", func(s string) error { return e2(schema().Indexes().LookupIndex(s)) }},
			{"Columns.SetSchema", "ErrNotFound", func(s string) error {
				return query.NewColumnsWith(query.NewColumnWithName(s)).SetSchema(schema())
			}},
			{"Selectors.LookupFunction", "ErrNotFound", func(s string) error { return e2(schema().Selectors().LookupFunction(s)) }},
			{"Selectors.LookupExecutor", "ErrNotFound", func(s string) error { return e2(schema().Selectors().LookupExecutor(s)) }},
			{"resultset.Schema.LookupColumn", "ErrNotFound", func(s string) error { return e2(rsSchema.LookupColumn(s)) }},
			{"Row.ValueBy (values)", "ErrNotExist", func(s string) error { return e2(row(0).ValueBy(s)) }},
			{"Row.ValueBy (object)", "ErrNotExist", func(s string) error { return e2(row(1).ValueBy(s)) }},
			{"Row.ValueBy (empty)", "ErrNotExist", func(s string) error { return e2(row(2).ValueBy(s)) }},
			{"Row.ScanBy (values)", "ErrNotExist", func(s string) error { var v int; return row(0).ScanBy(s, &v) }},
			{"Row.ScanBy (object)", "ErrNotExist", func(s string) error { var v int; return row(1).ScanBy(s, &v) }},
			{"NewExecutorForName", "ErrNotSupported", func(s string) error { return e2(fn.NewExecutorForName(s + "_no")) }},
			{"NewAggregatorForName", "ErrNotSupported", func(s string) error { return e2(fn.NewAggregatorForName(s + "_no")) }},
			{"NewDataTypeFromString", "ErrInvalid", func(s string) error { return e2(query.NewDataTypeFromString(s + "_no")) }},
			{"NewDataDefFrom", "ErrInvalid", func(s string) error { return e2(query.NewDataDefFrom(s+"_no", 1)) }},
			{"SchemaColumns.LookupColumn", "ErrNotFound", func(s string) error { return e2(system.NewSchemaColumns().LookupColumn(s)) }},
		}
		r.Block("operations", len(lookups)*len(missing), func(i int, c *Case) {
			m, n := lookups[i/len(missing)], missing[i%len(missing)]
			c.Inf("%s(%s)", m.name, q(n))
			err := m.f(n)
			c.Step(1)
			c.State(m.name + q(n))
			c.Eq(fmt.Sprintf("kind of %q", fmt.Sprint(err)), errKind(err), m.kind)
		})
		pos := []int{-1, -2, 1, 2, 100, math.MaxInt64, math.MinInt64}
		r.Block("positions", len(pos)*4, func(i int, c *Case) {
			p := pos[i/4]
			c.Inf("position %d of %d", p, i%4)
			c.Step(1)
			var v int
			switch i % 4 {
			case 0, 1, 2:
				c.Eq("kind of ValueAt", errKind(e2(row(i%4).ValueAt(p))), "ErrNotExist")
				c.Eq("kind of ScanAt", errKind(row(i%4).ScanAt(p, &v)), "ErrNotExist")
				var w int
				if i%4 < 2 {
					c.Eq("kind of Scan", errKind(row(i%4).Scan(&v, &w)), "ErrNotExist")
				}
			case 3:
				if p == 1 {
					p = 3
				}
				c.Eq("kind of ColumnAt", errKind(e2(schema().Columns().ColumnAt(p))), "ErrNotFound")
			}
		})
		// SQLSTATE.
		r.Block("sqlstate constants", len(sqlStates), func(i int, c *Case) {
			s := sqlStates[i]
			c.Inf("%s", s.text)
			c.Step(1)
			c.Eq("code", string(s.got), s.code)
			c.Eq("text", s.got.String(), s.text)
		})
		r.Block("sqlstate class constants", len(sqlClasses), func(i int, c *Case) {
			s := sqlClasses[i]
			c.Inf("%s", s.text)
			c.Step(1)
			c.Eq("class", string(s.got), s.class)
			c.Eq("text", s.got.String(), s.text)
		})
		texts, classTexts := map[string]string{}, map[string]string{}
		for _, s := range sqlStates {
			texts[s.code] = s.text
		}
		for _, s := range sqlClasses {
			classTexts[s.class] = s.text
		}
		const abc = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
		r.Block("sqlstate of every text", len(abc)*len(abc), func(i int, c *Case) {
			p := string([]byte{abc[i/len(abc)], abc[i%len(abc)]})
			c.Inf("class %s", p)
			want, ok := classTexts[p]
			if !ok {
				want = "Unknown Class"
			}
			c.Eq("text of the class", errors.Class(p).String(), want)
			b := []byte(p + "000")
			for x := range abc {
				for y := range abc {
					for z := range abc {
						b[2], b[3], b[4] = abc[x], abc[y], abc[z]
						got := errors.Code(b).String()
						if w, ok := texts[string(b)]; ok {
							c.Eq("text of "+string(b), got, w)
						} else if got != "Unknown Code" {
							c.Failf("%s is %s", b, q(got))
						}
					}
				}
			}
			c.Step(len(abc) * len(abc) * len(abc))
		})
	}})
}
