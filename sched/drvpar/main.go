// Command drvpar decides that independent users of the library do not disturb each other.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
	"github.com/cybergarage/go-sqlparser/sql/stmt"
	"github.com/cybergarage/go-sqlparser/sql/system"

	"verif/mc/explore"
)

// program is what one goroutine does; its result does not depend on other goroutines.
type program struct {
	name string
	run  func() string
	// heavy programs are combined with fewer others.
	heavy bool
}

func parseProgram(text string) program {
	return program{name: "parse " + text, heavy: true, run: func() string {
		stmts, err := sql.NewParser().ParseString(text)
		out := obsParse(stmts, err)
		for _, s := range stmts {
			out += " | " + s.String()
		}
		return out
	}}
}

func programs() []program {
	ps := []program{}
	for _, t := range []string{
		"SELECT a, SUM(b), upper(c) FROM s.t WHERE a = 'x''y' AND b >= 2 GROUP BY a ORDER BY a DESC LIMIT 3",
		"SELECT * FROM t WHERE a IN (1, 2)",
		"INSERT INTO t (a, b) VALUES (1, 'x'), (NULL, ?)",
		"UPDATE t SET a = b + 1, c = 'z' WHERE d = 3 OR e = 4",
		"DELETE FROM t WHERE k <> 'v'",
		"CREATE TABLE IF NOT EXISTS t (a INT PRIMARY KEY, b VARCHAR(10), c DOUBLE)",
		"ALTER TABLE t ADD COLUMN d TEXT; DROP TABLE u; CREATE INDEX i ON t (a)",
		"SELECT FROM WHERE",
		"COMMIT",
	} {
		ps = append(ps, parseProgram(t))
	}
	ps = append(ps, program{name: "reused parser", heavy: true, run: func() string {
		p := sql.NewParser()
		out := ""
		for _, t := range []string{"SELECT 1 FROM t", "broken (", "USE db"} {
			out += obsParse(p.ParseString(t)) + ";"
		}
		return out
	}})
	ps = append(ps, program{name: "bind", heavy: true, run: func() string {
		params := []stmt.BindParam{stmt.NewBindParam("it's"), stmt.NewBindParam(7), stmt.NewBindParam(nil)}
		s := stmt.NewBindStatement(stmt.WithBindStatementQuery("UPDATE t SET a = ?, b = ? WHERE c = ?"), stmt.WithBindStatementParams(params))
		stmts, err := s.Statements()
		return obsParse(stmts, err)
	}})
	ps = append(ps, program{name: "schema", run: func() string {
		cols := []query.Column{}
		for _, n := range []string{"a", "b", "c"} {
			cols = append(cols, query.NewColumnWithOptions(query.WithColumnName(n), query.WithColumnData(query.NewDataDef(query.IntType, 0))))
		}
		s := query.NewSchemaWith("t", query.WithSchemaColumns(cols))
		out := fmt.Sprint(s.DropColumn("b"), len(s.Columns()))
		_, err := s.LookupColumn("C")
		return out + fmt.Sprint(err)
	}})
	ps = append(ps, program{name: "data types", run: func() string {
		out := ""
		for _, n := range []string{"INT", "varchar", "Timestamp", "nope"} {
			t, err := query.NewDataTypeFrom(n)
			out += fmt.Sprint(t, err != nil, ";")
		}
		for _, v := range []any{1, "x", 2.5, true, []byte{1}} {
			t, err := query.NewDataTypeForValue(v)
			out += fmt.Sprint(t, err != nil, ";")
		}
		return out
	}})
	ps = append(ps, program{name: "functions", run: func() string {
		out := ""
		for _, n := range []string{"ABS", "upper", "Count", "nope", "MOD"} {
			t, err := fn.NewFunctionTypeForName(n)
			out += fmt.Sprint(fn.IsRegisteredFunction(n), t, err != nil, ";")
		}
		return out
	}})
	for _, n := range [][]string{{"ABS", "-2.5"}, {"POWER", "2", "10"}, {"UPPER", "abc"}, {"MOD", "7", "3"}, {"ROUND", "2.5"}} {
		ps = append(ps, program{name: "execute " + strings.Join(n, " "), run: func() string {
			args := []string{}
			row := map[string]any{}
			for i, v := range n[1:] {
				k := fmt.Sprintf("c%d", i)
				args = append(args, k)
				row[k] = v
			}
			ex, err := fn.NewExecutorForName(n[0], fn.WithExecutorArguments(args))
			if err != nil {
				return err.Error()
			}
			v, err := ex.Execute(row)
			return fmt.Sprint(v, err)
		}})
	}
	aggregate := func(names []string, group bool) program {
		return program{name: fmt.Sprint("aggregate ", names, group), run: func() string {
			out := []string{}
			for _, n := range names {
				opts := []fn.AggregatorOption{fn.WithAggregatorArguments([]string{"v"})}
				if group {
					opts = append(opts, fn.WithAggregatorGroupBys("g"))
				}
				a, err := fn.NewAggregatorForName(n, opts...)
				if err != nil {
					return err.Error()
				}
				for i := 0; i < 3; i++ {
					if err := a.Aggregate(map[string]any{"v": i * 2, "g": fmt.Sprint("k", i%2)}); err != nil {
						return err.Error()
					}
				}
				rs, err := a.Finalize()
				if err != nil {
					return err.Error()
				}
				rows := []string{}
				for rs.Next() {
					row, err := rs.Row()
					rows = append(rows, fmt.Sprint(row, err))
				}
				sort.Strings(rows)
				out = append(out, n+fmt.Sprint(rows))
			}
			return strings.Join(out, ";")
		}}
	}
	ps = append(ps, aggregate([]string{"SUM", "COUNT"}, false), aggregate([]string{"MIN", "MAX", "AVG"}, true))
	ps = append(ps, program{name: "aggregator set", run: func() string {
		a, err := fn.NewAggregatorSetForNames([]string{"SUM", "MAX"}, fn.WithAggregatorArguments([]string{"v", "v"}), fn.WithAggregatorGroupBys("g"))
		if err != nil {
			return err.Error()
		}
		for i := 0; i < 3; i++ {
			if err := a.Aggregate(map[string]any{"v": i, "g": i % 2}); err != nil {
				return err.Error()
			}
		}
		rs, err := a.Finalize()
		if err != nil {
			return err.Error()
		}
		rows := []string{}
		for rs.Next() {
			row, err := rs.Row()
			rows = append(rows, fmt.Sprint(row, err))
		}
		sort.Strings(rows)
		return fmt.Sprint(rows)
	}})
	ps = append(ps, program{name: "result set", run: func() string {
		schema := resultset.NewSchema(resultset.WithSchemaTableName("t"), resultset.WithSchemaColumns([]resultset.Column{
			resultset.NewColumn(resultset.WithColumnName("a"), resultset.WithColumnType(query.IntType)),
			resultset.NewColumn(resultset.WithColumnName("b"), resultset.WithColumnType(query.TextType)),
		}))
		rows := []resultset.Row{}
		for i := 0; i < 3; i++ {
			rows = append(rows, resultset.NewRow(resultset.WithRowSchema(schema), resultset.WithRowObject(map[string]any{"a": i, "b": fmt.Sprint("s", i)})))
		}
		rs := resultset.NewResultSet(resultset.WithResultSetSchema(schema), resultset.WithResultSetRows(rows), resultset.WithResultSetOffset(1), resultset.WithResultSetLimit(5))
		out := ""
		for rs.Next() {
			row, err := rs.Row()
			if err != nil {
				return err.Error()
			}
			v, err := row.ValueBy("b")
			out += fmt.Sprint(row.Values(), v, err)
		}
		return out
	}})
	ps = append(ps, program{name: "system", heavy: true, run: func() string {
		s, err := system.NewSchemaColumnsStatement(system.WithSchemaColumnsStatementDatabaseName("db"), system.WithSchemaColumnsStatementTableNames([]string{"t"}))
		if err != nil {
			return err.Error()
		}
		return s.Statement().String() + fmt.Sprint(system.IsSchemaColumsQuery(s.Statement()))
	}})
	return ps
}

func scenario(progs []program, expect func() map[string]string, bound int, stmtLevel, cold bool, max int) *explore.Scenario {
	names := []string{}
	for _, p := range progs {
		names = append(names, p.name)
	}
	name := strings.Join(names, " || ")
	if cold {
		name = "cold: " + name
	}
	return &explore.Scenario{Name: name, Bound: bound, Stmt: stmtLevel, Max: max, Cold: cold, NoMaps: true, New: func() *explore.Exec {
		got := make([]string, len(progs))
		x := &explore.Exec{}
		for _, p := range progs {
			x.Threads = append(x.Threads, func(t int) { got[t] = p.run() })
		}
		x.Check = func() string {
			for i, p := range progs {
				if want := expect()[p.name]; got[i] != want {
					return fmt.Sprintf("thread %d (%s) gets %q, alone %q", i, p.name, got[i], want)
				}
			}
			return ""
		}
		return x
	}}
}

func main() {
	var prop *explore.Prop
	prop = &explore.Prop{
		ID:   "C15",
		Rule: "all schedules up to the preemption bound of all pairs of programs (parsing, binding, aggregating, scalar functions, data types, schemas, result sets), each execution checked for data races, deadlocks, panics and the results the programs have alone in a process of their own; cold scenarios run in a process of their own so that first uses are explored too",
		Assume: []string{
			"scheduling points: every statement of the library's own packages (not of the generated parser) and its synchronisation operations; data races are judged by happens-before on every execution, including inside the generated parser and its runtime",
		},
		Solo: func() map[string]string {
			out := map[string]string{}
			for _, p := range programs() {
				out[p.name] = p.run()
			}
			return out
		},
		Scenarios: func(thorough bool) []*explore.Scenario {
			ps := programs()
			expect := func() map[string]string { return prop.Expect }
			out, last := []*explore.Scenario{}, []*explore.Scenario{}
			for i, p := range ps {
				out = append(out, scenario([]program{p, p, p}, expect, 0, false, true, 0))
				out = append(out, scenario([]program{p, ps[(i+1)%len(ps)], ps[0]}, expect, 0, false, true, 0))
			}
			for i := range ps {
				for j := i; j < len(ps); j++ {
					// Quick: pairs with an expensive program beside the diagonal interleave at synchronisation operations only.
					stmtLevel := thorough || j <= i+1 || (!ps[i].heavy && !ps[j].heavy)
					bound := 1
					if thorough && !ps[i].heavy && !ps[j].heavy {
						bound = 2
					}
					out = append(out, scenario([]program{ps[i], ps[j]}, expect, 1, stmtLevel, false, 0))
					if bound > 1 {
						last = append(last, scenario([]program{ps[i], ps[j]}, expect, bound, true, false, 0))
					}
				}
			}
			return append(out, last...)
		},
	}
	explore.Main([]*explore.Prop{prop})
}
