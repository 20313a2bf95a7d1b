package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
)

var aggrNames = []string{"COUNT", "SUM", "AVG", "MIN", "MAX"}

// aggrOf is the definition of an aggregate over the non-NULL values (rows is the number of rows, for COUNT(*)).
func aggrOf(name string, vals []float64) (float64, bool) {
	switch name {
	case "COUNT":
		return float64(len(vals)), true
	case "SUM", "AVG":
		// exact summation of the values as multiples of the smallest unit is not needed: the domains are exact in float64
		s := 0.0
		for _, v := range vals {
			s += v
		}
		if name == "SUM" {
			return s, true
		}
		if len(vals) == 0 {
			return 0, false
		}
		return s / float64(len(vals)), true
	}
	if len(vals) == 0 {
		return 0, false
	}
	m := vals[0]
	for _, v := range vals {
		if name == "MIN" {
			m = math.Min(m, v)
		} else {
			m = math.Max(m, v)
		}
	}
	return m, true
}

// aggrVal is a value given to an aggregate.
type aggrVal struct {
	v    any
	null bool
	bad  bool // not a number
	n    float64
}

func num(v any, n float64) aggrVal { return aggrVal{v: v, n: n} }

var (
	aggrNull = aggrVal{v: nil, null: true}
	aggrBad  = aggrVal{v: "x", bad: true}
)

// cell compares one aggregated cell.
func cell(c *Case, what, name string, got any, vals []float64) {
	want, ok := aggrOf(name, vals)
	if !ok {
		if got != nil {
			c.Failf("%s: %s of nothing is %v, want NULL", what, name, got)
		}
		return
	}
	if name == "SUM" && len(vals) == 0 && got == nil {
		return
	}
	f, isNum := toF(got)
	if !isNum || !nearSum(f, want) {
		c.Failf("%s: %s is %T(%v), want %v", what, name, got, got, want)
	}
}

// rowsOf reads a result set and checks that it stays at its end.
func rowsOf(c *Case, rs fn.ResultSet) [][]any {
	rows := [][]any{}
	cols := rs.Columns()
	for rs.Next() {
		row, err := rs.Row()
		if err != nil {
			c.Failf("row: %v", err)
			return rows
		}
		m, err := rs.Map()
		if err != nil || len(m) > len(cols) {
			c.Failf("map: %v %v", m, err)
			return rows
		}
		for i, col := range cols {
			if i >= len(row) {
				c.Failf("row %v with %d columns", row, len(cols))
				return rows
			}
			if v, ok := m[col]; !ok || (fmt.Sprint(v) != fmt.Sprint(row[i]) && strings.Count(strings.Join(cols, "|"), col) == 1) {
				c.Failf("map %v of row %v", m, row)
			}
		}
		if len(row) != len(cols) {
			c.Failf("row %v with %d columns", row, len(cols))
		}
		rows = append(rows, append([]any{}, row...))
		if len(rows) > 10000 {
			c.Failf("the result set does not end")
			return rows
		}
	}
	if rs.Next() {
		c.Failf("Next after the end")
	}
	return rows
}

// give aggregates one row in one of the four forms.
func give(a interface{ Aggregate(any) error }, form int, cols []string, vals []any) error {
	// The row is the caller's, who uses it for something else after the call.
	row := append([]any{}, vals...)
	m := map[string]any{}
	for i, k := range cols {
		m[k] = vals[i]
	}
	defer func() {
		for i := range row {
			row[i] = "overwritten"
		}
		for k := range m {
			m[k] = "overwritten"
		}
	}()
	switch form % 4 {
	case 0:
		return a.Aggregate(row)
	case 1:
		m["zz"] = "other"
		return a.Aggregate(m)
	case 2:
		return a.Aggregate(fn.Row(row))
	}
	return a.Aggregate(fn.Map(m))
}

// mkAggr makes an aggregator in one of the ways a caller has.
func mkAggr(way int, name string, args, groups []string) (fn.Aggregator, error) {
	opts := []fn.AggregatorOption{}
	if way%3 == 2 && len(args) == 1 {
		// The function of a SELECT statement.
		stmts, err := parse("SELECT " + name + "(" + args[0] + ") FROM t")
		if err != nil {
			return nil, err
		}
		f, ok := stmts[0].(query.Select).Selectors()[0].Function()
		if !ok {
			return nil, fmt.Errorf("%s(%s) is not a function", name, args[0])
		}
		a, err := f.Aggregator()
		if err == nil && len(groups) > 0 {
			err = a.Reset(groups)
		}
		return a, err
	}
	if way%3 == 1 {
		switch name {
		case "COUNT":
			opts = append(opts, fn.WithCountArguments(args), fn.WithCountGroupBys(groups...))
			return fn.NewCount(opts...)
		case "SUM":
			opts = append(opts, fn.WithSumArguments(args), fn.WithSumGroupBys(groups...))
			return fn.NewSum(opts...)
		case "AVG":
			opts = append(opts, fn.WithAvgArguments(args), fn.WithAvgGroupBys(groups...))
			return fn.NewAvg(opts...)
		case "MIN":
			opts = append(opts, fn.WithMinArguments(args), fn.WithMinGroupBys(groups...))
			return fn.NewMin(opts...)
		case "MAX":
			opts = append(opts, fn.WithMaxArguments(args), fn.WithMaxGroupBys(groups...))
			return fn.NewMax(opts...)
		}
	}
	opts = append(opts, fn.WithAggregatorArguments(args), fn.WithAggregatorGroupBys(groups...))
	return fn.NewAggregatorForName(name, opts...)
}

func aggrCol(name, arg string) string { return name + "(" + arg + ")" }

func init() {
	register(&Prop{ID: "C17", Rule: "every sequence of rows, rejected rows, resets and intermediate results up to the bound, in every form a row can be given, is fed to each aggregate and every result is compared with the definition over the rows accepted since the last reset", Run: func(r *Run) {
		// Operation sequences on one aggregator.
		vals := []aggrVal{num(1, 1), num(-2.5, -2.5), num("3", 3), num(int8(-7), -7), num(uint16(0), 0), aggrNull, aggrBad}
		const (
			opReset = 7 + iota
			opFinal
			opShort
			opType
			nops
		)
		depth := r.Pick(5, 6)
		nseq := seqCount(nops, depth)
		r.Block("sequences", len(aggrNames)*nseq, func(i int, c *Case) {
			name := aggrNames[i/nseq]
			seq := seqAt(nops, i%nseq)
			c.Inf("%s(a): operations %v", name, seq)
			for form := 0; form < 2; form++ {
				a, err := mkAggr(form, name, []string{"a"}, nil)
				if err != nil {
					c.Failf("%v", err)
					return
				}
				acc := []float64{}
				check := func(at int) {
					rs, err := a.Finalize()
					if err != nil {
						c.Failf("after %d: finalize: %v", at, err)
						return
					}
					if cs := rs.Columns(); len(cs) != 1 || cs[0] != aggrCol(name, "a") {
						c.Failf("columns %v", cs)
					}
					rows := rowsOf(c, rs)
					if len(rows) != 1 || len(rows[0]) != 1 {
						c.Failf("after %d: rows %v", at, rows)
						return
					}
					cell(c, fmt.Sprintf("after %d", at), name, rows[0][0], acc)
				}
				for k, op := range seq {
					c.Step(1)
					switch {
					case op < opReset:
						v := vals[op]
						err := give(a, form+2*(k%2), []string{"a"}, []any{v.v})
						if v.bad && name != "COUNT" {
							if err == nil {
								c.Failf("value %v accepted", v.v)
							}
							continue
						}
						if err != nil {
							c.Failf("value %T(%v) rejected: %v", v.v, v.v, err)
						}
						if !v.null {
							acc = append(acc, v.n)
						}
					case op == opReset:
						if err := a.Reset(); err != nil {
							c.Failf("reset: %v", err)
						}
						acc = acc[:0]
					case op == opFinal:
						check(k + 1)
					case op == opShort:
						var err error
						if form == 0 {
							err = a.Aggregate([]any{5, 6})
						} else {
							err = a.Aggregate(map[string]any{"b": 5})
						}
						if err == nil {
							c.Failf("a row without the column accepted")
						}
					case op == opType:
						if err := a.Aggregate([]any{5, 6}[0]); err == nil {
							c.Failf("a row of type int accepted")
						}
					}
					if c.Failed() {
						return
					}
				}
				check(len(seq))
				c.Trace()
				c.State(fmt.Sprint(name, acc))
				if c.Failed() {
					return
				}
			}
		})
		// Every numeric type and size.
		nums := []float64{0, 1, -1, 2, 0.5, -0.5, 3.25, 100, -100, 127, -128, 255, 32767, 65535, 1e6, -1e6, 2147483647, -2147483648, 4294967295, 1e12, -1e12, 1 << 53, -(1 << 53), 1 << 61, -(1 << 61), 1.5e300, -1.5e300, 1e-300}
		typed := []aggrVal{}
		for _, n := range nums {
			for _, v := range formsOf(n) {
				typed = append(typed, num(v, n))
			}
		}
		typed = append(typed, aggrNull)
		nt := len(typed)
		r.Block("types", len(aggrNames)*nt*nt, func(i int, c *Case) {
			name := aggrNames[i/(nt*nt)]
			a, b := typed[i/nt%nt], typed[i%nt]
			if math.Abs(a.n) > 1e200 && math.Abs(b.n) > 1e200 {
				return
			}
			c.Inf("%s(a) of %T(%v), %T(%v)", name, a.v, a.v, b.v, b.v)
			ag, err := mkAggr(i, name, []string{"a"}, nil)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			if !c.Eq("arguments", fmt.Sprint(ag.Arguments()), "[a]") || !c.Eq("name", ag.Name(), name) {
				return
			}
			acc := []float64{}
			for k, v := range []aggrVal{a, b} {
				c.Step(1)
				if err := give(ag, i+k, []string{"a"}, []any{v.v}); err != nil {
					c.Failf("%T(%v) rejected: %v", v.v, v.v, err)
					return
				}
				if !v.null {
					acc = append(acc, v.n)
				}
			}
			rs, err := ag.Finalize()
			if err != nil {
				c.Failf("%v", err)
				return
			}
			rows := rowsOf(c, rs)
			c.Trace()
			if len(rows) != 1 || len(rows[0]) != 1 {
				c.Failf("rows %v", rows)
				return
			}
			cell(c, "result", name, rows[0][0], acc)
		})
		// The largest, smallest and infinite numbers, exactly.
		ext := []any{math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, 5e-324, -5e-324, 1e-301, -1e-301, 0.0, 1.0, -1.0, nil}
		de := r.Pick(4, 5)
		ne := seqCount(len(ext), de)
		r.Block("extremes", 3*ne, func(i int, c *Case) {
			name := []string{"MIN", "MAX", "COUNT"}[i/ne]
			seq := seqAt(len(ext), i%ne)
			rows := []any{}
			acc := []float64{}
			for _, k := range seq {
				rows = append(rows, ext[k])
				if f, ok := ext[k].(float64); ok {
					acc = append(acc, f)
				}
			}
			c.Inf("%s(a) of %v", name, rows)
			ag, err := mkAggr(i, name, []string{"a"}, nil)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			for k, v := range rows {
				if err := give(ag, i+k, []string{"a"}, []any{v}); err != nil {
					c.Failf("%v", err)
					return
				}
			}
			rs, err := ag.Finalize()
			if err != nil {
				c.Failf("%v", err)
				return
			}
			got := rowsOf(c, rs)
			c.Trace()
			want, ok := aggrOf(name, acc)
			if len(got) != 1 || len(got[0]) != 1 {
				c.Failf("rows %v", got)
				return
			}
			if f, isNum := toF(got[0][0]); isNum != ok || ok && f != want {
				c.Failf("%v, want %v %v", got[0][0], want, ok)
			}
		})
		// Several arguments and COUNT(*).
		argLists := [][]string{{"a", "b"}, {"*"}, {"b", "a", "c"}}
		small := []aggrVal{num(2, 2), num(-1, -1), aggrNull, aggrBad}
		type multi struct {
			name string
			args []string
		}
		ms := []multi{{"COUNT", argLists[1]}, {"COUNT", []string{"*", "a"}}, {"COUNT", []string{"a", "*"}}, {"COUNT", []string{"a", "*", "b"}}}
		for _, n := range aggrNames {
			ms = append(ms, multi{n, argLists[0]}, multi{n, argLists[2]})
		}
		md := r.Pick(4, 5)
		nr := len(small) * len(small)
		nm := seqCount(nr, md)
		r.Block("arguments", len(ms)*nm*2, func(i int, c *Case) {
			m := ms[i/2/nm]
			seq := seqAt(nr, i/2%nm)
			form := i % 2
			c.Inf("%s(%s): rows %v form %d", m.name, strings.Join(m.args, ", "), seq, form)
			ag, err := mkAggr(i/2, m.name, m.args, nil)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			acc := make([][]float64, len(m.args))
			for k, s := range seq {
				c.Step(1)
				pair := []aggrVal{small[s/len(small)], small[s%len(small)], small[(s+1)%len(small)]}[:len(m.args)]
				row := make([]any, len(m.args))
				bad := false
				for j, p := range pair {
					row[j] = p.v
					bad = bad || p.bad && m.name != "COUNT"
				}
				err := give(ag, form+2*(k%2), m.args, row)
				if (err != nil) != bad {
					c.Failf("row %v: %v", row, err)
					return
				}
				if bad {
					continue
				}
				for j, p := range pair {
					if !p.null || m.args[j] == "*" {
						acc[j] = append(acc[j], p.n)
					}
				}
			}
			rs, err := ag.Finalize()
			if err != nil {
				c.Failf("%v", err)
				return
			}
			for j, col := range rs.Columns() {
				if j >= len(m.args) || col != aggrCol(m.name, m.args[j]) {
					c.Failf("columns %v", rs.Columns())
				}
			}
			rows := rowsOf(c, rs)
			c.Trace()
			if len(rows) != 1 || len(rows[0]) != len(m.args) {
				c.Failf("rows %v", rows)
				return
			}
			for j := range m.args {
				cell(c, "column "+m.args[j], m.name, rows[0][j], acc[j])
			}
			c.State(fmt.Sprint(m.name, acc))
		})
		// Histories of resets which change the argument and the groups.
		resets := []struct {
			what string
			opts []any
			arg  string
			grp  string
		}{
			{"no option", nil, "=", "="},
			{"argument a", []any{fn.WithAggregatorArguments([]string{"a"})}, "a", "="},
			{"argument b", []any{fn.WithAggregatorArguments([]string{"b"})}, "b", "="},
			{"group g", []any{fn.GroupBy("g")}, "=", "g"},
			{"group h", []any{[]fn.GroupBy{"h"}}, "=", "h"},
			{"group option g", []any{fn.WithAggregatorGroupBys("g")}, "=", "g"},
			{"no group", []any{fn.GroupBy("")}, "=", ""},
			{"no groups", []any{[]fn.GroupBy{}}, "=", ""},
			{"argument b, group h", []any{fn.WithAggregatorArguments([]string{"b"}), fn.GroupBy("h")}, "b", "h"},
		}
		rows3 := []map[string]any{{"a": 2.0, "b": -7.0, "g": "x", "h": "u"}, {"a": 5.0, "b": 3.0, "g": "y", "h": "u"}, {"a": -4.0, "b": 1.0, "g": "x", "h": "u"}}
		nrs := seqCount(len(resets), r.Pick(3, 4))
		r.Block("resets", len(aggrNames)*nrs, func(i int, c *Case) {
			name, seq := aggrNames[i/nrs], seqAt(len(resets), i%nrs)
			w := []string{}
			for _, k := range seq {
				w = append(w, resets[k].what)
			}
			c.Inf("%s(a), resets with %s", name, strings.Join(w, "; "))
			ag, err := fn.NewAggregatorForName(name, fn.WithAggregatorArguments([]string{"a"}))
			if err != nil {
				c.Failf("%v", err)
				return
			}
			arg, grp := "a", ""
			var late fn.ResultSet
			lateCols, lateRows := "", ""
			for n := 0; n <= len(seq); n++ {
				if n > 0 {
					o := resets[seq[n-1]]
					if err := ag.Reset(o.opts...); err != nil {
						c.Failf("reset %d: %v", n, err)
						return
					}
					if o.arg != "=" {
						arg = o.arg
					}
					if o.grp != "=" {
						grp = o.grp
					}
				}
				keys, want := []string{}, map[string][]float64{}
				for k, row := range rows3[:3-n%2] {
					var err error
					if (n+k)%2 == 0 {
						err = ag.Aggregate(row)
					} else if grp == "" {
						err = ag.Aggregate([]any{row[arg]})
					} else {
						err = ag.Aggregate([]any{row[grp], row[arg]})
					}
					c.Step(1)
					if err != nil {
						c.Failf("after %d resets, row %v: %v", n, row, err)
						return
					}
					key := ""
					if grp != "" {
						key = row[grp].(string)
					}
					if _, ok := want[key]; !ok {
						keys = append(keys, key)
					}
					want[key] = append(want[key], row[arg].(float64))
				}
				rs, err := ag.Finalize()
				if err != nil {
					c.Failf("after %d resets: %v", n, err)
					return
				}
				cols := aggrCol(name, arg)
				if grp != "" {
					cols = grp + "|" + cols
				}
				c.Eq("columns", strings.Join(rs.Columns(), "|"), cols)
				got := rowsOf(c, rs)
				// The result of before the reset is still that of its own rows.
				if late != nil {
					c.Eq("columns of an earlier result", strings.Join(late.Columns(), "|"), lateCols)
					c.Eq("rows of an earlier result", fmt.Sprint(rowsOf(c, late)), lateRows)
				}
				if late, err = ag.Finalize(); err != nil {
					c.Failf("after %d resets: finalized again: %v", n, err)
					return
				}
				lateCols, lateRows = cols, fmt.Sprint(got)
				if len(got) != len(keys) {
					c.Failf("after %d resets: rows %v, want groups %v", n, got, keys)
					return
				}
				for _, row := range got {
					key := ""
					if grp != "" {
						key = fmt.Sprint(row[0])
					}
					if len(want[key]) == 0 {
						c.Failf("after %d resets: unexpected group %q", n, key)
						return
					}
					cell(c, "group "+key, name, row[len(row)-1], want[key])
					delete(want, key)
				}
			}
			c.State(name + arg + grp)
			c.Trace()
		})
		// Many rows.
		sizes := []int{0, 1, 2, 3, 7, 10, 100, 1000, 10000}
		r.Block("many", len(aggrNames)*len(sizes)*4, func(i int, c *Case) {
			name, n, form := aggrNames[i/4/len(sizes)], sizes[i/4%len(sizes)], i%4
			c.Inf("%s(a) of %d rows, form %d", name, n, form)
			ag, err := fn.NewAggregatorForName(name, fn.WithAggregatorArguments([]string{"a"}))
			if err != nil {
				c.Failf("%v", err)
				return
			}
			acc := []float64{}
			for k := 0; k < n; k++ {
				v := float64((k*7919)%1001 - 500)
				acc = append(acc, v)
				if err := give(ag, form, []string{"a"}, []any{v}); err != nil {
					c.Failf("%v", err)
					return
				}
				c.Step(1)
			}
			rs, err := ag.Finalize()
			if err != nil {
				c.Failf("%v", err)
				return
			}
			rows := rowsOf(c, rs)
			c.Trace()
			if len(rows) != 1 {
				c.Failf("rows %v", rows)
				return
			}
			cell(c, "result", name, rows[0][0], acc)
		})
		// Aggregator sets see the same rows.
		sd := r.Pick(3, 4)
		pairs := dims{len(aggrNames), len(aggrNames), len(aggrNames), seqCount(3, sd)}
		r.Block("sets", pairs.size(), func(i int, c *Case) {
			x := pairs.at(i)
			names := []string{aggrNames[x[0]], aggrNames[x[1]], aggrNames[x[2]]}
			seq := seqAt(3, x[3])
			c.Inf("set %v: rows %v", names, seq)
			set, err := fn.NewAggregatorSetForNames(names, fn.WithAggregatorArguments([]string{"a"}))
			if err != nil {
				c.Failf("%v", err)
				return
			}
			for round := 0; round < 2; round++ {
				acc := []float64{}
				for k, s := range seq {
					c.Step(1)
					v := small[s]
					if err := give(&set, k+i, []string{"a"}, []any{v.v}); err != nil {
						c.Failf("%v", err)
						return
					}
					if !v.null {
						acc = append(acc, v.n)
					}
				}
				rs, err := set.Finalize()
				if err != nil {
					c.Failf("%v", err)
					return
				}
				want := []string{}
				for _, n := range names {
					want = append(want, aggrCol(n, "a"))
				}
				c.Eq("columns", strings.Join(rs.Columns(), " "), strings.Join(want, " "))
				rows := rowsOf(c, rs)
				if len(rows) != 1 || len(rows[0]) != 3 {
					c.Failf("rows %v", rows)
					return
				}
				for j, n := range names {
					cell(c, fmt.Sprintf("round %d column %d", round, j), n, rows[0][j], acc)
				}
				if err := set.Reset(); err != nil {
					c.Failf("reset: %v", err)
				}
				c.Trace()
			}
		})
	}})
}

// group is one expected group.
type group struct {
	keys []any
	vals [][]float64
}

func keyText(keys []any) string { return fmt.Sprintf("%#v", keys) }

// groupRun feeds grouped rows to an aggregator (or set) and compares the groups with the exact partition.
func groupRun(c *Case, names, args, groupBys []string, useSet bool, order fn.OrderBy, rows [][]any, form int, setBy int) {
	opts := []fn.AggregatorOption{fn.WithAggregatorArguments(args)}
	if setBy == 0 {
		opts = append(opts, fn.WithAggregatorGroupBys(groupBys...))
	}
	var set fn.AggregatorSet
	var one fn.Aggregator
	var err error
	by := groupBys
	if setBy != 0 {
		by = nil
	}
	switch {
	case useSet && form%3 == 2:
		list := []fn.Aggregator{}
		for k, n := range names {
			var a fn.Aggregator
			if a, err = mkAggr(form/3+k, n, args, by); err != nil {
				break
			}
			list = append(list, a)
		}
		set = fn.NewAggregatorSetWith(list)
	case useSet && form%3 == 1 && len(groupBys) <= 1:
		// The set of a parsed SELECT.
		text := "SELECT " + strings.Join(names, "("+strings.Join(args, ", ")+"), ") + "(" + strings.Join(args, ", ") + ") FROM t"
		if setBy == 0 && len(groupBys) == 1 {
			text += " GROUP BY " + groupBys[0]
		}
		stmts, perr := parse(text)
		if perr != nil || len(stmts) != 1 {
			c.Failf("%s: %v", text, perr)
			return
		}
		sel, ok := stmts[0].(query.Select)
		if !ok {
			c.Failf("%s: %T", text, stmts[0])
			return
		}
		if s, ok := sel.(interface {
			Aggregators() (query.AggregatorSet, error)
		}); ok {
			set, err = s.Aggregators()
		} else {
			set, err = sel.Selectors().Aggregators()
			if err == nil && setBy == 0 {
				err = set.Reset(groupBys)
			}
		}
	case useSet:
		set, err = fn.NewAggregatorSetForNames(names, opts...)
	default:
		one, err = mkAggr(form/2, names[0], args, by)
		names = names[:1]
	}
	if err != nil {
		c.Failf("%v", err)
		return
	}
	reset := func(o ...any) error {
		if useSet {
			return set.Reset(o...)
		}
		return one.Reset(o...)
	}
	switch setBy {
	case 1:
		err = reset(groupBys)
	case 2:
		// Used without groups and on other data before.
		var a interface{ Aggregate(any) error } = one
		if useSet {
			a = &set
		}
		if err := give(a, 0, args, rows[0][len(groupBys):]); err != nil {
			c.Failf("without groups: %v", err)
			return
		}
		err = reset(groupBys)
	case 3:
		err = reset()
		if err == nil {
			err = reset(groupBys)
		}
		var a interface{ Aggregate(any) error } = one
		if useSet {
			a = &set
		}
		for _, row := range rows {
			if err := a.Aggregate(row); err != nil {
				c.Failf("first use: %v", err)
				return
			}
		}
		if err == nil {
			err = reset(groupBys)
		}
	}
	if err != nil {
		c.Failf("reset: %v", err)
		return
	}
	cols := append(append([]string{}, groupBys...), args...)
	want := map[string]*group{}
	ng := len(groupBys)
	for k, row := range rows {
		c.Step(1)
		var err error
		if useSet {
			err = give(&set, form+k, cols, row)
		} else {
			err = give(one, form+k, cols, row)
		}
		if err != nil {
			c.Failf("row %v: %v", row, err)
			return
		}
		kt := keyText(row[:ng])
		g := want[kt]
		if g == nil {
			g = &group{keys: row[:ng], vals: make([][]float64, len(args))}
			want[kt] = g
		}
		for j := range args {
			if v := row[ng+j]; v != nil {
				f, _ := toF(v)
				g.vals[j] = append(g.vals[j], f)
			} else if args[j] == "*" {
				g.vals[j] = append(g.vals[j], 0)
			}
		}
	}
	var rs fn.ResultSet
	if useSet {
		rs, err = set.Finalize()
	} else if order == fn.OrderByNone {
		rs, err = one.Finalize()
	} else {
		rs, err = one.Finalize(order)
	}
	if err != nil {
		c.Failf("finalize: %v", err)
		return
	}
	wantCols := append([]string{}, groupBys...)
	for _, n := range names {
		for _, a := range args {
			wantCols = append(wantCols, aggrCol(n, a))
		}
	}
	first := ""
	if form%4 < 2 {
		// Finalizing again gives the same; a result stays what it is when the aggregators are used for other rows.
		var again fn.ResultSet
		if useSet {
			again, err = set.Finalize()
		} else if order == fn.OrderByNone {
			again, err = one.Finalize()
		} else {
			again, err = one.Finalize(order)
		}
		if err != nil {
			c.Failf("finalize again: %v", err)
			return
		}
		if form%4 == 1 {
			rs, again = again, rs
		}
		c.Eq("columns", strings.Join(again.Columns(), "|"), strings.Join(wantCols, "|"))
		first = fmt.Sprintf("%#v", rowsOf(c, again))
		if err := reset([]fn.GroupBy{"other"}); err != nil {
			c.Failf("reset: %v", err)
			return
		}
		var a interface{ Aggregate(any) error } = one
		if useSet {
			a = &set
		}
		if err := give(a, 0, append([]string{"other"}, args...), append([]any{"zz"}, rows[0][ng:]...)); err != nil {
			c.Failf("other rows: %v", err)
			return
		}
		if useSet {
			_, err = set.Finalize()
		} else {
			_, err = one.Finalize()
		}
		if err != nil {
			c.Failf("finalize of other rows: %v", err)
			return
		}
	}
	c.Eq("columns", strings.Join(rs.Columns(), "|"), strings.Join(wantCols, "|"))
	got := rowsOf(c, rs)
	if first != "" {
		c.Eq("finalized twice", fmt.Sprintf("%#v", got), first)
	}
	c.got = fmt.Sprint(got)
	if len(got) != len(want) {
		c.Failf("%d groups %v, want %d", len(got), got, len(want))
		return
	}
	seen := map[string]bool{}
	var prev []any
	for _, row := range got {
		if len(row) != len(wantCols) {
			c.Failf("row %v", row)
			return
		}
		kt := keyText(row[:ng])
		g := want[kt]
		if g == nil || seen[kt] {
			c.Failf("group %s is not of the rows or is twice in %v", kt, got)
			return
		}
		seen[kt] = true
		for n, name := range names {
			for j := range args {
				cell(c, "group "+kt, name, row[ng+n*len(args)+j], g.vals[j])
			}
		}
		if order != fn.OrderByNone && prev != nil {
			k := compareKeys(prev, row[:ng])
			if order == fn.OrderByDesc {
				k = -k
			}
			if k > 0 {
				c.Failf("groups are not in the requested order: %v", got)
			}
		}
		prev = row[:ng]
	}
	c.Trace()
	ks := []string{}
	for k := range want {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	c.State(strings.Join(ks, ";"))
}

func compareKeys(a, b []any) int {
	for i := range a {
		if x, ok := a[i].(string); ok {
			if y := b[i].(string); x != y {
				return strings.Compare(x, y)
			}
			continue
		}
		x, _ := toF(a[i])
		y, _ := toF(b[i])
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
	}
	return 0
}

func init() {
	register(&Prop{ID: "C18", Rule: "every sequence of grouped rows up to the bound, over group keys that contain separators, escapes, NULLs and look-alikes, is fed to each aggregate and to sets of aggregates; the groups must be the exact partition with the aggregates of exactly their rows, in the requested order", Run: func(r *Run) {
		// Any two and three rows of one key, any characters.
		keys := []any{"a", "b", "", ",", "a,b", "\\", "\\,", "\\N", "N", nil, "NULL", "null", "<nil>", "nil", " ", "a ", "A", "\x00", "'", "\"", "|", ":", ";", "a\x00b", "a,", ",a", "\\\\", "\\\\,", "é", "\n", "\t", "0", "false"}
		nk := len(keys)
		d3 := dims{nk, nk, nk, len(aggrNames)}
		r.Block("one-key", d3.size(), func(i int, c *Case) {
			x := d3.at(i)
			rows := [][]any{{keys[x[0]], 1.0}, {keys[x[1]], 2.0}, {keys[x[2]], 4.0}}
			c.Inf("%s(v) GROUP BY g: rows %#v", aggrNames[x[3]], rows)
			groupRun(c, []string{aggrNames[x[3]]}, []string{"v"}, []string{"g"}, false, fn.OrderByNone, rows, i, i%4)
		})
		// Any two rows of two keys: the separator must not merge them.
		k2 := keys
		if !r.Thorough() {
			k2 = keys[:20]
		}
		n2 := len(k2)
		d4 := dims{n2, n2, n2, n2}
		r.Block("two-keys", d4.size(), func(i int, c *Case) {
			x := d4.at(i)
			rows := [][]any{{k2[x[0]], k2[x[1]], 1.0}, {k2[x[2]], k2[x[3]], 2.0}}
			name := aggrNames[i%len(aggrNames)]
			c.Inf("%s(v) GROUP BY g, h: rows %#v", name, rows)
			groupRun(c, []string{name}, []string{"v"}, []string{"g", "h"}, false, fn.OrderByNone, rows, i, i%4)
		})
		three := []any{"a", "", ",", nil, "\\"}
		d6 := dims{5, 5, 5, 5, 5, 5}
		r.Block("three-keys", d6.size(), func(i int, c *Case) {
			x := d6.at(i)
			rows := [][]any{{three[x[0]], three[x[1]], three[x[2]], 1.0}, {three[x[3]], three[x[4]], three[x[5]], 2.0}}
			name := aggrNames[i%len(aggrNames)]
			c.Inf("%s(v) GROUP BY g, h, k: rows %#v", name, rows)
			groupRun(c, []string{name}, []string{"v"}, []string{"g", "h", "k"}, false, fn.OrderByNone, rows, i, i%4)
		})
		// Histories: keys x values, with and without sets, NULL values.
		hk := []any{"x", "y", "z"}
		hv := []any{1.0, -3.0, nil}
		depth := r.Pick(4, 5)
		nh := seqCount(9, depth) - 1
		sets := [][]string{{"COUNT"}, {"SUM"}, {"AVG"}, {"MIN"}, {"MAX"}, {"COUNT", "SUM"}, {"MIN", "MAX"}, {"SUM", "AVG", "COUNT"}, {"MAX", "MIN", "AVG", "SUM", "COUNT"}}
		r.Block("histories", nh*len(sets), func(i int, c *Case) {
			names := sets[i%len(sets)]
			rows := [][]any{}
			for _, s := range seqAt(9, i/len(sets)+1) {
				rows = append(rows, []any{hk[s/3], hv[s%3]})
			}
			c.Inf("%v(v) GROUP BY g: rows %v", names, rows)
			groupRun(c, names, []string{"v"}, []string{"g"}, len(names) > 1 || i%2 == 0, fn.OrderByNone, rows, i, i%4)
		})
		// COUNT(*) and several arguments per group.
		da := r.Pick(3, 4)
		na := seqCount(9, da) - 1
		r.Block("arguments", na*3, func(i int, c *Case) {
			args := [][]string{{"*"}, {"v", "w"}, {"w", "v"}}[i%3]
			names := []string{"COUNT"}
			if len(args) == 2 {
				names = [][]string{{"SUM"}, {"MIN", "MAX"}, {"COUNT", "AVG"}}[i/3%3]
			}
			rows := [][]any{}
			for _, s := range seqAt(9, i/3+1) {
				row := []any{hk[s/3], hv[s%3]}
				if len(args) == 2 {
					row = append(row, hv[(s+1)%3])
				}
				rows = append(rows, row)
			}
			c.Inf("%v(%v) GROUP BY g: rows %v", names, args, rows)
			groupRun(c, names, args, []string{"g"}, len(names) > 1, fn.OrderByNone, rows, i, i%4)
		})
		// Requested orders.
		kinds := []struct {
			name string
			keys []any
		}{
			{"int", []any{1, 2, 9, 10, -1, -10, 100, 0}}, {"int64", []any{int64(1), int64(2), int64(9), int64(10), int64(-1), int64(-10), int64(1 << 40), int64(0)}},
			{"float", []any{1.5, 2.0, 9.25, 10.0, -1.5, -10.0, 1e6, 0.0}}, {"string", []any{"a", "b", "ab", "ba", "aa", "z", "abc", "c"}},
		}
		orders := []fn.OrderBy{fn.OrderByAsc, fn.OrderByDesc, fn.OrderByNone}
		od := r.Pick(5, 6)
		no := seqCount(6, od) - 1
		r.Block("orders", len(kinds)*len(orders)*no, func(i int, c *Case) {
			k, o := kinds[i/no/len(orders)], orders[i/no%len(orders)]
			rows := [][]any{}
			for j, s := range seqAt(6, i%no+1) {
				rows = append(rows, []any{k.keys[s], float64(j + 1)})
			}
			c.Inf("SUM(v) GROUP BY g (%s keys) order %v: rows %v", k.name, o, rows)
			groupRun(c, []string{"SUM"}, []string{"v"}, []string{"g"}, false, o, rows, i, i%4)
		})
		perms := permutations(8)
		r.Block("orders-of-all", len(kinds)*len(orders)*len(perms), func(i int, c *Case) {
			k, o := kinds[i/len(perms)/len(orders)], orders[i/len(perms)%len(orders)]
			rows := [][]any{}
			for j, s := range perms[i%len(perms)] {
				rows = append(rows, []any{k.keys[s], float64(j + 1)})
			}
			if !r.Thorough() && i%5 != 0 {
				rows = rows[:6]
			}
			c.Inf("SUM(v) GROUP BY g (%s keys) order %v: rows %v", k.name, o, rows)
			groupRun(c, []string{"SUM"}, []string{"v"}, []string{"g"}, false, o, rows, i, 0)
		})
		twoOrd := []any{"a", "b", "ab"}
		nt := seqCount(9, 4) - 1
		r.Block("orders-two-keys", nt*2, func(i int, c *Case) {
			rows := [][]any{}
			for j, s := range seqAt(9, i/2+1) {
				rows = append(rows, []any{twoOrd[s/3], []any{10, 9, -1}[s%3], float64(j + 1)})
			}
			c.Inf("MAX(v) GROUP BY g, h order %v: rows %v", orders[i%2], rows)
			groupRun(c, []string{"MAX"}, []string{"v"}, []string{"g", "h"}, false, orders[i%2], rows, i, 0)
		})
		n3 := seqCount(27, 2) - 1
		r.Block("orders-three-keys", n3*2, func(i int, c *Case) {
			rows := [][]any{}
			for j, s := range seqAt(27, i/2+1) {
				k := []any{10, 9, -1}
				rows = append(rows, []any{k[s/9], []any{"b", "a", "ab"}[s/3%3], k[s%3], float64(j + 1)})
			}
			c.Inf("MAX(v) GROUP BY g, h, k order %v: rows %v", orders[i%2], rows)
			groupRun(c, []string{"MAX"}, []string{"v"}, []string{"g", "h", "k"}, false, orders[i%2], rows, i/2, 0)
		})
		// Keys of another type with the same text after a reset: the group has the key of its own rows.
		same := []any{1, "1", int64(1), 1.0, uint8(1), "true", true, nil, `\N`, "", "1.5", 1.5, float32(1.5), "\\", "-1", -1}
		ds := dims{len(same), len(same), len(same), 2}
		r.Block("keys of other types after a reset", ds.size(), func(i int, c *Case) {
			x := ds.at(i)
			c.Inf("SUM(v) GROUP BY g: keys %#v, %#v, %#v, each after a reset", same[x[0]], same[x[1]], same[x[2]])
			name := aggrNames[i%len(aggrNames)]
			one, err := mkAggr(i, name, []string{"v"}, []string{"g"})
			if err != nil {
				c.Failf("%v", err)
				return
			}
			set := fn.NewAggregatorSetWith([]fn.Aggregator{one})
			for n, k := range x[:3] {
				if n > 0 {
					if err := set.Reset(); err != nil {
						c.Failf("%v", err)
						return
					}
				}
				if err := give(&set, i+n, []string{"g", "v"}, []any{same[k], float64(n + 1)}); err != nil {
					c.Failf("%v", err)
					return
				}
				var rs fn.ResultSet
				if x[3] == 0 {
					rs, err = set.Finalize()
				} else {
					rs, err = one.Finalize(fn.OrderByAsc)
				}
				if err != nil {
					c.Failf("%v", err)
					return
				}
				c.Step(2)
				rows := rowsOf(c, rs)
				if len(rows) != 1 || len(rows[0]) != 2 || keyText(rows[0][:1]) != keyText([]any{same[k]}) {
					c.Failf("groups %#v, want the key %#v", rows, same[k])
					return
				}
				cell(c, "group", name, rows[0][1], []float64{float64(n + 1)})
			}
			c.Trace()
		})
		r.groupSizes()
		// Every order of the internal maps: the same rows in the same order.
		mk := []any{"b", "a", nil, "ab"}
		nm := seqCount(4, r.Pick(4, 5)) - 1
		r.Serial("map orders", nm*len(sets)*len(orders), func(i int, c *Case) {
			names, o := sets[i%len(sets)], orders[i/len(sets)%len(orders)]
			if len(names) > 1 {
				o = fn.OrderByNone
			}
			rows := [][]any{}
			for j, s := range seqAt(4, i/len(sets)/len(orders)+1) {
				if mk[s] == nil && o != fn.OrderByNone {
					s = 0
				}
				rows = append(rows, []any{mk[s], float64(j + 1)})
			}
			c.Inf("%v(v) GROUP BY g order %v: rows %v", names, o, rows)
			eachMapOrder(c, 24, func() { groupRun(c, names, []string{"v"}, []string{"g"}, len(names) > 1, o, rows, i, i%4) })
		})
		wk := r.Pick(5, 6)
		wp := permutations(wk)
		r.Serial("map orders of more groups", len(wp)*len(sets), func(i int, c *Case) {
			rows := [][]any{}
			for j, s := range wp[i/len(sets)] {
				rows = append(rows, []any{fmt.Sprint("k", s*s), float64(j + 1)})
			}
			names := sets[i%len(sets)]
			c.Inf("%v(v) GROUP BY g: rows %v", names, rows)
			eachMapOrder(c, r.Pick(24, 120), func() { groupRun(c, names, []string{"v"}, []string{"g"}, len(names) > 1, fn.OrderByNone, rows, i, i%4) })
		})
		// Rejected rows leave no group.
		rej := [][]any{{"x", "bad"}, {"n", "bad"}, {"n"}, {"n", 1.0, 2.0}}
		nj := seqCount(6, r.Pick(5, 6))
		r.Block("rejected", nj*4, func(i int, c *Case) {
			name := aggrNames[1+i%4]
			seq := seqAt(6, i/4)
			c.Inf("%s(v) GROUP BY g: operations %v", name, seq)
			a, err := fn.NewAggregatorForName(name, fn.WithAggregatorArguments([]string{"v"}), fn.WithAggregatorGroupBys("g"))
			if err != nil {
				c.Failf("%v", err)
				return
			}
			want := map[string][]float64{}
			for k, s := range seq {
				c.Step(1)
				if s < 2 {
					g := []string{"x", "y"}[s]
					if err := a.Aggregate([]any{g, float64(k)}); err != nil {
						c.Failf("%v", err)
						return
					}
					want[g] = append(want[g], float64(k))
				} else if err := a.Aggregate(rej[s-2]); err == nil {
					c.Failf("row %v accepted", rej[s-2])
					return
				}
			}
			rs, err := a.Finalize()
			if err != nil {
				c.Failf("%v", err)
				return
			}
			rows := rowsOf(c, rs)
			c.Trace()
			if len(rows) != len(want) {
				c.Failf("groups %v, want %v", rows, want)
				return
			}
			for _, row := range rows {
				g, _ := row[0].(string)
				cell(c, "group "+g, name, row[1], want[g])
			}
		})
	}})
}
