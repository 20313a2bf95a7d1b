package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
)

func rsSchemaOf(names ...string) resultset.Schema {
	cols := []resultset.Column{}
	for _, n := range names {
		cols = append(cols, resultset.NewColumn(resultset.WithColumnName(n), resultset.WithColumnType(query.IntType)))
	}
	return resultset.NewSchema(resultset.WithSchemaDatabaseName("db"), resultset.WithSchemaTableName("t"), resultset.WithSchemaColumns(cols))
}

// rsMake builds a result set of n rows whose value at column a is the row number.
func rsMake(n int, offset, limit uint, build int, affected uint) (resultset.ResultSet, error) {
	rows := []resultset.Row{}
	maps := []map[string]any{}
	schema := rsSchemaOf("a", "b")
	for k := 0; k < n; k++ {
		m := map[string]any{"a": k, "b": -k}
		maps = append(maps, m)
		switch build {
		case 1:
			rows = append(rows, resultset.NewRow(resultset.WithRowSchema(schema), resultset.WithRowValues([]any{k, -k})))
		default:
			rows = append(rows, resultset.NewRow(resultset.WithRowObject(m)))
		}
	}
	opts := []resultset.ResultSetOption{resultset.WithResultSetRowsAffected(affected)}
	switch build {
	case 0: // without a schema
		opts = append(opts, resultset.WithResultSetRows(rows), resultset.WithResultSetOffset(offset), resultset.WithResultSetLimit(limit))
	case 1: // values
		opts = append(opts, resultset.WithResultSetLimit(limit), resultset.WithResultSetOffset(offset), resultset.WithResultSetSchema(schema), resultset.WithResultSetRows(rows))
	case 2: // objects with a schema
		opts = append(opts, resultset.WithResultSetRows(rows), resultset.WithResultSetSchema(schema), resultset.WithResultSetOffset(offset), resultset.WithResultSetLimit(limit))
	case 3: // maps
		opts = append(opts, resultset.WithResultSetSchema(schema), resultset.WithResultSetRowsOf(maps), resultset.WithResultSetOffset(offset), resultset.WithResultSetLimit(limit))
		return resultset.NewResultSetFrom(opts...)
	}
	return resultset.NewResultSet(opts...), nil
}

const rsBuilds = 4

// rsDrive runs a sequence of calls (0 Next, 1 Row, 2 accessors) and compares each with the model cursor.
func rsDrive(c *Case, rs resultset.ResultSet, seq []int, n int, offset, limit uint, affected uint, schema bool) {
	lo, hi := n, n
	if offset < uint(n) {
		lo = int(offset)
		if limit > 0 && limit < uint(n-lo) {
			hi = lo + int(limit)
		}
	}
	cur := lo - 1
	started, ended := false, false
	for k, op := range seq {
		c.Step(1)
		switch op {
		case 0:
			started = true
			want := !ended && cur+1 < hi
			if want {
				cur++
			} else {
				ended = true
			}
			if got := rs.Next(); got != want {
				c.Failf("call %d: Next is %v", k, got)
				return
			}
		case 1:
			row, err := rs.Row()
			if !started || ended {
				if err == nil {
					c.Failf("call %d: a row %v before the first or after the last", k, row.Values())
					return
				}
				continue
			}
			if err != nil {
				c.Failf("call %d: %v, want row %d", k, err, cur)
				return
			}
			a, e1 := row.ValueBy("a")
			b, e2 := row.ValueBy("b")
			if e1 != nil || e2 != nil || a != any(cur) || b != any(-cur) || len(row.Values()) != 2 {
				c.Failf("call %d: row %v (%v %v), want %d", k, row.Values(), e1, e2, cur)
				return
			}
		case 2:
			if rs.RowsAffected() != affected {
				c.Failf("call %d: %d rows affected, want %d", k, rs.RowsAffected(), affected)
			}
			if s := rs.Schema(); schema != (s != nil) || schema && (s.DatabaseName() != "db" || s.TableName() != "t" || len(s.Columns()) != 2) {
				c.Failf("call %d: schema", k)
			}
		}
	}
	c.State(fmt.Sprint(n, lo, hi, cur, started, ended))
	c.Trace()
}

func init() {
	register(&Prop{ID: "C22", Rule: "for every number of rows, offset, limit and way to build the result set up to the bound, every sequence of Next, Row and accessor calls is compared call by call with the model cursor; the same for the aggregate result set", Run: func(r *Run) {
		maxN := 4
		bounds := []uint{0, 1, 2, 3, 4, 5, 6, math.MaxInt32, math.MaxInt64, math.MaxUint64 - 1, math.MaxUint64}
		depth := r.Pick(9, 12)
		nseq := 1 << depth
		d := dims{maxN + 1, len(bounds), len(bounds), rsBuilds, nseq}
		r.Block("calls", d.size(), func(i int, c *Case) {
			x := d.at(i)
			seq := []int{}
			for k := 0; k < depth; k++ {
				seq = append(seq, x[4]>>k&1)
			}
			seq = append(seq, 2)
			off, lim := bounds[x[1]], bounds[x[2]]
			aff := uint(i % 5)
			c.Inf("%d rows, offset %d, limit %d, build %d, calls %v", x[0], off, lim, x[3], seq)
			rs, err := rsMake(x[0], off, lim, x[3], aff)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			rsDrive(c, rs, seq, x[0], off, lim, aff, x[3] != 0)
		})
		big := r.Pick(20, 60)
		d2 := dims{big + 1, big + 3, big + 3, rsBuilds, 2}
		r.Block("scans", d2.size(), func(i int, c *Case) {
			x := d2.at(i)
			c.Inf("%d rows, offset %d, limit %d, build %d, full scan", x[0], x[1], x[2], x[3])
			rs, err := rsMake(x[0], uint(x[1]), uint(x[2]), x[3], uint(x[0]))
			if err != nil {
				c.Failf("%v", err)
				return
			}
			seq := []int{}
			for k := 0; k < x[0]+3; k++ {
				seq = append(seq, 0, 1)
				if x[4] == 1 {
					seq = append(seq, 1, 2)
				}
			}
			rsDrive(c, rs, seq, x[0], uint(x[1]), uint(x[2]), uint(x[0]), x[3] != 0)
		})
		r.rsSizes()
		// The result set of an aggregation.
		fd := r.Pick(10, 12)
		pow := 1
		for k := 0; k < fd; k++ {
			pow *= 3
		}
		r.Block("aggregate", 4*pow, func(i int, c *Case) {
			n, code := i/pow, i%pow
			c.Inf("aggregate result set of %d rows, calls %d (base 3: Next, Row, Map)", n, code)
			rows := []fn.Row{}
			for k := 0; k < n; k++ {
				rows = append(rows, fn.Row{k, -k})
			}
			rs := fn.NewResultSet(fn.WithColumns([]string{"a", "b"}), fn.WithRows(rows))
			cur, ended := -1, false
			for k := 0; k < fd; k++ {
				c.Step(1)
				switch code % 3 {
				case 0:
					want := !ended && cur+1 < n
					if want {
						cur++
					} else {
						ended = true
					}
					if rs.Next() != want {
						c.Failf("call %d: Next is %v", k, !want)
						return
					}
				case 1:
					row, err := rs.Row()
					if bad := cur < 0 || ended; bad != (err != nil) {
						c.Failf("call %d: row %v %v", k, row, err)
						return
					} else if !bad && (len(row) != 2 || row[0] != any(cur) || row[1] != any(-cur)) {
						c.Failf("call %d: row %v, want %d", k, row, cur)
						return
					}
				case 2:
					m, err := rs.Map()
					if bad := cur < 0 || ended; bad != (err != nil) {
						c.Failf("call %d: map %v %v", k, m, err)
						return
					} else if !bad && (len(m) != 2 || m["a"] != any(cur) || m["b"] != any(-cur)) {
						c.Failf("call %d: map %v, want %d", k, m, cur)
						return
					}
				}
				code /= 3
			}
			c.State(fmt.Sprint(n, cur, ended))
			c.Trace()
		})
	}})
}

// rowSpec is a row and what it must report.
type rowSpec struct {
	what  string
	names []string // in schema (or sorted) order
	want  []any
	make  func() (resultset.Row, error)
}

// rowSpecs are all ways to build a row of up to maxCols columns.
func rowSpecs(maxCols int) []rowSpec {
	pool := []any{7, "x", nil, 2.5, true, int64(-3), "", uint8(200), "12"}
	out := []rowSpec{}
	nameSets := [][]string{{"a", "b", "c", "d"}, {"z", "y", "x", "w"}, {"b", "B", "a", "SUM(a)"}, {"10", "9", "1", "2"}}
	for n := 0; n <= maxCols; n++ {
		for s := 0; s < len(pool); s++ {
			vals := []any{}
			for k := 0; k < n; k++ {
				vals = append(vals, pool[(s+k*(1+s%2))%len(pool)])
			}
			for si, set := range nameSets {
				names := set[:n]
				obj := func(skip int) map[string]any {
					m := map[string]any{}
					for k, nm := range names {
						if k != skip {
							m[nm] = vals[k]
						}
					}
					return m
				}
				schema := rsSchemaOf(names...)
				out = append(out,
					rowSpec{fmt.Sprintf("values %#v with schema %v", vals, names), names, vals, func() (resultset.Row, error) {
						return resultset.NewRow(resultset.WithRowValues(append([]any{}, vals...)), resultset.WithRowSchema(schema)), nil
					}},
					rowSpec{fmt.Sprintf("object %#v with schema %v", vals, names), names, vals, func() (resultset.Row, error) {
						return resultset.NewRow(resultset.WithRowSchema(schema), resultset.WithRowObject(obj(-1))), nil
					}},
					rowSpec{fmt.Sprintf("NewRowFromObject %#v with schema %v", vals, names), names, vals, func() (resultset.Row, error) {
						m := obj(-1)
						m["other"] = 99
						return resultset.NewRowFromObject(schema, m)
					}},
					rowSpec{fmt.Sprintf("result set row %#v with schema %v", vals, names), names, vals, func() (resultset.Row, error) {
						rs, err := resultset.NewResultSetFrom(resultset.WithResultSetSchema(schema), resultset.WithResultSetRowsOf([]map[string]any{obj(-1)}))
						if err != nil {
							return nil, err
						}
						rs.Next()
						return rs.Row()
					}},
				)
				if n > 0 {
					// A missing value is NULL.
					skip := (s + si) % n
					want := append([]any{}, vals...)
					want[skip] = nil
					out = append(out,
						rowSpec{fmt.Sprintf("object without %s, schema %v", names[skip], names), names, want, func() (resultset.Row, error) {
							return resultset.NewRow(resultset.WithRowObject(obj(skip)), resultset.WithRowSchema(schema)), nil
						}},
						rowSpec{fmt.Sprintf("NewRowFromObject without %s, schema %v", names[skip], names), names, want, func() (resultset.Row, error) {
							return resultset.NewRowFromObject(schema, obj(skip))
						}})
					short := append(append([]any{}, vals[:n-1]...), nil)
					full := append([]any{}, vals...)
					out = append(out, rowSpec{fmt.Sprintf("values %#v, schema %v", vals[:n-1], names), names, short, func() (resultset.Row, error) {
						return resultset.NewRow(resultset.WithRowSchema(schema), resultset.WithRowValues(full[:n-1])), nil
					}})
				}
			}
			// Without a schema: by sorted name, or numbered.
			abc := []string{"a", "b", "c", "d"}[:n]
			out = append(out, rowSpec{fmt.Sprintf("object %#v without a schema", vals), abc, vals, func() (resultset.Row, error) {
				m := map[string]any{}
				for k := range abc {
					m[abc[k]] = vals[k]
				}
				rows, err := resultset.NewRowsFromMapRows(resultset.MapRows{m})
				if err != nil || len(rows) != 1 {
					return nil, fmt.Errorf("%d rows: %v", len(rows), err)
				}
				return rows[0], nil
			}}, rowSpec{fmt.Sprintf("values %#v without a schema", vals), []string{"1", "2", "3", "4"}[:n], vals, func() (resultset.Row, error) {
				return resultset.NewRow(resultset.WithRowValues(append([]any{}, vals...))), nil
			}})
		}
	}
	return out
}

// rowRead reads a row in one way and compares.
func rowRead(c *Case, row resultset.Row, s rowSpec, way int) {
	n := len(s.names)
	c.Step(1)
	switch way {
	case 0:
		v := row.Values()
		if len(v) != n {
			c.Failf("values %#v, want %#v", v, s.want)
			return
		}
		for k := range v {
			if v[k] != s.want[k] {
				c.Failf("values %#v, want %#v", v, s.want)
			}
		}
	case 1:
		o := row.Object()
		for k, nm := range s.names {
			if v, ok := o[nm]; !ok && !strings.Contains(s.what, " without ") || v != s.want[k] {
				c.Failf("object %#v, want %s = %#v", o, nm, s.want[k])
			}
		}
	case 2:
		for k := -2; k < n+2; k++ {
			v, err := row.ValueAt(k)
			if k < 0 || k >= n {
				if err == nil {
					c.Failf("ValueAt(%d) is %#v", k, v)
				}
			} else if err != nil || v != s.want[k] {
				c.Failf("ValueAt(%d) is %#v %v, want %#v", k, v, err, s.want[k])
			}
		}
	case 3:
		for k, nm := range s.names {
			v, err := row.ValueBy(nm)
			if err != nil || v != s.want[k] {
				c.Failf("ValueBy(%q) is %#v %v, want %#v", nm, v, err, s.want[k])
			}
		}
		for _, nm := range []string{"", "no", "A", "0", "-1", "aa", "5"} {
			if v, err := row.ValueBy(nm); err == nil {
				c.Failf("ValueBy(%q) is %#v", nm, v)
			}
		}
	case 4, 5, 6:
		to := make([]string, n+1)
		ptrs := make([]any, n+1)
		for k := range to {
			to[k] = "unset"
			ptrs[k] = &to[k]
		}
		var err error
		switch way {
		case 4:
			err = row.Scan(ptrs[:n]...)
			if e := row.Scan(ptrs...); e == nil {
				c.Failf("Scan of %d of %d values", n+1, n)
			}
		case 5:
			for k := 0; k < n && err == nil; k++ {
				err = row.ScanAt(k, ptrs[k])
			}
			for _, k := range []int{-1, n} {
				if e := row.ScanAt(k, ptrs[n]); e == nil {
					c.Failf("ScanAt(%d) of %d values", k, n)
				}
			}
		case 6:
			for k := 0; k < n && err == nil; k++ {
				err = row.ScanBy(s.names[k], ptrs[k])
			}
			if e := row.ScanBy("no", ptrs[n]); e == nil {
				c.Failf("ScanBy an unknown name")
			}
		}
		if err != nil {
			c.Failf("scan %d: %v", way, err)
			return
		}
		for k := 0; k < n; k++ {
			want := ""
			if s.want[k] != nil {
				want = fmt.Sprint(s.want[k])
			}
			if to[k] != want {
				c.Failf("scan %d: value %d is %q, want %q", way, k, to[k], want)
			}
		}
	}
}

func init() {
	register(&Prop{ID: "C23", Rule: "for every way to build a row (values, objects, missing values, without a schema, through a result set) every sequence of reads in the seven ways up to the bound is compared with the expected values; every destination type is scanned from every value it can hold", Run: func(r *Run) {
		specs := rowSpecs(4)
		const ways = 7
		depth := r.Pick(4, 5)
		ns := seqCount(ways, depth) - 1
		r.Block("reads", len(specs)*ns, func(i int, c *Case) {
			s := specs[i/ns]
			seq := seqAt(ways, i%ns+1)
			c.Inf("%s, reads %v", s.what, seq)
			row, err := s.make()
			if err != nil {
				c.Failf("%v", err)
				return
			}
			for _, w := range seq {
				rowRead(c, row, s, w)
				if c.Failed() {
					return
				}
			}
			for w := 0; w < ways; w++ {
				rowRead(c, row, s, w)
			}
			c.State(s.what)
			c.Trace()
		})
		r.rowGiven()
		r.rowSizes()
		// Scans into every type.
		nums := []float64{0, 1, -1, 2, 100, 127, -128, 255, 32767, -32768, 65535, 2147483647, -2147483648, 4294967295, 1 << 40, -(1 << 40), 0.5, -2.25}
		type sc struct {
			v any
			n float64
		}
		scs := []sc{}
		for _, n := range nums {
			for _, v := range formsOf(n) {
				scs = append(scs, sc{v, n})
			}
		}
		r.Block("scan-types", len(scs)*3, func(i int, c *Case) {
			s := scs[i/3]
			c.Inf("scan %T(%v) way %d", s.v, s.v, i%3)
			row := resultset.NewRow(resultset.WithRowSchema(rsSchemaOf("x", "v")), resultset.WithRowValues([]any{"no", s.v}))
			scan := func(to any) error {
				c.Step(1)
				switch i % 3 {
				case 0:
					var x string
					return row.Scan(&x, to)
				case 1:
					return row.ScanAt(1, to)
				}
				return row.ScanBy("v", to)
			}
			check := func(name string, fits bool, err error, got float64) {
				if fits && (err != nil || got != s.n) {
					c.Failf("into %s: %v %v, want %v", name, got, err, s.n)
				}
			}
			in := func(lo, hi float64) bool { return s.n >= lo && s.n <= hi && s.n == math.Trunc(s.n) }
			{
				var v int
				check("int", in(-1<<62, 1<<62), scan(&v), float64(v))
			}
			{
				var v int8
				err := scan(&v)
				check("int8", in(-128, 127), err, float64(v))
			}
			{
				var v int16
				err := scan(&v)
				check("int16", in(-32768, 32767), err, float64(v))
			}
			{
				var v int32
				err := scan(&v)
				check("int32", in(-1<<31, 1<<31-1), err, float64(v))
			}
			{
				var v int64
				err := scan(&v)
				check("int64", in(-1<<62, 1<<62), err, float64(v))
			}
			{
				var v uint
				err := scan(&v)
				check("uint", in(0, 1<<62), err, float64(v))
			}
			{
				var v uint8
				err := scan(&v)
				check("uint8", in(0, 255), err, float64(v))
			}
			{
				var v uint16
				err := scan(&v)
				check("uint16", in(0, 65535), err, float64(v))
			}
			{
				var v uint32
				err := scan(&v)
				check("uint32", in(0, 1<<32-1), err, float64(v))
			}
			{
				var v uint64
				err := scan(&v)
				check("uint64", in(0, 1<<62), err, float64(v))
			}
			{
				var v float32
				err := scan(&v)
				check("float32", float64(float32(s.n)) == s.n, err, float64(v))
			}
			{
				var v float64
				err := scan(&v)
				check("float64", true, err, v)
			}
			c.Trace()
		})
		// Row objects: the order of their columns is not that of the map.
		objs := permutations(4)
		r.Serial("map orders", len(objs)*4, func(i int, c *Case) {
			obj := map[string]any{}
			for _, k := range objs[i/4][:i%4+1] {
				obj[[]string{"b", "a", "B", "ab"}[k]] = k
			}
			c.Inf("row object %v", obj)
			eachMapOrder(c, 24, func() {
				row := resultset.NewRow(resultset.WithRowObject(obj))
				s, err := resultset.NewSchemaFrom(resultset.WithSchemaRowObject(obj))
				if err != nil {
					c.Failf("%v", err)
					return
				}
				cols := []string{}
				for _, col := range s.Columns() {
					cols = append(cols, col.Name())
				}
				c.got = fmt.Sprint(row.Values(), cols)
			})
			c.Trace()
		})
		// Schemas.
		names := []string{"a", "b", "C", "SUM(a)", "a b"}
		perms := permutations(len(names))
		r.Block("schemas", len(perms)*(len(names)+1), func(i int, c *Case) {
			p, n := perms[i/(len(names)+1)], i%(len(names)+1)
			cols := []string{}
			obj := map[string]any{}
			for _, k := range p[:n] {
				cols = append(cols, names[k])
				obj[names[k]] = k
			}
			c.Inf("schema %v", cols)
			s := rsSchemaOf(cols...)
			got := []string{}
			for _, col := range s.Columns() {
				got = append(got, col.Name())
			}
			c.Eq("columns", strings.Join(got, "|"), strings.Join(cols, "|"))
			got = []string{}
			for _, sel := range s.Selectors() {
				got = append(got, sel.Name())
			}
			c.Eq("selectors", strings.Join(got, "|"), strings.Join(cols, "|"))
			for _, nm := range names {
				col, err := s.LookupColumn(nm)
				_, in := obj[nm]
				if in != (err == nil) || in && col.Name() != nm {
					c.Failf("LookupColumn(%q): %v", nm, err)
				}
			}
			// The schema of a row object and the row agree.
			so, err := resultset.NewSchemaFrom(resultset.WithSchemaRowObject(obj))
			if err != nil {
				c.Failf("%v", err)
				return
			}
			bare := resultset.NewRow(resultset.WithRowObject(obj)).Values()
			if len(so.Columns()) != len(obj) || len(bare) != len(obj) {
				c.Failf("%d columns, %d values of %v", len(so.Columns()), len(bare), obj)
				return
			}
			for k, col := range so.Columns() {
				if v, ok := obj[col.Name()]; !ok || v != bare[k] {
					c.Failf("column %d is %s, value %v of %v", k, col.Name(), bare[k], obj)
				}
			}
			c.Step(4)
			c.Trace()
		})
	}})
}

// aggrSource are the rows of table t (g TEXT, v INT, w DOUBLE, s TEXT).
func aggrTable() query.Schema {
	stmts, err := parse("CREATE TABLE t (g TEXT, v INT, w DOUBLE, s TEXT)")
	if err != nil || len(stmts) != 1 {
		return nil
	}
	return stmts[0].(query.CreateTable).Schema()
}

func aggrSource(schema query.Schema, rows []map[string]any, plain bool, opts ...resultset.ResultSetOption) (resultset.ResultSet, error) {
	rsSchema := resultset.NewSchema(resultset.WithSchemaDatabaseName("db"), resultset.WithSchemaTableName("t"), resultset.WithSchemaColumns(resultset.NewColumnsFrom(schema.Columns())))
	return resultset.NewResultSetFrom(append([]resultset.ResultSetOption{resultset.WithResultSetSchema(rsSchema), resultset.WithResultSetRowsOf(rows)}, opts...)...)
}

func init() {
	register(&Prop{ID: "C19", Rule: "every list of aggregate and plain selectors up to the bound, parsed from a SELECT with and without GROUP BY, is evaluated on every sequence of source rows up to the bound and the rows, columns and their order are compared with a reference evaluation; scalar functions are evaluated on every row; unknown columns must be errors", Run: func(r *Run) {
		table := aggrTable()
		if table == nil {
			r.Block("table", 1, func(i int, c *Case) { c.Failf("CREATE TABLE t (g TEXT, v INT, w DOUBLE, s TEXT) is rejected") })
			return
		}
		aggs := []string{"COUNT(*)"}
		for _, n := range aggrNames {
			aggs = append(aggs, n+"(v)", n+"(w)")
		}
		aggs = append(aggs, "sum(v)", "Count(g)")
		type row3 struct {
			g any
			v any
			w any
		}
		rowsPool := []row3{{"x", 1, 0.5}, {"y", -2, nil}, {"x", nil, 4.0}, {"x,y", 7, -8.25}}
		srcDepth := r.Pick(4, 5)
		nsrc := seqCount(len(rowsPool), srcDepth)
		// Selector lists: one or two aggregates, with the group column at every position or absent.
		type sl = aggrSel
		lists := []aggrSel{}
		for _, a := range aggs {
			lists = append(lists, sl{[]string{a}, false}, sl{[]string{a}, true}, sl{[]string{"g", a}, true}, sl{[]string{a, "g"}, true})
		}
		for i, a := range aggs {
			for j, b := range aggs {
				lists = append(lists, sl{[]string{a, b}, false})
				if (i+j)%r.Pick(3, 1) == 0 {
					lists = append(lists, sl{[]string{"g", a, b}, true}, sl{[]string{a, "g", b}, true}, sl{[]string{a, b}, true})
				}
			}
		}
		lists = append(lists, sl{[]string{"MIN(v)", "MAX(v)", "SUM(v)", "AVG(v)", "COUNT(v)"}, false}, sl{[]string{"g", "COUNT(v)", "AVG(v)", "SUM(w)", "MAX(v)", "MIN(w)"}, true})
		r.Block("aggregates", len(lists)*nsrc, func(i int, c *Case) {
			l := lists[i/nsrc]
			text := "SELECT " + strings.Join(l.sels, ", ") + " FROM t"
			if l.group {
				text += " GROUP BY g"
			}
			src := []map[string]any{}
			for _, k := range seqAt(len(rowsPool), i%nsrc) {
				p := rowsPool[k]
				src = append(src, map[string]any{"g": p.g, "v": p.v, "w": p.w, "s": "q"})
			}
			c.Inf("%s on %v", text, src)
			stmts, err := parse(text)
			if err != nil || len(stmts) != 1 {
				c.Failf("%v", err)
				return
			}
			sel := stmts[0].(query.Select)
			for round := 0; round < 2; round++ {
				aggrOnce(c, table, sel, l.sels, l.gcol(), src)
				if c.Failed() {
					return
				}
			}
			c.Trace()
		})
		// Only the rows the cursor of the source returns are aggregated; a source without a schema of its own is not.
		wlists := []aggrSel{{[]string{"COUNT(*)"}, false}, {[]string{"SUM(v)", "MAX(w)"}, false}, {[]string{"g", "COUNT(v)"}, true}, {[]string{"MIN(v)", "g", "AVG(w)"}, true}}
		const woff, wlim = 6, 6
		r.Block("windows", len(wlists)*nsrc*woff*wlim, func(i int, c *Case) {
			off, i := i%woff, i/woff
			lim, i := i%wlim, i/wlim
			l := wlists[i/nsrc]
			text := "SELECT " + strings.Join(l.sels, ", ") + " FROM t"
			if l.group {
				text += " GROUP BY g"
			}
			src := []map[string]any{}
			for _, k := range seqAt(len(rowsPool), i%nsrc) {
				p := rowsPool[k]
				src = append(src, map[string]any{"g": p.g, "v": p.v, "w": p.w, "s": "q"})
			}
			c.Inf("%s on rows %d, limit %d of %v", text, off, lim, src)
			stmts, err := parse(text)
			if err != nil || len(stmts) != 1 {
				c.Failf("%v", err)
				return
			}
			in, err := aggrSource(table, src, false, resultset.WithResultSetOffset(uint(off)), resultset.WithResultSetLimit(uint(lim)))
			if err != nil {
				c.Failf("%v", err)
				return
			}
			c.Step(1 + len(src))
			rs, err := aggrRS(table, stmts[0].(query.Select), in)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			win := src[min(off, len(src)):]
			if lim > 0 {
				win = win[:min(lim, len(win))]
			}
			aggrRead(c, rs, l.sels, l.gcol(), win)
			c.Trace()
		})
		// Two result sets of one SELECT are independent, whichever is read first.
		nsrc3 := seqCount(len(rowsPool), r.Pick(2, 3))
		r.Block("two sources", len(wlists)*nsrc3*nsrc3*2, func(i int, c *Case) {
			order, i := i%2, i/2
			a, i := i%nsrc3, i/nsrc3
			b, i := i%nsrc3, i/nsrc3
			l := wlists[i]
			text := "SELECT " + strings.Join(l.sels, ", ") + " FROM t"
			if l.group {
				text += " GROUP BY g"
			}
			var srcs [2][]map[string]any
			var rss [2]resultset.ResultSet
			stmts, err := parse(text)
			if err != nil || len(stmts) != 1 {
				c.Failf("%v", err)
				return
			}
			for n, x := range []int{a, b} {
				for _, k := range seqAt(len(rowsPool), x) {
					p := rowsPool[k]
					srcs[n] = append(srcs[n], map[string]any{"g": p.g, "v": p.v, "w": p.w, "s": "q"})
				}
			}
			c.Inf("%s on %v and on %v", text, srcs[0], srcs[1])
			for n := range srcs {
				in, err := aggrSource(table, srcs[n], false)
				if err == nil {
					rss[n], err = aggrRS(table, stmts[0].(query.Select), in)
				}
				if err != nil {
					c.Failf("%v", err)
					return
				}
				c.Step(1)
			}
			for _, n := range []int{order, 1 - order} {
				aggrRead(c, rss[n], l.sels, l.gcol(), srcs[n])
			}
			c.Trace()
		})
		// Groups of numbers, Booleans written as text, and of many rows.
		glists := [][]string{{"COUNT(*)"}, {"%s", "COUNT(*)"}, {"SUM(w)", "%s"}, {"%s", "MAX(v)", "MIN(w)"}}
		gcols := []string{"g", "v", "w"}
		gmax := r.Pick(12, 40)
		r.Block("group columns", len(gcols)*len(glists)*gmax*gmax, func(i int, c *Case) {
			gcol, i := gcols[i%len(gcols)], i/len(gcols)
			tmpl, i := glists[i%len(glists)], i/len(glists)
			n, m := i%gmax, i/gmax+1 // n rows in m groups
			sels := []string{}
			for _, t := range tmpl {
				sels = append(sels, strings.ReplaceAll(t, "%s", gcol))
			}
			src := []map[string]any{}
			for k := 0; k < n; k++ {
				q := k * 7 % m
				src = append(src, map[string]any{"g": fmt.Sprintf("k%d", q), "v": q - 3, "w": float64(q) / 4, "s": "q"})
			}
			text := "SELECT " + strings.Join(sels, ", ") + " FROM t GROUP BY " + gcol
			c.Inf("%s on %d rows in %d groups", text, n, m)
			stmts, err := parse(text)
			if err != nil || len(stmts) != 1 {
				c.Failf("%v", err)
				return
			}
			aggrOnce(c, table, stmts[0].(query.Select), sels, gcol, src)
			c.Trace()
		})
		r.aggregatedSizes(table)
		r.aggregatedSources(table)
		// Plain selectors pass the source through.
		plain := []string{"g", "v", "*", "ABS(v)", "UPPER(g)"}
		np := seqCount(len(plain), 2) - 1
		r.Block("plain", np*nsrc, func(i int, c *Case) {
			sels := []string{}
			for _, k := range seqAt(len(plain), i/nsrc+1) {
				sels = append(sels, plain[k])
			}
			text := "SELECT " + strings.Join(sels, ", ") + " FROM t"
			c.In(text)
			src := []map[string]any{}
			for _, k := range seqAt(len(rowsPool), i%nsrc) {
				p := rowsPool[k]
				src = append(src, map[string]any{"g": p.g, "v": p.v, "w": p.w, "s": "q"})
			}
			stmts, err := parse(text)
			if err != nil || len(stmts) != 1 {
				c.Failf("%v", err)
				return
			}
			in, err := aggrSource(table, src, true)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			rs, err := resultset.NewAggregatedResultSetFrom(resultset.WithAggregatedResultSetTableSchema(table), resultset.WithAggregatedResultSetSelectors(stmts[0].(query.Select).Selectors()), resultset.WithAggregatedResultSetSource(in))
			if err != nil {
				c.Failf("%v", err)
				return
			}
			c.Step(1)
			for k, want := range src {
				if !rs.Next() {
					c.Failf("only %d rows", k)
					return
				}
				row, err := rs.Row()
				if err != nil {
					c.Failf("%v", err)
					return
				}
				for _, nm := range []string{"g", "v", "w", "s"} {
					if v, err := row.ValueBy(nm); err != nil || v != want[nm] {
						c.Failf("row %d: %s is %v %v, want %v", k, nm, v, err, want[nm])
					}
				}
			}
			if rs.Next() {
				c.Failf("more than %d rows", len(src))
			}
			c.Trace()
		})
		// Scalar functions are evaluated on each row.
		scal := []struct {
			text string
			f    func(v, w float64, g string) any
		}{
			{"g", func(v, w float64, g string) any { return g }}, {"v", func(v, w float64, g string) any { return int(v) }},
			{"ABS(v)", func(v, w float64, g string) any { return math.Abs(v) }}, {"FLOOR(w)", func(v, w float64, g string) any { return math.Floor(w) }}, {"CEIL(w)", func(v, w float64, g string) any { return math.Ceil(w) }},
			{"ROUND(w)", func(v, w float64, g string) any { return math.Round(w) }}, {"POWER(v, 2)", func(v, w float64, g string) any { return v * v }}, {"POWER(2, v)", func(v, w float64, g string) any { return math.Pow(2, v) }}, {"MOD(v, 3)", func(v, w float64, g string) any { return math.Mod(v, 3) }},
			{"upper(g)", func(v, w float64, g string) any { return strings.ToUpper(g) }}, {"LOWER(g)", func(v, w float64, g string) any { return strings.ToLower(g) }}, {"TRIM(g)", func(v, w float64, g string) any { return strings.Trim(g, " ") }},
			{"EXP(v)", func(v, w float64, g string) any { return math.Exp(v) }}, {"SIN(w)", func(v, w float64, g string) any { return math.Sin(w) }}, {"PI()", func(v, w float64, g string) any { return math.Pi }},
		}
		srows := []struct {
			v, w float64
			g    string
		}{{1, 2.5, "Ab"}, {-3, -0.25, " x "}, {0, 7, ""}, {5, -1.5, "éA "}}
		nsr := seqCount(len(srows), 3)
		nsc := seqCount(len(scal), 2) - 1
		r.Block("scalars", nsr*nsc, func(i int, c *Case) {
			ks := seqAt(len(scal), i/nsr+1)
			texts := []string{}
			for _, k := range ks {
				texts = append(texts, scal[k].text)
			}
			text := "SELECT " + strings.Join(texts, ", ") + " FROM t"
			rows := seqAt(len(srows), i%nsr)
			c.Inf("%s on rows %v", text, rows)
			stmts, err := parse(text)
			if err != nil || len(stmts) != 1 {
				c.Failf("%v", err)
				return
			}
			schema, err := resultset.NewSchemaFrom(resultset.WithSchemaDatabaseName("db"), resultset.WithSchemaTableSchema(table), resultset.WithSchemaSelectors(stmts[0].(query.Select).Selectors()))
			if err != nil {
				c.Failf("schema: %v", err)
				return
			}
			if len(schema.Columns()) != len(ks) {
				c.Failf("%d columns", len(schema.Columns()))
				return
			}
			src := []map[string]any{}
			for _, k := range rows {
				p := srows[k]
				src = append(src, map[string]any{"g": p.g, "v": int(p.v), "w": p.w, "s": "q"})
			}
			rs, err := resultset.NewResultSetFrom(resultset.WithResultSetSchema(schema), resultset.WithResultSetRowsOf(src))
			if err != nil {
				c.Failf("%v", err)
				return
			}
			for n, k := range rows {
				c.Step(1)
				if !rs.Next() {
					c.Failf("only %d rows", n)
					return
				}
				row, err := rs.Row()
				if err != nil {
					c.Failf("row %d: %v", n, err)
					return
				}
				p := srows[k]
				for j, s := range ks {
					v, err := row.ValueAt(j)
					want := scal[s].f(p.v, p.w, p.g)
					ok := err == nil && v == want
					if wf, isNum := toF(want); isNum && err == nil {
						gf, gn := toF(v)
						ok = gn && nearSum(gf, wf)
					}
					if !ok {
						c.Failf("row %d: %s is %T(%v) %v, want %v", n, scal[s].text, v, v, err, want)
					}
				}
			}
			if rs.Next() {
				c.Failf("too many rows")
			}
			c.Trace()
			c.State(text)
		})
		// Unknown columns.
		bad := []string{"SELECT zz, SUM(v) FROM t", "SELECT SUM(v), zz FROM t", "SELECT SUM(zz) FROM t", "SELECT SUM(v), COUNT(zz) FROM t", "SELECT zz, COUNT(*) FROM t GROUP BY zz", "SELECT SUM(v) FROM t GROUP BY zz", "SELECT AVG(vv) FROM t", "SELECT MIN(s) FROM t", "SELECT MAX(g) FROM t", "SELECT ABS(v), SUM(v) FROM t", "SELECT FOO(v), SUM(v) FROM t"}
		r.Block("unknown", len(bad), func(i int, c *Case) {
			c.In(bad[i])
			stmts, err := parse(bad[i])
			if err != nil || len(stmts) != 1 {
				c.Failf("%v", err)
				return
			}
			sel := stmts[0].(query.Select)
			in, err := aggrSource(table, []map[string]any{{"g": "x", "v": 1, "w": 2.0, "s": "q"}}, true)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			rs, err := aggrRS(table, sel, in)
			c.Step(1)
			c.Trace()
			if err == nil {
				c.Failf("no error, columns %v", rs.Schema().Columns())
			}
		})
	}})
}

// aggregatedSources: rows with invalid values, sources with counts and names of their own, rows without values.
func (r *Run) aggregatedSources(table query.Schema) {
	nums := []string{"SUM(v)", "AVG(v)", "MIN(v)", "MAX(v)"}
	others := []string{"COUNT(*)", "SUM(w)", "MAX(w)", "COUNT(v)"}
	// A value that is no number, in the row at k of n, for the selector at j of the list.
	type inv struct {
		sels []string
		n, k int
		grp  bool
	}
	invs := []inv{}
	for l := 1; l <= r.Pick(5, 6); l++ {
		for j := 0; j < l; j++ {
			for _, a := range nums {
				sels := []string{}
				for x := 0; x < l; x++ {
					if x == j {
						sels = append(sels, a)
					} else {
						sels = append(sels, others[(x+j)%len(others)])
					}
				}
				for n := 1; n <= 4; n++ {
					for k := 0; k < n; k++ {
						invs = append(invs, inv{sels, n, k, false}, inv{sels, n, k, true})
					}
				}
			}
		}
	}
	r.Block("invalid values", len(invs), func(i int, c *Case) {
		v := invs[i]
		src := []map[string]any{}
		for k := 0; k < v.n; k++ {
			var x any = k
			if k == v.k {
				x = "no number"
			}
			src = append(src, map[string]any{"g": "x", "v": x, "w": 1.5, "s": "q"})
		}
		text := "SELECT " + strings.Join(v.sels, ", ") + " FROM t"
		if v.grp {
			text += " GROUP BY g"
		}
		c.Inf("%s on %v", text, src)
		stmts, err := parse(text)
		if err != nil || len(stmts) != 1 {
			c.Failf("%v", err)
			return
		}
		in, err := aggrSource(table, src, false)
		if err != nil {
			c.Failf("%v", err)
			return
		}
		c.Step(1 + len(src))
		c.Trace()
		if rs, err := aggrRS(table, stmts[0].(query.Select), in); err == nil {
			c.Failf("no error, columns %v", rs.Schema().Columns())
		}
	})
	// Tables, columns and databases of every name, sources with a count of their own.
	names := []string{"t", "g", "v", "w", "s", "db", "SUM", "a_b"}
	sels := []aggrSel{{[]string{"COUNT(*)"}, false}, {[]string{"SUM(v)", "MAX(w)"}, false}, {[]string{"g", "COUNT(v)"}, true}, {[]string{"MIN(v)", "g", "AVG(w)"}, true}, {[]string{"COUNT(*)"}, true}, {[]string{"SUM(v)", "SUM(v)"}, false}, {[]string{"g", "g", "SUM(v)", "SUM(v)"}, true}}
	src := []map[string]any{{"g": "x", "v": 1, "w": 2.5, "s": "q"}, {"g": "y", "v": 5, "w": nil, "s": "q"}, {"g": "x", "v": -3, "w": 0.25, "s": "r"}}
	d := dims{len(names), len(names), len(sels), 4, len(src) + 1}
	r.Block("names and counts of sources", d.size(), func(i int, c *Case) {
		x := d.at(i)
		tname, dbname, l := names[x[0]], names[x[1]], sels[x[2]]
		text := "SELECT " + strings.Join(l.sels, ", ") + " FROM " + tname
		if l.group {
			text += " GROUP BY g"
		}
		c.Inf("%s in %s on %d rows, %d affected", text, dbname, x[4], x[3])
		stmts, err := parse("CREATE TABLE " + tname + " (g TEXT, v INT, w DOUBLE, s TEXT); " + text)
		if err != nil || len(stmts) != 2 {
			c.Failf("%v", err)
			return
		}
		schema := stmts[0].(query.CreateTable).Schema()
		in, err := resultset.NewResultSetFrom(resultset.WithResultSetSchema(resultset.NewSchema(resultset.WithSchemaDatabaseName(dbname), resultset.WithSchemaTableName(tname), resultset.WithSchemaColumns(resultset.NewColumnsFrom(schema.Columns())))),
			resultset.WithResultSetRowsOf(src[:x[4]]), resultset.WithResultSetRowsAffected(uint(x[3])))
		if err != nil {
			c.Failf("%v", err)
			return
		}
		c.Step(1 + x[4])
		rs, err := aggrRS(schema, stmts[1].(query.Select), in)
		if err != nil {
			c.Failf("%v", err)
			return
		}
		c.Eq("database", rs.Schema().DatabaseName(), dbname)
		c.Eq("table", rs.Schema().TableName(), tname)
		aggrRead(c, rs, l.sels, l.gcol(), src[:x[4]])
		c.Trace()
	})
	// Rows without some or all values are rows for COUNT(*).
	keys := []string{"g", "v", "w", "s"}
	nr := r.Pick(3, 4)
	nseq := seqCount(16, nr)
	r.Block("rows without values", nseq, func(i int, c *Case) {
		rows := []map[string]any{}
		for _, m := range seqAt(16, i) {
			row := map[string]any{}
			for k, key := range keys {
				if m>>k&1 == 1 {
					row[key] = k
				}
			}
			rows = append(rows, row)
		}
		c.Inf("SELECT COUNT(*) FROM t on %v", rows)
		stmts, err := parse("SELECT COUNT(*) FROM t")
		if err != nil || len(stmts) != 1 {
			c.Failf("%v", err)
			return
		}
		aggrOnce(c, table, stmts[0].(query.Select), []string{"COUNT(*)"}, "", rows)
		// The same rows without a schema of their own.
		bare := []resultset.Row{}
		for _, row := range rows {
			bare = append(bare, resultset.NewRow(resultset.WithRowObject(row)))
		}
		in, err := aggrSource(table, nil, false, resultset.WithResultSetRows(bare))
		if err != nil {
			c.Failf("%v", err)
			return
		}
		rs, err := aggrRS(table, stmts[0].(query.Select), in)
		if err != nil {
			c.Failf("rows without a schema: %v", err)
			return
		}
		aggrRead(c, rs, []string{"COUNT(*)"}, "", rows)
		c.Trace()
	})
}

func aggrRS(table query.Schema, sel query.Select, in resultset.ResultSet) (resultset.ResultSet, error) {
	opts := []resultset.AggregatedResultSetOptions{resultset.WithAggregatedResultSetTableSchema(table), resultset.WithAggregatedResultSetSelectors(sel.Selectors()), resultset.WithAggregatedResultSetSource(in)}
	if g := sel.GroupBy(); g != nil && g.ColumnName() != "" {
		opts = append(opts, resultset.WithAggregatedResultSetGroupBy(g))
	}
	return resultset.NewAggregatedResultSetFrom(opts...)
}

// aggrOnce aggregates the source once and compares with the reference evaluation.
func aggrOnce(c *Case, table query.Schema, sel query.Select, sels []string, gcol string, src []map[string]any) {
	in, err := aggrSource(table, src, false)
	if err != nil {
		c.Failf("%v", err)
		return
	}
	c.Step(1 + len(src))
	rs, err := aggrRS(table, sel, in)
	if err != nil {
		c.Failf("%v", err)
		return
	}
	aggrRead(c, rs, sels, gcol, src)
}

// aggrSel is a selector list, grouped by g or not.
type aggrSel struct {
	sels  []string
	group bool
}

func (l aggrSel) gcol() string {
	if l.group {
		return "g"
	}
	return ""
}

// aggrRead compares an aggregated result set with the reference evaluation of the selectors on the rows.
func aggrRead(c *Case, rs resultset.ResultSet, sels []string, gcol string, src []map[string]any) {
	grouped := gcol != ""
	groups := map[string][]map[string]any{}
	if grouped {
		for _, m := range src {
			k := fmt.Sprintf("%#v", m[gcol])
			groups[k] = append(groups[k], m)
		}
	} else {
		groups[""] = src
	}
	if rs.Schema() == nil || len(rs.Schema().Columns()) != len(sels) {
		c.Failf("schema with other columns")
		return
	}
	hasG := -1
	for j, s := range sels {
		name := s
		if s == gcol {
			hasG = j
		} else {
			f, rest, _ := strings.Cut(s, "(")
			name = strings.ToUpper(f) + "(" + rest
		}
		if got := rs.Schema().Columns()[j].Name(); got != name {
			c.Failf("column %d is %q, want %q", j, got, name)
		}
	}
	used := map[string]bool{}
	n := 0
	sigs := []string{}
	for rs.Next() {
		row, err := rs.Row()
		if err != nil {
			c.Failf("row %d: %v", n, err)
			return
		}
		n++
		vals := row.Values()
		if len(vals) != len(sels) {
			c.Failf("row %d: %v", n, vals)
			return
		}
		check := func(rows []map[string]any) string {
			for j, s := range sels {
				if s == gcol {
					continue
				}
				f, arg, _ := strings.Cut(strings.TrimSuffix(s, ")"), "(")
				acc := []float64{}
				for _, m := range rows {
					if arg == "*" {
						acc = append(acc, 0)
					} else if v := m[arg]; v != nil {
						x, _ := toF(v)
						acc = append(acc, x)
					}
				}
				tmp := &Case{r: c.r, quiet: true}
				cell(tmp, s, strings.ToUpper(f), vals[j], acc)
				if tmp.Failed() {
					return tmp.failed
				}
			}
			return ""
		}
		switch {
		case !grouped:
			if msg := check(src); msg != "" {
				c.Failf("%s", msg)
			}
			used[""] = true
		case hasG >= 0:
			k := fmt.Sprintf("%#v", vals[hasG])
			if groups[k] == nil || used[k] {
				c.Failf("group %s is none or twice", k)
				return
			}
			used[k] = true
			if msg := check(groups[k]); msg != "" {
				c.Failf("group %s: %s", k, msg)
			}
		default:
			// The group is not selected: the row must be the one of some group.
			ok := false
			for k, g := range groups {
				if !used[k] && check(g) == "" {
					used[k], ok = true, true
					break
				}
			}
			if !ok {
				c.Failf("row %v is of no group of %v", vals, src)
			}
		}
		sigs = append(sigs, fmt.Sprint(vals))
		if c.Failed() {
			return
		}
	}
	if n != len(groups) {
		c.Failf("%d rows, want %d", n, len(groups))
	}
	c.State(strings.Join(sels, ",") + strings.Join(sigs, ";"))
}

// rowGiven checks that reading a row leaves the given object and values as they were.
func (r *Run) rowGiven() {
	const ways = 7
	depth := r.Pick(3, 4)
	ns := seqCount(ways, depth) - 1
	names := []string{"c", "a", "b", "d"}
	d := dims{5, 16, 2, ns}
	r.Block("given objects and values", d.size(), func(i int, c *Case) {
		x := d.at(i)
		n := x[0]
		if x[1] >= 1<<n {
			return
		}
		seq := seqAt(ways, x[3]+1)
		c.Inf("%d columns, given %04b, kind %d, reads %v", n, x[1], x[2], seq)
		spec := rowSpec{what: "row without some values", names: names[:n]}
		obj := map[string]any{"other": "kept"}
		back := []any{}
		for k := 0; k < n; k++ {
			if x[1]&(1<<k) != 0 {
				obj[names[k]] = k * 7
				spec.want = append(spec.want, k*7)
			} else {
				spec.want = append(spec.want, nil)
			}
			back = append(back, k*7)
		}
		back = append(back, "kept 1", "kept 2")
		was := fmt.Sprintf("%#v %#v", obj, back)
		var row resultset.Row
		if x[2] == 0 {
			row = resultset.NewRow(resultset.WithRowSchema(rsSchemaOf(names[:n]...)), resultset.WithRowObject(obj))
		} else {
			// A part of a longer list of values.
			given := 0
			for k := 0; k < n; k++ {
				if x[1]&(1<<k) != 0 {
					given++
				}
			}
			spec.want = nil
			for k := 0; k < n; k++ {
				if k < given {
					spec.want = append(spec.want, k*7)
				} else {
					spec.want = append(spec.want, nil)
				}
			}
			row = resultset.NewRow(resultset.WithRowSchema(rsSchemaOf(names[:n]...)), resultset.WithRowValues(back[:given]))
		}
		for _, w := range seq {
			rowRead(c, row, spec, w)
			if c.Failed() {
				return
			}
		}
		c.Eq("given object and values", fmt.Sprintf("%#v %#v", obj, back), was)
		c.Trace()
	})
}
