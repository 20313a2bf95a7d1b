package main

import (
	"fmt"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
	"github.com/cybergarage/go-sqlparser/sql/system"
)

// Size sweeps: every length of lengths() along each dimension that the other blocks keep small.

// rowCounts are the numbers of rows swept.
func rowCounts(r *Run) []int {
	return append(lengths(r), 4095, 4096, 4097, 65535, 65536, 65537)
}

func (r *Run) rsSizes() {
	ns := rowCounts(r)
	at := func(n, k int) uint {
		v := []int{0, 1, n / 2, n - 1, n, n + 1, 15, 16, 17, 255, 256, 257}[k]
		return uint(v)
	}
	d := dims{len(ns), 12, 12, rsBuilds}
	r.Block("sizes", d.size(), func(i int, c *Case) {
		x := d.at(i)
		n := ns[x[0]]
		off, lim := at(n, x[1]), at(n, x[2])
		if n > 1100 && (x[1] > 5 || x[2] > 5 || (x[1]+x[2]+x[3])%rsBuilds != 0) {
			return
		}
		c.Inf("%d rows, offset %d, limit %d, build %d, full scan", n, off, lim, x[3])
		rs, err := rsMake(n, off, lim, x[3], uint(n))
		if err != nil {
			c.Failf("%v", err)
			return
		}
		seq := []int{1}
		for k := 0; k < n+3; k++ {
			seq = append(seq, 0, 1)
			if k%64 == 0 {
				seq = append(seq, 1, 2)
			}
		}
		rsDrive(c, rs, seq, n, off, lim, uint(n), x[3] != 0)
	})
	r.Block("aggregate sizes", len(ns), func(i int, c *Case) {
		n := ns[i]
		c.Inf("aggregate result set of %d rows", n)
		rows := []fn.Row{}
		for k := 0; k < n; k++ {
			rows = append(rows, fn.Row{k, -k})
		}
		rs := fn.NewResultSet(fn.WithColumns([]string{"a", "b"}), fn.WithRows(rows))
		for k := 0; k < n; k++ {
			c.Step(3)
			if !rs.Next() {
				c.Failf("only %d rows", k)
				return
			}
			row, e1 := rs.Row()
			m, e2 := rs.Map()
			if e1 != nil || e2 != nil || len(row) != 2 || row[0] != any(k) || row[1] != any(-k) || m["a"] != any(k) || m["b"] != any(-k) {
				c.Failf("row %v, map %v (%v %v), want %d", row, m, e1, e2, k)
				return
			}
		}
		if rs.Next() || rs.Next() {
			c.Failf("more than %d rows", n)
		}
		c.Trace()
	})
	// Rows of many columns.
	ws := lengths(r)
	r.Block("widths", len(ws)*rsBuilds, func(i int, c *Case) {
		w := ws[i/rsBuilds]
		c.Inf("3 rows of %d columns, build %d", w, i%rsBuilds)
		names := wideNames(w)
		schema := rsSchemaOf(names...)
		rows := []resultset.Row{}
		maps := []map[string]any{}
		for k := 0; k < 3; k++ {
			m := map[string]any{}
			vals := []any{}
			for j, nm := range names {
				m[nm] = k*w + j
				vals = append(vals, k*w+j)
			}
			maps = append(maps, m)
			if i%rsBuilds == 1 {
				rows = append(rows, resultset.NewRow(resultset.WithRowSchema(schema), resultset.WithRowValues(vals)))
			} else {
				rows = append(rows, resultset.NewRow(resultset.WithRowObject(m)))
			}
		}
		opts := []resultset.ResultSetOption{resultset.WithResultSetSchema(schema)}
		if i%rsBuilds == 3 {
			opts = append(opts, resultset.WithResultSetRowsOf(maps))
		} else {
			opts = append(opts, resultset.WithResultSetRows(rows))
		}
		rs, err := resultset.NewResultSetFrom(opts...)
		if err != nil {
			c.Failf("%v", err)
			return
		}
		for k := 0; k < 3; k++ {
			if !rs.Next() {
				c.Failf("only %d rows", k)
				return
			}
			row, err := rs.Row()
			if err != nil || len(row.Values()) != w {
				c.Failf("row %d: %v", k, err)
				return
			}
			for j, v := range row.Values() {
				c.Step(1)
				if v != any(k*w+j) {
					c.Failf("row %d, column %d: %v", k, j, v)
					return
				}
			}
		}
		if rs.Next() {
			c.Failf("a fourth row")
		}
		c.Trace()
	})
}

// wideNames are w column names, not in alphabetic order.
func wideNames(w int) []string {
	out := []string{}
	for k := 0; k < w; k++ {
		if l := string('z' - rune(k%26)); w%2 == 0 && k < 26 && !strings.Contains("agkvt", l) { // these name other columns of the cases
			out = append(out, string('z'-rune(k)))
			continue
		}
		out = append(out, fmt.Sprintf("%c%d", 'z'-rune(k%26), k))
	}
	return out
}

func (r *Run) rowSizes() {
	ws := lengths(r)
	const ways = 7
	const makes = 6
	d := dims{len(ws), makes, ways}
	r.Block("widths", d.size(), func(i int, c *Case) {
		x := d.at(i)
		w := ws[x[0]]
		names := wideNames(w)
		vals := []any{}
		obj := map[string]any{}
		for k := 0; k < w; k++ {
			var v any = k + 1000
			switch k % 5 {
			case 1:
				v = fmt.Sprint("v", k)
			case 2:
				v = nil
			case 3:
				v = float64(k) + 0.5
			}
			vals = append(vals, v)
			obj[names[k]] = v
		}
		schema := rsSchemaOf(names...)
		s := rowSpec{names: names, want: vals}
		c.Inf("row of %d columns, build %d, read %d", w, x[1], x[2])
		var row resultset.Row
		var err error
		switch x[1] {
		case 0:
			row = resultset.NewRow(resultset.WithRowValues(append([]any{}, vals...)), resultset.WithRowSchema(schema))
		case 1:
			row = resultset.NewRow(resultset.WithRowSchema(schema), resultset.WithRowObject(obj))
		case 2:
			row, err = resultset.NewRowFromObject(schema, obj)
		case 3:
			var rs resultset.ResultSet
			if rs, err = resultset.NewResultSetFrom(resultset.WithResultSetSchema(schema), resultset.WithResultSetRowsOf([]map[string]any{obj})); err == nil {
				rs.Next()
				row, err = rs.Row()
			}
		case 4:
			// Without a schema by number.
			row = resultset.NewRow(resultset.WithRowValues(append([]any{}, vals...)))
			s.names = nil
			for k := 0; k < w; k++ {
				s.names = append(s.names, fmt.Sprint(k+1))
			}
		case 5:
			// Values missing from the half on.
			row = resultset.NewRow(resultset.WithRowSchema(schema), resultset.WithRowValues(append([]any{}, vals[:w/2]...)))
			s.want = append(append([]any{}, vals[:w/2]...), make([]any, w-w/2)...)
		}
		if err != nil {
			c.Failf("%v", err)
			return
		}
		if x[1] == 4 && x[2] == 3 && w >= 5 {
			// "5" is a column here.
			for k, nm := range s.names {
				c.Step(1)
				if v, err := row.ValueBy(nm); err != nil || v != vals[k] {
					c.Failf("ValueBy(%q) is %v %v", nm, v, err)
				}
			}
			return
		}
		rowRead(c, row, s, x[2])
		for y := 0; y < ways && w < 20 && !(x[1] == 4 && y == 3); y++ {
			rowRead(c, row, s, y)
		}
		c.Trace()
	})
}

func (r *Run) groupSizes() {
	ls := lengths(r)
	sets := [][]string{{"COUNT"}, {"SUM"}, {"AVG"}, {"MIN"}, {"MAX"}, {"MAX", "COUNT", "SUM"}}
	orders := []fn.OrderBy{fn.OrderByNone, fn.OrderByAsc, fn.OrderByDesc}
	d := dims{len(ls), len(sets), 3, 3}
	// n groups of 1, 2 and 3 rows, by number and by text.
	r.Block("numbers of groups", d.size(), func(i int, c *Case) {
		x := d.at(i)
		n, names, o := ls[x[0]], sets[x[1]], orders[x[2]]
		if len(names) > 1 {
			o = fn.OrderByNone
		}
		rows := [][]any{}
		for k := 0; k < 2*n; k++ {
			g := (k*k*3 + k) % n
			var key any
			switch x[3] {
			case 0:
				key = g - n/2
			case 1:
				key = fmt.Sprintf("k%d", g)
			case 2:
				key = float64(g) / 4
			}
			rows = append(rows, []any{key, float64(k%7 - 3)})
		}
		c.Inf("%v(v) GROUP BY g order %v: %d rows, key kind %d", names, o, 2*n, x[3])
		groupRun(c, names, []string{"v"}, []string{"g"}, len(names) > 1, o, rows, i, i%4)
	})
	// n rows of one group and one of another, at every side.
	d2 := dims{len(ls), len(sets), 3}
	r.Block("sizes of groups", d2.size(), func(i int, c *Case) {
		x := d2.at(i)
		rows := [][]any{}
		n := ls[x[0]]
		for k := 0; k < n; k++ {
			rows = append(rows, []any{"x", float64(k%11 - 5)})
		}
		odd := []any{"y", 100.0}
		switch x[2] {
		case 0:
			rows = append([][]any{odd}, rows...)
		case 1:
			rows = append(rows, odd)
		case 2:
			rows = append(append(append([][]any{}, rows[:n/2]...), odd), rows[n/2:]...)
		}
		c.Inf("%v(v) GROUP BY g: %d rows of x and one of y at %d", sets[x[1]], n, x[2])
		groupRun(c, sets[x[1]], []string{"v"}, []string{"g"}, len(sets[x[1]]) > 1, fn.OrderByNone, rows, i, i%4)
	})
	// n key columns: rows that differ in one of them.
	ks := r.Pick(24, 40)
	d3 := dims{ks, ks, len(sets), 2}
	r.Block("numbers of keys", d3.size(), func(i int, c *Case) {
		x := d3.at(i)
		n, diff := x[0]+1, x[1]
		if diff >= n {
			return
		}
		by := wideNames(n)
		mk := func(odd any, v float64) []any {
			row := []any{}
			for k := range by {
				if k == diff {
					row = append(row, odd)
				} else if x[3] == 0 {
					row = append(row, "s")
				} else {
					row = append(row, "")
				}
			}
			return append(row, v)
		}
		rows := [][]any{mk("s", 1), mk("", 2), mk(nil, 4), mk("s", 8), mk(",", 16)}
		c.Inf("%v(v) GROUP BY %d keys, key %d differs", sets[x[2]], n, diff)
		groupRun(c, sets[x[2]], []string{"v"}, by, len(sets[x[2]]) > 1, fn.OrderByNone, rows, i, i%4)
	})
	// Keys of n characters that differ in one.
	nl := nameLengths(r)
	r.Block("lengths of keys", len(nl)*5*2, func(i int, c *Case) {
		n := nl[i/10]
		at := []int{0, n / 2, n - 1, n / 4, n * 3 / 4}[i/2%5]
		base := strings.Repeat("k", n)
		one := base[:at] + "j" + base[at+1:]
		rows := [][]any{{base, 1.0}, {one, 2.0}, {base + "k", 4.0}, {base, 8.0}, {base[:n-1], 16.0}, {one, 32.0}}
		c.Inf("SUM(v) GROUP BY g: keys of %d characters, other at %d", n, at)
		groupRun(c, []string{"SUM"}, []string{"v"}, []string{"g"}, i%2 == 1, orders[(i/10)%3*(1-i%2)], rows, i, i%4)
	})
	// n arguments, and sets of n aggregates.
	aw := r.Pick(40, 130)
	r.Block("numbers of arguments", aw*5, func(i int, c *Case) {
		n := i/5 + 1
		args := wideNames(n)
		rows := [][]any{}
		for k := 0; k < 4; k++ {
			row := []any{[]any{"x", "y"}[k%2]}
			for j := range args {
				row = append(row, float64(k*n+j))
			}
			rows = append(rows, row)
		}
		c.Inf("%s of %d columns GROUP BY g", aggrNames[i%5], n)
		groupRun(c, []string{aggrNames[i%5]}, args, []string{"g"}, false, fn.OrderByNone, rows, i/5, i/5%4)
	})
	r.Block("numbers of aggregates", aw*3, func(i int, c *Case) {
		names := []string{}
		for k := 0; k <= i/3; k++ {
			names = append(names, aggrNames[(k*k+i)%5])
		}
		rows := [][]any{{"x", 1.0}, {"y", nil}, {"x", -2.0}, {"z", 4.0}, {"y", 8.0}}
		c.Inf("set of %d aggregates GROUP BY g, way %d", len(names), i%3)
		groupRun(c, names, []string{"v"}, []string{"g"}, true, fn.OrderByNone, rows, i, i/3%4)
	})
}

func (r *Run) aggregatedSizes(table query.Schema) {
	ls := lengths(r)
	lists := []aggrSel{{[]string{"COUNT(*)"}, false}, {[]string{"SUM(v)", "MAX(w)"}, false}, {[]string{"g", "COUNT(v)"}, true}, {[]string{"MIN(v)", "g", "AVG(w)"}, true}}
	const spreads = 3
	d := dims{len(ls), len(lists), spreads}
	r.Block("numbers of rows", d.size(), func(i int, c *Case) {
		x := d.at(i)
		n, l := ls[x[0]], lists[x[1]]
		m := []int{n, (n + 1) / 2, 3}[x[2]]
		src := []map[string]any{}
		for k := 0; k < n; k++ {
			q := (k * 7) % m
			src = append(src, map[string]any{"g": fmt.Sprintf("k%d", q), "v": k%13 - 6, "w": float64(k%9) / 4, "s": "q"})
		}
		text := "SELECT " + strings.Join(l.sels, ", ") + " FROM t"
		if l.group {
			text += " GROUP BY g"
		}
		c.Inf("%s on %d rows in up to %d groups", text, n, m)
		stmts, err := parse(text)
		if err != nil || len(stmts) != 1 {
			c.Failf("%v", err)
			return
		}
		aggrOnce(c, table, stmts[0].(query.Select), l.sels, l.gcol(), src)
		c.Trace()
	})
	// Many selectors.
	aw := r.Pick(40, 130)
	r.Block("numbers of selectors", aw*3, func(i int, c *Case) {
		sels := []string{}
		for k := 0; k <= i/3; k++ {
			sels = append(sels, aggrNames[(k*k+i)%5]+"("+[]string{"v", "w"}[(k/2+i)%2]+")")
		}
		gcol := ""
		switch i % 3 {
		case 1:
			sels = append([]string{"g"}, sels...)
			gcol = "g"
		case 2:
			sels = append(sels, "g")
			gcol = "g"
		}
		text := "SELECT " + strings.Join(sels, ", ") + " FROM t"
		if gcol != "" {
			text += " GROUP BY g"
		}
		c.In(text)
		src := []map[string]any{{"g": "x", "v": 1, "w": 0.5, "s": "q"}, {"g": "y", "v": -2, "w": nil, "s": "q"}, {"g": "x", "v": nil, "w": 4.0, "s": "q"}}
		stmts, err := parse(text)
		if err != nil || len(stmts) != 1 {
			c.Failf("%v", err)
			return
		}
		aggrOnce(c, table, stmts[0].(query.Select), sels, gcol, src)
		c.Trace()
	})
	// Wide tables: the aggregated column at every position.
	ww := r.Pick(40, 130)
	dw := dims{ww, ww, len(lists)}
	r.Block("wide tables", dw.size(), func(i int, c *Case) {
		x := dw.at(i)
		n, at := x[0]+2, x[1]
		if at >= n {
			return
		}
		defs := []string{}
		for k := 0; k < n; k++ {
			switch k {
			case at:
				defs = append(defs, "v INT")
			case (at + 1) % n:
				defs = append(defs, "g TEXT")
			case (at + 2) % n:
				defs = append(defs, "w DOUBLE")
			default:
				defs = append(defs, fmt.Sprintf("c%d INT", k))
			}
		}
		if n == 2 {
			defs = append(defs, "w DOUBLE")
		}
		def := "CREATE TABLE t (" + strings.Join(defs, ", ") + ")"
		l := lists[x[2]]
		text := "SELECT " + strings.Join(l.sels, ", ") + " FROM t"
		if l.group {
			text += " GROUP BY g"
		}
		c.In(def + "; " + text)
		stmts, err := parse(def + "; " + text)
		if err != nil || len(stmts) != 2 {
			c.Failf("%v", err)
			return
		}
		src := []map[string]any{}
		for k := 0; k < 3; k++ {
			m := map[string]any{"v": k*3 - 1, "g": []string{"x", "y"}[k%2], "w": float64(k) / 2}
			for j := 0; j < n; j++ {
				m[fmt.Sprintf("c%d", j)] = 1000 + j
			}
			src = append(src, m)
		}
		aggrOnce(c, stmts[0].(query.CreateTable).Schema(), stmts[1].(query.Select), l.sels, l.gcol(), src)
		c.Trace()
	})
}

func (r *Run) schemaSizes(schemaOf func(table string, cols []string, shift int) (query.Schema, []sysCol)) {
	ls := lengths(r)
	r.Block("numbers of columns", len(ls)*2, func(i int, c *Case) {
		n := ls[i/2]
		c.Inf("%d columns in %d schemas", n, i%2+1)
		var schemas []query.Schema
		var want []sysCol
		names := wideNames(n)
		for k := 0; k <= i%2; k++ {
			part := names
			if i%2 == 1 {
				part = [][]string{names[:n/3], names[n/3:]}[k]
			}
			s, w := schemaOf(fmt.Sprint("t", k), part, i)
			schemas, want = append(schemas, s), append(want, w...)
		}
		checkColumnsRS(c, func() (resultset.ResultSet, error) { return system.NewSchemaColumnsResultSetFromSchemas(schemas) }, want)
		c.Trace()
	})
	ts := r.Pick(60, 130)
	r.Block("numbers of tables", ts*3, func(i int, c *Case) {
		n := i/3 + 1
		var schemas []query.Schema
		var want []sysCol
		for k := 0; k < n; k++ {
			cols := []string{fmt.Sprint("a", k), fmt.Sprint("b", k), fmt.Sprint("c", k)}[:(k+i)%3+1]
			s, w := schemaOf(fmt.Sprint("t", k), cols, i)
			schemas, want = append(schemas, s), append(want, w...)
		}
		c.Inf("%d tables with %d columns", n, len(want))
		checkColumnsRS(c, func() (resultset.ResultSet, error) { return system.NewSchemaColumnsResultSetFromSchemas(schemas) }, want)
		c.Trace()
	})
}
