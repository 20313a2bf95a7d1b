package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"

	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
)

// schemaOp is one operation on a schema; run executes it in one of its forms.
type schemaOp struct {
	name  string
	addC  string // column to add
	dropC string
	addI  *mindex
	dropI string
	fails bool
	run   func(s query.Schema) error
}

// parsedAlter returns an operation through a parsed statement.
func parsedAlter(text string) func(s query.Schema) error {
	stmts, err := parse(text)
	if err != nil || len(stmts) != 1 {
		return func(query.Schema) error { return fmt.Errorf("not parsed: %s: %v", text, err) }
	}
	switch st := stmts[0].(type) {
	case query.AlterTable:
		return func(s query.Schema) error { return s.Alter(st) }
	default:
		return func(s query.Schema) error {
			a, err := query.NewAlterTableFrom(st)
			if err != nil {
				return err
			}
			return s.Alter(a)
		}
	}
}

func newCol(name string, t query.DataType, size int) query.Column {
	return query.NewColumnWithOptions(query.WithColumnName(name), query.WithColumnData(query.NewDataDef(t, size)))
}

// schemaOps is the alphabet of operations; column names are a to d, index names i and j.
func schemaOps() []schemaOp {
	ops := []schemaOp{}
	types := []query.DataType{query.IntType, query.TextType, query.DoubleType, query.BigIntType}
	for n, c := range []string{"a", "b", "c", "Dd"} {
		ops = append(ops, schemaOp{name: "AddColumn(" + c + ")", addC: c, run: func(s query.Schema) error { return s.AddColumn(newCol(c, types[n], 0)) }})
		ops = append(ops, schemaOp{name: "DropColumn(" + c + ")", dropC: c, run: func(s query.Schema) error { return s.DropColumn(c) }})
	}
	ops = append(ops,
		schemaOp{name: "ALTER ADD c", addC: "c", run: parsedAlter("ALTER TABLE t ADD COLUMN c DOUBLE")},
		schemaOp{name: "ALTER ADD e", addC: "e", run: parsedAlter("ALTER TABLE t ADD e TEXT")},
		schemaOp{name: "ALTER DROP A", dropC: "A", run: parsedAlter("ALTER TABLE t DROP COLUMN A")},
		schemaOp{name: "ALTER DROP e", dropC: "e", run: parsedAlter("ALTER TABLE t DROP e")},
		schemaOp{name: "DropColumn(DD)", dropC: "DD", run: func(s query.Schema) error { return s.DropColumn("DD") }},
		schemaOp{name: "DropColumn(x)", dropC: "x", run: func(s query.Schema) error { return s.DropColumn("x") }},
		schemaOp{name: "AddIndex(i)", addI: &mindex{name: "i", cols: []string{"a"}}, run: func(s query.Schema) error {
			return s.AddIndex(query.NewSecondaryIndexWith("i", query.NewColumnsWith(query.NewColumnWithName("a"))))
		}},
		schemaOp{name: "ALTER ADD INDEX j", addI: &mindex{name: "j", cols: []string{"b"}}, run: parsedAlter("ALTER TABLE t ADD INDEX j (b)")},
		schemaOp{name: "CREATE INDEX Kk", addI: &mindex{name: "Kk", cols: []string{"b", "a"}}, run: parsedAlter("CREATE INDEX Kk ON t (b, a)")},
		schemaOp{name: "DropIndex(I)", dropI: "I", run: func(s query.Schema) error { return s.DropIndex("I") }},
		schemaOp{name: "DropIndex(j)", dropI: "j", run: func(s query.Schema) error { return s.DropIndex("j") }},
		schemaOp{name: "DROP INDEX kk", dropI: "kk", run: parsedAlter("DROP INDEX kk")},
		schemaOp{name: "DropIndex(x)", dropI: "x", run: func(s query.Schema) error { return s.DropIndex("x") }},
		schemaOp{name: "RENAME TO", fails: true, run: parsedAlter("ALTER TABLE t RENAME TO u")},
		schemaOp{name: "RENAME COLUMN", fails: true, run: parsedAlter("ALTER TABLE t RENAME COLUMN a TO z")},
		schemaOp{name: "add q and drop x", fails: true, run: func(s query.Schema) error {
			return s.Alter(query.NewAlterTableWith("t", query.WithAlterTableAddColumn(newCol("q", query.IntType, 0)), query.WithAlterTableDropColumn(query.NewColumnWithName("x"))))
		}},
	)
	return ops
}

// mschema is the reference schema.
type mschema struct {
	cols []string
	idx  []mindex
}

func findFold(names []string, n string) int {
	for i, s := range names {
		if strings.EqualFold(s, n) {
			return i
		}
	}
	return -1
}

func (m mschema) idxNames() []string {
	out := []string{}
	for _, i := range m.idx {
		out = append(out, i.name)
	}
	return out
}

// apply returns the next state, whether the operation succeeds and whether it is in the explored space (names stay
// distinct).
func (m mschema) apply(op schemaOp) (next mschema, ok, inSpace bool) {
	next = m
	switch {
	case op.fails:
		return m, false, true
	case op.addC != "":
		if findFold(m.cols, op.addC) >= 0 {
			return m, false, false
		}
		next.cols = append(append([]string{}, m.cols...), op.addC)
	case op.dropC != "":
		k := findFold(m.cols, op.dropC)
		if k < 0 {
			return m, false, true
		}
		next.cols = append(append([]string{}, m.cols[:k]...), m.cols[k+1:]...)
	case op.addI != nil:
		if findFold(m.idxNames(), op.addI.name) >= 0 {
			return m, false, false
		}
		next.idx = append(append([]mindex{}, m.idx...), *op.addI)
	case op.dropI != "":
		k := findFold(m.idxNames(), op.dropI)
		if k < 0 {
			return m, false, true
		}
		next.idx = append(append([]mindex{}, m.idx[:k]...), m.idx[k+1:]...)
	}
	return next, true, true
}

func (m mschema) key() string {
	return strings.Join(m.cols, ",") + "|" + strings.Join(m.idxNames(), ",")
}

// checkSchema compares everything a schema reports with the model.
func checkSchema(c *Case, s query.Schema, m mschema, probes []string, when string) {
	if got := strings.Join(s.Columns().Names(), ","); got != strings.Join(m.cols, ",") {
		c.Failf("%s: columns %s, want %v", when, got, m.cols)
		return
	}
	if len(s.Columns()) != len(m.cols) || s.Columns().Len() != len(m.cols) || strings.Join(s.Columns().ColumnNames(), ",") != strings.Join(m.cols, ",") {
		c.Failf("%s: the lists of the column names differ", when)
	}
	if got := strings.Join(s.Indexes().IndexNames(), ","); got != strings.Join(m.idxNames(), ",") {
		c.Failf("%s: indexes %s, want %v", when, got, m.idxNames())
		return
	}
	for n, i := range s.Indexes() {
		if strings.Join(i.Columns().Names(), ",") != strings.Join(m.idx[n].cols, ",") {
			c.Failf("%s: columns of index %s: %v", when, i.Name(), i.Columns().Names())
		}
	}
	var sels query.Selectors
	if probes != nil {
		if sels = s.Selectors(); len(sels) != len(m.cols) {
			c.Failf("%s: %d selectors", when, len(sels))
			return
		}
	}
	for n, name := range m.cols {
		if sels != nil && sels[n].Name() != name {
			c.Failf("%s: selector %d is %s", when, n, sels[n].Name())
		}
		col, err := s.Columns().ColumnAt(n)
		if err != nil || col.Name() != name {
			c.Failf("%s: column at %d: %v", when, n, err)
		}
	}
	for _, n := range []int{-1, math.MinInt, len(m.cols), len(m.cols) + 1, math.MaxInt} {
		if col, err := s.Columns().ColumnAt(n); err == nil {
			c.Failf("%s: column at %d: %v", when, n, col)
		}
	}
	for _, p := range probes {
		k := findFold(m.cols, p)
		col, err := s.LookupColumn(p)
		col2, err2 := s.Columns().LookupColumn(p)
		at, err3 := s.Columns().LookupIndexOfColumn(p)
		if k < 0 {
			if err == nil || err2 == nil || err3 == nil {
				c.Failf("%s: absent column %s is found", when, p)
			}
		} else if err != nil || err2 != nil || err3 != nil || col.Name() != m.cols[k] || col2.Name() != m.cols[k] || at != k {
			c.Failf("%s: column %s is not found: %v %v %v", when, p, err, err2, err3)
		}
		k = findFold(m.idxNames(), p)
		idx, err := s.LookupIndex(p)
		idx2, err2 := s.Indexes().LookupIndex(p)
		at, err3 = s.Indexes().LookupIndexOfIndex(p)
		if k < 0 {
			if err == nil || err2 == nil || err3 == nil {
				c.Failf("%s: absent index %s is found", when, p)
			}
		} else if err != nil || err2 != nil || err3 != nil || idx.Name() != m.idx[k].name || idx2.Name() != m.idx[k].name || at != k {
			c.Failf("%s: index %s is not found: %v %v %v", when, p, err, err2, err3)
		}
	}
}

var schemaProbes = []string{"a", "A", "b", "B", "c", "C", "Dd", "dd", "DD", "d", "e", "E", "x", "", "q", "i", "I", "j", "J", "kk", "KK", "Kk", "k", "z", "aa"}

func init() {
	register(&Prop{ID: "C24", Rule: "from every initial schema, every sequence of adding and dropping columns and indexes (direct calls, parsed ALTER TABLE, CREATE INDEX and DROP INDEX) up to the depth that keeps the names distinct is run, and after every operation the whole schema, every lookup and every list taken before are compared with the model", Run: func(r *Run) {
		ops := schemaOps()
		type initial struct {
			name string
			m    mschema
			mk   func() query.Schema
		}
		all := []query.Column{newCol("a", query.IntType, 0), newCol("b", query.TextType, 0), newCol("c", query.DoubleType, 0)}
		inits := []initial{
			{"empty", mschema{}, func() query.Schema { return query.NewSchemaWith("t") }},
			{"a,b,c", mschema{cols: []string{"a", "b", "c"}}, func() query.Schema {
				return query.NewSchemaWith("t", query.WithSchemaColumns(query.NewColumnsWith(all...)))
			}},
			{"CREATE TABLE", mschema{cols: []string{"a", "b"}, idx: []mindex{{name: "a", cols: []string{"a"}}, {name: "j", cols: []string{"b"}}}}, func() query.Schema {
				stmts, err := parse("CREATE TABLE t (a INT PRIMARY KEY, b TEXT, INDEX j (b))")
				if err != nil {
					return query.NewSchemaWith("t")
				}
				return stmts[0].(query.CreateTable).Schema()
			}},
			{"a,b with an index", mschema{cols: []string{"a", "b"}, idx: []mindex{{name: "i", cols: []string{"a"}}}}, func() query.Schema {
				return query.NewSchemaWith("t", query.WithSchemaColumns(query.NewColumnsWith(all[:2]...)),
					query.WithSchemaIndexes(query.Indexes{query.NewSecondaryIndexWith("i", query.NewColumnsWith(query.NewColumnWithName("a")))}))
			}},
		}
		for _, in := range inits {
			depth := r.Pick(4, 5)
			if in.name == "CREATE TABLE" {
				depth--
			}
			// All sequences of exactly the depth; their prefixes are compared on the way.
			total := 1
			for k := 0; k < depth; k++ {
				total *= len(ops)
			}
			r.Block("operations from "+in.name, total*2, func(i int, c *Case) {
				m := in.m
				v, often := i/2, i%2 == 1
				seq := make([]int, depth)
				// Check that the sequence is in the space before the schema is built.
				mm := m
				for k := range seq {
					seq[k] = v % len(ops)
					v /= len(ops)
					next, _, inSpace := mm.apply(ops[seq[k]])
					if !inSpace {
						return
					}
					mm = next
				}
				names := []string{}
				for _, k := range seq {
					names = append(names, ops[k].name)
				}
				c.In(in.name + ": " + strings.Join(names, "; "))
				s := in.mk()
				checkSchema(c, s, m, schemaProbes, "initially")
				type held struct {
					cols  query.Columns
					idx   query.Indexes
					names string
				}
				hold := []held{{s.Columns(), s.Indexes(), m.key()}}
				for n, k := range seq {
					next, ok, _ := m.apply(ops[k])
					err := ops[k].run(s)
					c.Step(1)
					if (err == nil) != ok {
						c.Failf("operation %d (%s): %v", n, ops[k].name, err)
						return
					}
					m = next
					// Lookups before and between the operations must not be remembered.
					var probes []string
					if often || n == len(seq)-1 {
						probes = schemaProbes
					}
					checkSchema(c, s, m, probes, fmt.Sprintf("after operation %d", n))
					c.State(in.name + m.key())
					hold = append(hold, held{s.Columns(), s.Indexes(), m.key()})
				}
				for n, h := range hold {
					if got := strings.Join(h.cols.Names(), ",") + "|" + strings.Join(h.idx.IndexNames(), ","); got != h.names {
						c.Failf("the lists taken after operation %d were %s and are now %s", n-1, h.names, got)
					}
				}
				c.Trace()
			})
		}

		// Two schemas made from one column list and one index list.
		list := query.NewColumnsWith(all...)
		d := dims{len(ops), len(ops), len(ops), 2, 2}
		r.Block("two schemas of one list", d.size(), func(i int, c *Case) {
			x := d.at(i)
			cols := make(query.Columns, 3, 3+4*x[4])
			copy(cols, list)
			idx := query.Indexes{query.NewSecondaryIndexWith("i", query.NewColumnsWith(query.NewColumnWithName("a"))), query.NewSecondaryIndexWith("j", query.NewColumnsWith(query.NewColumnWithName("b")))}
			ms := mschema{cols: []string{"a", "b", "c"}, idx: []mindex{{name: "i", cols: []string{"a"}}, {name: "j", cols: []string{"b"}}}}
			ss := [2]query.Schema{}
			model := [2]mschema{ms, ms}
			for k := range ss {
				ss[k] = query.NewSchemaWith("t", query.WithSchemaColumns(cols), query.WithSchemaIndexes(idx))
			}
			in := ""
			for n := 0; n < 3; n++ {
				who := (n + x[3]) % 2
				next, ok, inSpace := model[who].apply(ops[x[n]])
				if !inSpace {
					return
				}
				in += fmt.Sprintf("%d: %s; ", who, ops[x[n]].name)
				c.In(in)
				if err := ops[x[n]].run(ss[who]); (err == nil) != ok {
					c.Failf("%v", err)
					return
				}
				c.Step(1)
				model[who] = next
				checkSchema(c, ss[0], model[0], nil, "first schema")
				checkSchema(c, ss[1], model[1], nil, "second schema")
			}
			if strings.Join(cols.Names(), ",") != "a,b,c" || strings.Join(idx.IndexNames(), ",") != "i,j" {
				c.Failf("the given lists are now %v and %v", cols.Names(), idx.IndexNames())
			}
			c.Trace()
		})

		// Index statements made alter statements.
		tn := []string{"t", "Tt", "i", longName(70)}
		in := []string{"i", "Jj", "t", longName(65)}
		cl := [][]string{{"a"}, {"b", "a"}, {"c", "C", "a"}, nil}
		for k := 0; k < 40; k++ {
			cl[3] = append(cl[3], colName(k))
		}
		df := dims{len(tn), len(in), len(cl), 3}
		r.Block("alter statements of index statements", df.size(), func(i int, c *Case) {
			x := df.at(i)
			t, n, cols := tn[x[0]], in[x[1]], cl[x[2]]
			text := "CREATE INDEX " + n + " ON " + t + " (" + strings.Join(cols, ", ") + ")"
			switch x[3] {
			case 1:
				text = "DROP INDEX " + n
				t, cols = "", nil
			case 2:
				text = "DROP INDEX " + t + "." + n
				cols = nil
			}
			c.In(text)
			stmts, err := parse(text)
			if err != nil || len(stmts) != 1 {
				c.Failf("%v", err)
				return
			}
			a, err := query.NewAlterTableFrom(stmts[0])
			if err != nil {
				c.Failf("%v", err)
				return
			}
			c.Step(1)
			add, isAdd := a.AddIndex()
			drop, isDrop := a.DropIndex()
			_, ren := a.RenameTo()
			_, _, renc := a.RenameColumns()
			_, addc := a.AddColumn()
			_, dropc := a.DropColumn()
			if a.TableName() != t || ren || renc || addc || dropc || isAdd != (x[3] == 0) || isDrop != (x[3] != 0) || a.StatementType() != query.AlterTableStatement {
				c.Failf("alter statement %s of the table %q", a.String(), a.TableName())
				return
			}
			idx := add
			if isDrop {
				idx = drop
			}
			if idx.Name() != n || strings.Join(idx.Columns().Names(), ",") != strings.Join(cols, ",") {
				c.Failf("index %s of %v", idx.Name(), idx.Columns().Names())
			}
			c.Trace()
		})
		others := []string{"SELECT * FROM t", "INSERT INTO t (a) VALUES (1)", "UPDATE t SET a = 1", "DELETE FROM t", "CREATE TABLE t (a INT)", "DROP TABLE t", "TRUNCATE TABLE t", "CREATE DATABASE d", "DROP DATABASE d", "ALTER DATABASE d RENAME TO e", "BEGIN", "COMMIT", "ROLLBACK", "USE d", "VACUUM", "COPY t FROM STDIN"}
		r.Block("no alter statements", len(others), func(i int, c *Case) {
			c.In(others[i])
			stmts, err := parse(others[i])
			if err != nil || len(stmts) != 1 {
				c.Failf("%v", err)
				return
			}
			if a, err := query.NewAlterTableFrom(stmts[0]); err == nil {
				c.Failf("alter statement %s", a.String())
			}
			c.Step(1)
		})

		// Wide schemas: every column dropped from every position, in every case.
		wide := r.Pick(20, 60)
		r.Block("wide schemas", wide*wide, func(i int, c *Case) {
			n, at := i/wide+1, i%wide
			if at >= n {
				return
			}
			cols := query.Columns{}
			m := mschema{}
			for k := 0; k < n; k++ {
				cols = append(cols, newCol("Col_"+itoa(k), query.IntType, 0))
				m.cols = append(m.cols, "Col_"+itoa(k))
			}
			c.Inf("drop column %d of %d", at, n)
			s := query.NewSchemaWith("t", query.WithSchemaColumns(cols))
			probes := []string{}
			for k := 0; k <= n; k++ {
				probes = append(probes, "col_"+itoa(k), "COL_"+itoa(k))
			}
			checkSchema(c, s, m, probes, "initially")
			if err := s.DropColumn("cOL_" + itoa(at)); err != nil {
				c.Failf("%v", err)
			}
			m.cols = append(append([]string{}, m.cols[:at]...), m.cols[at+1:]...)
			checkSchema(c, s, m, probes, "after the drop")
			if err := s.AddColumn(newCol("COL_"+itoa(at), query.IntType, 0)); err != nil {
				c.Failf("%v", err)
			}
			m.cols = append(m.cols, "COL_"+itoa(at))
			checkSchema(c, s, m, probes, "after adding it again")
			c.Trace()
		})
	}})
}

// The Go type a column type converts to; others are left as they are.
type convType struct {
	t    query.DataType
	kind byte // 'i' integer, 'f' float, 'b' bool, 0 as it is
	bits int
}

func convTypes() []convType {
	out := []convType{}
	conv := map[query.DataType]convType{
		query.TinyIntType: {query.TinyIntType, 'i', 8}, query.SmallIntType: {query.SmallIntType, 'i', 16}, query.IntType: {query.IntType, 'i', 32},
		query.IntegerType: {query.IntegerType, 'i', 32}, query.BigIntType: {query.BigIntType, 'i', 64},
		query.FloatType: {query.FloatType, 'f', 32}, query.DoubleType: {query.DoubleType, 'f', 64}, query.BooleanType: {query.BooleanType, 'b', 1},
	}
	for _, t := range allTypes() {
		if c, ok := conv[t]; ok {
			out = append(out, c)
		} else {
			switch t {
			case query.BlobType, query.CharType, query.TextType, query.VarCharType, query.LongTextType, query.DateType, query.DateTimeType, query.TimeStampType, query.VarBinaryType, query.CharacterType:
				out = append(out, convType{t, 0, 0})
			}
		}
	}
	return out
}

// checkConverted compares a converted value with the exact value x, or with the text if it is none.
func checkConverted(c *Case, what string, ct convType, got any, err error, x *big.Rat, orig any) {
	if ct.kind == 0 {
		if err != nil || fmt.Sprintf("%T %v", got, got) != fmt.Sprintf("%T %v", orig, orig) {
			c.Failf("%s: %T(%v) (%v), want it unchanged", what, got, got, err)
		}
		return
	}
	if x == nil {
		if err == nil {
			c.Failf("%s: not a number, but %T(%v)", what, got, got)
		}
		return
	}
	switch ct.kind {
	case 'i':
		lo := new(big.Rat).SetInt(new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), uint(ct.bits-1))))
		hi := new(big.Rat).SetInt(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(ct.bits-1)), big.NewInt(1)))
		inRange := x.Cmp(lo) >= 0 && x.Cmp(hi) <= 0
		if err != nil {
			if inRange && x.IsInt() {
				c.Failf("%s: %v", what, err)
			}
			return
		}
		ok := false
		var v int64
		switch ct.bits {
		case 8:
			var w int8
			w, ok = got.(int8)
			v = int64(w)
		case 16:
			var w int16
			w, ok = got.(int16)
			v = int64(w)
		case 32:
			var w int32
			w, ok = got.(int32)
			v = int64(w)
		case 64:
			v, ok = got.(int64)
		}
		diff := new(big.Rat).Sub(x, new(big.Rat).SetInt64(v))
		if !ok || diff.Abs(diff).Cmp(big.NewRat(1, 1)) >= 0 {
			c.Failf("%s: %T(%v), want %s", what, got, got, x.RatString())
		}
		if x.IsInt() && !inRange {
			c.Failf("%s: out of range, but %T(%v)", what, got, got)
		}
	case 'f':
		if ct.bits == 32 {
			want, exact := x.Float32()
			if math.IsInf(float64(want), 0) {
				if err == nil {
					c.Failf("%s: out of range, but %T(%v)", what, got, got)
				}
				return
			}
			v, ok := got.(float32)
			if err != nil || !ok || exact && v != want || !exact && (v < math.Nextafter32(want, float32(math.Inf(-1))) || v > math.Nextafter32(want, float32(math.Inf(1)))) {
				c.Failf("%s: %T(%v) (%v), want %v", what, got, got, err, want)
			}
			return
		}
		want, exact := x.Float64()
		if math.IsInf(want, 0) {
			if err == nil {
				c.Failf("%s: out of range, but %T(%v)", what, got, got)
			}
			return
		}
		v, ok := got.(float64)
		if err != nil || !ok || exact && v != want || !exact && (v < math.Nextafter(want, math.Inf(-1)) || v > math.Nextafter(want, math.Inf(1))) {
			c.Failf("%s: %T(%v) (%v), want %v", what, got, got, err, want)
		}
	case 'b':
		v, ok := got.(bool)
		text := fmt.Sprint(orig)
		switch orig.(type) {
		case float32, float64:
			return
		}
		switch {
		case text == "0" || strings.EqualFold(text, "false"):
			if err != nil || !ok || v {
				c.Failf("%s: %T(%v) (%v), want false", what, got, got, err)
			}
		case text == "1" || strings.EqualFold(text, "true"):
			if err != nil || !ok || !v {
				c.Failf("%s: %T(%v) (%v), want true", what, got, got, err)
			}
		}
	}
}

func ratOf(s string) *big.Rat {
	x, ok := new(big.Rat).SetString(s)
	if !ok {
		return nil
	}
	return x
}

// convNumbers is every number written around the bounds of the types, and others.
func convNumbers(r *Run) []string {
	out := []string{}
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	for k := 0; k <= r.Pick(300, 40000); k++ {
		add(itoa(k))
		add("-" + itoa(k))
	}
	for b := 6; b <= 70; b++ {
		p := new(big.Int).Lsh(big.NewInt(1), uint(b))
		for d := int64(-3); d <= 3; d++ {
			v := new(big.Int).Add(p, big.NewInt(d))
			add(v.String())
			add("-" + v.String())
		}
	}
	for e := 0; e <= 40; e++ {
		for _, m := range []string{"1", "9", "12345"} {
			add(m + strings.Repeat("0", e))
			add("-" + m + strings.Repeat("0", e))
			add(m + "e" + itoa(e))
			add(m + "E" + itoa(e))
		}
		add("0." + strings.Repeat("0", e) + "1")
		add("1." + strings.Repeat("0", e) + "1")
		add("1e-" + itoa(e))
	}
	for _, s := range []string{"1.5", "0.5", "1.0", "100.0", "0.1", "3.14", "127.5", "128.0", "32767.0", "2147483647.0", "1e300", "1e308", "1e309", "1e400", "3.4028235e38", "3.4028236e38", "3.5e38", "-1e39", "1.7976931348623157e308", "5e-324", "1e-400", "16777217.0", "0.0", "1.25"} {
		add(s)
	}
	return out
}

var convTexts = []string{"", "abc", "1a", "a1", "--1", "1-", "1,000", "one", "1.2.3", "1e", "e1", ".", "-", "+", "'", "5'", "$1", "é", "1 2", "NULL", "0b", "1e+", "12abc", "0xZZ"}

func init() {
	register(&Prop{ID: "C25", Rule: "every number of the bounds of every column type, every other text, written in INSERT and UPDATE or set as a Go value of every kind, is converted by the schema and compared with the exact rational value; every combination of column names, cases and unknown columns up to the bound is matched with the schema", Run: func(r *Run) {
		types := convTypes()
		nums := convNumbers(r)
		schemaFor := func(ct convType) query.Schema {
			return query.NewSchemaWith("t", query.WithSchemaColumns(query.NewColumnsWith(newCol("k", query.TextType, 0), newCol("a", ct.t, 0))))
		}
		one := func(c *Case, ct convType, lit string, x *big.Rat, text string, how int) {
			var cols query.Columns
			q := "INSERT INTO t (k, a) VALUES ('key', " + lit + ")"
			if how == 1 {
				q = "UPDATE t SET a = " + lit + " WHERE k = 'key'"
			}
			c.Inf("%s %s", ct.t, q)
			stmts, err := parse(q)
			if err != nil || len(stmts) != 1 {
				c.Failf("%v", err)
				return
			}
			at := 0
			if ins, ok := stmts[0].(query.Insert); ok {
				cols, at = ins.Columns(), 1
			} else {
				cols = stmts[0].(query.Update).Columns()
			}
			c.Step(2)
			err = cols.SetSchema(schemaFor(ct))
			checkConverted(c, "SetSchema", ct, cols[at].Value(), err, x, text)
			if err == nil && cols[at].DataType() != ct.t {
				c.Failf("data type %s", cols[at].DataType())
			}
			if at == 1 && (cols[0].Value() != any("key") || cols[0].Name() != "k") {
				c.Failf("the other column is %v", cols[0].Value())
			}
			if cols[at].Name() != "a" {
				c.Failf("the column is %s", cols[at].Name())
			}
			c.Trace()
		}
		d := dims{len(nums), len(types)}
		r.Block("written numbers", d.size(), func(i int, c *Case) {
			x := d.at(i)
			s := nums[x[0]]
			one(c, types[x[1]], s, ratOf(s), s, (x[0]+x[1])%2)
		})
		few := nums
		if len(few) > 3000 {
			few = append(append([]string{}, nums[:600]...), nums[len(nums)-1200:]...)
		}
		d2 := dims{len(few), len(types)}
		r.Block("quoted numbers", d2.size(), func(i int, c *Case) {
			x := d2.at(i)
			s := few[x[0]]
			one(c, types[x[1]], escape(s), ratOf(s), s, (x[0]+x[1])%2)
		})
		d3 := dims{len(convTexts), len(types), 2}
		r.Block("texts that are not numbers", d3.size(), func(i int, c *Case) {
			x := d3.at(i)
			one(c, types[x[1]], escape(convTexts[x[0]]), nil, convTexts[x[0]], x[2])
		})
		r.Block("booleans", 4*len(types)*2, func(i int, c *Case) {
			ct := types[i/8]
			if ct.kind != 'b' && ct.kind != 0 {
				return
			}
			lit := []string{"TRUE", "FALSE", "'true'", "'false'"}[i%4]
			v := big.NewRat(int64(1-i%2), 1)
			one(c, ct, lit, v, strings.Trim(lit, "'"), i/4%2)
		})

		// Values set on a typed column, as every Go kind.
		type goVal struct {
			v any
			x *big.Rat
		}
		vals := []goVal{}
		addInt := func(b *big.Int) {
			x := new(big.Rat).SetInt(b)
			if b.IsInt64() {
				v := b.Int64()
				vals = append(vals, goVal{v, x}, goVal{int(v), x})
				if int64(int8(v)) == v {
					vals = append(vals, goVal{int8(v), x})
				}
				if int64(int16(v)) == v {
					vals = append(vals, goVal{int16(v), x})
				}
				if int64(int32(v)) == v {
					vals = append(vals, goVal{int32(v), x})
				}
			}
			if b.IsUint64() {
				v := b.Uint64()
				vals = append(vals, goVal{v, x}, goVal{uint(v), x})
				if uint64(uint8(v)) == v {
					vals = append(vals, goVal{uint8(v), x})
				}
				if uint64(uint16(v)) == v {
					vals = append(vals, goVal{uint16(v), x})
				}
				if uint64(uint32(v)) == v {
					vals = append(vals, goVal{uint32(v), x})
				}
			}
			vals = append(vals, goVal{b.String(), x}, goVal{[]byte(b.String()), x})
			if f, acc := new(big.Float).SetInt(b).Float64(); acc == big.Exact {
				vals = append(vals, goVal{f, x})
				if float64(float32(f)) == f {
					vals = append(vals, goVal{float32(f), x})
				}
			}
		}
		for k := int64(-300); k <= 300; k++ {
			addInt(big.NewInt(k))
		}
		for b := 9; b <= 66; b++ {
			for dd := int64(-2); dd <= 2; dd++ {
				v := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), uint(b)), big.NewInt(dd))
				addInt(v)
				addInt(new(big.Int).Neg(v))
			}
		}
		for _, f := range []float64{0.5, 1.5, -1.5, 0.1, 1e10, 1e19, -1e19, 1e38, 3.4028234663852886e38, 3.4028235677973366e38, 1e39, 1e300, math.MaxFloat64, -math.MaxFloat64, 127.9, 128.5, 9.3e18} {
			vals = append(vals, goVal{f, new(big.Rat).SetFloat64(f)})
			if float64(float32(f)) == f {
				vals = append(vals, goVal{float32(f), new(big.Rat).SetFloat64(f)})
			}
		}
		for _, s := range convTexts {
			vals = append(vals, goVal{s, nil}, goVal{[]byte(s), nil})
		}
		d4 := dims{len(vals), len(types)}
		r.Block("set values", d4.size(), func(i int, c *Case) {
			x := d4.at(i)
			v, ct := vals[x[0]], types[x[1]]
			c.Inf("%s column: SetValue(%T(%v))", ct.t, v.v, v.v)
			col := newCol("a", ct.t, 0)
			err := col.SetValue(v.v)
			checkConverted(c, "SetValue", ct, col.Value(), err, v.x, v.v)
			// Set once more over another value, and through the schema.
			col = query.NewColumnWithName("A")
			if err := col.SetValue(v.v); err != nil || fmt.Sprint(col.Value()) != fmt.Sprint(v.v) {
				c.Failf("value of a column without a type: %v (%v)", col.Value(), err)
			}
			err = query.NewColumnsWith(col).SetSchema(schemaFor(ct))
			checkConverted(c, "SetSchema", ct, col.Value(), err, v.x, v.v)
			c.Step(3)
			c.State(fmt.Sprintf("%s %T %v", ct.t, col.Value(), err == nil))
			c.Trace()
		})
		// Every pair of values set one after the other on one column: the second is converted as the first.
		pairs := []goVal{}
		for _, k := range []int64{0, 1, -1, 127, 128, -129, 40000, 1 << 31, -1 << 31} {
			x := new(big.Rat).SetInt64(k)
			pairs = append(pairs, goVal{k, x}, goVal{itoa(int(k)), x}, goVal{float64(k), x})
		}
		pairs = append(pairs, goVal{"x", nil}, goVal{"9223372036854775808", ratOf("9223372036854775808")}, goVal{1.5, big.NewRat(3, 2)})
		d5 := dims{len(pairs), len(pairs), len(types), 2}
		r.Block("values set twice", d5.size(), func(i int, c *Case) {
			x := d5.at(i)
			v, w, ct := pairs[x[0]], pairs[x[1]], types[x[2]]
			c.Inf("%s column (way %d): SetValue(%T(%v)), SetValue(%T(%v))", ct.t, x[3], v.v, v.v, w.v, w.v)
			col := newCol("a", ct.t, 0)
			if x[3] == 1 { // the type comes of a schema
				col = query.NewColumnWithOptions(query.WithColumnName("a"), query.WithColumnLiteral(query.NewLiteralWith(v.v)))
				err := query.NewColumnsWith(col).SetSchema(schemaFor(ct))
				checkConverted(c, "SetSchema", ct, col.Value(), err, v.x, v.v)
				if err != nil {
					return
				}
			} else {
				err := col.SetValue(v.v)
				checkConverted(c, "SetValue", ct, col.Value(), err, v.x, v.v)
			}
			err := col.SetValue(w.v)
			checkConverted(c, "second SetValue", ct, col.Value(), err, w.x, w.v)
			col = query.NewColumnWithName("a")
			for _, x := range []any{v.v, w.v, nil, w.v, nil, v.v} {
				if err := col.SetValue(x); err != nil || col.Value() != x {
					c.Failf("column without a type: %v is set and %v is the value (%v)", x, col.Value(), err)
				}
			}
			c.Step(2)
			c.Trace()
		})
		r.Block("boolean values", len(types), func(i int, c *Case) {
			ct := types[i]
			for _, b := range []bool{true, false} {
				c.Inf("%s column: SetValue(%v)", ct.t, b)
				col := newCol("a", ct.t, 0)
				err := col.SetValue(b)
				if ct.kind == 'b' || ct.kind == 0 {
					if err != nil || col.Value() != any(b) {
						c.Failf("%T(%v) %v", col.Value(), col.Value(), err)
					}
				}
			}
		})

		// Matching: every assignment of the statement's columns to names in any case, known or not, in any order.
		names := []string{"a", "A", "bb", "Bb", "BB", "c", "zz", "ab", "b", "aa", ""}
		known := map[string]query.DataType{"a": query.IntType, "bb": query.TextType, "c": query.DoubleType}
		schema := query.NewSchemaWith("t", query.WithSchemaColumns(query.NewColumnsWith(newCol("A", query.IntType, 0), newCol("bb", query.TextType, 0), newCol("C", query.DoubleType, 0))))
		total := seqCount(len(names), r.Pick(3, 4))
		r.Block("matching of columns", total*2, func(i int, c *Case) {
			seq := seqAt(len(names), i/2)
			cols := query.Columns{}
			txt := []string{}
			for n, k := range seq {
				v := itoa(n + 1)
				cols = append(cols, query.NewColumnWithOptions(query.WithColumnName(names[k]), query.WithColumnLiteral(query.NewLiteralWith(v))))
				txt = append(txt, names[k])
			}
			c.In("columns " + strings.Join(txt, ","))
			if i%2 == 1 { // parsed
				if len(seq) == 0 {
					return
				}
				lits := []string{}
				for n := range seq {
					if txt[n] == "" {
						return
					}
					lits = append(lits, itoa(n+1))
				}
				stmts, err := parse("INSERT INTO t (" + strings.Join(txt, ", ") + ") VALUES (" + strings.Join(lits, ", ") + ")")
				if err != nil {
					c.Failf("%v", err)
					return
				}
				cols = stmts[0].(query.Insert).Columns()
			}
			err := cols.SetSchema(schema)
			c.Step(1)
			unknown := false
			for n, k := range seq {
				t, ok := known[strings.ToLower(names[k])]
				if !ok {
					unknown = true
					continue
				}
				if err != nil {
					continue
				}
				want := any(itoa(n + 1))
				switch t {
				case query.IntType:
					want = int32(n + 1)
				case query.DoubleType:
					want = float64(n + 1)
				}
				if cols[n].Value() != want || cols[n].DataType() != t || cols[n].Name() != names[k] {
					c.Failf("column %s is %s %T(%v)", cols[n].Name(), cols[n].DataType(), cols[n].Value(), cols[n].Value())
				}
			}
			if unknown != (err != nil) {
				c.Failf("SetSchema: %v", err)
			}
			c.Trace()
		})

		// A column which the schema has not, at every place of a wide statement.
		unknowns := r.Pick(20, 70)
		r.Block("unknown columns", unknowns*unknowns, func(i int, c *Case) {
			n, at := i/unknowns+1, i%unknowns
			if at >= n {
				return
			}
			c.Inf("%d columns, column %d is unknown", n, at)
			wn := wideNames(n)
			defs := query.NewColumns()
			for _, nm := range wn {
				defs = append(defs, newCol(nm, query.IntType, 0))
			}
			s := query.NewSchemaWith("t", query.WithSchemaColumns(defs))
			cols := query.NewColumns()
			for k, nm := range wn {
				if k == at {
					nm = "unknown"
				}
				cols = append(cols, query.NewColumnWithOptions(query.WithColumnName(nm), query.WithColumnLiteral(query.NewLiteralWith(itoa(k)))))
			}
			if err := cols.SetSchema(s); err == nil {
				c.Failf("no error")
			}
			c.Step(1)
			c.Trace()
		})

		// Wide statements on wide schemas, and many rows.
		ls := lengths(r)
		r.Block("sizes", len(ls)*3, func(i int, c *Case) {
			n := ls[i/3]
			c.Inf("%d columns, way %d", n, i%3)
			wn := wideNames(n)
			defs := query.NewColumns()
			for k, nm := range wn {
				defs = append(defs, newCol(nm, []query.DataType{query.IntType, query.TextType, query.DoubleType}[k%3], 0))
			}
			s := query.NewSchemaWith("t", query.WithSchemaColumns(defs))
			in, vals := []string{}, []string{}
			for k := n - 1; k >= 0; k-- {
				in, vals = append(in, wn[k]), append(vals, itoa(k))
			}
			var rows []query.Columns
			text := "INSERT INTO t (" + strings.Join(in, ", ") + ") VALUES (" + strings.Join(vals, ", ") + ")"
			switch i % 3 {
			case 1:
				text = "UPDATE t SET "
				for k := range in {
					text += in[k] + " = " + vals[k]
					if k < n-1 {
						text += ", "
					}
				}
			case 2:
				// Many rows of up to three columns.
				in, vals = in[max(0, n-3):], vals[max(0, n-3):]
				row := "(" + strings.Join(vals, ", ") + ")"
				text = "INSERT INTO t (" + strings.Join(in, ", ") + ") VALUES " + row + strings.Repeat(", "+row, n)
			}
			stmts, err := parse(text)
			if err != nil || len(stmts) != 1 {
				c.Failf("%v", err)
				return
			}
			if u, ok := stmts[0].(query.Update); ok {
				rows = []query.Columns{u.Columns()}
			} else {
				rows = stmts[0].(query.Insert).Values()
			}
			if i%3 == 2 && len(rows) != n+1 {
				c.Failf("%d rows", len(rows))
			}
			for _, row := range rows {
				if err := row.SetSchema(s); err != nil || len(row) != len(in) {
					c.Failf("%d columns: %v", len(row), err)
					return
				}
				for k, col := range row {
					c.Step(1)
					v, _ := strconv.Atoi(vals[k])
					want := []any{int32(v), vals[k], float64(v)}[v%3]
					if col.Name() != in[k] || col.Value() != want {
						c.Failf("column %s is %T(%v), want %s = %T(%v)", col.Name(), col.Value(), col.Value(), in[k], want, want)
						return
					}
				}
			}
			c.Trace()
		})
		// Several rows, expressions and functions.
		r.Block("rows and expressions", 6*6*6, func(i int, c *Case) {
			lits := []string{"1", "-2", "'3'", "1e2", "2147483647", "0"}
			want := []int32{1, -2, 3, 100, 2147483647, 0}
			x := dims{6, 6, 6}.at(i)
			q := fmt.Sprintf("INSERT INTO t (c, a) VALUES (1.5, %s), (2, %s), (-0.25, %s)", lits[x[0]], lits[x[1]], lits[x[2]])
			c.In(q)
			stmts, err := parse(q)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			for n, row := range stmts[0].(query.Insert).Values() {
				if err := row.SetSchema(schema); err != nil {
					c.Failf("row %d: %v", n, err)
					return
				}
				if row[1].Value() != any(want[x[n]]) || row[0].Value() != any([]float64{1.5, 2, -0.25}[n]) {
					c.Failf("row %d: %T(%v)", n, row[1].Value(), row[1].Value())
				}
				c.Step(1)
			}
			u := "UPDATE t SET a = a + " + lits[x[0]] + ", c = " + lits[x[1]]
			stmts, err = parse(u)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			before := obsColumnValue(stmts[0].(query.Update).Columns()[0])
			cols := stmts[0].(query.Update).Columns()
			if err := cols.SetSchema(schema); err != nil {
				c.Failf("%s: %v", u, err)
				return
			}
			if obsColumnValue(cols[0]) != before || cols[1].Value() != any(float64(want[x[1]])) {
				c.Failf("%s: %s, %v", u, obsColumnValue(cols[0]), cols[1].Value())
			}
			c.Trace()
		})
	}})
}

func allTypes() []query.DataType {
	out := []query.DataType{}
	for t := query.DataType(1); t < 255; t++ {
		if t.String() != "" {
			out = append(out, t)
		}
	}
	return out
}

// The data types of the documentation.
var typeNames = map[string]query.DataType{
	"BIGINT": query.BigIntType, "BINARY": query.BinaryType, "BIT": query.BitType, "BLOB": query.BlobType, "BOOLEAN": query.BooleanType,
	"CHAR": query.CharType, "CHARACTER": query.CharacterType, "CLOB": query.ClobType, "DATE": query.DateType, "DATETIME": query.DateTimeType,
	"DECIMAL": query.DecimalType, "DOUBLE": query.DoubleType, "DOUBLE PRECISION": query.DoublePrecisionType, "FLOAT": query.FloatType,
	"INT": query.IntType, "INTEGER": query.IntegerType, "LONGBLOB": query.LongBlobType, "LONGTEXT": query.LongTextType,
	"MEDIUMBLOB": query.MediumBlobType, "MEDIUMINT": query.MediumIntType, "MEDIUMTEXT": query.MediumTextType, "NUMERIC": query.NumericType,
	"REAL": query.RealType, "SET": query.SetType, "SMALLINT": query.SmallIntType, "TEXT": query.TextType, "TIME": query.TimeType,
	"TIMESTAMP": query.TimeStampType, "TINYBLOB": query.TinyBlobType, "TINYINT": query.TinyIntType, "TINYTEXT": query.TinyTextType,
	"VARBINARY": query.VarBinaryType, "VARCHAR": query.VarCharType, "VARCHARACTER": query.VarCharacterType, "YEAR": query.YearType,
	"SERIAL": query.SerialType, "BIGSERIAL": query.BigSerialType, "SMALLSERIAL": query.SmallSerialType, "NAME": query.NameType,
}

func init() {
	register(&Prop{ID: "C30", Rule: "every data type name in every mixture of case as text and bytes, every text one or two edits away from a name and every short text are looked up and compared with the table of names; every Go kind of value is mapped", Run: func(r *Run) {
		names := []string{}
		for n := range typeNames {
			names = append(names, n)
		}
		sortStrings(names)
		isName := map[string]query.DataType{}
		for n, t := range typeNames {
			isName[n] = t
		}
		look := func(c *Case, s string) {
			want, ok := isName[strings.ToUpper(s)]
			if strings.EqualFold(s, "DOUBLEPRECISION") {
				return // accepted for the two words
			}
			c.Step(3)
			for k, f := range []func() (query.DataType, error){
				func() (query.DataType, error) { return query.NewDataTypeFrom(s) },
				func() (query.DataType, error) { return query.NewDataTypeFrom([]byte(s)) },
				func() (query.DataType, error) { return query.NewDataTypeFromString(s) },
			} {
				got, err := f()
				if ok != (err == nil) || ok && got != want {
					c.Failf("form %d of %q: %q (%v)", k, s, got, err)
				}
			}
		}
		r.Block("names", 1, func(i int, c *Case) {
			seen := map[string]query.DataType{}
			for n, t := range typeNames {
				c.In(n)
				if t.String() != n {
					c.Failf("%s is printed as %q", n, t.String())
				}
				if o, ok := seen[t.String()]; ok && o != t {
					c.Failf("%s is printed twice", n)
				}
				seen[t.String()] = t
			}
			// Every other number that is printed maps back to itself too.
			for _, t := range allTypes() {
				got, err := query.NewDataTypeFrom(t.String())
				if err != nil || got != t {
					c.Failf("type %d (%s) maps to %d (%v)", t, t, got, err)
				}
				isName[t.String()] = t
			}
			if query.UnknownData.String() != "" && isName[query.UnknownData.String()] == 0 {
				c.Failf("the unknown type is printed as %q", query.UnknownData.String())
			}
		})
		for _, n := range names {
			letters := 0
			for _, ch := range n {
				if ch != ' ' {
					letters++
				}
			}
			r.Block("cases of "+n, 1<<letters, func(i int, c *Case) {
				b := []byte(n)
				k := 0
				for j := range b {
					if b[j] == ' ' {
						continue
					}
					if i>>k&1 == 1 {
						b[j] += 'a' - 'A'
					}
					k++
				}
				c.In(string(b))
				look(c, string(b))
				c.State(n)
			})
		}
		// Every data type first and last in the order of the internal map, and every two types in both orders.
		small := []string{"", "BIG", "LONG", "TINY TEXT", "TINY", "MEDIUM", "VAR", "TIMES", "DOUBL", "SERIA", "INTS", "TEXT(10)", "XINT", "INT INT"}
		r.Serial("map orders", 2*len(names)+2*len(small), func(i int, c *Case) {
			s := append(append([]string{}, names...), small...)[i/2]
			if i%2 == 1 {
				s = strings.ToLower(s)
			}
			c.In(s)
			eachMapOrder(c, 2*len(names)+2, func() {
				t, err := query.NewDataTypeFromString(s)
				c.got = fmt.Sprint(t, err)
				look(c, s)
			})
			c.Trace()
		})
		// Neighbours.
		alpha := "ABCDEFGHIJKLMNOPQRSTUVWXYZ0_ ().;-x"
		edits := func(s string) []string {
			out := []string{}
			for i := 0; i <= len(s); i++ {
				for _, ch := range alpha {
					out = append(out, s[:i]+string(ch)+s[i:])
					if i < len(s) {
						out = append(out, s[:i]+string(ch)+s[i+1:])
					}
				}
				if i < len(s) {
					out = append(out, s[:i]+s[i+1:], s[i:], s[:i])
				}
				if i+1 < len(s) {
					out = append(out, s[:i]+s[i+1:i+2]+s[i:i+1]+s[i+2:])
				}
			}
			return append(out, s+s, s+" "+s, " "+s, s+" ", s+"(10)", "`"+s+"`", "'"+s+"'", s+"\x00", s+"\n")
		}
		r.Block("neighbours of names", len(names), func(i int, c *Case) {
			for _, e := range edits(names[i]) {
				c.In(e)
				look(c, e)
				look(c, strings.ToLower(e))
				c.Trace()
			}
		})
		r.Block("pairs of names", len(names)*len(names), func(i int, c *Case) {
			a, b := names[i/len(names)], names[i%len(names)]
			for _, s := range []string{a + b, a + " " + b, a + "_" + b, a + "," + b, strings.ToLower(a) + " " + b} {
				c.In(s)
				look(c, s)
			}
			c.Trace()
		})
		max := r.Pick(3, 4)
		short := "ABCDEFGHIJKLMNOPQRSTUVWXYZ "
		r.Block("short texts", seqCount(len(short), max), func(i int, c *Case) {
			b := strings.Builder{}
			for _, k := range seqAt(len(short), i) {
				b.WriteByte(short[k])
			}
			c.In(b.String())
			look(c, b.String())
		})
		if r.Thorough() {
			r.Block("two edits from a name", len(names), func(i int, c *Case) {
				for _, e := range edits(names[i]) {
					for _, f := range edits(e) {
						if len(f) > len(names[i])+2 {
							continue
						}
						c.In(f)
						want, ok := isName[strings.ToUpper(f)]
						if strings.EqualFold(f, "DOUBLEPRECISION") {
							continue
						}
						got, err := query.NewDataTypeFromString(f)
						if ok != (err == nil) || ok && got != want {
							c.Failf("%q: %q (%v)", f, got, err)
						}
						c.Step(1)
					}
				}
				c.Trace()
			})
		}
		// Things that are not names.
		r.Block("not names", 1, func(i int, c *Case) {
			for _, v := range []any{nil, 1, int64(3), 1.5, true, []string{"INT"}, struct{}{}, query.IntType, []int{1}, map[string]int{}} {
				c.Inf("%T(%v)", v, v)
				if t, err := query.NewDataTypeFrom(v); err == nil {
					c.Failf("%T(%v) is %s", v, v, t)
				}
			}
		})
		// Values.
		now := time.Unix(1, 2)
		type vt struct {
			v any
			t query.DataType
		}
		vals := []vt{{"", query.VarCharType}, {"1", query.VarCharType}, {"INT", query.VarCharType}, {[]byte{}, query.BlobType}, {[]byte(nil), query.BlobType}, {[]byte("x"), query.BlobType},
			{true, query.BooleanType}, {false, query.BooleanType}, {now, query.TimeStampType}, {&now, query.TimeStampType}, {time.Time{}, query.TimeStampType}}
		for k := -128; k < 256; k++ {
			vals = append(vals, vt{int8(k), query.TinyIntType}, vt{uint8(k), query.TinyIntType}, vt{int16(k), query.SmallIntType}, vt{uint16(k), query.SmallIntType},
				vt{int32(k), query.IntType}, vt{uint32(k), query.IntType}, vt{k, query.IntType}, vt{uint(k), query.IntType}, vt{int64(k), query.BigIntType}, vt{uint64(k), query.BigIntType},
				vt{float32(k), query.FloatType}, vt{float64(k), query.DoubleType})
		}
		vals = append(vals, vt{math.NaN(), query.DoubleType}, vt{math.Inf(1), query.DoubleType}, vt{float32(0.1), query.FloatType}, vt{math.MaxInt64, query.IntType}, vt{int64(math.MinInt64), query.BigIntType})
		r.Block("values", len(vals), func(i int, c *Case) {
			c.Inf("%T(%v)", vals[i].v, vals[i].v)
			got, err := query.NewDataTypeForValue(vals[i].v)
			c.Step(1)
			if err != nil || got != vals[i].t {
				c.Failf("%s (%v), want %s", got, err, vals[i].t)
			}
			c.Trace()
		})
		r.Block("unsupported values", 1, func(i int, c *Case) {
			for _, v := range []any{nil, struct{}{}, []int{1}, map[string]any{}, complex(1, 1), make(chan int), func() {}, []any{1}, new(int), []string{"a"}, errBind} {
				c.Inf("%T", v)
				if t, err := query.NewDataTypeForValue(v); err == nil {
					c.Failf("%T is %s", v, t)
				}
				c.Step(1)
			}
		})
		// The schemas of named values, and columns made from columns.
		wantCols := func(c *Case, cols []resultset.Column, keys []string, types []query.DataType) {
			got, want := []string{}, []string{}
			for _, col := range cols {
				got = append(got, fmt.Sprintf("%q %s %v", col.Name(), col.DataType(), col.IsFunction()))
			}
			for n, k := range keys {
				want = append(want, fmt.Sprintf("%q %s false", k, types[n]))
			}
			c.Eq("columns", strings.Join(got, ", "), strings.Join(want, ", "))
		}
		kinds, seen := vals[:0:0], map[string]bool{}
		for _, v := range vals {
			if k := fmt.Sprintf("%T", v.v); !seen[k] {
				seen[k] = true
				kinds = append(kinds, v)
			}
		}
		r.Block("schemas of values", len(kinds)*len(kinds)*2, func(i int, c *Case) {
			a, b := kinds[i/2/len(kinds)], kinds[i/2%len(kinds)]
			names := []string{"a", "b", "Z"}
			if i%2 == 1 {
				names = []string{"b", "a", "_"}
			}
			obj := map[string]any{names[0]: a.v, names[1]: b.v, names[2]: a.v}
			c.Inf("%s: %T, %s: %T, %s", names[0], a.v, names[1], b.v, names[2])
			s, err := resultset.NewSchemaFrom(resultset.WithSchemaRowObject(obj))
			if err != nil {
				c.Failf("%v", err)
				return
			}
			c.Step(1)
			if i%2 == 0 {
				wantCols(c, s.Columns(), []string{"Z", "a", "b"}, []query.DataType{a.t, a.t, b.t})
			} else {
				wantCols(c, s.Columns(), []string{"_", "a", "b"}, []query.DataType{a.t, b.t, a.t})
			}
			for _, v := range []any{nil, struct{}{}, []any{1}} {
				obj["q"] = v
				if s, err := resultset.NewSchemaFrom(resultset.WithSchemaRowObject(obj)); err == nil {
					c.Failf("%T: %d columns", v, len(s.Columns()))
				}
			}
			c.Trace()
		})
		r.Block("columns of columns", len(names)*2, func(i int, c *Case) {
			n := names[i/2]
			c.In(n)
			qc := newCol("Ab", typeNames[n], 7)
			col, err := resultset.NewColumnFrom(qc)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			c.Step(1)
			cols := []resultset.Column{col}
			if i%2 == 1 {
				cols = resultset.NewColumnsFrom(query.NewColumnsWith(newCol("c", query.TextType, 1), qc))
				wantCols(c, cols, []string{"c", "Ab"}, []query.DataType{query.TextType, typeNames[n]})
				return
			}
			wantCols(c, cols, []string{"Ab"}, []query.DataType{typeNames[n]})
			c.Trace()
		})
		// The data types of parsed column definitions.
		r.Block("definitions", len(names), func(i int, c *Case) {
			n := names[i]
			for _, l := range []int{-1, 0, 1, 10, 255} {
				def, err := query.NewDataDefFrom(n, l)
				c.Inf("%s %d", n, l)
				if err != nil || def.DataType() != typeNames[n] || def.DataTypeSize() != l {
					c.Failf("%v", err)
				}
				c.Step(1)
			}
			c.Trace()
		})
	}})
}

var errBind = strconv.ErrRange
