package main

import (
	"fmt"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql/query"
)

// A statement reports the same fact through several accessors (a list, its names, lookups, counts). The functions
// below return what two of them disagree about; the observation of a statement includes it, so that a model
// statement is equal only to a statement whose accessors agree with each other.

func swapCase(s string) string {
	b := []byte(s)
	for i, c := range b {
		switch {
		case c >= 'a' && c <= 'z':
			b[i] = c - 'a' + 'A'
		case c >= 'A' && c <= 'Z':
			b[i] = c - 'A' + 'a'
		}
	}
	return string(b)
}

func insistTable(t query.Table) string {
	full := t.FullTableName()
	want := t.TableName()
	if t.SchemaName() != "" && want != "" && !strings.Contains(want, ".") {
		want = t.SchemaName() + "." + want
	}
	switch {
	case full != want:
		return fmt.Sprintf("FullTableName %q of schema %q table %q", full, t.SchemaName(), t.TableName())
	case !t.IsFullTableName(full) || !t.IsFullTableName(swapCase(full)) || t.IsFullTableName(full+"x"):
		return "IsFullTableName"
	case !t.IsTableName(t.TableName()) || !t.IsTableName(swapCase(t.TableName())) || t.IsTableName(t.TableName()+"x"):
		return "IsTableName"
	case !t.IsSchemaName(t.SchemaName()) || !t.IsSchemaName(swapCase(t.SchemaName())) || t.IsSchemaName(t.SchemaName()+"x"):
		return "IsSchemaName"
	}
	if s, ok := t.(interface{ String() string }); ok {
		// Statements are tables too and print themselves.
		if _, stmt := t.(query.Statement); !stmt && s.String() != full {
			return "String of the table"
		}
	}
	return ""
}

func insistTables(ts query.TableList) string {
	names := []string{}
	for _, t := range ts {
		if bad := insistTable(t); bad != "" {
			return bad
		}
		if !ts.HasTable("no such table", t.TableName()) || !ts.HasTableName(t.TableName(), "no such table") || !ts.HasSchemaTable("no such schema", t.SchemaName()) {
			return "HasTable " + t.FullTableName()
		}
		names = append(names, t.FullTableName())
	}
	switch {
	case ts.HasTable("no such table") || ts.HasTableName("no such table") || ts.HasSchemaTable("no such schema") || ts.HasTable() || ts.HasTableName() || ts.HasSchemaTable():
		return "HasTable of another table"
	case strings.Join(ts.TableNames(), "|") != strings.Join(names, "|"):
		return "TableNames"
	case len(ts.Tables()) != len(ts):
		return "Tables"
	}
	return ""
}

func insistColumns(cs query.Columns) string {
	names := []string{}
	first := map[string]int{}
	for n, c := range cs {
		names = append(names, c.Name())
		key := strings.ToLower(c.Name())
		if _, ok := first[key]; !ok {
			first[key] = n
		}
		at, err := cs.ColumnAt(n)
		if err != nil || at != c {
			return fmt.Sprintf("ColumnAt(%d)", n)
		}
		if !c.IsName(c.Name()) || c.IsName(c.Name()+"x") {
			return "IsName " + c.Name()
		}
	}
	for n, c := range cs {
		k := first[strings.ToLower(c.Name())]
		for _, name := range []string{c.Name(), swapCase(c.Name())} {
			x, err := cs.LookupColumn(name)
			i, err2 := cs.LookupIndexOfColumn(name)
			if err != nil || err2 != nil || x != cs[k] || i != k {
				return fmt.Sprintf("LookupColumn(%q) of column %d", name, n)
			}
		}
	}
	if _, err := cs.LookupColumn("no such column"); err == nil {
		return "LookupColumn of another column"
	}
	if _, err := cs.LookupIndexOfColumn("no such column"); err == nil {
		return "LookupIndexOfColumn of another column"
	}
	for _, n := range []int{-1, len(cs)} {
		if _, err := cs.ColumnAt(n); err == nil {
			return fmt.Sprintf("ColumnAt(%d)", n)
		}
	}
	joined := strings.Join(names, "|")
	switch {
	case strings.Join(cs.Names(), "|") != joined || strings.Join(cs.ColumnNames(), "|") != joined:
		return "Names"
	case cs.Len() != len(cs) || len(cs.Columns()) != len(cs) || len(cs.Selectors()) != len(cs):
		return "Len"
	case len(cs) > 0 && cs.IsAsterisk() != (len(cs) == 1 && names[0] == "*"):
		return "IsAsterisk"
	case strings.Join(strings.Split(cs.NameString(), ", "), "|") != joined:
		return "NameString"
	}
	for n, s := range cs.Selectors() {
		if s.Name() != names[n] {
			return "Selectors"
		}
	}
	return ""
}

func insistIndexes(ix query.Indexes) string {
	first := map[string]int{}
	names := []string{}
	for n, i := range ix {
		names = append(names, i.Name())
		key := strings.ToLower(i.Name())
		if _, ok := first[key]; !ok {
			first[key] = n
		}
		if bad := insistColumns(i.Columns()); bad != "" {
			return bad + " of index " + i.Name()
		}
	}
	for n, i := range ix {
		k := first[strings.ToLower(i.Name())]
		for _, name := range []string{i.Name(), swapCase(i.Name())} {
			x, err := ix.LookupIndex(name)
			at, err2 := ix.LookupIndexOfIndex(name)
			if err != nil || err2 != nil || x != ix[k] || at != k {
				return fmt.Sprintf("LookupIndex(%q) of index %d", name, n)
			}
		}
	}
	if _, err := ix.LookupIndex("no such index"); err == nil {
		return "LookupIndex of another index"
	}
	if strings.Join(ix.IndexNames(), "|") != strings.Join(names, "|") || len(ix.Indexes()) != len(ix) {
		return "IndexNames"
	}
	return ""
}

func insistSelectors(ss query.Selectors) string {
	fns, aggr := 0, false
	cols := []string{}
	names := ss.Names()
	if ss.Len() != len(ss) || len(ss.Selectors()) != len(ss) || len(names) != len(ss) {
		return "Len"
	}
	list := ss.Functions()
	for n, s := range ss {
		f, ok := s.Function()
		if !ok {
			if names[n] != s.Name() {
				return fmt.Sprintf("name %d of the selectors is %q, of the selector %q", n, names[n], s.Name())
			}
			if s.IsFunction() || (s.Name() == "*" && !s.IsAsterisk()) || (s.Name() != "*" && s.Name() != "'*'" && s.IsAsterisk()) {
				return "IsFunction or IsAsterisk of " + s.Name()
			}
			cols = append(cols, s.Name())
			continue
		}
		if fns >= len(list) || list[fns] != f {
			return "Functions"
		}
		fns++
		aggr = aggr || f.IsAggregator()
		if f.IsAggregator() != (typeName(f.Type()) == "aggr") || !f.IsType(f.Type()) || f.IsType(f.Type()+1) {
			return "IsAggregator or IsType of " + f.Name()
		}
		if !f.IsName(swapCase(f.Name())) || f.IsName(f.Name()+"x") || !f.IsFunction() {
			return "IsName of " + f.Name()
		}
		for _, g := range list { // the first one of that name is found
			if !strings.EqualFold(g.Name(), f.Name()) {
				continue
			}
			for _, name := range []string{f.Name(), swapCase(f.Name())} {
				if x, err := ss.LookupFunction(name); err != nil || x != g {
					return "LookupFunction " + f.Name()
				}
			}
			break
		}
		if !s.IsFunction() || s.IsAsterisk() {
			return "IsFunction or IsAsterisk of " + f.Name()
		}
		if !ss.HasFunctionWithType(f.Type()) {
			return "HasFunctionWithType"
		}
		args := f.Arguments()
		if len(args.Names()) != len(args) || len(s.Arguments()) != len(args) {
			return "names of the arguments"
		}
		if len(args) > 0 && args.IsAsterisk() != (len(args) == 1 && args[0] == "*") {
			return "IsAsterisk of the arguments"
		}
		for i, a := range args {
			if s.Arguments()[i] != a || args.Names()[i] != string(a) || a.String() != string(a) || !a.IsName(string(a)) || a.IsName(string(a)+"x") || a.Name() != string(a) || a.IsAsterisk() != (a == "*") {
				return "argument " + string(a)
			}
		}
	}
	if _, err := ss.LookupFunction("no such function"); err == nil {
		return "LookupFunction of another function"
	}
	star := len(ss) == 0 || (len(ss) == 1 && ss[0].Name() == "*")
	switch {
	case fns != len(list) || ss.HasFunction() != (fns > 0):
		return "HasFunction"
	case ss.HasAggregator() != aggr:
		return "HasAggregator"
	case ss.IsAsterisk() != star:
		return "IsAsterisk"
	}
	got := []string{}
	for _, c := range ss.Columns() {
		got = append(got, c.Name())
	}
	if strings.Join(got, "|") != strings.Join(cols, "|") {
		return "Columns of the selectors"
	}
	return ""
}

func insistCond(w query.Condition) string {
	if w == nil {
		return ""
	}
	if w.HasConditions() != (w.Expr() != nil) {
		return "HasConditions"
	}
	if w.HasConditions() && w.String() != w.Expr().String() {
		return "String of the condition"
	}
	return ""
}

func insistSchema(s query.Schema) string {
	if bad := insistColumns(s.Columns()); bad != "" {
		return bad
	}
	if bad := insistIndexes(s.Indexes()); bad != "" {
		return bad
	}
	for _, c := range s.Columns() {
		x, err := s.LookupColumn(c.Name())
		y, err2 := s.Columns().LookupColumn(c.Name())
		if err != nil || err2 != nil || x != y {
			return "LookupColumn of the schema"
		}
	}
	for _, i := range s.Indexes() {
		x, err := s.LookupIndex(i.Name())
		y, err2 := s.Indexes().LookupIndex(i.Name())
		if err != nil || err2 != nil || x != y {
			return "LookupIndex of the schema"
		}
	}
	if len(s.Selectors()) != len(s.Columns()) {
		return "Selectors of the schema"
	}
	for n, x := range s.Selectors() {
		if x.Name() != s.Columns()[n].Name() {
			return "Selectors of the schema"
		}
	}
	return ""
}

func first(bad ...string) string {
	for _, b := range bad {
		if b != "" {
			return b
		}
	}
	return ""
}

// insist returns what the accessors of the statement disagree about.
func insist(stmt query.Statement) string {
	if t, ok := stmt.(interface{ Table() query.Table }); ok && t.Table() != nil {
		if bad := insistTable(t.Table()); bad != "" {
			return bad
		}
		if n, ok := stmt.(interface{ TableName() string }); ok && n.TableName() != t.Table().TableName() && n.TableName() != t.Table().FullTableName() {
			return "TableName of the statement"
		}
	}
	switch s := stmt.(type) {
	case query.Select:
		for _, o := range s.OrderBy().Orders() {
			if o.IsAsc() != (o.Type() == query.OrderAsc) || o.IsDesc() != (o.Type() == query.OrderDesc) || o.IsNone() != (o.Type() == query.OrderNone) {
				return "Type of the order"
			}
		}
		if s.HasAggregator() != s.Selectors().HasAggregator() {
			return "HasAggregator of the statement"
		}
		return first(insistSelectors(s.Selectors()), insistTables(s.From()), insistCond(s.Where()))
	case query.Update:
		return first(insistColumns(s.Columns()), insistCond(s.Where()))
	case query.CreateTable:
		return insistSchema(s.Schema())
	case query.CreateIndex:
		return insistIndexes(query.Indexes{s.Index()})
	case query.DropTable:
		return insistTables(s.Tables())
	case query.Truncate:
		return insistTables(s.Tables())
	case query.Insert:
		if len(s.Values()) > 0 {
			a, b := s.Columns(), s.Values()[0]
			if len(a) != len(b) {
				return "Columns of the first row"
			}
			for n := range a {
				if a[n] != b[n] {
					return "Columns of the first row"
				}
			}
		} else if len(s.Columns()) != 0 {
			return "Columns without a row"
		}
		if t, ok := stmt.(query.Table); ok {
			return insistTable(t)
		}
	case query.Copy:
		return insistColumns(s.Columns())
	case query.Delete:
		if f, ok := stmt.(interface{ From() query.Table }); ok && f.From().FullTableName() != fullName(stmt) {
			return "From"
		}
		return insistCond(s.Where())
	}
	return ""
}
