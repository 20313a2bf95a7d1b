package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
)

// The observation of a statement is a canonical text of everything its public accessors report. A model statement
// has the same text by construction, so "the parsed statement reports what was written" is text equality.

func q(s string) string { return strconv.Quote(s) }

func obsFunction(f query.Function) string {
	args := []string{}
	for _, a := range f.Arguments() {
		args = append(args, q(norm(string(a))))
	}
	return "F:" + strings.ToUpper(f.Name()) + "(" + strings.Join(args, ",") + ")/" + typeName(f.Type())
}

func typeName(t fn.FunctionType) string {
	switch t {
	case fn.MathFunction:
		return "math"
	case fn.AggregateFunction:
		return "aggr"
	case fn.CastFunction:
		return "cast"
	case fn.ArithOperator:
		return "arith"
	case fn.TimeFunction:
		return "time"
	case fn.StringFunction:
		return "string"
	case fn.SessionFunction:
		return "session"
	}
	return "unknown"
}

func obsSelector(s query.Selector) string {
	f, ok := s.Function()
	if ok != s.IsFunction() {
		return fmt.Sprintf("INCONSISTENT IsFunction=%v Function=%v", s.IsFunction(), ok)
	}
	if ok {
		return obsFunction(f)
	}
	x := "C:"
	if s.IsAsterisk() {
		x = "*:"
	}
	return x + q(norm(s.Name()))
}

func obsLiteral(v any, t query.LiteralType, placeholder bool) string {
	x := "R:"
	if t == query.StringLiteral {
		x = "S:"
	}
	if placeholder {
		x = "P:"
	}
	if v == nil {
		return x + "nil"
	}
	s := fmt.Sprintf("%v", v)
	if x == "R:" {
		s = norm(s)
	}
	return x + q(s)
}

func obsColumnValue(c query.Column) string {
	s := q(c.Name())
	if f, ok := c.Function(); ok {
		args := []string{}
		for _, a := range c.Arguments() {
			args = append(args, q(norm(string(a))))
		}
		s += "=E:" + f.Name() + "(" + strings.Join(args, ",") + ")"
		if ex, err := f.Executor(); err == nil {
			s += "/" + ex.Name()
		}
		return s
	}
	if !c.HasValue() {
		return s
	}
	return s + "=" + obsLiteral(c.Value(), c.ValueType(), c.IsPlaceHolder())
}

func obsExpr(e query.Expr) string {
	switch e := e.(type) {
	case nil:
		return "NONE"
	case *query.AndExpr:
		return "(" + obsExpr(e.Left()) + " AND " + obsExpr(e.Right()) + ")"
	case *query.OrExpr:
		return "(" + obsExpr(e.Left()) + " OR " + obsExpr(e.Right()) + ")"
	case *query.CmpExpr:
		op := "?"
		switch e.Operator() {
		case query.EQ:
			op = "EQ"
		case query.NEQ:
			op = "NEQ"
		case query.LT:
			op = "LT"
		case query.GT:
			op = "GT"
		case query.LE:
			op = "LE"
		case query.GE:
			op = "GE"
		case query.IN:
			op = "IN"
		case query.NIN:
			op = "NIN"
		}
		r := e.Right()
		if r == nil {
			return "(" + e.Left().Name() + " " + op + " NO-VALUE)"
		}
		return "(" + e.Left().Name() + " " + op + " " + obsLiteral(r.Value(), r.ValueType(), r.IsPlaceHolder()) + ")"
	}
	return "X:" + q(norm(e.String()))
}

func obsCond(w query.Condition) string {
	if w == nil || !w.HasConditions() {
		return "NONE"
	}
	return obsExpr(w.Expr())
}

func fullName(stmt any) string {
	switch t := stmt.(type) {
	case interface{ Table() query.Table }:
		if tbl := t.Table(); tbl != nil {
			return tbl.FullTableName()
		}
		return ""
	case interface{ FullTableName() string }:
		return t.FullTableName()
	case interface{ TableName() string }:
		return t.TableName()
	}
	return "?"
}

func obsNames(cols query.Columns) string {
	out := []string{}
	for _, c := range cols {
		out = append(out, q(c.Name()))
	}
	return strings.Join(out, ",")
}

func obsTables(tbls query.TableList) string {
	out := []string{}
	for _, t := range tbls {
		out = append(out, q(t.FullTableName()))
	}
	return strings.Join(out, ",")
}

// obsTablesOf observes the tables with their qualifiers.
func obsTablesOf(tbls query.TableList) string {
	out := []string{}
	for _, t := range tbls {
		n := q(t.FullTableName())
		if t.SchemaName() != "" {
			n += " in " + q(t.SchemaName())
		}
		out = append(out, n)
	}
	return strings.Join(out, ",")
}

func obsIndex(i query.Index) string {
	if i == nil {
		return "NONE"
	}
	t := "?"
	switch i.Type() {
	case query.PrimaryIndex:
		t = "PRIMARY"
	case query.SecondaryIndex:
		t = "INDEX:" + q(i.Name())
	case query.UnknownIndex:
		t = "UNKNOWN:" + q(i.Name())
	}
	return t + "(" + obsNames(i.Columns()) + ")"
}

func obsColDef(c query.Column) string {
	size := c.DataTypeSize()
	if size < 0 {
		size = 0 // no size
	}
	def := ""
	if d := c.Definition(); d != nil {
		def = strings.ReplaceAll(d.String(), " ", "")
	}
	return fmt.Sprintf("%s %s %d %s", q(c.Name()), c.DataType().String(), size, def)
}

func obsSchema(s query.Schema) string {
	out := []string{}
	for _, c := range s.Columns() {
		out = append(out, obsColDef(c))
	}
	idx := []string{}
	for _, i := range s.Indexes() {
		idx = append(idx, obsIndex(i))
	}
	return q(s.FullTableName()) + " [" + strings.Join(out, "; ") + "] {" + strings.Join(idx, "; ") + "}"
}

// kindOf names the kind of a statement by its statement type.
func kindOf(stmt query.Statement) string {
	return stmt.StatementType().String()
}

func obsStmt(stmt query.Statement) string {
	if stmt == nil {
		return "NIL"
	}
	out := obsStmtOf(stmt)
	if bad := insist(stmt); bad != "" {
		out += " INCONSISTENT " + bad
	}
	return out
}

func obsStmtOf(stmt query.Statement) string {
	kind := kindOf(stmt)
	switch kind {
	case "SELECT":
		s, ok := stmt.(query.Select)
		if !ok {
			return "BAD-KIND SELECT"
		}
		sels := []string{}
		for _, x := range s.Selectors() {
			sels = append(sels, obsSelector(x))
		}
		orders := []string{}
		for _, o := range s.OrderBy().Orders() {
			d := "?"
			if o.IsAsc() && !o.IsDesc() && !o.IsNone() {
				d = "ASC"
			}
			if o.IsDesc() && !o.IsAsc() && !o.IsNone() {
				d = "DESC"
			}
			orders = append(orders, q(norm(o.ColumnName()))+" "+d)
		}
		return fmt.Sprintf("SELECT distinct=%v [%s] from=[%s] where=%s group=%s order=[%s] limit=%d offset=%d",
			s.IsDistinct(), strings.Join(sels, ", "), obsTablesOf(s.From()), obsCond(s.Where()), q(norm(s.GroupBy().ColumnName())),
			strings.Join(orders, ", "), s.Limit().Limit(), s.Limit().Offset())
	case "INSERT":
		s, ok := stmt.(query.Insert)
		if !ok {
			return "BAD-KIND INSERT"
		}
		rows := []string{}
		for _, row := range s.Values() {
			vs := []string{}
			for _, c := range row {
				vs = append(vs, obsColumnValue(c))
			}
			rows = append(rows, "("+strings.Join(vs, ", ")+")")
		}
		return "INSERT " + q(fullName(stmt)) + " " + strings.Join(rows, " ")
	case "UPDATE":
		s, ok := stmt.(query.Update)
		if !ok {
			return "BAD-KIND UPDATE"
		}
		sets := []string{}
		for _, c := range s.Columns() {
			sets = append(sets, obsColumnValue(c))
		}
		return "UPDATE " + q(fullName(stmt)) + " [" + strings.Join(sets, ", ") + "] where=" + obsCond(s.Where())
	case "DELETE":
		s, ok := stmt.(query.Delete)
		if !ok {
			return "BAD-KIND DELETE"
		}
		if s.HasConditions() != s.Where().HasConditions() {
			return "INCONSISTENT HasConditions"
		}
		return "DELETE " + q(fullName(stmt)) + " where=" + obsCond(s.Where())
	case "CREATE TABLE":
		s, ok := stmt.(query.CreateTable)
		if !ok {
			return "BAD-KIND CREATE TABLE"
		}
		if s.TableName() != s.Schema().TableName() {
			return "INCONSISTENT TableName"
		}
		return fmt.Sprintf("CREATE TABLE ifne=%v %s", s.IfNotExists(), obsSchema(s.Schema()))
	case "CREATE INDEX":
		s, ok := stmt.(query.CreateIndex)
		if !ok {
			return "BAD-KIND CREATE INDEX"
		}
		return fmt.Sprintf("CREATE INDEX ifne=%v on=%s %s", s.IfNotExists(), q(s.TableName()), obsIndex(s.Index()))
	case "DROP INDEX":
		s, ok := stmt.(query.DropIndex)
		if !ok {
			return "BAD-KIND DROP INDEX"
		}
		if s.Index() == nil || s.Index().Name() != s.IndexName() {
			return "INCONSISTENT index name"
		}
		return fmt.Sprintf("DROP INDEX ife=%v on=%s %s", s.IfExists(), q(s.TableName()), q(s.IndexName()))
	case "DROP TABLE":
		s, ok := stmt.(query.DropTable)
		if !ok {
			return "BAD-KIND DROP TABLE"
		}
		return fmt.Sprintf("DROP TABLE ife=%v [%s]", s.IfExists(), obsTables(s.Tables()))
	case "TRUNCATE":
		s, ok := stmt.(query.Truncate)
		if !ok {
			return "BAD-KIND TRUNCATE"
		}
		return "TRUNCATE [" + obsTables(s.Tables()) + "]"
	case "CREATE DATABASE":
		s, ok := stmt.(query.CreateDatabase)
		if !ok {
			return "BAD-KIND CREATE DATABASE"
		}
		return fmt.Sprintf("CREATE DATABASE ifne=%v %s", s.IfNotExists(), q(s.DatabaseName()))
	case "DROP DATABASE":
		s, ok := stmt.(query.DropDatabase)
		if !ok {
			return "BAD-KIND DROP DATABASE"
		}
		return fmt.Sprintf("DROP DATABASE ife=%v %s", s.IfExists(), q(s.DatabaseName()))
	case "ALTER DATABASE":
		s, ok := stmt.(query.AlterDatabase)
		if !ok {
			return "BAD-KIND ALTER DATABASE"
		}
		return fmt.Sprintf("ALTER DATABASE %s to %s", q(s.DatabaseName()), q(s.RenameTo().DatabaseName()))
	case "USE":
		s, ok := stmt.(query.Use)
		if !ok {
			return "BAD-KIND USE"
		}
		return "USE " + q(s.DatabaseName())
	case "ALTER TABLE":
		s, ok := stmt.(query.AlterTable)
		if !ok {
			return "BAD-KIND ALTER TABLE"
		}
		out := "ALTER TABLE " + q(fullName(stmt))
		if t, ok := s.RenameTo(); ok {
			out += " RENAME-TO " + q(t.FullTableName())
		}
		if a, b, ok := s.RenameColumns(); ok {
			out += " RENAME-COLUMN " + q(a.Name()) + " " + q(b.Name())
		}
		if c, ok := s.AddColumn(); ok {
			out += " ADD-COLUMN " + obsColDef(c)
		}
		if i, ok := s.AddIndex(); ok {
			out += " ADD-INDEX " + obsIndex(i)
		}
		if c, ok := s.DropColumn(); ok {
			out += " DROP-COLUMN " + q(c.Name())
		}
		if i, ok := s.DropIndex(); ok {
			out += " DROP-INDEX " + q(i.Name())
		}
		return out
	case "COPY":
		s, ok := stmt.(query.Copy)
		if !ok {
			return "BAD-KIND COPY"
		}
		src, f := "?", "?"
		if x, ok := stmt.(interface{ Source() string }); ok {
			src = x.Source()
		}
		if x, ok := stmt.(interface{ Format() query.CopyFormat }); ok {
			f = x.Format().String()
		}
		return fmt.Sprintf("COPY %s (%s) %s %s", q(s.TableName()), obsNames(s.Columns()), q(src), f)
	case "VACUUM":
		s, ok := stmt.(query.Vacuum)
		if !ok {
			return "BAD-KIND VACUUM"
		}
		return "VACUUM " + q(s.TableName())
	case "BEGIN", "COMMIT", "ROLLBACK":
		return kind
	}
	return "UNKNOWN-KIND " + q(kind)
}

// parse parses with a fresh parser.
func parse(text string) ([]query.Statement, error) {
	return sql.NewParser().ParseString(text)
}

// obsParse is the observation of parsing a text.
func obsParse(stmts []query.Statement, err error) string {
	if err != nil {
		if len(stmts) != 0 {
			return "ERROR-WITH-STATEMENTS"
		}
		return "ERROR"
	}
	out := []string{}
	for _, s := range stmts {
		out = append(out, obsStmt(s))
	}
	return "OK " + strings.Join(out, " ;; ")
}
