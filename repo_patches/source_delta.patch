From 6461835ed02c3930985e9afa084cfdfc019d6581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:09 +0000
Subject: [PATCH 01/83] fix: do not carry a syntax error over to the next query
 of a reused parser

---
 sql/parser/sqlite/parser_antlr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sql/parser/sqlite/parser_antlr.go b/sql/parser/sqlite/parser_antlr.go
index 65f7f1e..2fad0c7 100644
--- a/sql/parser/sqlite/parser_antlr.go
+++ b/sql/parser/sqlite/parser_antlr.go
@@ -66,6 +66,7 @@ func (parser *Parser) ParseString(queryString string) ([]query.Statement, error)
 	parser.lexer = antlr.NewSQLiteLexer(parser.inputStream)
 	parser.tokenStream = go_antlr.NewCommonTokenStream(parser.lexer, 0)
 	parser.parser = antlr.NewSQLiteParser(parser.tokenStream)
+	parser.errorListener = newANTLRParserErrorListener()
 	parser.parser.AddErrorListener(parser.errorListener)
 	parser.parser.BuildParseTrees = true
 	tree := parser.parser.Parse()
-- 
2.43.0


From 61e2b23651474b794e99d54a98e76b96d16b51ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:10 +0000
Subject: [PATCH 02/83] fix: keep embedded quotes when string literals are
 unescaped and escaped

---
 sql/util/strings/strings.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sql/util/strings/strings.go b/sql/util/strings/strings.go
index ed6efe7..88d9b97 100644
--- a/sql/util/strings/strings.go
+++ b/sql/util/strings/strings.go
@@ -31,12 +31,19 @@ func JoinWithComma(elems []string) string {
 
 // UnEscapeString returns an unescaped string.
 func UnEscapeString(s string) string {
-	return strings.Trim(s, "'\"")
+	if len(s) < 2 {
+		return s
+	}
+	q := s[:1]
+	if (q != "'" && q != "\"") || !strings.HasSuffix(s, q) {
+		return s
+	}
+	return strings.ReplaceAll(s[1:len(s)-1], q+q, q)
 }
 
 // EscapeString returns an escaped string.
 func EscapeString(s string) string {
-	return fmt.Sprintf("'%v'", s)
+	return fmt.Sprintf("'%v'", strings.ReplaceAll(s, "'", "''"))
 }
 
 // Equal returns true whether the specified strings are equal.
-- 
2.43.0


From ce72eeb9e43cac372ca110da067094009b2567b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:59 +0000
Subject: [PATCH 03/83] fix: reject unsupported statements instead of silently
 dropping them

---
 sql/parser/sqlite/parser_antlr.go         |  3 +++
 sql/parser/sqlite/parser_antlr_visitor.go | 18 ++++++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr.go b/sql/parser/sqlite/parser_antlr.go
index 2fad0c7..c0473b5 100644
--- a/sql/parser/sqlite/parser_antlr.go
+++ b/sql/parser/sqlite/parser_antlr.go
@@ -76,6 +76,9 @@ func (parser *Parser) ParseString(queryString string) ([]query.Statement, error)
 	}
 
 	v := tree.Accept(newANTLRVisitor())
+	if err, ok := v.(error); ok {
+		return nil, fmt.Errorf("%s (%w)", queryString, err)
+	}
 	stmtList, ok := v.(query.StatementList)
 	if !ok {
 		return nil, fmt.Errorf("failed to parse query: %s", queryString)
diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index af451cb..c99753e 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -15,6 +15,8 @@
 package sqlite
 
 import (
+	"fmt"
+
 	"github.com/cybergarage/go-safecast/safecast"
 	"github.com/cybergarage/go-sqlparser/sql/fn"
 	"github.com/cybergarage/go-sqlparser/sql/parser/sqlite/antlr"
@@ -35,24 +37,32 @@ func newANTLRVisitor() *antlrVisitor {
 }
 
 func (v *antlrVisitor) VisitParse(ctx *antlr.ParseContext) interface{} {
-	return newStatementListWith(ctx.AllSql_stmt_list())
+	stmtList, err := newStatementListWith(ctx.AllSql_stmt_list())
+	if err != nil {
+		return err
+	}
+	return stmtList
 }
 
-func newStatementListWith(ctxList []antlr.ISql_stmt_listContext) query.StatementList {
+func newStatementListWith(ctxList []antlr.ISql_stmt_listContext) (query.StatementList, error) {
 	stmtList := query.NewStatementList()
 	for _, ctx := range ctxList {
 		for _, sqlStmt := range ctx.AllSql_stmt() {
 			stmt := newStatementWith(sqlStmt)
 			if stmt == nil {
-				continue
+				return nil, fmt.Errorf("statement (%s) %w", sqlStmt.GetText(), query.ErrNotSupported)
 			}
 			stmtList = append(stmtList, stmt)
 		}
 	}
-	return stmtList
+	return stmtList, nil
 }
 
 func newStatementWith(ctx antlr.ISql_stmtContext) query.Statement {
+	// EXPLAIN must not be executed as the explained statement.
+	if ctx.EXPLAIN_() != nil {
+		return nil
+	}
 	// DDL (Data Definition Language) - CREATE
 	if stmt := ctx.Create_database_stmt(); stmt != nil {
 		return newCreateDatabaseWith(stmt)
-- 
2.43.0


From 79ba519527f973fb0c9f31518a974218f69ff0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:00 +0000
Subject: [PATCH 04/83] fix: reject unsupported insert, update and index forms
 instead of panicking

---
 sql/parser/sqlite/parser_antlr_visitor.go | 24 +++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index c99753e..c529631 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -146,7 +146,11 @@ func newCreateTableWith(ctx antlr.ICreate_table_stmtContext) query.CreateTable {
 	if ctx.If_not_exists() != nil {
 		ifNotExists = query.NewIfNotExistsWith(true)
 	}
-	return query.NewCreateTableWith(newTableSchemaWith(ctx), ifNotExists)
+	schema := newTableSchemaWith(ctx)
+	if schema == nil {
+		return nil
+	}
+	return query.NewCreateTableWith(schema, ifNotExists)
 }
 
 func newCreateIndexWith(ctx antlr.ICreate_index_stmtContext) query.CreateIndex {
@@ -154,7 +158,11 @@ func newCreateIndexWith(ctx antlr.ICreate_index_stmtContext) query.CreateIndex {
 	if ctx.If_not_exists() != nil {
 		ifNotExists = query.NewIfNotExistsWith(true)
 	}
-	return query.NewCreateIndexWith(newIndexSchemaWith(ctx), ifNotExists)
+	schema := newIndexSchemaWith(ctx)
+	if schema == nil {
+		return nil
+	}
+	return query.NewCreateIndexWith(schema, ifNotExists)
 }
 
 func newDropDatabaseWith(ctx antlr.IDrop_database_stmtContext) query.DropDatabase {
@@ -337,6 +345,9 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) query.Schema {
 		if primaryDef := tblConst.Primary_key_def(); primaryDef != nil {
 			indexColums := query.NewColumns()
 			for _, columDef := range primaryDef.AllIndexed_column() {
+				if columDef.Column_name() == nil {
+					return nil // Expression keys are not supported
+				}
 				column := newIndexedColumnWith(columDef)
 				indexColums = append(indexColums, column)
 			}
@@ -354,6 +365,9 @@ func newIndexSchemaWith(ctx antlr.ICreate_index_stmtContext) query.Schema {
 	indexes := query.NewIndexes()
 	indexColumns := query.NewColumns()
 	for _, columDef := range ctx.AllIndexed_column() {
+		if columDef.Column_name() == nil {
+			return nil // Expression indexes are not supported
+		}
 		columDef := strings.UnEscapeNameString(columDef.Column_name().GetText())
 		indexColumn := query.NewColumnWithName(columDef)
 		indexColumns = append(indexColumns, indexColumn)
@@ -431,6 +445,9 @@ func newIndexedColumnWith(ctx antlr.IIndexed_columnContext) query.Column {
 }
 
 func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
+	if ctx.Values_clause() == nil {
+		return nil // INSERT ... SELECT and INSERT ... DEFAULT VALUES are not supported
+	}
 	tblName := strings.UnEscapeNameString(ctx.Table_name().GetText())
 	tbl := query.NewTableWith(tblName)
 	names := []string{}
@@ -471,6 +488,9 @@ func newUpdateWith(ctx antlr.IUpdate_stmtContext) query.Update {
 	tbl := query.NewTableWith(ctx.GetTable().GetText())
 	columns := query.NewColumns()
 	for _, set := range ctx.AllUpdate_column_set() {
+		if set.Column_name() == nil {
+			return nil // SET (column, ...) = expr is not supported
+		}
 		name := set.Column_name().GetText()
 		opts := []query.ColumnOption{
 			query.WithColumnName(name),
-- 
2.43.0


From b783c4a6bf89682fd708ade6ff481dfe09dab698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:01 +0000
Subject: [PATCH 05/83] fix: keep WHERE conditions other than simple
 comparisons instead of dropping them

---
 sql/parser/sqlite/parser_antlr_visitor.go |  7 +++++-
 sql/query/expr_raw.go                     | 30 +++++++++++++++++++++++
 2 files changed, 36 insertions(+), 1 deletion(-)
 create mode 100644 sql/query/expr_raw.go

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index c529631..de00bbb 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -731,7 +731,12 @@ func newExprWith(ctx antlr.IExprContext) query.Expr {
 		return newCmpExpr(cmpExpr)
 	}
 
-	return nil
+	return query.NewRawExprWith(newSourceTextWith(ctx))
+}
+
+// newSourceTextWith returns the source text of the specified expression.
+func newSourceTextWith(ctx antlr.IExprContext) string {
+	return ctx.GetParser().GetTokenStream().GetTextFromRuleContext(ctx)
 }
 
 func newUseWith(ctx antlr.IUse_stmtContext) query.Use {
diff --git a/sql/query/expr_raw.go b/sql/query/expr_raw.go
new file mode 100644
index 0000000..ca59207
--- /dev/null
+++ b/sql/query/expr_raw.go
@@ -0,0 +1,30 @@
+// Copyright (C) 2022 The go-sqlparser Authors All rights reserved.
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//    http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+package query
+
+// RawExpr represents an expression which is kept as its source text.
+type RawExpr struct {
+	text string
+}
+
+// NewRawExprWith returns a new RawExpr instance with the specified source text.
+func NewRawExprWith(text string) *RawExpr {
+	return &RawExpr{text: text}
+}
+
+// String returns the expression string representation.
+func (expr *RawExpr) String() string {
+	return expr.text
+}
-- 
2.43.0


From f8b861a55d7bef94a15086e0b4d94dfd511e1bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:41 +0000
Subject: [PATCH 06/83] fix: keep every inserted value with its own column

---
 sql/parser/sqlite/parser_antlr_visitor.go | 12 ++++++++++++
 sql/query/insert.go                       |  6 ++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index de00bbb..05b3b0d 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -454,6 +454,10 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
 	for _, name := range ctx.AllColumn_name() {
 		names = append(names, name.GetText())
 	}
+	if len(names) == 0 {
+		// INSERT without a column list has only positional values.
+		names = make([]string, len(ctx.Values_clause().Value_row(0).AllExpr()))
+	}
 	values := []query.Columns{}
 	for _, row := range ctx.Values_clause().AllValue_row() {
 		columns := query.NewColumns()
@@ -477,8 +481,16 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
 							query.WithColumnLiteral(newBindParamWith(v))))
 					valueIdx++
 				}
+			} else if valueIdx < len(names) {
+				columns = append(columns,
+					query.NewColumnWithOptions(query.WithColumnName(names[valueIdx]),
+						query.WithColumnLiteral(query.NewLiteralWith(newSourceTextWith(expr)))))
+				valueIdx++
 			}
 		}
+		if len(columns) != len(row.AllExpr()) || len(columns) < len(names) {
+			return nil // The number of values does not match the number of columns
+		}
 		values = append(values, columns)
 	}
 	return query.NewInsertWith(tbl, values)
diff --git a/sql/query/insert.go b/sql/query/insert.go
index 5a1d34e..3e13eef 100644
--- a/sql/query/insert.go
+++ b/sql/query/insert.go
@@ -69,9 +69,11 @@ func (stmt *insertStmt) String() string {
 		"INSERT",
 		"INTO",
 		stmt.FullTableName(),
-		"("+stmt.Columns().NameString()+")",
-		"VALUES",
 	)
+	if columns := stmt.Columns(); len(columns) == 0 || 0 < len(columns[0].Name()) {
+		strs = append(strs, "("+columns.NameString()+")")
+	}
+	strs = append(strs, "VALUES")
 	values := stmt.Values()
 	valuesStrs := make([]string, 0, len(values))
 	for _, values := range values {
-- 
2.43.0


From 53bc3f2fc8b8f6c4daaf16570fa3ef6a9e59366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:08 +0000
Subject: [PATCH 07/83] fix: keep updated values other than literals and simple
 arithmetic

---
 sql/parser/sqlite/parser_antlr_visitor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 05b3b0d..5f65eef 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -521,6 +521,8 @@ func newUpdateWith(ctx antlr.IUpdate_stmtContext) query.Update {
 				opts = append(opts, query.WithColumnFunctionExecutor(executor))
 				opts = append(opts, query.WithColumnArguments(args))
 			}
+		} else {
+			opts = append(opts, query.WithColumnLiteral(query.NewLiteralWith(newSourceTextWith(set.Expr()))))
 		}
 		columns = append(columns, query.NewColumnWithOptions(opts...))
 	}
-- 
2.43.0


From 1bae5997f28bf035d0d3e1684b5af149eb0bb7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:08 +0000
Subject: [PATCH 08/83] fix: keep ORDER BY terms without an explicit direction
 as ascending

---
 sql/parser/sqlite/parser_antlr_visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 5f65eef..6e71568 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -574,7 +574,7 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 			orders := []query.Order{}
 			for _, order := range orderBy {
 				orderColumn := order.Expr().GetText()
-				orderType := query.OrderNone
+				orderType := query.OrderAsc
 				if orderSpec := order.Asc_desc(); orderSpec != nil {
 					orderType = query.NewOrderTypeWith(orderSpec.GetText())
 				}
-- 
2.43.0


From 506fb67d5035bba29f3f78a21f6e8491c97e0d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:09 +0000
Subject: [PATCH 09/83] fix: read LIMIT offset, count in this order

---
 sql/parser/sqlite/parser_antlr_visitor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 6e71568..2bad7c6 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -603,6 +603,9 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 				if err != nil {
 					offset = 0
 				}
+				if ctx.COMMA() != nil { // LIMIT offset, limit
+					limit, offset = offset, limit
+				}
 			}
 			opts = append(opts, query.WithSelectLimit(offset, limit))
 		}
-- 
2.43.0


From 06e25a0142987461ef9d0b7335202255d49eed1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:10 +0000
Subject: [PATCH 10/83] fix: print GROUP BY before ORDER BY and LIMIT

---
 sql/query/select.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sql/query/select.go b/sql/query/select.go
index 04e2f67..4708e57 100644
--- a/sql/query/select.go
+++ b/sql/query/select.go
@@ -137,6 +137,10 @@ func (stmt *selectStmt) String() string {
 	if stmt.HasConditions() {
 		strs = append(strs, "WHERE", stmt.Condition.String())
 	}
+	groupBy := stmt.groupBy.String()
+	if 0 < len(groupBy) {
+		strs = append(strs, groupBy)
+	}
 	orderBy := stmt.orderBy.String()
 	if 0 < len(orderBy) {
 		strs = append(strs, orderBy)
@@ -145,9 +149,5 @@ func (stmt *selectStmt) String() string {
 	if 0 < len(limit) {
 		strs = append(strs, limit)
 	}
-	groupBy := stmt.groupBy.String()
-	if 0 < len(groupBy) {
-		strs = append(strs, groupBy)
-	}
 	return strings.JoinWithSpace(strs)
 }
-- 
2.43.0


From d5ba627c5f87119f105d44e0ad89497e8df80a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:11 +0000
Subject: [PATCH 11/83] fix: drop the column named in ALTER TABLE ... DROP
 COLUMN

---
 sql/parser/sqlite/parser_antlr_visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 2bad7c6..b6ef17c 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -235,7 +235,7 @@ func newAlterTableWith(ctx antlr.IAlter_table_stmtContext) query.AlterTable {
 		opts = append(opts, query.WithAlterTableAddIndex(index))
 	}
 	if ctx := ctx.Drop_table_column(); ctx != nil {
-		column := query.NewColumnWithOptions(query.WithColumnName(ctx.GetText()))
+		column := query.NewColumnWithOptions(query.WithColumnName(ctx.Column_name().GetText()))
 		opts = append(opts, query.WithAlterTableDropColumn(column))
 	}
 	tblName := ctx.GetTarget_table_name().GetText()
-- 
2.43.0


From 90e6e8f3ad4e9d26ee51f560f1a10ce523808a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:12 +0000
Subject: [PATCH 12/83] fix: keep the schema qualifier of INSERT, CREATE TABLE
 and DROP TABLE targets

---
 sql/parser/sqlite/parser_antlr_visitor.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index b6ef17c..1ed690b 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -180,9 +180,13 @@ func newDropTableWith(ctx antlr.IDrop_table_stmtContext) query.DropTable {
 		ifExists = query.NewIfExistsWith(true)
 	}
 	tbls := query.NewTables()
-	for _, tbl := range ctx.AllTable_name() {
+	for n, tbl := range ctx.AllTable_name() {
 		tblName := strings.UnEscapeNameString(tbl.GetText())
-		tbls = append(tbls, query.NewTableWith(tblName))
+		tblOpts := []query.TableOption{}
+		if schema := ctx.Schema_name(); schema != nil && n == 0 {
+			tblOpts = append(tblOpts, query.WithTableSchema(strings.UnEscapeNameString(schema.GetText())))
+		}
+		tbls = append(tbls, query.NewTableWith(tblName, tblOpts...))
 	}
 	return query.NewDropTableWith(tbls, ifExists)
 }
@@ -309,6 +313,9 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) query.Schema {
 	}
 
 	tblName := strings.UnEscapeNameString(ctx.Table_name().GetText())
+	if schema := ctx.Schema_name(); schema != nil {
+		tblName = strings.UnEscapeNameString(schema.GetText()) + query.TableNameSep + tblName
+	}
 	columns := query.NewColumns()
 	indexes := query.NewIndexes()
 
@@ -449,7 +456,11 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
 		return nil // INSERT ... SELECT and INSERT ... DEFAULT VALUES are not supported
 	}
 	tblName := strings.UnEscapeNameString(ctx.Table_name().GetText())
-	tbl := query.NewTableWith(tblName)
+	tblOpts := []query.TableOption{}
+	if schema := ctx.Schema_name(); schema != nil {
+		tblOpts = append(tblOpts, query.WithTableSchema(strings.UnEscapeNameString(schema.GetText())))
+	}
+	tbl := query.NewTableWith(tblName, tblOpts...)
 	names := []string{}
 	for _, name := range ctx.AllColumn_name() {
 		names = append(names, name.GetText())
-- 
2.43.0


From 66ffd6acea4cfe2c760caf6d089e96e98e7fdb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:39 +0000
Subject: [PATCH 13/83] fix: do not merge aliases and index hints into column
 and table names

---
 sql/parser/sqlite/parser_antlr_visitor.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 1ed690b..0118949 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -508,7 +508,7 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
 }
 
 func newUpdateWith(ctx antlr.IUpdate_stmtContext) query.Update {
-	tbl := query.NewTableWith(ctx.GetTable().GetText())
+	tbl := query.NewTableWith(newTableNameWith(ctx.GetTable()))
 	columns := query.NewColumns()
 	for _, set := range ctx.AllUpdate_column_set() {
 		if set.Column_name() == nil {
@@ -563,7 +563,7 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 				if schema := tbl.Schema_name(); schema != nil {
 					ops = append(ops, query.WithTableSchema(schema.GetText()))
 				}
-				tbls = append(tbls, query.NewTableWith(tbl.GetText(), ops...))
+				tbls = append(tbls, query.NewTableWith(newTableNameWith(tbl), ops...))
 			}
 		}
 		if w := parentQuery.GetWhereExpr(); w != nil {
@@ -625,6 +625,18 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 	return query.NewSelectWith(sels, tbls, where, opts...)
 }
 
+// newTableNameWith returns the table name with its schema qualifier, without any alias or index hint.
+func newTableNameWith(ctx interface {
+	Schema_name() antlr.ISchema_nameContext
+	Table_name() antlr.ITable_nameContext
+}) string {
+	tblName := ctx.Table_name().GetText()
+	if schema := ctx.Schema_name(); schema != nil {
+		return schema.GetText() + query.TableNameSep + tblName
+	}
+	return tblName
+}
+
 func newSelectorFrom(ctx antlr.IResult_columnContext) (query.Selector, error) {
 	expr := ctx.Expr()
 	if expr != nil {
@@ -642,12 +654,16 @@ func newSelectorFrom(ctx antlr.IResult_columnContext) (query.Selector, error) {
 				fn.WithFunctionArguments(args...),
 			), nil
 		}
+		if expr.Column_name() == nil {
+			return query.NewColumnWithOptions(query.WithColumnName(newSourceTextWith(expr))), nil
+		}
+		return query.NewColumnWithOptions(query.WithColumnName(expr.GetText())), nil
 	}
 	return query.NewColumnWithOptions(query.WithColumnName(ctx.GetText())), nil
 }
 
 func newDeleteWith(ctx antlr.IDelete_stmtContext) query.Delete {
-	tbl := query.NewTableWith(ctx.GetTable().GetText())
+	tbl := query.NewTableWith(newTableNameWith(ctx.GetTable()))
 	where := query.NewCondition()
 	if w := ctx.GetWhereExpr(); w != nil {
 		where = query.NewConditionWith(newExprWith(w))
-- 
2.43.0


From 21cfadc8c47e066ec11ca1ca7986851550dd28b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:08 +0000
Subject: [PATCH 14/83] fix: keep DISTINCT of SELECT statements

---
 sql/parser/sqlite/parser_antlr_visitor.go |  3 +++
 sql/query/select.go                       | 25 ++++++++++++++++++++---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 0118949..6e5210c 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -550,6 +550,9 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 	opts := []query.SelectOption{}
 	var topExpr query.Expr
 	if parentQuery := ctx.GetParentQuery(); parentQuery != nil {
+		if parentQuery.DISTINCT_() != nil {
+			opts = append(opts, query.WithSelectDistinct())
+		}
 		for _, col := range parentQuery.AllResult_column() {
 			sel, err := newSelectorFrom(col)
 			if err != nil {
diff --git a/sql/query/select.go b/sql/query/select.go
index 4708e57..297d3a3 100644
--- a/sql/query/select.go
+++ b/sql/query/select.go
@@ -36,6 +36,8 @@ type Select interface {
 	OrderBy() OrderBy
 	// Where returns the condition.
 	Where() Condition
+	// IsDistinct returns true if duplicate rows are excluded.
+	IsDistinct() bool
 	// SelectHelper is an interface for "SELECT" statement helpers.
 	SelectHelper
 }
@@ -45,9 +47,10 @@ type selectStmt struct {
 	TableList
 	selectors Selectors
 	Condition
-	orderBy OrderBy
-	limit   Limit
-	groupBy GroupBy
+	orderBy  OrderBy
+	limit    Limit
+	groupBy  GroupBy
+	distinct bool
 }
 
 // NewSelectWith returns a new selectStmt statement instance with the specified parameters.
@@ -59,6 +62,7 @@ func NewSelectWith(selectors Selectors, tbls TableList, w Condition, opts ...Sel
 		orderBy:   NewOrderBy(),
 		limit:     NewLimit(),
 		groupBy:   NewGroupBy(),
+		distinct:  false,
 	}
 	for _, opt := range opts {
 		opt(stmt)
@@ -87,6 +91,13 @@ func WithSelectGroupBy(name string) func(*selectStmt) {
 	}
 }
 
+// WithSelectDistinct returns a select option to exclude duplicate rows.
+func WithSelectDistinct() func(*selectStmt) {
+	return func(stmt *selectStmt) {
+		stmt.distinct = true
+	}
+}
+
 // StatementType returns the statement type.
 func (stmt *selectStmt) StatementType() StatementType {
 	return SelectStatement
@@ -128,6 +139,9 @@ func (stmt *selectStmt) String() string {
 	if 0 < len(stmt.selectors) {
 		selectorStr = stmt.selectors.String()
 	}
+	if stmt.distinct {
+		selectorStr = "DISTINCT " + selectorStr
+	}
 	strs := []string{
 		"SELECT",
 		selectorStr,
@@ -151,3 +165,8 @@ func (stmt *selectStmt) String() string {
 	}
 	return strings.JoinWithSpace(strs)
 }
+
+// IsDistinct returns true if duplicate rows are excluded.
+func (stmt *selectStmt) IsDistinct() bool {
+	return stmt.distinct
+}
-- 
2.43.0


From 4313f839407a92cec9df068031ebac123f18ded4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:36 +0000
Subject: [PATCH 15/83] fix: keep the precision and scale of DECIMAL(p, s)
 columns

---
 sql/query/column_def.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/sql/query/column_def.go b/sql/query/column_def.go
index c4f37c7..d862359 100644
--- a/sql/query/column_def.go
+++ b/sql/query/column_def.go
@@ -17,6 +17,7 @@ package query
 import (
 	"fmt"
 	"strconv"
+	std_strings "strings"
 
 	"github.com/cybergarage/go-sqlparser/sql/util/strings"
 )
@@ -38,6 +39,7 @@ type dataDef struct {
 	consts Constraint
 	Type   DataType
 	Length int
+	Scale  string
 }
 
 // NewDataDef returns a new DataType instance with the specified type and length.
@@ -46,6 +48,7 @@ func NewDataDef(t DataType, l int) ColumnDef {
 		consts: ConstraintNone,
 		Type:   t,
 		Length: l,
+		Scale:  "",
 	}
 }
 
@@ -55,6 +58,7 @@ func NewUnknownDataDef() ColumnDef {
 		consts: ConstraintNone,
 		Type:   UnknownData,
 		Length: 0,
+		Scale:  "",
 	}
 }
 
@@ -73,16 +77,28 @@ func NewDataDefFromStrings(strs []string) (ColumnDef, error) {
 	}
 	dt := strs[0]
 	dl := -1
+	scale := ""
 	if 4 <= len(strs) {
 		if strs[1] == "(" || strs[3] == ")" {
-			v, err := strconv.Atoi(strs[2])
+			size, s, _ := std_strings.Cut(strs[2], ",")
+			v, err := strconv.Atoi(size)
 			if err != nil {
 				return nil, newErrInvaidDataDef(strings.JoinWithSpace(strs))
 			}
 			dl = v
+			scale = std_strings.TrimSpace(s)
 		}
 	}
-	return NewDataDefFrom(dt, dl)
+	t, err := NewDataTypeFrom(dt)
+	if err != nil {
+		return nil, err
+	}
+	return &dataDef{
+		consts: ConstraintNone,
+		Type:   t,
+		Length: dl,
+		Scale:  scale,
+	}, nil
 }
 
 // Constraint returns the column constrains.
@@ -104,7 +120,11 @@ func (da *dataDef) DataTypeSize() int {
 func (da *dataDef) String() string {
 	s := da.Type.String()
 	if 0 < da.Length {
-		s += fmt.Sprintf("(%d)", da.Length)
+		if 0 < len(da.Scale) {
+			s += fmt.Sprintf("(%d, %s)", da.Length, da.Scale)
+		} else {
+			s += fmt.Sprintf("(%d)", da.Length)
+		}
 	}
 	return s
 }
-- 
2.43.0


From 2ff5e72dcf0188374a1e2abeec4780e88c521b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:37 +0000
Subject: [PATCH 16/83] fix: name the NAME data type

---
 sql/query/data_type.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sql/query/data_type.go b/sql/query/data_type.go
index 52f9ffc..c44084e 100644
--- a/sql/query/data_type.go
+++ b/sql/query/data_type.go
@@ -110,6 +110,7 @@ var dataTypeStrings = map[DataType]string{
 	SerialType:          "SERIAL",
 	BigSerialType:       "BIGSERIAL",
 	SmallSerialType:     "SMALLSERIAL",
+	NameType:            "NAME",
 }
 
 // NewDataTypeFrom returns a data type from the specified value.
-- 
2.43.0


From 239b8b9c7cc03f218a068ecf55e3c302867b20cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:37 +0000
Subject: [PATCH 17/83] fix: report functions of selectors only when there is
 one

---
 sql/query/selectors_helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/query/selectors_helper.go b/sql/query/selectors_helper.go
index 44bdf03..889cf7f 100644
--- a/sql/query/selectors_helper.go
+++ b/sql/query/selectors_helper.go
@@ -34,7 +34,7 @@ func (selectors Selectors) IsAsterisk() bool {
 func (selectors Selectors) HasFunction() bool {
 	for _, selector := range selectors {
 		_, ok := selector.Function()
-		if !ok {
+		if ok {
 			return true
 		}
 	}
-- 
2.43.0


From 69f8879bddadd125ad1647fc7de126ddc57c7de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:38 +0000
Subject: [PATCH 18/83] fix: drop the named column or index of a schema instead
 of another one

---
 sql/query/schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sql/query/schema.go b/sql/query/schema.go
index 6b9451a..9530b78 100644
--- a/sql/query/schema.go
+++ b/sql/query/schema.go
@@ -178,7 +178,7 @@ func (schema *schema) AddColumn(column Column) error {
 // DropColumn drops a column by the specified name.
 func (schema *schema) DropColumn(name string) error {
 	for n, column := range schema.columns {
-		if strings.EqualFold(column.Name(), name) {
+		if !strings.EqualFold(column.Name(), name) {
 			continue
 		}
 		schema.columns = append(schema.columns[:n], schema.columns[n+1:]...)
@@ -196,7 +196,7 @@ func (schema *schema) AddIndex(index Index) error {
 // DropIndex drops an index by the specified name.
 func (schema *schema) DropIndex(name string) error {
 	for n, index := range schema.indexes {
-		if strings.EqualFold(index.Name(), name) {
+		if !strings.EqualFold(index.Name(), name) {
 			continue
 		}
 		schema.indexes = append(schema.indexes[:n], schema.indexes[n+1:]...)
-- 
2.43.0


From 0210cc45d4a7f99a3c6be5f1d322e5398aae105a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:39 +0000
Subject: [PATCH 19/83] fix: report negative column indexes as out of range

---
 sql/query/columns.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/query/columns.go b/sql/query/columns.go
index 84603be..b3861dd 100644
--- a/sql/query/columns.go
+++ b/sql/query/columns.go
@@ -61,7 +61,7 @@ func (columns Columns) Selectors() Selectors {
 
 // ColumnAt returns a column by the specified index.
 func (columns Columns) ColumnAt(n int) (Column, error) {
-	if len(columns) <= n {
+	if n < 0 || len(columns) <= n {
 		return nil, newErrColumnIndexOutOfRange(n)
 	}
 	return columns[n], nil
-- 
2.43.0


From a70fe5ec142f0cb2caa69b868af2434fd5f68e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:40 +0000
Subject: [PATCH 20/83] fix: copy the value and the function of a column
 instead of sharing or dropping them

---
 sql/query/column.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/sql/query/column.go b/sql/query/column.go
index 6a7018b..8c42813 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -176,6 +176,9 @@ func (col *column) IsName(name string) bool {
 
 // SetValue sets a value.
 func (col *column) SetValue(v any) error {
+	if col.Literal == nil {
+		col.Literal = NewLiteral()
+	}
 	col.Literal.SetValue(v)
 	return col.SetDefinition(col.ColumnDef)
 }
@@ -237,11 +240,17 @@ func (col *column) SetDefinition(dataDef ColumnDef) error {
 
 // Copy returns a copy of the column.
 func (col *column) Copy() Column {
-	return NewColumnWithOptions(
-		WithColumnName(col.name),
-		WithColumnData(col.ColumnDef),
-		WithColumnLiteral(col.Literal),
-	)
+	cp := &column{
+		name:      col.name,
+		ColumnDef: col.ColumnDef,
+		Literal:   nil,
+		fn:        col.fn,
+		args:      fn.NewArgumentsWith(col.args...),
+	}
+	if col.Literal != nil {
+		cp.Literal = NewLiteralWith(col.v, WithLiteralType(col.t))
+	}
+	return cp
 }
 
 // String returns the string representation.
-- 
2.43.0


From 8c968f8de7d70429af87c1d372019dab1f6dbbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:17 +0000
Subject: [PATCH 21/83] fix: tell place holders from quoted question marks

---
 sql/query/literal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sql/query/literal.go b/sql/query/literal.go
index add7e82..51f59bf 100644
--- a/sql/query/literal.go
+++ b/sql/query/literal.go
@@ -88,6 +88,12 @@ func (lit *Literal) IsAsterisk() bool {
 
 // IsPlaceHolder returns true whether the literal is a place holder.
 func (lit *Literal) IsPlaceHolder() bool {
+	if lit == nil || lit.t == StringLiteral {
+		return false
+	}
+	if _, ok := lit.v.(BindParam); ok {
+		return true
+	}
 	return lit.Equal("?")
 }
 
-- 
2.43.0


From 93c157cf705a2069295da73b0e737712796bd646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:18 +0000
Subject: [PATCH 22/83] fix: do not panic on columns without a definition or a
 value

---
 sql/query/column.go  | 24 ++++++++++++++++++++++++
 sql/query/literal.go |  6 ++++++
 2 files changed, 30 insertions(+)

diff --git a/sql/query/column.go b/sql/query/column.go
index 8c42813..85d1f4a 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -271,6 +271,30 @@ func (col *column) Definition() ColumnDef {
 	return col.ColumnDef
 }
 
+// Constraint returns the column constrains.
+func (col *column) Constraint() Constraint {
+	if col.ColumnDef == nil {
+		return ConstraintNone
+	}
+	return col.ColumnDef.Constraint()
+}
+
+// DataType returns the column data type.
+func (col *column) DataType() DataType {
+	if col.ColumnDef == nil {
+		return UnknownData
+	}
+	return col.ColumnDef.DataType()
+}
+
+// DataTypeSize returns the column data type size.
+func (col *column) DataTypeSize() int {
+	if col.ColumnDef == nil {
+		return 0
+	}
+	return col.ColumnDef.DataTypeSize()
+}
+
 // UpdatorString returns the updator string representation.
 func (col *column) UpdatorString() string {
 	if fn, ok := col.Function(); ok {
diff --git a/sql/query/literal.go b/sql/query/literal.go
index 51f59bf..74ed5e6 100644
--- a/sql/query/literal.go
+++ b/sql/query/literal.go
@@ -105,6 +105,9 @@ func (lit *Literal) SetValue(v any) *Literal {
 
 // Value returns the literal value.
 func (lit *Literal) Value() any {
+	if lit == nil {
+		return nil
+	}
 	return lit.v
 }
 
@@ -116,6 +119,9 @@ func (lit *Literal) SetValueType(t LiteralType) *Literal {
 
 // ValueType returns the literal type.
 func (lit *Literal) ValueType() LiteralType {
+	if lit == nil {
+		return UnknownLiteral
+	}
 	return lit.t
 }
 
-- 
2.43.0


From 36e29b3284625f11a54eb92807df7811f1c2373d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:08 +0000
Subject: [PATCH 23/83] fix: report the asterisk selector as an asterisk

---
 sql/query/column.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sql/query/column.go b/sql/query/column.go
index 85d1f4a..1e207fc 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -271,6 +271,11 @@ func (col *column) Definition() ColumnDef {
 	return col.ColumnDef
 }
 
+// IsAsterisk returns true if the column is an asterisk.
+func (col *column) IsAsterisk() bool {
+	return col.name == Asterisk || col.Literal.IsAsterisk()
+}
+
 // Constraint returns the column constrains.
 func (col *column) Constraint() Constraint {
 	if col.ColumnDef == nil {
-- 
2.43.0


From 67dda9a857f72474a983ad268c6b05c861495846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:09 +0000
Subject: [PATCH 24/83] fix: classify function names case-insensitively

---
 sql/fn/func_impl.go | 2 +-
 sql/fn/type.go      | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/sql/fn/func_impl.go b/sql/fn/func_impl.go
index 4c13bf9..53ed012 100644
--- a/sql/fn/func_impl.go
+++ b/sql/fn/func_impl.go
@@ -99,7 +99,7 @@ func (fn *function) Name() string {
 
 // IsName returns true whether the function name is the specified one.
 func (fn *function) IsName(name string) bool {
-	return fn.name == name
+	return strings.EqualFold(fn.name, name)
 }
 
 // Type returns the function type.
diff --git a/sql/fn/type.go b/sql/fn/type.go
index 5286feb..c72e4e1 100644
--- a/sql/fn/type.go
+++ b/sql/fn/type.go
@@ -14,7 +14,10 @@
 
 package fn
 
-import "fmt"
+import (
+	"fmt"
+	"strings"
+)
 
 // FunctionType represents a function type.
 type FunctionType int
@@ -35,7 +38,7 @@ const (
 
 // NewFunctionTypeForName returns a FunctionType based on the function name.
 func NewFunctionTypeForName(name string) (FunctionType, error) {
-	switch name {
+	switch strings.ToUpper(name) {
 	case AbsFunctionName, FloorFunctionName, CeilFunctionName, RoundFunctionName, SqrtFunctionName, LogFunctionName, Log10FunctionName, ExpFunctionName, PowerFunctionName, ModFunctionName, SinFunctionName, CosFunctionName, TanFunctionName, RandFunctionName, PiFunctionName:
 		return MathFunction, nil
 	case SumFunctionName, AvgFunctionName, CountFunctionName, MaxFunctionName, MinFunctionName:
-- 
2.43.0


From efef1925e0187bf3367bcd74aecb6b45dc2a48ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:10 +0000
Subject: [PATCH 25/83] fix: do not run another function for a name which only
 shares a prefix

---
 sql/fn/aggr_func.go     | 4 ++++
 sql/fn/executor_func.go | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/sql/fn/aggr_func.go b/sql/fn/aggr_func.go
index a55bf99..b90aec9 100644
--- a/sql/fn/aggr_func.go
+++ b/sql/fn/aggr_func.go
@@ -40,6 +40,10 @@ func WithAggregatorGroupBys(groups ...GroupBy) AggregatorOption {
 // NewAggregatorForName creates an Aggregator instance for the specified function name.
 func NewAggregatorForName(name string, opts ...AggregatorOption) (Aggregator, error) {
 	upperName := strings.ToUpper(name)
+	baseName, _, _ := strings.Cut(upperName, "(")
+	if _, err := NewFunctionTypeForName(baseName); err != nil {
+		return nil, fmt.Errorf("%w aggregator: %s", ErrNotSupported, name)
+	}
 	switch {
 	case strings.HasPrefix(upperName, SumFunctionName):
 		return NewSum(opts...)
diff --git a/sql/fn/executor_func.go b/sql/fn/executor_func.go
index ad95c77..60dd5f0 100644
--- a/sql/fn/executor_func.go
+++ b/sql/fn/executor_func.go
@@ -21,6 +21,10 @@ import (
 // NewExecutorForName returns a function executor with the specified name.
 func NewExecutorForName(name string, opts ...ExecutorOption) (Executor, error) {
 	upperName := strings.ToUpper(name)
+	baseName, _, _ := strings.Cut(upperName, "(")
+	if _, err := NewFunctionTypeForName(baseName); err != nil {
+		return nil, NewErrNotSupportedFunction(name)
+	}
 	var ex Executor
 	switch {
 	// Math.
@@ -34,10 +38,10 @@ func NewExecutorForName(name string, opts ...ExecutorOption) (Executor, error) {
 		ex = NewRound(opts...)
 	case strings.HasPrefix(upperName, SqrtFunctionName):
 		ex = NewSqrt(opts...)
-	case strings.HasPrefix(upperName, LogFunctionName):
-		ex = NewLog(opts...)
 	case strings.HasPrefix(upperName, Log10FunctionName):
 		ex = NewLog10(opts...)
+	case strings.HasPrefix(upperName, LogFunctionName):
+		ex = NewLog(opts...)
 	case strings.HasPrefix(upperName, ExpFunctionName):
 		ex = NewExp(opts...)
 	case strings.HasPrefix(upperName, PowerFunctionName):
-- 
2.43.0


From ee7cd497f52e611858b844f9c804a13e34763b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:11 +0000
Subject: [PATCH 26/83] fix: do not take every name with a closing parenthesis
 for a registered function

---
 sql/fn/names.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/fn/names.go b/sql/fn/names.go
index 83a8021..2d2441b 100644
--- a/sql/fn/names.go
+++ b/sql/fn/names.go
@@ -117,7 +117,7 @@ func IsRegisteredFunction(name string) bool {
 					return true
 				}
 			}
-			if strings.HasPrefix(name, fn+"(") || strings.HasSuffix(name, ")") {
+			if strings.HasPrefix(name, fn+"(") || name == fn+")" {
 				return true
 			}
 		}
-- 
2.43.0


From 335bb12c572b0d9e77fd2fda3203298e21204324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:12 +0000
Subject: [PATCH 27/83] fix: return an error for a modulo by zero instead of
 panicking

---
 sql/fn/arith_func.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql/fn/arith_func.go b/sql/fn/arith_func.go
index dcdc182..f229768 100644
--- a/sql/fn/arith_func.go
+++ b/sql/fn/arith_func.go
@@ -85,6 +85,9 @@ func NewModOperator(opts ...ExecutorOption) Executor {
 	return NewArithFunctionWith(
 		ModOperatorID,
 		func(v1, v2 float64) (float64, error) {
+			if int(v2) == 0 {
+				return 0, newErrInvalidArguments(ModOperatorID, v1, v2)
+			}
 			return (float64(int(v1) % int(v2))), nil
 		},
 		opts...,
-- 
2.43.0


From 687bd3da2231c16af5c75e86c01f12d35042c35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:13 +0000
Subject: [PATCH 28/83] fix: accept zero as an argument of SQRT

---
 sql/fn/math_func.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/fn/math_func.go b/sql/fn/math_func.go
index c1d3cd5..832fb9b 100644
--- a/sql/fn/math_func.go
+++ b/sql/fn/math_func.go
@@ -86,7 +86,7 @@ func NewSqrt(opts ...ExecutorOption) Executor {
 				return nil, newErrInvalidArguments(SqrtFunctionName, args)
 			}
 			v := args[0]
-			if v <= 0 {
+			if v < 0 {
 				return nil, newErrNegativeValue(args)
 			}
 			return math.Sqrt(v), nil
-- 
2.43.0


From af05a743d6e445cd4e36f2a50e8fc76874fc3556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:14 +0000
Subject: [PATCH 29/83] fix: start MIN above every value

---
 sql/fn/min.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/fn/min.go b/sql/fn/min.go
index 922ef9d..2b48937 100644
--- a/sql/fn/min.go
+++ b/sql/fn/min.go
@@ -46,7 +46,7 @@ func NewMin(opts ...MinOption) (*Min, error) {
 		withAggrName("MIN"),
 		withAggrResetFunc(
 			func(aggr *aggrImpl) (float64, error) {
-				return math.MaxFloat64, nil
+				return math.Inf(1), nil
 			},
 		),
 		withAggrAggreateFunc(
-- 
2.43.0


From 20256eb50ee81eb0614e545ae3d0ea89d45cbd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:15 +0000
Subject: [PATCH 30/83] fix: keep groups with different keys apart

---
 sql/fn/groupby.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sql/fn/groupby.go b/sql/fn/groupby.go
index 9f9fe7f..9b29d80 100644
--- a/sql/fn/groupby.go
+++ b/sql/fn/groupby.go
@@ -49,14 +49,19 @@ func NewGroupBySetKey(groupBys []GroupBy, groupKeys []any) (GroupBySet, error) {
 	if len(groupBys) != len(groupKeys) {
 		return "", fmt.Errorf("groupBys and groupKeys must have the same length: %d != %d", len(groupBys), len(groupKeys))
 	}
+	escaper := strings.NewReplacer(`\`, `\\`, groupByDelimiter, `\`+groupByDelimiter)
 	groupBySet := []GroupBy{}
 	for _, groupKey := range groupKeys {
+		if groupKey == nil {
+			groupBySet = append(groupBySet, NewGroupBy(`\N`))
+			continue
+		}
 		var groupKeyStr string
 		err := safecast.ToString(groupKey, &groupKeyStr)
 		if err != nil {
 			return "", err
 		}
-		groupBySet = append(groupBySet, NewGroupBy(groupKeyStr))
+		groupBySet = append(groupBySet, NewGroupBy(escaper.Replace(groupKeyStr)))
 	}
 	return NewGroupBySet(groupBySet...), nil
 }
-- 
2.43.0


From fef8108187799bc9c928267da1e6154710ffc067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:16 +0000
Subject: [PATCH 31/83] fix: aggregate rows given as maps by their groups

---
 sql/fn/aggr_impl.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index b3d71c6..4b7cfb3 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -282,6 +282,14 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 // AggregateMap aggregates a map of data using the aggregator.
 func (aggr *aggrImpl) AggregateMap(m map[string]any) error {
 	row := make([]any, 0, len(aggr.columns))
+	groupBys, _ := aggr.GroupBys()
+	for _, groupBy := range groupBys {
+		v, ok := m[groupBy]
+		if !ok {
+			return fmt.Errorf("column (%s) %w in map", groupBy, ErrNotFound)
+		}
+		row = append(row, v)
+	}
 	for _, arg := range aggr.args {
 		var v any
 		var ok bool
-- 
2.43.0


From 8de6bc969f6b17fa210e0d00ca57c2db442039d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:17 +0000
Subject: [PATCH 32/83] fix: combine the results of an aggregator set group by
 group

---
 sql/fn/aggr_impl.go |  1 +
 sql/fn/aggr_set.go  | 10 +++++-----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index 4b7cfb3..55256dc 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -342,6 +342,7 @@ func (aggr *aggrImpl) Finalize(opts ...any) (ResultSet, error) {
 		for groupSetKey := range aggr.groupAggrs {
 			groupSetKeys = append(groupSetKeys, groupSetKey)
 		}
+		sort.Strings(groupSetKeys)
 
 		orderByAscFunc := func(i, j int) bool {
 			groupSetKeyiSlice := aggr.groupKeys[groupSetKeys[i]]
diff --git a/sql/fn/aggr_set.go b/sql/fn/aggr_set.go
index 4608a1e..5b57410 100644
--- a/sql/fn/aggr_set.go
+++ b/sql/fn/aggr_set.go
@@ -79,8 +79,9 @@ func (aggrSet *AggregatorSet) Finalize() (ResultSet, error) {
 		case 0:
 			columns = append(columns, resultSet.Columns()...)
 		default:
-			// Skip the first column as it is already included
-			columns = append(columns, resultSet.Columns()[1:]...)
+			// Skip the grouping columns as they are already included
+			groupBys, _ := (*aggrSet)[n].GroupBys()
+			columns = append(columns, resultSet.Columns()[len(groupBys):]...)
 		}
 	}
 
@@ -103,10 +104,9 @@ func (aggrSet *AggregatorSet) Finalize() (ResultSet, error) {
 				switch len(row) {
 				case 0:
 					return nil, fmt.Errorf("row %d is empty in result set %d", rowNo, resultSetNo)
-				case 1:
-					rows[rowNo] = append(rows[rowNo], row[0])
 				default:
-					rows[rowNo] = append(rows[rowNo], row[1:]...) // Skip the first grouping column
+					groupBys, _ := (*aggrSet)[resultSetNo].GroupBys()
+					rows[rowNo] = append(rows[rowNo], row[len(groupBys):]...) // Skip the grouping columns
 				}
 			}
 			rowNo++
-- 
2.43.0


From 0a352431c5f3fba49ba6712d294ad3779fb9e56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:58 +0000
Subject: [PATCH 33/83] fix: count values of any type

---
 sql/fn/aggr_impl.go | 13 +++++++++++++
 sql/fn/count.go     |  1 +
 2 files changed, 14 insertions(+)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index 55256dc..0856a5c 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -41,6 +41,7 @@ type aggrImpl struct {
 	groupKeys   map[GroupBySet][]any
 	groupAggrs  map[GroupBySet][]float64
 	groupCounts map[GroupBySet]int
+	anyValue    bool
 	resetFunc   AggrResetFunc
 	aggFunc     AggrAggregateFunc
 	finalFunc   AggrFinalizeFunc
@@ -62,6 +63,7 @@ func newAggr() *aggrImpl {
 		groupKeys:   make(map[GroupBySet][]any),
 		groupAggrs:  make(map[GroupBySet][]float64),
 		groupCounts: make(map[GroupBySet]int),
+		anyValue:    false,
 		resetFunc:   nil,
 		aggFunc:     nil,
 		finalFunc:   nil,
@@ -112,6 +114,14 @@ func withAggrFinalizeFunc(finalFunc AggrFinalizeFunc) aggrOption {
 	}
 }
 
+// withAggrAnyValue accepts any value including the non-numeric values.
+func withAggrAnyValue() aggrOption {
+	return func(aggr *aggrImpl) error {
+		aggr.anyValue = true
+		return nil
+	}
+}
+
 // withAggrGroupBys sets the group by column for the Aggr aggregator.
 func withAggrGroupBys(groups ...GroupBy) aggrOption {
 	return func(aggr *aggrImpl) error {
@@ -217,6 +227,9 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 	}
 
 	toFloat64 := func(v any) (float64, error) {
+		if aggr.anyValue {
+			return 0, nil
+		}
 		switch v := v.(type) {
 		case nil:
 			return 0, nil
diff --git a/sql/fn/count.go b/sql/fn/count.go
index 928a334..8956ce9 100644
--- a/sql/fn/count.go
+++ b/sql/fn/count.go
@@ -40,6 +40,7 @@ func NewCount(opts ...CountOption) (*Count, error) {
 
 	opts = append(opts,
 		withAggrName("COUNT"),
+		withAggrAnyValue(),
 		withAggrResetFunc(
 			func(aggr *aggrImpl) (float64, error) {
 				return 0, nil
-- 
2.43.0


From 3ae663221f6fbe69fa52a3bf596c9faf2cfadeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:59 +0000
Subject: [PATCH 34/83] fix: do not aggregate a part of an invalid row or keep
 a group for it

---
 sql/fn/aggr_impl.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index 0856a5c..3381faf 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -243,9 +243,17 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 	}
 
 	groupBys, isGrouping := aggr.GroupBys()
+
+	// Validate all values before aggregating the row
+	for n, rv := range row[len(groupBys):] {
+		if _, err := toFloat64(rv); err != nil {
+			return fmt.Errorf("[%d] %w row : %w", n, ErrInvalid, err)
+		}
+	}
+
 	if isGrouping {
 		groupKeysCnt := len(groupBys)
-		groupKeys := row[:groupKeysCnt]
+		groupKeys := append([]any{}, row[:groupKeysCnt]...)
 		groupSetKey, err := NewGroupBySetKey(groupBys, groupKeys)
 		if err != nil {
 			return err
-- 
2.43.0


From 37fe16e039fe2a2f2c404892cab562f7ce40a6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:43 +0000
Subject: [PATCH 35/83] fix: leave NULL values out of the aggregates

---
 sql/fn/aggr_impl.go | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index 3381faf..8b6348b 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -35,12 +35,12 @@ type aggrImpl struct {
 	args        []string
 	columns     []string
 	aggrs       []float64
-	counts      int
+	counts      []int
 	groupBys    []GroupBy
 	groupBySet  GroupBySet
 	groupKeys   map[GroupBySet][]any
 	groupAggrs  map[GroupBySet][]float64
-	groupCounts map[GroupBySet]int
+	groupCounts map[GroupBySet][]int
 	anyValue    bool
 	resetFunc   AggrResetFunc
 	aggFunc     AggrAggregateFunc
@@ -59,10 +59,10 @@ func newAggr() *aggrImpl {
 		groupBys:    []GroupBy{},
 		groupBySet:  GroupBySet(""),
 		aggrs:       make([]float64, 0),
-		counts:      0,
+		counts:      make([]int, 0),
 		groupKeys:   make(map[GroupBySet][]any),
 		groupAggrs:  make(map[GroupBySet][]float64),
-		groupCounts: make(map[GroupBySet]int),
+		groupCounts: make(map[GroupBySet][]int),
 		anyValue:    false,
 		resetFunc:   nil,
 		aggFunc:     nil,
@@ -211,10 +211,10 @@ func (aggr *aggrImpl) Reset(opts ...any) error {
 		aggr.aggrs[n] = nv
 	}
 
-	aggr.counts = 0
+	aggr.counts = make([]int, len(aggr.columns))
 
 	aggr.groupAggrs = make(map[GroupBySet][]float64)
-	aggr.groupCounts = make(map[GroupBySet]int)
+	aggr.groupCounts = make(map[GroupBySet][]int)
 
 	return nil
 }
@@ -242,6 +242,11 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 		}
 	}
 
+	// isNull returns true if the value of the specified argument is not aggregated.
+	isNull := func(n int, v any) bool {
+		return v == nil && (len(aggr.args) <= n || aggr.args[n] != Asterisk)
+	}
+
 	groupBys, isGrouping := aggr.GroupBys()
 
 	// Validate all values before aggregating the row
@@ -260,7 +265,7 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 		}
 		if _, ok := aggr.groupAggrs[groupSetKey]; !ok {
 			aggr.groupKeys[groupSetKey] = groupKeys
-			aggr.groupCounts[groupSetKey] = 0
+			aggr.groupCounts[groupSetKey] = make([]int, (len(aggr.columns) - groupKeysCnt))
 			aggr.groupAggrs[groupSetKey] = make([]float64, (len(aggr.columns) - groupKeysCnt))
 			for n := range aggr.groupAggrs[groupSetKey] {
 				nv, err := aggr.resetFunc(aggr)
@@ -271,6 +276,9 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 			}
 		}
 		for n, rv := range row[groupKeysCnt:] {
+			if isNull(n, rv) {
+				continue
+			}
 			fv, err := toFloat64(rv)
 			if err != nil {
 				return fmt.Errorf("[%d] %w row : %w", n+1, ErrInvalid, err)
@@ -280,10 +288,13 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 				return err
 			}
 			aggr.groupAggrs[groupSetKey][n] = nv
+			aggr.groupCounts[groupSetKey][n]++
 		}
-		aggr.groupCounts[groupSetKey]++
 	} else {
 		for n, rv := range row {
+			if isNull(n, rv) {
+				continue
+			}
 			fv, err := toFloat64(rv)
 			if err != nil {
 				return fmt.Errorf("[%d] %w row : %w", n, ErrInvalid, err)
@@ -293,8 +304,8 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 				return err
 			}
 			aggr.aggrs[n] = nv
+			aggr.counts[n]++
 		}
-		aggr.counts++
 	}
 
 	return nil
@@ -410,14 +421,14 @@ func (aggr *aggrImpl) Finalize(opts ...any) (ResultSet, error) {
 			if !ok {
 				return nil, fmt.Errorf("group values %w for group %v", ErrNotFound, groupSetKey)
 			}
-			groupCnt, ok := aggr.groupCounts[groupSetKey]
+			groupCnts, ok := aggr.groupCounts[groupSetKey]
 			if !ok {
 				return nil, fmt.Errorf("group count %w for group %v", ErrNotFound, groupSetKey)
 			}
 			row := make([]any, 0)
 			row = append(row, groupSetKeyValues...)
-			for _, columnValue := range columnValues {
-				fv, err := aggr.finalFunc(aggr, columnValue, groupCnt)
+			for n, columnValue := range columnValues {
+				fv, err := aggr.finalFunc(aggr, columnValue, groupCnts[n])
 				if err != nil {
 					return nil, err
 				}
@@ -427,8 +438,8 @@ func (aggr *aggrImpl) Finalize(opts ...any) (ResultSet, error) {
 		}
 	} else {
 		row := make([]any, 0)
-		for _, value := range aggr.aggrs {
-			fv, err := aggr.finalFunc(aggr, value, aggr.counts)
+		for n, value := range aggr.aggrs {
+			fv, err := aggr.finalFunc(aggr, value, aggr.counts[n])
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 217d10e51585e87b6f05e2cb633822452c716df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:21 +0000
Subject: [PATCH 36/83] fix: do not return rows beyond the limit or lose the
 offset of a result set

---
 sql/query/response/resultset/resultset_impl.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sql/query/response/resultset/resultset_impl.go b/sql/query/response/resultset/resultset_impl.go
index 97502d3..a85d2a6 100644
--- a/sql/query/response/resultset/resultset_impl.go
+++ b/sql/query/response/resultset/resultset_impl.go
@@ -121,13 +121,16 @@ func (rs *resultset) Next() bool {
 	if rs.rowCursor < rs.offset {
 		rs.rowCursor = rs.offset
 	}
-	rs.rowCursor++
-	if 0 < rs.limit {
-		if (rs.offset + rs.limit) < rs.rowCursor {
-			return false
-		}
+	end := uint(len(rs.rows))
+	if 0 < rs.limit && rs.offset < end && rs.limit < (end-rs.offset) {
+		end = rs.offset + rs.limit
 	}
-	return rs.rowCursor <= uint(len(rs.rows))
+	if end <= rs.rowCursor {
+		rs.rowCursor = uint(len(rs.rows)) + 1
+		return false
+	}
+	rs.rowCursor++
+	return true
 }
 
 // Row returns the current row.
-- 
2.43.0


From dcafa24b7d00b829ae839ab747e53d7d44afc0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:22 +0000
Subject: [PATCH 37/83] fix: return the rows of a result set without a schema
 instead of panicking

---
 sql/query/response/resultset/resultset_impl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql/query/response/resultset/resultset_impl.go b/sql/query/response/resultset/resultset_impl.go
index a85d2a6..d97e671 100644
--- a/sql/query/response/resultset/resultset_impl.go
+++ b/sql/query/response/resultset/resultset_impl.go
@@ -139,6 +139,9 @@ func (rs *resultset) Row() (Row, error) {
 		return nil, errors.ErrNoRows
 	}
 	row := rs.rows[rs.rowCursor-1]
+	if rs.schema == nil {
+		return row, nil
+	}
 	return NewRowFromObject(rs.schema, row.Object())
 }
 
-- 
2.43.0


From 3788d9babb25e44062d99bb12f1d1204a59610fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:22 +0000
Subject: [PATCH 38/83] fix: report negative row value indexes as not existing

---
 sql/query/response/resultset/row_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/query/response/resultset/row_impl.go b/sql/query/response/resultset/row_impl.go
index 2901b44..75359ff 100644
--- a/sql/query/response/resultset/row_impl.go
+++ b/sql/query/response/resultset/row_impl.go
@@ -134,7 +134,7 @@ func (row *row) Values() []any {
 // ValueAt returns the row value at the specified index.
 func (row *row) ValueAt(index int) (any, error) {
 	values := row.Values()
-	if len(values) <= index {
+	if index < 0 || len(values) <= index {
 		return nil, errors.ErrNotExist
 	}
 	return values[index], nil
-- 
2.43.0


From 6fff6145ead4b361006a4e37d7b1a7c86070b5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:23 +0000
Subject: [PATCH 39/83] fix: tell function columns of a result set from other
 columns

---
 sql/query/response/resultset/column_impl.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/sql/query/response/resultset/column_impl.go b/sql/query/response/resultset/column_impl.go
index a455d90..3c99506 100644
--- a/sql/query/response/resultset/column_impl.go
+++ b/sql/query/response/resultset/column_impl.go
@@ -16,15 +16,10 @@ package resultset
 
 import (
 	"fmt"
-	"regexp"
 
 	"github.com/cybergarage/go-sqlparser/sql/fn"
 )
 
-var funcColumnNameRegex = regexp.MustCompile(
-	`^([a-zA-Z_][a-zA-Z0-9_]*)(\((.*)\))?$`,
-)
-
 type column struct {
 	name string
 	t    DataType
@@ -99,10 +94,7 @@ func (col *column) IsAsterisk() bool {
 
 // IsFunction returns true if the column is a function.
 func (col *column) IsFunction() bool {
-	if funcColumnNameRegex.MatchString(col.name) {
-		return true
-	}
-	return true
+	return col.fn != nil
 }
 
 // Function returns the function associated with the column.
-- 
2.43.0


From 8d4f059eead3419ce2c8620e11695121fe49f8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:13 +0000
Subject: [PATCH 40/83] fix: give string and time functions a data type

---
 sql/query/data_type.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sql/query/data_type.go b/sql/query/data_type.go
index c44084e..67ce7a7 100644
--- a/sql/query/data_type.go
+++ b/sql/query/data_type.go
@@ -158,6 +158,10 @@ func NewDataTypeForFunction(fx Function) (DataType, error) {
 		return FloatType, nil
 	case fn.ArithOperator:
 		return FloatType, nil
+	case fn.StringFunction:
+		return TextType, nil
+	case fn.TimeFunction:
+		return TimeStampType, nil
 	default:
 		return UnknownData, newErrInvalidDataType(fx)
 	}
-- 
2.43.0


From 2ca3aa657685e013ff0d4ca3599fa1a71746dcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:13 +0000
Subject: [PATCH 41/83] fix: report unknown columns of an aggregated result set
 instead of dropping all columns

---
 sql/query/response/resultset/resultset_aggr.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sql/query/response/resultset/resultset_aggr.go b/sql/query/response/resultset/resultset_aggr.go
index de94a3e..d3047f8 100644
--- a/sql/query/response/resultset/resultset_aggr.go
+++ b/sql/query/response/resultset/resultset_aggr.go
@@ -111,11 +111,14 @@ func NewAggregatedResultSetFrom(opts ...AggregatedResultSetOptions) (ResultSet,
 	// Generate a new schema for the aggregated result set
 
 	rsSchema := srcRs.Schema()
-	aggrSchema := NewSchema(
+	aggrSchema, err := NewSchemaFrom(
 		WithSchemaDatabaseName(rsSchema.DatabaseName()),
 		WithSchemaTableSchema(tblSchema),
 		WithSchemaSelectors(selectors),
 	)
+	if err != nil {
+		return nil, err
+	}
 
 	// Generate a new aggregated rows
 
-- 
2.43.0


From 232899c9ddef028f563731e9d99542bb70ec94e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:13 +0000
Subject: [PATCH 42/83] fix: quote string, binary and NULL parameters

---
 sql/stmt/bind_param_impl.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sql/stmt/bind_param_impl.go b/sql/stmt/bind_param_impl.go
index de618c4..d4fc08f 100644
--- a/sql/stmt/bind_param_impl.go
+++ b/sql/stmt/bind_param_impl.go
@@ -19,6 +19,7 @@ import (
 	"time"
 
 	"github.com/cybergarage/go-safecast/safecast"
+	"github.com/cybergarage/go-sqlparser/sql/util/strings"
 )
 
 type bindParam struct {
@@ -34,7 +35,11 @@ func NewBindParam(v any) BindParam {
 func (p *bindParam) String() (string, error) {
 	switch v := p.v.(type) {
 	case string:
-		return "'" + v + "'", nil
+		return strings.EscapeString(v), nil
+	case []byte:
+		return strings.EscapeString(string(v)), nil
+	case nil:
+		return "NULL", nil
 	case time.Time:
 		if v.Nanosecond() == 0 {
 			return "'" + v.Format("2006-01-02 15:04:05") + "'", nil
-- 
2.43.0


From 6013a6fac49403b55ac791dedf29a742442403b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:14 +0000
Subject: [PATCH 43/83] fix: bind parameters to the placeholders only

---
 sql/stmt/bind_impl.go | 61 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 7 deletions(-)

diff --git a/sql/stmt/bind_impl.go b/sql/stmt/bind_impl.go
index 553f72c..2a8e1b4 100644
--- a/sql/stmt/bind_impl.go
+++ b/sql/stmt/bind_impl.go
@@ -16,6 +16,7 @@ package stmt
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/cybergarage/go-sqlparser/sql"
@@ -62,21 +63,20 @@ func NewBindStatement(opts ...BindStatementOption) BindStatement {
 
 // Statement returns the statement with the bound parameters.
 func (stmt *bindStmt) Statements() ([]Statement, error) {
-	q := stmt.query
+	params := make([]string, len(stmt.params))
 	for n, param := range stmt.params {
 		s, err := param.String()
 		if err != nil {
 			return nil, err
 		}
-		if 0 < strings.Index(q, stdPlaceholder) {
-			q = strings.Replace(q, stdPlaceholder, s, 1)
+		params[n] = s
+	}
+	q, bound := bindPlaceholders(stmt.query, params)
+	for n, s := range params {
+		if bound[n] {
 			continue
 		}
 		placeHolder := fmt.Sprintf(pgPlaceholderFormat, n+1)
-		if 0 < strings.Index(q, placeHolder) {
-			q = strings.Replace(q, placeHolder, s, 1)
-			continue
-		}
 		return nil, fmt.Errorf("placeholder (%s/%s) %w: %s", stdPlaceholder, placeHolder, ErrNotFound, s)
 	}
 	stmts, err := sql.NewParser().ParseString(q)
@@ -85,3 +85,50 @@ func (stmt *bindStmt) Statements() ([]Statement, error) {
 	}
 	return stmts, nil
 }
+
+// bindPlaceholders replaces the placeholders outside of quotes and comments with the specified parameters,
+// and returns the replaced query and which parameters were used.
+func bindPlaceholders(q string, params []string) (string, []bool) {
+	bound := make([]bool, len(params))
+	buf := strings.Builder{}
+	paramIdx := 0
+	for n := 0; n < len(q); {
+		l := 1 // The length of the next token
+		idx := -1
+		switch c := q[n]; {
+		case c == '\'' || c == '"' || c == '`':
+			l = tokenLen(q[n:], 1, string(c))
+		case strings.HasPrefix(q[n:], "--"):
+			l = tokenLen(q[n:], 2, "\n")
+		case strings.HasPrefix(q[n:], "/*"):
+			l = tokenLen(q[n:], 2, "*/")
+		case c == '?':
+			idx = paramIdx
+			paramIdx++
+		case c == '$':
+			for n+l < len(q) && '0' <= q[n+l] && q[n+l] <= '9' {
+				l++
+			}
+			if v, err := strconv.Atoi(q[n+1 : n+l]); err == nil {
+				idx = v - 1
+			}
+		}
+		if 0 <= idx && idx < len(params) {
+			bound[idx] = true
+			buf.WriteString(" " + params[idx] + " ")
+		} else {
+			buf.WriteString(q[n : n+l])
+		}
+		n += l
+	}
+	return buf.String(), bound
+}
+
+// tokenLen returns the length of the token which is closed by the specified string after the specified offset.
+func tokenLen(s string, offset int, end string) int {
+	n := strings.Index(s[offset:], end)
+	if n < 0 {
+		return len(s)
+	}
+	return offset + n + len(end)
+}
-- 
2.43.0


From abc01e447f4271f2897cc838b38fefdc25dbf2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:14 +0000
Subject: [PATCH 44/83] fix: report the table name of each schema column

---
 sql/system/schema_columns_resutset_from.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/system/schema_columns_resutset_from.go b/sql/system/schema_columns_resutset_from.go
index 1d33666..fc54e68 100644
--- a/sql/system/schema_columns_resutset_from.go
+++ b/sql/system/schema_columns_resutset_from.go
@@ -82,7 +82,7 @@ func NewSchemaColumnsResultSetFromSchemas(schemas []query.Schema) (ResultSet, er
 				case SchemaColumnsSchema:
 					obj[SchemaColumnsSchema] = rsSchema.DatabaseName()
 				case SchemaColumnsTableName:
-					obj[SchemaColumnsTableName] = rsSchema.TableName()
+					obj[SchemaColumnsTableName] = schema.TableName()
 				case SchemaColumnsColumnName:
 					obj[SchemaColumnsColumnName] = column.Name()
 				case SchemaColumnsDataType:
-- 
2.43.0


From 607864289f5297fcb9b5933d68de943135a486fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:14 +0000
Subject: [PATCH 45/83] fix: query schema columns without a database name and
 escape the names

---
 sql/system/schema_columns_resutset.go  |  3 ++-
 sql/system/schema_columns_stmt_impl.go | 15 ++++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/sql/system/schema_columns_resutset.go b/sql/system/schema_columns_resutset.go
index da4a857..0055222 100644
--- a/sql/system/schema_columns_resutset.go
+++ b/sql/system/schema_columns_resutset.go
@@ -16,6 +16,7 @@ package system
 
 import (
 	"github.com/cybergarage/go-sqlparser/sql"
+	"github.com/cybergarage/go-sqlparser/sql/util/strings"
 )
 
 // PostgreSQL: Documentation: 17: 35.17. columns
@@ -38,7 +39,7 @@ func NewSchemaColumnsQueryFromTableNames(tableNames []string) (sql.Select, error
 			if 0 < n {
 				query += " OR "
 			}
-			query += "TABLE_NAME = '" + tableName + "'"
+			query += "TABLE_NAME = " + strings.EscapeString(tableName)
 		}
 	}
 	stmt, err := sql.NewParser().ParseString(query)
diff --git a/sql/system/schema_columns_stmt_impl.go b/sql/system/schema_columns_stmt_impl.go
index 5df1bed..811d179 100644
--- a/sql/system/schema_columns_stmt_impl.go
+++ b/sql/system/schema_columns_stmt_impl.go
@@ -19,6 +19,7 @@ import (
 
 	"github.com/cybergarage/go-sqlparser/sql"
 	"github.com/cybergarage/go-sqlparser/sql/query"
+	util_strings "github.com/cybergarage/go-sqlparser/sql/util/strings"
 )
 
 type schemaColumnsStatement struct {
@@ -74,19 +75,23 @@ func NewSchemaColumnsStatement(opts ...SchemaColumnsStatementOption) (SchemaColu
 }
 
 func (stmt *schemaColumnsStatement) generateSelectStatement() error {
-	query := SchemaColumnsQuery + " WHERE "
+	query := SchemaColumnsQuery
+	conds := []string{}
 	if 0 < len(stmt.dbName) {
-		query += SchemaColumnsSchema + " = '" + stmt.dbName + "'"
+		conds = append(conds, SchemaColumnsSchema+" = "+util_strings.EscapeString(stmt.dbName))
 	}
 	switch {
 	case len(stmt.tblNames) == 1:
-		query += " AND " + SchemaColumnsTableName + " = '" + stmt.tblNames[0] + "'"
+		conds = append(conds, SchemaColumnsTableName+" = "+util_strings.EscapeString(stmt.tblNames[0]))
 	case 1 < len(stmt.tblNames):
 		escapedTableNames := make([]string, len(stmt.tblNames))
 		for n, tblName := range stmt.tblNames {
-			escapedTableNames[n] = "'" + tblName + "'"
+			escapedTableNames[n] = util_strings.EscapeString(tblName)
 		}
-		query += " AND " + SchemaColumnsTableName + " IN (" + strings.Join(escapedTableNames, ",") + ")"
+		conds = append(conds, SchemaColumnsTableName+" IN ("+strings.Join(escapedTableNames, ",")+")")
+	}
+	if 0 < len(conds) {
+		query += " WHERE " + strings.Join(conds, " AND ")
 	}
 	parser := sql.NewParser()
 	parsedStmts, err := parser.ParseString(query)
-- 
2.43.0


From de55a19d1dcd49cda8675b4149d757b0e257d27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:15 +0000
Subject: [PATCH 46/83] fix: do not remove another connection which has the
 same ID

---
 sql/net/conn_manager_impl.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sql/net/conn_manager_impl.go b/sql/net/conn_manager_impl.go
index 6485602..705cc51 100644
--- a/sql/net/conn_manager_impl.go
+++ b/sql/net/conn_manager_impl.go
@@ -109,11 +109,18 @@ func (cm *mgr) LookupConnByUUID(uuid uuid.UUID) (Conn, bool) {
 func (cm *mgr) RemoveConn(conn Conn) error {
 	cm.mutex.Lock()
 	defer cm.mutex.Unlock()
-	delete(cm.uidMap, conn.ID())
-	delete(cm.m, conn.UUID())
+	cm.removeConn(conn)
 	return nil
 }
 
+// removeConn removes the connection from the map. The caller must hold the lock.
+func (cm *mgr) removeConn(conn Conn) {
+	if c, ok := cm.uidMap[conn.ID()]; ok && c.UUID() == conn.UUID() {
+		delete(cm.uidMap, conn.ID())
+	}
+	delete(cm.m, conn.UUID())
+}
+
 // RemoveConnByUID deletes the specified connection by the connection ID.
 func (cm *mgr) RemoveConnByUID(cid uint64) {
 	conn, ok := cm.LookupConnByUID(cid)
-- 
2.43.0


From 86f3a3a89b5af1f87445c8161425e19da3367bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:15 +0000
Subject: [PATCH 47/83] fix: look up and remove a connection in one step

---
 sql/net/conn_manager_impl.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sql/net/conn_manager_impl.go b/sql/net/conn_manager_impl.go
index 705cc51..27c6f42 100644
--- a/sql/net/conn_manager_impl.go
+++ b/sql/net/conn_manager_impl.go
@@ -123,20 +123,24 @@ func (cm *mgr) removeConn(conn Conn) {
 
 // RemoveConnByUID deletes the specified connection by the connection ID.
 func (cm *mgr) RemoveConnByUID(cid uint64) {
-	conn, ok := cm.LookupConnByUID(cid)
+	cm.mutex.Lock()
+	defer cm.mutex.Unlock()
+	conn, ok := cm.uidMap[cid]
 	if !ok {
 		return
 	}
-	cm.RemoveConn(conn)
+	cm.removeConn(conn)
 }
 
 // RemoveConnByUID deletes the specified connection by the connection ID.
 func (cm *mgr) RemoveConnByUUID(uuid uuid.UUID) {
-	conn, ok := cm.LookupConnByUUID(uuid)
+	cm.mutex.Lock()
+	defer cm.mutex.Unlock()
+	conn, ok := cm.m[uuid]
 	if !ok {
 		return
 	}
-	cm.RemoveConn(conn)
+	cm.removeConn(conn)
 }
 
 // Start starts the connection manager.
-- 
2.43.0


From 59141857dd694d52562070f32fba7f050b37f8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:06 +0000
Subject: [PATCH 48/83] fix: register an updated connection under its own IDs

---
 sql/net/conn_manager_impl.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sql/net/conn_manager_impl.go b/sql/net/conn_manager_impl.go
index 27c6f42..2b3e290 100644
--- a/sql/net/conn_manager_impl.go
+++ b/sql/net/conn_manager_impl.go
@@ -72,8 +72,16 @@ func (cm *mgr) UpdateConn(from Conn, to Conn) error {
 		return newErrConnNotExists(fmt.Sprintf("%d", uid))
 	}
 
-	cm.m[uuid] = to
-	cm.uidMap[uid] = to
+	if c, ok := cm.m[to.UUID()]; ok && c.UUID() != uuid {
+		return newErrConnExist(to.UUID().String())
+	}
+	if c, ok := cm.uidMap[to.ID()]; ok && c.UUID() != uuid {
+		return newErrConnExist(fmt.Sprintf("%d", to.ID()))
+	}
+
+	cm.removeConn(from)
+	cm.m[to.UUID()] = to
+	cm.uidMap[to.ID()] = to
 
 	return nil
 }
-- 
2.43.0


From 55c57e275b426e247467e4cf423e9e91d24c13f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:06 +0000
Subject: [PATCH 49/83] fix: protect the close state and the span context of a
 connection

---
 sql/net/conn_impl.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sql/net/conn_impl.go b/sql/net/conn_impl.go
index 40118b6..ae9c080 100644
--- a/sql/net/conn_impl.go
+++ b/sql/net/conn_impl.go
@@ -99,6 +99,8 @@ func WithConnUser(user string) func(*conn) {
 
 // Close closes the connection.
 func (conn *conn) Close() error {
+	conn.Lock()
+	defer conn.Unlock()
 	if conn.isClosed {
 		return nil
 	}
@@ -183,11 +185,15 @@ func (conn *conn) Context() context.Context {
 
 // SetSpanContext sets the tracer span context of the connection.
 func (conn *conn) SetSpanContext(ctx tracer.Context) {
+	conn.Lock()
+	defer conn.Unlock()
 	conn.tracerContext = ctx
 }
 
 // SpanContext returns the tracer span context of the connection.
 func (conn *conn) SpanContext() tracer.Context {
+	conn.Lock()
+	defer conn.Unlock()
 	return conn.tracerContext
 }
 
-- 
2.43.0


From 0c842b9f52cb2602fdb1e3ad906d02db780092d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:10 +0000
Subject: [PATCH 50/83] fix: report two word data types such as DOUBLE
 PRECISION

---
 sql/query/column_def.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sql/query/column_def.go b/sql/query/column_def.go
index d862359..798e230 100644
--- a/sql/query/column_def.go
+++ b/sql/query/column_def.go
@@ -75,6 +75,13 @@ func NewDataDefFromStrings(strs []string) (ColumnDef, error) {
 	if len(strs) < 1 {
 		return nil, newErrInvaidDataDef(strings.JoinWithSpace(strs))
 	}
+	if 2 <= len(strs) {
+		// Two word data types such as DOUBLE PRECISION.
+		dt := strings.JoinWithSpace(strs[:2])
+		if _, err := NewDataTypeFrom(dt); err == nil {
+			strs = append([]string{dt}, strs[2:]...)
+		}
+	}
 	dt := strs[0]
 	dl := -1
 	scale := ""
-- 
2.43.0


From fc2c04179c01d84bdef1a485352d6d4a06134563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:10 +0000
Subject: [PATCH 51/83] fix: keep the index of a column definition

---
 sql/parser/sqlite/parser_antlr_visitor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 6e5210c..1b3c57b 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -328,6 +328,10 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) query.Schema {
 				if isPrimary := columnConst.Primary_key_constraint(); isPrimary != nil {
 					indexes = append(indexes, query.NewPrimaryIndexWith(query.NewColumnsWith(column)))
 				}
+				if index := columnConst.Index_constraint(); index != nil {
+					idxName := strings.UnEscapeNameString(index.Index_name().GetText())
+					indexes = append(indexes, query.NewSecondaryIndexWith(idxName, query.NewColumnsWith(column)))
+				}
 			}
 			columns = append(columns, column)
 		}
-- 
2.43.0


From 17d5102b73a1bc3889aded9583893db8e0cb8e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:10 +0000
Subject: [PATCH 52/83] fix: reject CREATE TABLE AS SELECT instead of creating
 an empty table

---
 sql/parser/sqlite/parser_antlr_visitor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 1b3c57b..c3cd5ad 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -319,6 +319,10 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) query.Schema {
 	columns := query.NewColumns()
 	indexes := query.NewIndexes()
 
+	if len(ctx.AllColumn_def()) == 0 {
+		return nil // CREATE TABLE ... AS SELECT is not supported
+	}
+
 	// Column definitions.
 	for _, columDef := range ctx.AllColumn_def() {
 		column, ok := newColumnWith(columDef)
-- 
2.43.0


From fa0b23746702455854cd153a00faebce5edd1d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:10 +0000
Subject: [PATCH 53/83] fix: reject index definitions of unknown columns
 instead of dropping them

---
 sql/parser/sqlite/parser_antlr_visitor.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index c3cd5ad..2560e00 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -345,14 +345,16 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) query.Schema {
 		switch columDef.Column_name().GetText() {
 		case "PRIMARY":
 			_, idxColumn, ok := indexColum(columDef, columns)
-			if ok {
-				indexes = append(indexes, query.NewPrimaryIndexWith(query.NewColumnsWith(idxColumn)))
+			if !ok {
+				return nil // Unknown column or unsupported form
 			}
+			indexes = append(indexes, query.NewPrimaryIndexWith(query.NewColumnsWith(idxColumn)))
 		case "KEY", "INDEX":
 			idxName, idxColumn, ok := indexColum(columDef, columns)
-			if ok {
-				indexes = append(indexes, query.NewSecondaryIndexWith(idxName, query.NewColumnsWith(idxColumn)))
+			if !ok {
+				return nil // Unknown column or unsupported form
 			}
+			indexes = append(indexes, query.NewSecondaryIndexWith(idxName, query.NewColumnsWith(idxColumn)))
 		}
 	}
 	// Index definitions.
-- 
2.43.0


From 24fdc2f4407a5bfa37375c281c357262e923e87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:10 +0000
Subject: [PATCH 54/83] fix: reject ROLLBACK TO SAVEPOINT and VACUUM INTO
 instead of running them in full

---
 sql/parser/sqlite/parser_antlr_visitor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 2560e00..f250944 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -713,6 +713,9 @@ func newTruncateWith(ctx antlr.ITruncate_stmtContext) query.Truncate {
 }
 
 func newVacuumWith(ctx antlr.IVacuum_stmtContext) query.Vacuum {
+	if ctx.INTO_() != nil {
+		return nil // VACUUM INTO is not supported
+	}
 	if schema, ok := ctx.Schema_name().(*antlr.Schema_nameContext); ok {
 		return query.NewVacuumWith(query.NewTableWith(schema.GetText()))
 	}
@@ -724,6 +727,9 @@ func newBeginWith(ctx antlr.IBegin_stmtContext) query.Begin {
 }
 
 func newRollbackWith(ctx antlr.IRollback_stmtContext) query.Rollback {
+	if ctx.TO_() != nil {
+		return nil // ROLLBACK TO SAVEPOINT is not supported
+	}
 	return query.NewRollback()
 }
 
-- 
2.43.0


From 0d64163d418c24190c339c5da521a7f4aa024a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:32 +0000
Subject: [PATCH 55/83] fix: reject partial indexes instead of creating full
 ones

---
 sql/parser/sqlite/parser_antlr_visitor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index f250944..0a86337 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -154,6 +154,9 @@ func newCreateTableWith(ctx antlr.ICreate_table_stmtContext) query.CreateTable {
 }
 
 func newCreateIndexWith(ctx antlr.ICreate_index_stmtContext) query.CreateIndex {
+	if ctx.WHERE_() != nil {
+		return nil // Partial indexes are not supported
+	}
 	ifNotExists := query.NewIfNotExistsWith(false)
 	if ctx.If_not_exists() != nil {
 		ifNotExists = query.NewIfNotExistsWith(true)
-- 
2.43.0


From b1cf0f3a241553b2eaac871875daae8aa352f60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:00 +0000
Subject: [PATCH 56/83] fix: reject SELECT forms whose tables, groups or
 conditions would be lost

---
 sql/parser/sqlite/parser_antlr_visitor.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 0a86337..9c0115b 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -557,7 +557,30 @@ func newUpdateWith(ctx antlr.IUpdate_stmtContext) query.Update {
 	return query.NewUpdateWith(tbl, columns, where)
 }
 
+// isSupportedSelect returns false when the SELECT has parts which a select statement can not represent.
+func isSupportedSelect(ctx antlr.ISelect_stmtContext) bool {
+	if ctx.Common_table_stmt() != nil || 0 < len(ctx.AllCompound_operator()) {
+		return false
+	}
+	core := ctx.GetParentQuery()
+	if core == nil {
+		return true
+	}
+	if core.Values_clause() != nil || core.Join_clause() != nil || core.GetHavingExpr() != nil || core.WINDOW_() != nil {
+		return false
+	}
+	for _, from := range core.AllFrom() {
+		if from.From_table() == nil {
+			return false
+		}
+	}
+	return len(core.GetGroupByExpr()) <= 1
+}
+
 func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
+	if !isSupportedSelect(ctx) {
+		return nil
+	}
 	sels := query.NewSelectors()
 	tbls := query.NewTables()
 	opts := []query.SelectOption{}
-- 
2.43.0


From 290d9b391b40cb1f8bedb76b600ff1d96190fc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:35 +0000
Subject: [PATCH 57/83] fix: reject DISTINCT, FILTER and OVER of functions
 instead of dropping them

---
 sql/parser/sqlite/parser_antlr_visitor.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 9c0115b..0b211c5 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -592,7 +592,7 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 		for _, col := range parentQuery.AllResult_column() {
 			sel, err := newSelectorFrom(col)
 			if err != nil {
-				continue
+				return nil
 			}
 			sels = append(sels, sel)
 		}
@@ -680,6 +680,9 @@ func newSelectorFrom(ctx antlr.IResult_columnContext) (query.Selector, error) {
 	expr := ctx.Expr()
 	if expr != nil {
 		if fx := expr.Function(); fx != nil {
+			if fx.DISTINCT_() != nil || fx.Filter_clause() != nil || fx.Over_clause() != nil {
+				return nil, query.ErrNotSupported
+			}
 			args := fn.NewArguments()
 			if star := fx.STAR(); star != nil {
 				args = append(args, fn.NewArgumentWith(star.GetText()))
-- 
2.43.0


From 3cccd699f64868761e51e9b91f7ef937bbd230a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:01 +0000
Subject: [PATCH 58/83] fix: reject WITH, OR, ON CONFLICT and FROM of INSERT,
 UPDATE and DELETE instead of dropping them

---
 sql/parser/sqlite/parser_antlr_visitor.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 0b211c5..c0fec9f 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -468,6 +468,9 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
 	if ctx.Values_clause() == nil {
 		return nil // INSERT ... SELECT and INSERT ... DEFAULT VALUES are not supported
 	}
+	if ctx.With_clause() != nil || ctx.OR_() != nil || ctx.Upsert_clause() != nil {
+		return nil // WITH, INSERT OR ... and ON CONFLICT are not supported
+	}
 	tblName := strings.UnEscapeNameString(ctx.Table_name().GetText())
 	tblOpts := []query.TableOption{}
 	if schema := ctx.Schema_name(); schema != nil {
@@ -521,6 +524,9 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
 }
 
 func newUpdateWith(ctx antlr.IUpdate_stmtContext) query.Update {
+	if ctx.With_clause() != nil || ctx.OR_() != nil || ctx.FROM_() != nil {
+		return nil // WITH, UPDATE OR ... and UPDATE ... FROM are not supported
+	}
 	tbl := query.NewTableWith(newTableNameWith(ctx.GetTable()))
 	columns := query.NewColumns()
 	for _, set := range ctx.AllUpdate_column_set() {
@@ -705,6 +711,9 @@ func newSelectorFrom(ctx antlr.IResult_columnContext) (query.Selector, error) {
 }
 
 func newDeleteWith(ctx antlr.IDelete_stmtContext) query.Delete {
+	if ctx.With_clause() != nil {
+		return nil // WITH is not supported
+	}
 	tbl := query.NewTableWith(newTableNameWith(ctx.GetTable()))
 	where := query.NewCondition()
 	if w := ctx.GetWhereExpr(); w != nil {
-- 
2.43.0


From 349cef31f131e80e66d58cae3df6e931a9874548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:33 +0000
Subject: [PATCH 59/83] fix: reject a LIMIT or OFFSET which is not a number
 instead of dropping it

---
 sql/parser/sqlite/parser_antlr_visitor.go | 33 ++++++++++++++++++-----
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index c0fec9f..c79c3ae 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -648,16 +648,15 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 	if ctx := ctx.Limit_stmt(); ctx != nil {
 		limits := ctx.AllExpr()
 		if 0 < len(limits) {
-			var limit uint
-			err := safecast.ToUint(limits[0].GetText(), &limit)
-			if err != nil {
-				limit = 0
+			limit, ok := newLimitNumberWith(limits[0])
+			if !ok {
+				return nil // A limit which is not a number is not supported
 			}
 			var offset uint
 			if 1 < len(limits) {
-				err := safecast.ToUint(limits[1].GetText(), &offset)
-				if err != nil {
-					offset = 0
+				offset, ok = newLimitNumberWith(limits[1])
+				if !ok {
+					return nil
 				}
 				if ctx.COMMA() != nil { // LIMIT offset, limit
 					limit, offset = offset, limit
@@ -670,6 +669,26 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 	return query.NewSelectWith(sels, tbls, where, opts...)
 }
 
+// newLimitNumberWith returns the number of a limit or offset expression. Negative numbers, NULL, ALL and bind parameters mean none.
+func newLimitNumberWith(ctx antlr.IExprContext) (uint, bool) {
+	if lit := ctx.Literal_value(); ctx.Bind_param() != nil || (lit != nil && lit.Bind_param() != nil) {
+		return 0, true
+	}
+	text := ctx.GetText()
+	if strings.EqualFold(text, "NULL") || strings.EqualFold(text, "ALL") {
+		return 0, true
+	}
+	var num uint
+	if err := safecast.ToUint(text, &num); err == nil {
+		return num, true
+	}
+	var negNum int
+	if err := safecast.ToInt(text, &negNum); err == nil && text[0] == '-' {
+		return 0, true
+	}
+	return 0, false
+}
+
 // newTableNameWith returns the table name with its schema qualifier, without any alias or index hint.
 func newTableNameWith(ctx interface {
 	Schema_name() antlr.ISchema_nameContext
-- 
2.43.0


From 393517c6d239bf998eb765d325f7fd75b2fbff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:56 +0000
Subject: [PATCH 60/83] fix: print an offset without a limit as a valid LIMIT
 clause

---
 sql/query/limit.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sql/query/limit.go b/sql/query/limit.go
index afaef1a..b63f160 100644
--- a/sql/query/limit.go
+++ b/sql/query/limit.go
@@ -79,6 +79,8 @@ func (limit *limitParam) String() string {
 	strs := []string{}
 	if 0 < limit.limit {
 		strs = append(strs, "LIMIT", fmt.Sprintf("%d", limit.limit))
+	} else if 0 < limit.offset {
+		strs = append(strs, "LIMIT -1") // An offset must follow a limit
 	}
 	if 0 < limit.offset {
 		strs = append(strs, "OFFSET", fmt.Sprintf("%d", limit.offset))
-- 
2.43.0


From cf8e1cb97198b4aea73bc7205d7d92df4cf1bda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:39 +0000
Subject: [PATCH 61/83] fix: keep columns without a data type and reject ALTER
 TABLE ADD without a column

---
 sql/parser/sqlite/parser_antlr_visitor.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index c79c3ae..7fcdd36 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -233,9 +233,10 @@ func newAlterTableWith(ctx antlr.IAlter_table_stmtContext) query.AlterTable {
 	}
 	if ctx := ctx.Add_table_column(); ctx != nil {
 		column, ok := newColumnWith(ctx.Column_def())
-		if ok {
-			opts = append(opts, query.WithAlterTableAddColumn(column))
+		if !ok {
+			return nil // Not a column definition
 		}
+		opts = append(opts, query.WithAlterTableAddColumn(column))
 	}
 	if ctx := ctx.Add_table_index(); ctx != nil {
 		index := newAddIndexSchemaWith(ctx)
@@ -419,7 +420,8 @@ func newColumnWith(ctx antlr.IColumn_defContext) (query.Column, bool) {
 
 	typ := ctx.Type_name()
 	if typ == nil {
-		return nil, false
+		// A column without a data type
+		return query.NewColumnWithOptions(query.WithColumnName(name), query.WithColumnData(query.NewUnknownDataDef())), true
 	}
 
 	dataDefs := []string{}
-- 
2.43.0


From d7adf9707a0fb5853a4de619e20d0c1c2d6bf04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:05 +0000
Subject: [PATCH 62/83] fix: reject ALTER TABLE ADD of constraints which are
 not indexes

---
 sql/parser/sqlite/parser_antlr_visitor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 7fcdd36..b648980 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -240,6 +240,9 @@ func newAlterTableWith(ctx antlr.IAlter_table_stmtContext) query.AlterTable {
 	}
 	if ctx := ctx.Add_table_index(); ctx != nil {
 		index := newAddIndexSchemaWith(ctx)
+		if index.Type() == query.UnknownIndex {
+			return nil // UNIQUE and other constraints are not supported
+		}
 		opts = append(opts, query.WithAlterTableAddIndex(index))
 	}
 	if ctx := ctx.Drop_table_column(); ctx != nil {
-- 
2.43.0


From 8fbbbd1226b1b2780ad730e34be9ac5609d3307d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:20 +0000
Subject: [PATCH 63/83] fix: reject a SELECT whose clause keyword was taken for
 a table alias

---
 sql/parser/sqlite/parser_antlr_visitor.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index b648980..e45a272 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -581,13 +581,31 @@ func isSupportedSelect(ctx antlr.ISelect_stmtContext) bool {
 		return false
 	}
 	for _, from := range core.AllFrom() {
-		if from.From_table() == nil {
+		tbl := from.From_table()
+		if tbl == nil {
 			return false
 		}
+		if alias := tbl.Table_alias(); alias != nil && tbl.AS_() == nil && isClauseKeyword(alias.Any_name()) {
+			return false // The clause is incomplete, or the operand of a compound operator was taken for another statement
+		}
 	}
 	return len(core.GetGroupByExpr()) <= 1
 }
 
+// isClauseKeyword returns true when the name is a keyword which starts a clause after the tables of a SELECT.
+func isClauseKeyword(name antlr.IAny_nameContext) bool {
+	if name == nil || name.Keyword() == nil {
+		return false
+	}
+	switch name.Keyword().GetStart().GetTokenType() {
+	case antlr.SQLiteParserWHERE_, antlr.SQLiteParserGROUP_, antlr.SQLiteParserHAVING_, antlr.SQLiteParserORDER_, antlr.SQLiteParserLIMIT_,
+		antlr.SQLiteParserUNION_, antlr.SQLiteParserINTERSECT_, antlr.SQLiteParserEXCEPT_, antlr.SQLiteParserJOIN_, antlr.SQLiteParserNATURAL_,
+		antlr.SQLiteParserLEFT_, antlr.SQLiteParserINNER_, antlr.SQLiteParserCROSS_, antlr.SQLiteParserON_, antlr.SQLiteParserUSING_:
+		return true
+	}
+	return false
+}
+
 func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 	if !isSupportedSelect(ctx) {
 		return nil
-- 
2.43.0


From e53450d74e2775a88ad8aca44d88d17918834530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:35 +0000
Subject: [PATCH 64/83] fix: report no row after the end of an aggregated
 result set

---
 sql/fn/resultset_impl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sql/fn/resultset_impl.go b/sql/fn/resultset_impl.go
index 39e7c72..de66b7b 100644
--- a/sql/fn/resultset_impl.go
+++ b/sql/fn/resultset_impl.go
@@ -57,6 +57,7 @@ func (rs *resultSet) Columns() []string {
 // Next moves to the next row in the result set.
 func (rs *resultSet) Next() bool {
 	if len(rs.rows) <= (rs.index + 1) {
+		rs.index = len(rs.rows)
 		return false
 	}
 	rs.index++
-- 
2.43.0


From 98d543070dccc4922bfaf9d68dba894b66ca6e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:35 +0000
Subject: [PATCH 65/83] fix: order the columns of a row object by their names

---
 sql/query/response/resultset/schema_helper.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sql/query/response/resultset/schema_helper.go b/sql/query/response/resultset/schema_helper.go
index b04c021..16dae52 100644
--- a/sql/query/response/resultset/schema_helper.go
+++ b/sql/query/response/resultset/schema_helper.go
@@ -16,6 +16,7 @@ package resultset
 
 import (
 	"fmt"
+	"sort"
 
 	"github.com/cybergarage/go-sqlparser/sql/query"
 )
@@ -72,7 +73,13 @@ func WithSchemaSelectors(selectors query.Selectors) SchemaOption {
 func WithSchemaRowObject(rowObj map[string]any) SchemaOption {
 	return func(schema *schema) error {
 		columns := []Column{}
-		for key, value := range rowObj {
+		keys := make([]string, 0, len(rowObj))
+		for key := range rowObj {
+			keys = append(keys, key)
+		}
+		sort.Strings(keys)
+		for _, key := range keys {
+			value := rowObj[key]
 			dataType, err := query.NewDataTypeForValue(value)
 			if err != nil {
 				return err
-- 
2.43.0


From dcbeb659cce14d49cf85a5bb73105941211ded58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:13 +0000
Subject: [PATCH 66/83] fix: report missing values of a row as NULL in every
 way to read it

---
 sql/query/response/resultset/row_impl.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sql/query/response/resultset/row_impl.go b/sql/query/response/resultset/row_impl.go
index 75359ff..caeeb3a 100644
--- a/sql/query/response/resultset/row_impl.go
+++ b/sql/query/response/resultset/row_impl.go
@@ -100,6 +100,11 @@ func (row *row) Object() map[string]any {
 // Values returns the row values.
 func (row *row) Values() []any {
 	if row.values != nil {
+		if row.schema != nil && len(row.values) < len(row.schema.Columns()) {
+			values := make([]any, len(row.schema.Columns()))
+			copy(values, row.values)
+			row.values = values
+		}
 		return row.values
 	}
 	if row.object == nil {
@@ -148,6 +153,11 @@ func (row *row) ValueBy(name string) (any, error) {
 	}
 	v, ok := obj[name]
 	if !ok {
+		if row.schema != nil {
+			if _, err := row.schema.LookupColumn(name); err == nil {
+				return nil, nil // The value of the column is missing
+			}
+		}
 		return nil, errors.ErrNotExist
 	}
 	return v, nil
-- 
2.43.0


From baf9613fb224977c69bab4fd027c23297551123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:26 +0000
Subject: [PATCH 67/83] fix: do not bind parameters inside of names in brackets

---
 sql/stmt/bind_impl.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sql/stmt/bind_impl.go b/sql/stmt/bind_impl.go
index 2a8e1b4..5757f12 100644
--- a/sql/stmt/bind_impl.go
+++ b/sql/stmt/bind_impl.go
@@ -98,6 +98,8 @@ func bindPlaceholders(q string, params []string) (string, []bool) {
 		switch c := q[n]; {
 		case c == '\'' || c == '"' || c == '`':
 			l = tokenLen(q[n:], 1, string(c))
+		case c == '[':
+			l = tokenLen(q[n:], 1, "]")
 		case strings.HasPrefix(q[n:], "--"):
 			l = tokenLen(q[n:], 2, "\n")
 		case strings.HasPrefix(q[n:], "/*"):
-- 
2.43.0


From f7bbbc0592f7a17e05692f8b8a7ed5ca262994df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:27 +0000
Subject: [PATCH 68/83] fix: do not change the lists of other schemas when
 dropping columns and indexes

---
 sql/query/schema.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sql/query/schema.go b/sql/query/schema.go
index 9530b78..dd62571 100644
--- a/sql/query/schema.go
+++ b/sql/query/schema.go
@@ -77,14 +77,14 @@ func NewSchemaWith(name string, opts ...SchemaOption) Schema {
 // WithSchemaColumns returns a schema option to set the columns.
 func WithSchemaColumns(columns Columns) func(*schema) {
 	return func(schema *schema) {
-		schema.columns = columns
+		schema.columns = NewColumnsWith(columns...)
 	}
 }
 
 // WithSchemaIndexes returns a schema option to set the indexes.
 func WithSchemaIndexes(idxes Indexes) func(*schema) {
 	return func(schema *schema) {
-		schema.indexes = idxes
+		schema.indexes = append(NewIndexes(), idxes...)
 	}
 }
 
@@ -171,7 +171,7 @@ func (schema *schema) Alter(stmt AlterTable) error {
 
 // AddColumn adds a column.
 func (schema *schema) AddColumn(column Column) error {
-	schema.columns = append(schema.columns, column)
+	schema.columns = append(NewColumnsWith(schema.columns...), column)
 	return nil
 }
 
@@ -181,7 +181,8 @@ func (schema *schema) DropColumn(name string) error {
 		if !strings.EqualFold(column.Name(), name) {
 			continue
 		}
-		schema.columns = append(schema.columns[:n], schema.columns[n+1:]...)
+		// Lists which were returned before are not changed.
+		schema.columns = append(NewColumnsWith(schema.columns[:n]...), schema.columns[n+1:]...)
 		return nil
 	}
 	return newErrColumnNotFound(name)
@@ -189,7 +190,7 @@ func (schema *schema) DropColumn(name string) error {
 
 // AddIndex adds an index.
 func (schema *schema) AddIndex(index Index) error {
-	schema.indexes = append(schema.indexes, index)
+	schema.indexes = append(append(NewIndexes(), schema.indexes...), index)
 	return nil
 }
 
@@ -199,7 +200,7 @@ func (schema *schema) DropIndex(name string) error {
 		if !strings.EqualFold(index.Name(), name) {
 			continue
 		}
-		schema.indexes = append(schema.indexes[:n], schema.indexes[n+1:]...)
+		schema.indexes = append(append(NewIndexes(), schema.indexes[:n]...), schema.indexes[n+1:]...)
 		return nil
 	}
 	return newErrIndexNotFound(name)
-- 
2.43.0


From 7c0dedb74786d5830e0d1a22006415f6abd978c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:28 +0000
Subject: [PATCH 69/83] fix: leave the schema unchanged when altering it fails

---
 sql/query/schema.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sql/query/schema.go b/sql/query/schema.go
index dd62571..ebc68dc 100644
--- a/sql/query/schema.go
+++ b/sql/query/schema.go
@@ -129,7 +129,14 @@ func (schema *schema) LookupIndex(name string) (Index, error) {
 }
 
 // Alter alters the schema.
-func (schema *schema) Alter(stmt AlterTable) error {
+func (schema *schema) Alter(stmt AlterTable) (err error) {
+	columns, indexes := schema.columns, schema.indexes
+	defer func() {
+		if err != nil {
+			schema.columns, schema.indexes = columns, indexes
+		}
+	}()
+
 	if column, ok := stmt.AddColumn(); ok {
 		err := schema.AddColumn(column)
 		if err != nil {
-- 
2.43.0


From 4caeb54301f3e9940527fd7c2674210792798c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:29 +0000
Subject: [PATCH 70/83] fix: report values beyond the range of BIGINT and FLOAT
 columns

---
 sql/query/column.go | 29 +++++++++++++++++++++++++++++
 sql/query/errors.go |  4 ++++
 2 files changed, 33 insertions(+)

diff --git a/sql/query/column.go b/sql/query/column.go
index 1e207fc..2aacc26 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -15,7 +15,10 @@
 package query
 
 import (
+	"errors"
 	"fmt"
+	"math"
+	"strconv"
 	"strings"
 
 	"github.com/cybergarage/go-safecast/safecast"
@@ -215,12 +218,18 @@ func (col *column) SetDefinition(dataDef ColumnDef) error {
 		if err := safecast.ToInt64(col.v, &v); err != nil {
 			return err
 		}
+		if isOutOfInt64(col.v) {
+			return newErrValueOutOfRange(col.v, dataDef.DataType())
+		}
 		col.Literal.SetValue(v)
 	case FloatType:
 		var v float32
 		if err := safecast.ToFloat32(col.v, &v); err != nil {
 			return err
 		}
+		if f, ok := col.v.(float64); ok && math.IsInf(float64(v), 0) && !math.IsInf(f, 0) {
+			return newErrValueOutOfRange(col.v, dataDef.DataType())
+		}
 		col.Literal.SetValue(v)
 	case DoubleType:
 		var v float64
@@ -238,6 +247,26 @@ func (col *column) SetDefinition(dataDef ColumnDef) error {
 	return nil
 }
 
+// isOutOfInt64 returns true whether the number is beyond the range of int64. Safecast casts such numbers to other
+// ones without an error.
+func isOutOfInt64(v any) bool {
+	switch v := v.(type) {
+	case float32:
+		return isOutOfInt64(float64(v))
+	case float64:
+		return !(-(1<<63) <= v && v < (1<<63))
+	case []byte:
+		return isOutOfInt64(string(v))
+	case string:
+		if _, err := strconv.ParseInt(v, 10, 64); err == nil || errors.Is(err, strconv.ErrRange) {
+			return err != nil
+		}
+		f, err := strconv.ParseFloat(v, 64)
+		return err == nil && isOutOfInt64(f)
+	}
+	return false
+}
+
 // Copy returns a copy of the column.
 func (col *column) Copy() Column {
 	cp := &column{
diff --git a/sql/query/errors.go b/sql/query/errors.go
index f3a1506..9db5b1d 100644
--- a/sql/query/errors.go
+++ b/sql/query/errors.go
@@ -57,6 +57,10 @@ func newErrNotFoundFunction(name string) error {
 	return fmt.Errorf("function (%s) %w", name, ErrNotFound)
 }
 
+func newErrValueOutOfRange(v any, t DataType) error {
+	return fmt.Errorf("value (%v) of %s is out of range: %w", v, t, ErrInvalid)
+}
+
 func newErrInvalidDataType(s any) error {
 	return fmt.Errorf("data type (%s) %w", s, ErrInvalid)
 }
-- 
2.43.0


From 418840f902ba5141155ba7ae5fb1261156cffd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:53 +0000
Subject: [PATCH 71/83] fix: remove a connection under the ID it was registered
 with

---
 sql/net/conn_manager_impl.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sql/net/conn_manager_impl.go b/sql/net/conn_manager_impl.go
index 2b3e290..5e46cba 100644
--- a/sql/net/conn_manager_impl.go
+++ b/sql/net/conn_manager_impl.go
@@ -123,10 +123,12 @@ func (cm *mgr) RemoveConn(conn Conn) error {
 
 // removeConn removes the connection from the map. The caller must hold the lock.
 func (cm *mgr) removeConn(conn Conn) {
-	if c, ok := cm.uidMap[conn.ID()]; ok && c.UUID() == conn.UUID() {
-		delete(cm.uidMap, conn.ID())
+	c, ok := cm.m[conn.UUID()]
+	if !ok {
+		return
 	}
-	delete(cm.m, conn.UUID())
+	delete(cm.uidMap, c.ID())
+	delete(cm.m, c.UUID())
 }
 
 // RemoveConnByUID deletes the specified connection by the connection ID.
-- 
2.43.0


From 308adeb53a3e4850016b0366d3e4cf206fd491b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:53 +0000
Subject: [PATCH 72/83] fix: read schema columns statements without a condition

---
 sql/system/schema_columns_stmt_impl.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sql/system/schema_columns_stmt_impl.go b/sql/system/schema_columns_stmt_impl.go
index 811d179..3ff1bed 100644
--- a/sql/system/schema_columns_stmt_impl.go
+++ b/sql/system/schema_columns_stmt_impl.go
@@ -145,7 +145,11 @@ func (stmt *schemaColumnsStatement) traverseSelectStatement() error {
 	}
 
 	stmt.tblNames = []string{}
-	err := traverseExpr(stmt.stmt.Where().Expr())
+	expr := stmt.stmt.Where().Expr()
+	if expr == nil {
+		return nil
+	}
+	err := traverseExpr(expr)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 3b779117c79d192e84b09d6371bca4aaed1730d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:54 +0000
Subject: [PATCH 73/83] fix: query the schema columns of three and more tables

---
 sql/system/schema_columns_resutset.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sql/system/schema_columns_resutset.go b/sql/system/schema_columns_resutset.go
index 0055222..541f320 100644
--- a/sql/system/schema_columns_resutset.go
+++ b/sql/system/schema_columns_resutset.go
@@ -33,7 +33,18 @@ type SchemaColumnsResultSet interface {
 // NewSchemaColumnsQueryFromTableNames returns a new schema columns query with table names.
 func NewSchemaColumnsQueryFromTableNames(tableNames []string) (sql.Select, error) {
 	query := SchemaColumnsQuery
-	if 0 < len(tableNames) {
+	switch {
+	case 2 < len(tableNames):
+		// The parser accepts only two comparisons in a condition.
+		query += " WHERE TABLE_NAME IN ("
+		for n, tableName := range tableNames {
+			if 0 < n {
+				query += ","
+			}
+			query += strings.EscapeString(tableName)
+		}
+		query += ")"
+	case 0 < len(tableNames):
 		query += " WHERE "
 		for n, tableName := range tableNames {
 			if 0 < n {
-- 
2.43.0


From 95c17e5d539895f4bfa5522f7bde2aa5cce1deb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:17 +0000
Subject: [PATCH 74/83] fix: do not share the schema list given to a connection

---
 sql/net/conn_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/net/conn_impl.go b/sql/net/conn_impl.go
index ae9c080..4802bea 100644
--- a/sql/net/conn_impl.go
+++ b/sql/net/conn_impl.go
@@ -72,7 +72,7 @@ func WithConnDatabase(name string) func(*conn) {
 // WithConnSchemas sets schema names.
 func WithConnSchemas(schemas ...string) func(*conn) {
 	return func(conn *conn) {
-		conn.schemas = schemas
+		conn.schemas = slices.Clone(schemas)
 	}
 }
 
-- 
2.43.0


From 55d55742c9a1c12202eea55887e5ef4d438c812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:17 +0000
Subject: [PATCH 75/83] fix: read the span context of a connection under its
 lock

---
 sql/net/conn_impl.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sql/net/conn_impl.go b/sql/net/conn_impl.go
index 4802bea..50fea46 100644
--- a/sql/net/conn_impl.go
+++ b/sql/net/conn_impl.go
@@ -199,15 +199,15 @@ func (conn *conn) SpanContext() tracer.Context {
 
 // Span returns the current top tracer span on the tracer span stack.
 func (conn *conn) Span() tracer.Span {
-	return conn.tracerContext.Span()
+	return conn.SpanContext().Span()
 }
 
 // StartSpan starts a new child tracer span and pushes it onto the tracer span stack.
 func (conn *conn) StartSpan(name string) bool {
-	return conn.tracerContext.StartSpan(name)
+	return conn.SpanContext().StartSpan(name)
 }
 
 // FinishSpan ends the current top tracer span and pops it from the tracer span stack.
 func (conn *conn) FinishSpan() bool {
-	return conn.tracerContext.FinishSpan()
+	return conn.SpanContext().FinishSpan()
 }
-- 
2.43.0


From 50834c19dc7904abe7e1347837929486a1ca08d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:39 +0000
Subject: [PATCH 76/83] fix: print the NULL literal as NULL

---
 sql/query/literal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql/query/literal.go b/sql/query/literal.go
index 74ed5e6..77d7ce7 100644
--- a/sql/query/literal.go
+++ b/sql/query/literal.go
@@ -130,6 +130,9 @@ func (lit *Literal) ValueString() string {
 	if lit == nil {
 		return ""
 	}
+	if lit.v == nil {
+		return "NULL"
+	}
 	switch lit.t {
 	case StringLiteral:
 		return strings.EscapeString(fmt.Sprintf("%v", lit.v))
-- 
2.43.0


From 93ae208b272e5643fe23d89f0c8fa27dd88317e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:02 +0000
Subject: [PATCH 77/83] fix: make the errors for existing, missing and
 unsupported objects match their kinds

---
 sql/errors/errors.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sql/errors/errors.go b/sql/errors/errors.go
index cf40601..5698002 100644
--- a/sql/errors/errors.go
+++ b/sql/errors/errors.go
@@ -50,15 +50,15 @@ func NewErrNotImplemented(s string) error {
 
 // NewErrNotExist returns an error for a not exist.
 func NewErrNotExist(name string) error {
-	return fmt.Errorf("%s is not exists", name)
+	return fmt.Errorf("%s is %w", name, ErrNotExist)
 }
 
 // NewErrExist returns an error for a exist.
 func NewErrExist(name string) error {
-	return fmt.Errorf("%s is not exists", name)
+	return fmt.Errorf("%s is %w", name, ErrExist)
 }
 
 // NewErrNotSupported returns an error for a not supported.
 func NewErrNotSupported(name string) error {
-	return fmt.Errorf("%s is not supported", name)
+	return fmt.Errorf("%s is %w", name, ErrNotSupported)
 }
-- 
2.43.0


From c8cc05b1c08edf4df6948fa12fa66e3f63fc3880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:16 +0000
Subject: [PATCH 78/83] fix: keep the words of expressions in function
 arguments, GROUP BY, ORDER BY and arithmetic apart

The text of an expression was built from its tokens without any separator,
so COUNT(a IS NULL) was reported and printed as COUNT(aISNULL), a different
column, and ABS(a - -b) as ABS(a--b), which is a comment.
---
 sql/parser/sqlite/parser_antlr_visitor.go | 33 ++++++++++++++++++++---
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index e45a272..02028f5 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -17,6 +17,7 @@ package sqlite
 import (
 	"fmt"
 
+	go_antlr "github.com/antlr4-go/antlr/v4"
 	"github.com/cybergarage/go-safecast/safecast"
 	"github.com/cybergarage/go-sqlparser/sql/fn"
 	"github.com/cybergarage/go-sqlparser/sql/parser/sqlite/antlr"
@@ -550,7 +551,7 @@ func newUpdateWith(ctx antlr.IUpdate_stmtContext) query.Update {
 			ope := v.GetOpe().GetText()
 			args := []string{
 				v.Column_name().GetText(),
-				v.Expr().GetText(),
+				newExprTextWith(v.Expr()),
 			}
 			if executor, _ := fn.NewArithOperatorFor(ope, fn.WithExecutorArguments(args)); executor != nil {
 				opts = append(opts, query.WithColumnFunctionExecutor(executor))
@@ -639,7 +640,7 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 		}
 		groupBy := parentQuery.GetGroupByExpr()
 		if 0 < len(groupBy) {
-			opts = append(opts, query.WithSelectGroupBy(groupBy[0].GetText()))
+			opts = append(opts, query.WithSelectGroupBy(newExprTextWith(groupBy[0])))
 		}
 	}
 	where := query.NewCondition()
@@ -652,7 +653,7 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 		if 0 < len(orderBy) {
 			orders := []query.Order{}
 			for _, order := range orderBy {
-				orderColumn := order.Expr().GetText()
+				orderColumn := newExprTextWith(order.Expr())
 				orderType := query.OrderAsc
 				if orderSpec := order.Asc_desc(); orderSpec != nil {
 					orderType = query.NewOrderTypeWith(orderSpec.GetText())
@@ -736,7 +737,7 @@ func newSelectorFrom(ctx antlr.IResult_columnContext) (query.Selector, error) {
 				args = append(args, fn.NewArgumentWith(star.GetText()))
 			} else {
 				for _, arg := range fx.AllExpr() {
-					args = append(args, fn.NewArgumentWith(arg.GetText()))
+					args = append(args, fn.NewArgumentWith(newExprTextWith(arg)))
 				}
 			}
 			return fn.NewFunction(
@@ -882,6 +883,30 @@ func newSourceTextWith(ctx antlr.IExprContext) string {
 	return ctx.GetParser().GetTokenStream().GetTextFromRuleContext(ctx)
 }
 
+// newExprTextWith returns the tokens of the specified expression, separated only where they would run together.
+func newExprTextWith(ctx antlr.IExprContext) string {
+	isWord := func(c byte) bool {
+		return c == '_' || c == '$' || c == '\'' || c == '"' || c == '`' || 0x80 <= c ||
+			('0' <= c && c <= '9') || ('A' <= c && c <= 'Z') || ('a' <= c && c <= 'z')
+	}
+	tokens := ctx.GetParser().GetTokenStream()
+	text := ""
+	for i := ctx.GetStart().GetTokenIndex(); i <= ctx.GetStop().GetTokenIndex(); i++ {
+		token := tokens.Get(i)
+		if token.GetChannel() != go_antlr.TokenDefaultChannel || len(token.GetText()) == 0 {
+			continue
+		}
+		if 0 < len(text) {
+			last, first := text[len(text)-1], token.GetText()[0]
+			if (isWord(last) && isWord(first)) || (last == '-' && first == '-') {
+				text += " "
+			}
+		}
+		text += token.GetText()
+	}
+	return text
+}
+
 func newUseWith(ctx antlr.IUse_stmtContext) query.Use {
 	return query.NewUseWith(ctx.Database_name().GetText())
 }
-- 
2.43.0


From e926ac39a87aa611172fe68511d46e666bf599fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:42 +0000
Subject: [PATCH 79/83] fix: keep RAND below 1

The 63 random bits were rounded to a float64 before the division, so the
largest of them became 1.0, outside of the documented range [0.0, 1.0).
---
 sql/fn/math_func.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sql/fn/math_func.go b/sql/fn/math_func.go
index 832fb9b..3c4c492 100644
--- a/sql/fn/math_func.go
+++ b/sql/fn/math_func.go
@@ -239,9 +239,9 @@ func NewRand(opts ...ExecutorOption) Executor {
 			if err != nil {
 				return nil, err
 			}
-			// Convert bytes to uint64 and then to float64 in [0.0, 1.0)
+			// Convert the upper 53 bits, which a float64 holds exactly, to a float64 in [0.0, 1.0)
 			n := binary.BigEndian.Uint64(b[:])
-			return float64(n&0x7FFFFFFFFFFFFFFF) / float64(0x7FFFFFFFFFFFFFFF), nil
+			return float64(n>>11) / float64(1<<53), nil
 		},
 		opts...,
 	)
-- 
2.43.0


From 8b65ceaec8fd7266a91ff67499da4793383139f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:46 +0000
Subject: [PATCH 80/83] fix: compute FLOOR, CEIL, ROUND, POWER and % beyond the
 range of int

The numbers were converted to int, which overflows for the numbers from 2^63 on,
so that FLOOR(1e19) was negative and POWER(-1, 1e19) was rejected.
---
 sql/fn/arith_func.go |  9 +++++++--
 sql/fn/math_func.go  | 16 ++++++++++++----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/sql/fn/arith_func.go b/sql/fn/arith_func.go
index f229768..f1775cc 100644
--- a/sql/fn/arith_func.go
+++ b/sql/fn/arith_func.go
@@ -16,6 +16,7 @@ package fn
 
 import (
 	"fmt"
+	"math"
 )
 
 // NewArithOperatorFor returns a new arithmetic function with the given operator and implementation.
@@ -85,10 +86,14 @@ func NewModOperator(opts ...ExecutorOption) Executor {
 	return NewArithFunctionWith(
 		ModOperatorID,
 		func(v1, v2 float64) (float64, error) {
-			if int(v2) == 0 {
+			if math.Trunc(v2) == 0 {
 				return 0, newErrInvalidArguments(ModOperatorID, v1, v2)
 			}
-			return (float64(int(v1) % int(v2))), nil
+			v := math.Mod(math.Trunc(v1), math.Trunc(v2))
+			if v == 0 {
+				return 0, nil // Not a negative zero
+			}
+			return v, nil
 		},
 		opts...,
 	)
diff --git a/sql/fn/math_func.go b/sql/fn/math_func.go
index 3c4c492..e12815e 100644
--- a/sql/fn/math_func.go
+++ b/sql/fn/math_func.go
@@ -35,6 +35,14 @@ func NewAbs(opts ...ExecutorOption) Executor {
 	return ex
 }
 
+// newIntegerValue returns an int for the specified integral number, or the number itself when it is out of the range of int.
+func newIntegerValue(v float64) any {
+	if v < math.MinInt || math.MaxInt <= v {
+		return v
+	}
+	return int(v)
+}
+
 // NewFloor returns a new floor function.
 func NewFloor(opts ...ExecutorOption) Executor {
 	return NewMathFunctionWith(
@@ -43,7 +51,7 @@ func NewFloor(opts ...ExecutorOption) Executor {
 			if len(args) != 1 {
 				return nil, newErrInvalidArguments(FloorFunctionName, args)
 			}
-			return int(math.Floor(args[0])), nil
+			return newIntegerValue(math.Floor(args[0])), nil
 		},
 		opts...,
 	)
@@ -57,7 +65,7 @@ func NewCeil(opts ...ExecutorOption) Executor {
 			if len(args) != 1 {
 				return nil, newErrInvalidArguments(CeilFunctionName, args)
 			}
-			return int(math.Ceil(args[0])), nil
+			return newIntegerValue(math.Ceil(args[0])), nil
 		},
 		opts...,
 	)
@@ -71,7 +79,7 @@ func NewRound(opts ...ExecutorOption) Executor {
 			if len(args) != 1 {
 				return nil, newErrInvalidArguments(RoundFunctionName, args)
 			}
-			return int(math.Round(args[0])), nil
+			return newIntegerValue(math.Round(args[0])), nil
 		},
 		opts...,
 	)
@@ -155,7 +163,7 @@ func NewPower(opts ...ExecutorOption) Executor {
 			}
 			base := args[0]
 			exp := args[1]
-			if base < 0 && exp != float64(int(exp)) {
+			if base < 0 && exp != math.Trunc(exp) {
 				return nil, newErrNegativeValue(args)
 			}
 			return math.Pow(base, exp), nil
-- 
2.43.0


From dfb7b7c87b13893f5c8650574139b04841efe6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:22 +0000
Subject: [PATCH 81/83] fix: list the executors of a type when a selector is an
 aggregate

ExecutorsForType failed for SELECT ABS(a), SUM(b), although Executors skips
the aggregates.
---
 sql/query/selectors_helper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql/query/selectors_helper.go b/sql/query/selectors_helper.go
index 889cf7f..ef8b2b9 100644
--- a/sql/query/selectors_helper.go
+++ b/sql/query/selectors_helper.go
@@ -139,6 +139,9 @@ func (selectors Selectors) ExecutorsForType(t FunctionType) ([]FunctionExecutor,
 		if !ok {
 			continue
 		}
+		if fn.IsAggregator() {
+			continue
+		}
 		executor, err := fn.Executor()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From cac2dd7a21ee4190905e9a93dc2f3acefde700fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:49 +0000
Subject: [PATCH 82/83] fix: keep the aggregator given to
 WithFunctionAggregator

---
 sql/fn/func_impl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sql/fn/func_impl.go b/sql/fn/func_impl.go
index 53ed012..ececeaa 100644
--- a/sql/fn/func_impl.go
+++ b/sql/fn/func_impl.go
@@ -75,6 +75,7 @@ func WithFunctionExecutor(executor Executor) FunctionOption {
 // WithFunctionAggregator sets the function aggregator.
 func WithFunctionAggregator(aggregator Aggregator) FunctionOption {
 	return func(fn *function) {
+		fn.aggregator = aggregator
 		fn.name = aggregator.Name()
 		fn.typ = AggregateFunction
 	}
-- 
2.43.0


From 255bb89282f61f6cf839a0378fcb8e6be7cd3f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:39 +0000
Subject: [PATCH 83/83] fix: take a quoted column name that is also a keyword
 as a column

---
 sql/parser/sqlite/parser_antlr_visitor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 02028f5..aa11806 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -412,7 +412,7 @@ func newColumnWith(ctx antlr.IColumn_defContext) (query.Column, bool) {
 
 	// Column name
 
-	name := strings.UnEscapeNameString(ctx.Column_name().GetText())
+	name := ctx.Column_name().GetText()
 
 	for _, keyword := range keywords {
 		if strings.Equal(name, keyword) {
@@ -420,6 +420,8 @@ func newColumnWith(ctx antlr.IColumn_defContext) (query.Column, bool) {
 		}
 	}
 
+	name = strings.UnEscapeNameString(name)
+
 	// Column type
 
 	typ := ctx.Type_name()
-- 
2.43.0

