#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the properties are readable)."""
import json, os
P = []
V = "sql/parser/sqlite/parser_antlr_visitor.go"
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "A parsed SELECT reports exactly the query that was written",
  "For every SELECT of the supported dialect (selectors that are *, column names or function calls; one or more tables with or without a schema qualifier; optional DISTINCT, WHERE, GROUP BY one column, ORDER BY and LIMIT/OFFSET), the parsed statement reports exactly the written selectors, function names and arguments, tables, grouping column, order terms with their directions (ascending when none is written), limit and offset, in the written order, nothing lost, added, merged or reordered. Which selectors are functions, aggregate functions or the asterisk is reported accordingly.",
  ["inputs"], "every combination of clauses, every list length and every identifier length and shape within the stated bounds",
  "The tests parse a few hundred fixed queries and compare mostly the printed text; no test covers the combinations of clauses, long lists or unusual identifiers.",
  [V, "sql/query/select.go", "sql/query/selectors.go", "sql/query/selectors_helper.go", "sql/query/limit.go", "sql/query/order.go", "sql/query/group.go", "sql/query/table.go", "sql/query/tables.go"],
  [("SELECT visitor", V + ": newSelectWith, newSelectorFrom, newTableNameWith")],
  ["ParseString result: Selectors, From, GroupBy, OrderBy, Limit, IsDistinct, Where"])
p("C02", "A parsed INSERT keeps every value with its own column",
  "For every INSERT (or REPLACE) with a VALUES list, the parsed statement reports the written table with its qualifier and one row per written row, in order; in each row the value written at position i belongs to the column written at position i, strings unquoted and all other values as written. A statement whose rows do not have one value per listed column is rejected as a whole.",
  ["inputs"], "every number of columns and rows, every kind of value at every position, with and without a column list",
  "Alignment is a property of all widths, heights and value kinds at once; the tests use a handful of fixed rows.",
  [V, "sql/query/insert.go", "sql/query/column.go", "sql/query/columns.go", "sql/query/literal.go"],
  [("INSERT visitor", V + ": newInsertWith, newLiteralValueWith")],
  ["ParseString result: TableName/FullTableName, Values, Columns, Name, Value, ValueType"])
p("C03", "A parsed UPDATE or DELETE reports its table, assignments and condition",
  "For every UPDATE the parsed statement reports the written table (with its qualifier), exactly the written assignments in order - each column name with its literal, placeholder, arithmetic expression (operator and both operands) or other expression text - and the written condition; for every DELETE it reports the written table and condition. A statement without WHERE reports that it has no condition and one with WHERE always reports that it has one.",
  ["inputs"], "every number of assignments, every kind of assigned value and every condition form",
  "A lost or shifted assignment or a lost WHERE affects all rows; the tests try only a few fixed statements.",
  [V, "sql/query/update.go", "sql/query/delete.go", "sql/query/where.go", "sql/query/column.go"],
  [("UPDATE and DELETE visitors", V + ": newUpdateWith, newDeleteWith"), ("assignment printing", "sql/query/column.go: UpdatorString")],
  ["ParseString result: TableName, Columns, Function, Arguments, Where, HasConditions"])
p("C04", "A WHERE condition is never lost or changed",
  "For every SELECT, UPDATE and DELETE with a WHERE clause, the parsed condition is present and denotes the written one: a comparison keeps its column, operator and value, AND and OR keep both sides in order and are not exchanged, and any other accepted form (IN, BETWEEN, LIKE, IS NULL, NOT, parentheses, nested expressions) is kept with its source text.",
  ["inputs"], "every operator, literal kind, connective and expression form, in each of the three statement kinds",
  "The tests assert a few comparison forms; that no accepted expression form is dropped is a statement over the whole expression grammar.",
  [V, "sql/query/where.go", "sql/query/expr_and.go", "sql/query/expr_or.go", "sql/query/expr_cmp.go", "sql/query/expr_raw.go"],
  [("expression visitor", V + ": newExprWith")],
  ["ParseString result: Where().HasConditions, Where().Expr and its operands"])
p("C05", "A parsed CREATE TABLE reports the written table definition",
  "For every CREATE TABLE with column definitions the parsed statement reports the written (qualified) table name, the IF NOT EXISTS flag, exactly the written columns in order with their names, data types and sizes, and exactly the written primary key (on a column or as a table constraint, single- or multi-column) and single-column secondary indexes with their names and columns in order.",
  ["inputs"], "every data type name, size, number of columns, primary-key placement and index placement within the bounds",
  "The tests use a few fixed tables; every type keyword, size and combination of key placements cannot be listed by hand.",
  [V, "sql/query/create_table.go", "sql/query/schema.go", "sql/query/column_def.go", "sql/query/data_type.go", "sql/query/index.go"],
  [("CREATE TABLE visitor", V + ": newTableSchemaWith, newColumnWith, newIndexedColumnWith"), ("data definition", "sql/query/column_def.go: NewDataDefFromStrings")],
  ["ParseString result: Schema().Columns, Indexes, IfNotExists, TableName"])
p("C06", "Parsed index, alter, drop and database statements report what was written",
  "For every CREATE INDEX, DROP INDEX, ALTER TABLE (RENAME TO, RENAME COLUMN, ADD COLUMN, ADD PRIMARY KEY or INDEX, DROP COLUMN), DROP TABLE, CREATE/DROP/ALTER DATABASE, TRUNCATE and USE statement, the parsed statement has the right kind and reports exactly the written objects, qualifiers, column lists in order, old and new names, and IF [NOT] EXISTS flag, and reports no action that was not written.",
  ["inputs"], "every statement form, optional part and list length within the bounds",
  "Destructive statements must name the right object for every name and option; the tests sample a few.",
  [V, "sql/query/create_index.go", "sql/query/drop_index.go", "sql/query/alter_table.go", "sql/query/drop_table.go", "sql/query/create_database.go", "sql/query/drop_database.go", "sql/query/alter_database.go", "sql/query/truncate.go", "sql/query/use.go"],
  [("DDL visitors", V + ": newCreateIndexWith, newDropIndexWith, newAlterTableWith, newAddIndexSchemaWith, newDropTableWith, newCreateDatabaseWith, newDropDatabaseWith, newAlterDatabaseWith, newTruncateWith, newUseWith")],
  ["ParseString result: accessors of each statement kind"])
p("C07", "Transaction and utility statements are recognised as what they are",
  "Every spelling of BEGIN, COMMIT (and END), ROLLBACK, COPY and VACUUM that is accepted yields exactly one statement of that kind and no other, and COPY reports its table, columns, source and format, and VACUUM its table.",
  ["inputs"], "every accepted spelling with every optional word, and every column-list length of COPY",
  "Confusing COMMIT and ROLLBACK or losing the format of COPY shows only in spellings the tests do not contain.",
  [V, "sql/query/begin.go", "sql/query/commit.go", "sql/query/rollback.go", "sql/query/copy.go", "sql/query/vacuum.go", "sql/query/statement_type.go"],
  [("statement dispatch", V + ": newStatementWith, newCopyWith, newVacuumWith, newBeginWith, newCommitWith, newRollbackWith")],
  ["ParseString result: StatementType, COPY and VACUUM accessors"])
p("C08", "Printing a parsed statement and parsing it again gives the same statement",
  "For every statement accepted by the parser in the supported dialect, its printed text is accepted again, yields exactly one statement of the same kind that reports the same contents, and printing that statement gives the same text; the printed text never denotes a wider or different operation.",
  ["inputs"], "every statement of the models of C01-C07, including every string content, list length and option combination",
  "The tests print queries that are already in canonical form; the round trip must hold for every accepted statement.",
  ["sql/query/select.go", "sql/query/insert.go", "sql/query/update.go", "sql/query/delete.go", "sql/query/create_table.go", "sql/query/alter_table.go", "sql/query/copy.go", "sql/query/literal.go", "sql/util/strings/strings.go"],
  [("statement printing", "sql/query: String of every statement, DefinitionString, ValueString"), ("quoting", "sql/util/strings/strings.go: EscapeString, UnEscapeString")],
  ["Statement.String() parsed again"])
p("C09", "Literal values survive parsing and printing unchanged",
  "Every string of characters written as a quoted literal (embedded quotes doubled) is reported as exactly that string and printed as a literal that denotes the same string; numbers of any size, sign, fraction and exponent, NULL, TRUE, FALSE, hexadecimal blobs and CURRENT_ keywords are reported with exactly their written text, and only quoted text is reported as a string. A quoted question mark is never a placeholder and an unquoted one always is.",
  ["inputs"], "every single character, every pair over the special characters, long strings, every number shape and power-of-two neighbourhood, in INSERT, UPDATE and WHERE position",
  "Data corruption of one particular character or digit position is invisible to sampled literals.",
  [V, "sql/query/literal.go", "sql/util/strings/strings.go"],
  [("literal construction", V + ": newLiteralValueWith"), ("escaping", "sql/util/strings/strings.go: EscapeString, UnEscapeString"), ("placeholder test", "sql/query/literal.go: IsPlaceHolder")],
  ["Value, ValueType, IsPlaceHolder, String of INSERT/UPDATE columns and comparison operands"])
p("C10", "A script of several statements yields exactly those statements in order",
  "Parsing a script of statements separated by semicolons, with any whitespace or comments between them and an optional trailing semicolon, yields one statement per written statement in the written order, each equal to what parsing it alone yields, however many there are. If any statement of the script is invalid, nothing of the script is returned.",
  ["programs", "inputs"], "every sequence of statement kinds up to the depth bound, every separator form, scripts of many statements",
  "The tests parse single statements and a few fixed scripts.",
  ["sql/parser/sqlite/parser_antlr.go", V],
  [("statement list", V + ": VisitParse, newStatementListWith"), ("parser", "sql/parser/sqlite/parser_antlr.go: ParseString")],
  ["ParseString result list"])
p("C11", "Keyword case, whitespace and comments never change a statement",
  "Writing the keywords of a statement in any mixture of upper and lower case, separating its tokens by any spaces, tabs, newlines or comments, and writing or omitting optional words, never changes the parsed statement, and never changes the case of identifiers or the contents of literals.",
  ["inputs"], "every keyword of every statement form in every tested case pattern, every separator at every token boundary",
  "The tests write keywords in one or two fixed cases with single spaces.",
  [V, "sql/parser/sqlite/antlr/sqlite_lexer.go", "sql/query/order_type.go", "sql/query/copy.go", "sql/query/data_type.go", "sql/fn/type.go"],
  [("case-insensitive keywords", "sql/parser/sqlite/antlr/SQLiteLexer.g4"), ("keyword conversion", "sql/query/order_type.go: NewOrderTypeWith; sql/query/copy.go: WithCopyFormat; sql/query/data_type.go: NewDataTypeFromString")],
  ["ParseString results of all spellings compared"])
p("C12", "Every text gives statements or an error, never a panic or a partial result",
  "Parsing any text terminates and returns either an error and no statements or no error and a list of non-nil statements whose kind, contents and printed text can all be read without a panic. Empty text and a lone semicolon are reported as an empty query.",
  ["inputs"], "every short token sequence, every prefix, every one-token deletion, duplication and replacement of valid statements, every short character string over a hostile alphabet",
  "Robustness against arbitrary input is a statement about all inputs; the tests feed almost only valid statements.",
  ["sql/parser/sqlite/parser_antlr.go", V, "sql/query/column.go", "sql/query/literal.go"],
  [("error listener", "sql/parser/sqlite/parser_antlr_error_listener.go"), ("nil handling in visitors", V)],
  ["ParseString, and every accessor of returned statements"])
p("C13", "Invalid or unsupported SQL is rejected, not silently reinterpreted",
  "A statement that the library cannot represent - an unsupported statement kind, INSERT ... SELECT, a row with the wrong number of values, EXPLAIN, a truncated statement, or trailing or missing tokens - is rejected with an error wherever it stands in a script; it never disappears from the result and is never returned as a different statement.",
  ["inputs", "programs"], "every unsupported form at every position of a script; every truncation of the valid statements",
  "Silent omission needs a check over all unsupported forms and positions; the tests check a few syntax errors.",
  [V, "sql/parser/sqlite/parser_antlr.go"],
  [("rejection", V + ": newStatementListWith, newStatementWith, newInsertWith, newUpdateWith")],
  ["ParseString error"])
p("C14", "A parser instance can be reused: results do not depend on its history",
  "Whatever sequence of valid, invalid, empty and long texts one parser instance has parsed before, parsing a text gives the same statements or the same success or failure as a fresh parser, and statements returned earlier keep reporting the same contents.",
  ["histories"], "every sequence of texts up to the depth bound over a set of valid and invalid texts",
  "State carried from one call to the next appears only for particular sequences; the tests use a fresh parser per query.",
  ["sql/parser/sqlite/parser_antlr.go", "sql/parser/sqlite/parser_antlr_error_listener.go"],
  [("per-call state", "sql/parser/sqlite/parser_antlr.go: ParseString")],
  ["ParseString results along a history"],
  [("errorListener", "whether the last text had a syntax error", "sql/parser/sqlite/parser_antlr.go"), ("stmts", "the last returned statements", "sql/parser/sqlite/parser_antlr.go")])
p("C15", "Independent parsers and statements can be used concurrently",
  "Goroutines that each use their own parser, bind statement, schema, result set, aggregator, scalar function or data type lookup get the same results as when run alone, under every interleaving, without a data race.",
  ["schedules"], "every interleaving of two or three goroutines at statement granularity up to the preemption bound",
  "A race between independent parsers needs a particular interleaving; the tests are sequential.",
  ["sql/parser/sqlite/parser_antlr.go", V, "sql/query", "sql/fn", "sql/stmt"],
  [("no shared mutable state", "sql/parser/sqlite, sql/query, sql/fn, sql/stmt package variables")],
  ["results per goroutine; race detector reports per schedule"])
p("C16", "Binding parameters inserts exactly the given values at the placeholders",
  "Binding parameters to a query with ? or $n placeholders yields the statements in which each placeholder is replaced by exactly the given value - the n-th ? by the n-th parameter, $n by parameter n wherever and however often it occurs - whatever characters the values contain, so a value can never change the structure of the statement or be taken for a placeholder. Question marks and $n inside quoted text and comments stay as written, and a parameter without a placeholder is an error.",
  ["inputs"], "every placeholder style and order, up to a thousand parameters, ? and $n mixed, with or without blanks around them, every special character and type of value",
  "Injection safety is a statement about all values and placeholder positions; the tests bind a few plain values.",
  ["sql/stmt/bind_impl.go", "sql/stmt/bind_param_impl.go", "sql/util/strings/strings.go"],
  [("placeholder scan", "sql/stmt/bind_impl.go: Statements"), ("parameter text", "sql/stmt/bind_param_impl.go: String")],
  ["NewBindStatement(...).Statements() compared with the parsed literal query"])
p("C17", "COUNT, SUM, AVG, MIN and MAX agree with their definitions",
  "For every sequence of rows - of any supported numeric type, numeric strings and NULLs, given as arrays or as maps - each aggregate equals the mathematical value over the non-NULL values (COUNT(*) counts all rows), independent of how the rows were given and of earlier uses before a reset; a row that is rejected as invalid changes nothing.",
  ["histories", "inputs"], "every sequence of reset, valid row, NULL row and invalid row operations up to the depth bound over boundary values",
  "The tests aggregate a few ascending positive numbers; orders, signs, NULLs, invalid rows and reuse are all sequences.",
  ["sql/fn/aggr_impl.go", "sql/fn/sum.go", "sql/fn/avg.go", "sql/fn/min.go", "sql/fn/max.go", "sql/fn/count.go"],
  [("accumulation", "sql/fn/aggr_impl.go: Reset, AggregateRow, AggregateMap, Finalize")],
  ["Aggregator.Finalize rows and columns"],
  [("aggrs, counts", "running value and number of values per column", "sql/fn/aggr_impl.go")])
p("C18", "Grouped aggregates partition the rows by their exact group keys",
  "With grouping, every distinct combination of group keys yields exactly one result row that carries these keys and the aggregates of exactly the rows with these keys, whatever characters the keys contain and whether one or several aggregates are computed together; the requested ordering of groups is respected, and neither the result nor its order depends on internal map iteration order.",
  ["histories", "inputs", "schedules"], "every row sequence up to the depth bound over colliding keys, one to three group columns, sets of one to five aggregates, every map iteration order",
  "Mixing of aggregates between groups depends on map iteration order and on key contents; the tests use plain keys.",
  ["sql/fn/aggr_impl.go", "sql/fn/aggr_set.go", "sql/fn/groupby.go", "sql/fn/resultset_impl.go"],
  [("group keys", "sql/fn/groupby.go: NewGroupBySetKey"), ("combining", "sql/fn/aggr_set.go: Finalize"), ("ordering", "sql/fn/aggr_impl.go: Finalize")],
  ["Aggregator.Finalize and AggregatorSet.Finalize rows and columns"],
  [("groupKeys, groupAggrs, groupCounts", "per-group keys, running values and counts", "sql/fn/aggr_impl.go")])
p("C19", "An aggregated result set equals the aggregation of its source rows",
  "For every parsed SELECT whose selectors are aggregate functions (with or without GROUP BY one column) and every source result set, the aggregated result set has one column per selector in order and the rows a reference evaluation gives; with only plain selectors the source rows are passed through unchanged, scalar functions in selectors are evaluated on each row, and a selector naming an unknown column or a row whose value an aggregate cannot take is an error. The aggregated result set is of the source's database and the table's name.",
  ["inputs", "histories"], "every selector list up to three aggregates over a small table, every table of up to four rows over a small value set",
  "End-to-end evaluation combines parsing, schemas and aggregation; the tests check a few fixed tables.",
  ["sql/query/response/resultset/resultset_aggr.go", "sql/query/response/resultset/row_helper.go", "sql/query/response/resultset/schema_helper.go", "sql/query/selectors_helper.go", "sql/query/select_helper.go"],
  [("aggregation", "sql/query/response/resultset/resultset_aggr.go: NewAggregatedResultSetFrom"), ("row evaluation", "sql/query/response/resultset/row_helper.go: NewRowFromObject")],
  ["ResultSet rows and schema columns"])
p("C20", "Scalar functions and arithmetic compute their mathematical results",
  "ABS, CEIL, FLOOR, ROUND, SQRT, EXP, LOG, LOG10, POWER, MOD, SIN, COS, TAN, PI, UPPER, LOWER, TRIM and the operators + - * / % return the value of the named operation for every argument in its domain, given as a number of any type or a numeric string, positionally or by column name; a wrong number of arguments, a non-numeric argument, a negative argument of SQRT, a negative base of POWER with a fractional exponent, a non-positive argument of LOG or LOG10, and a zero divisor of MOD or % (which works on the integer parts of its operands) are errors, never a panic or a wrong value. RAND returns a number of [0, 1) whatever random bits it is given, and NOW and CURRENT_TIMESTAMP the time of the call.",
  ["inputs"], "every function over every tuple of boundary arguments in every representation",
  "The tests call each function with one or two values.",
  ["sql/fn/math_func.go", "sql/fn/math.go", "sql/fn/arith_func.go", "sql/fn/arith.go", "sql/fn/string_func.go", "sql/fn/string.go", "sql/fn/executor_impl.go"],
  [("execution", "sql/fn/executor_impl.go: Execute; sql/fn/*_func.go")],
  ["Executor.Execute, ExecuteFunction"])
p("C21", "A function name denotes the same function everywhere, in any case",
  "Every registered function name, in any mixture of case and with or without its argument list, is recognised as registered, has the same type wherever it is asked, yields an executor or aggregator that reports and computes that very function, and is classified accordingly in parsed selectors; every other name, including prefixes, extensions and neighbours of registered names, is not recognised and never runs some other function.",
  ["inputs"], "every registered name, every case pattern, every one-character edit, prefix and extension of each name",
  "Prefix matching errors appear only for particular names; the tests look up each exact name once.",
  ["sql/fn/names.go", "sql/fn/type.go", "sql/fn/executor_func.go", "sql/fn/aggr_func.go", "sql/fn/func_impl.go", "sql/query/selectors_helper.go"],
  [("registry", "sql/fn/names.go: IsRegisteredFunction"), ("lookup", "sql/fn/executor_func.go: NewExecutorForName; sql/fn/aggr_func.go: NewAggregatorForName; sql/fn/type.go: NewFunctionTypeForName")],
  ["IsRegisteredFunction, NewFunctionTypeForName, NewExecutorForName, NewAggregatorForName, Selectors helpers"])
p("C22", "A result-set cursor returns exactly the rows between offset and limit",
  "For any rows, offset and limit (no or zero limit meaning all), advancing a result set returns exactly the rows from the offset up to the limit, each once and in order, and then reports the end and stays there; reading a row before the first advance or after the end is an error, reading twice gives the same row, and no sequence of calls panics. The number of affected rows and the schema are reported as given.",
  ["histories", "configurations"], "every number of rows, offset and limit in the bounds and every sequence of advance and read calls",
  "Boundary cursors are a product of three numbers and a call sequence; the tests iterate a few result sets.",
  ["sql/query/response/resultset/resultset_impl.go", "sql/query/response/resultset/resultset_helper.go", "sql/fn/resultset_impl.go"],
  [("cursor", "sql/query/response/resultset/resultset_impl.go: Next, Row"), ("aggregate cursor", "sql/fn/resultset_impl.go: Next, Row, Map")],
  ["Next, Row, Schema, RowsAffected"],
  [("rowCursor", "position in the rows", "sql/query/response/resultset/resultset_impl.go")])
p("C23", "All ways to read a row agree with each other and with the schema",
  "A row built from values or from named values reports, for every column of its schema, the same value by position, by name, in the value list, in the object and by every scan form, in schema order, with missing values as NULL; an unknown name or a position out of range is an error, scanning converts to the destination's type without changing the value, and reading in one way never changes what another way returns.",
  ["histories", "inputs"], "every construction, schema width and access order within the bounds, every value type and destination type",
  "Lazily built views make the result depend on the access order; the tests read rows in one way.",
  ["sql/query/response/resultset/row_impl.go", "sql/query/response/resultset/row_helper.go", "sql/query/response/resultset/rows_helper.go", "sql/query/response/resultset/schema_impl.go", "sql/query/response/resultset/column_impl.go"],
  [("lazy views", "sql/query/response/resultset/row_impl.go: Object, Values"), ("scan", "sql/query/response/resultset/row_impl.go: Scan, ScanAt, ScanBy")],
  ["Row accessors"],
  [("object, values", "the two views of a row, built on demand", "sql/query/response/resultset/row_impl.go")])
p("C24", "A schema evolves exactly as its alter operations say",
  "After any sequence of adding and dropping columns and indexes, directly or through parsed ALTER TABLE, CREATE INDEX and DROP INDEX statements (the latter two made alter statements of the same table and index by NewAlterTableFrom, which reports an error for every other statement), a schema has exactly the expected columns and indexes in order, finds each by name in any case and at its position, reports an error for a name that is absent and for a position out of range, an operation that returns an error leaves the schema unchanged, and column and index lists given to or taken from a schema are not changed by later operations on it or on another schema.",
  ["histories"], "every operation sequence up to the depth bound over colliding names",
  "Dropping the wrong element shows only for particular positions and sequences; the tests drop once.",
  ["sql/query/schema.go", "sql/query/columns.go", "sql/query/indexes.go", "sql/query/alter_table.go", "sql/query/alter_table_from.go"],
  [("alteration", "sql/query/schema.go: Alter, AddColumn, DropColumn, AddIndex, DropIndex"), ("lookup", "sql/query/columns.go, sql/query/indexes.go")],
  ["Schema.Columns, Indexes, LookupColumn, LookupIndex"],
  [("columns, indexes", "ordered lists of the schema", "sql/query/schema.go")])
p("C25", "Applying a schema converts values exactly or reports an error",
  "Setting a schema on the columns of an INSERT or UPDATE, or setting a value on a typed column, converts each numeric or Boolean value to the Go type of its column type with exactly the given value when it is representable (the nearest floating point number for FLOAT and DOUBLE; for an integer column at most the fraction is cut off), reports an error when it is out of range or not a number, leaves the values of text, binary and time columns as they are, matches columns by name in any case, and reports an error for a column the schema does not have.",
  ["inputs"], "every numeric column type against every boundary value of every integer width and neighbouring values, in every value kind",
  "Silent wrap-around or truncation appears only at boundary values; the tests convert a few small values.",
  ["sql/query/column.go", "sql/query/columns.go"],
  [("conversion", "sql/query/column.go: SetDefinition, SetValue; sql/query/columns.go: SetSchema")],
  ["Columns.SetSchema, Column.SetValue, Column.Value"])
p("C26", "A connection's session state follows its calls, also under concurrency",
  "A connection reports the user, database and schemas last set (selecting a database clears the schemas, setting schemas adds only new ones in order), its identifiers and timestamp never change, returned schema lists are independent copies, and closing it closes the underlying connection exactly once; under every interleaving of concurrent callers each call behaves as if executed alone at some point, without a data race or deadlock.",
  ["histories", "schedules"], "every operation sequence up to the depth bound; every interleaving of two or three concurrent callers up to the preemption bound",
  "Atomicity under concurrent use depends on the interleaving; the tests are sequential.",
  ["sql/net/conn_impl.go", "sql/net/conn.go"],
  [("mutex", "sql/net/conn_impl.go: every setter and getter")],
  ["Conn accessors; Close calls on the underlying connection"],
  [("user, db, schemas, isClosed", "session state", "sql/net/conn_impl.go")])
p("C27", "The connection manager always finds exactly the registered connections",
  "After any sequence of adding, updating, removing (by connection, by ID, by UUID) and closing, looking up a connection by ID and by UUID and listing all connections agree with each other and with the history: each registered connection is found by both its identifiers and listed once, and no other is; an add or update that would clash with another registered connection or updates an unknown one is an error and changes nothing; closing closes and removes every connection, keeping those that fail to close and reporting their errors.",
  ["histories", "fault_sequences"], "every operation sequence up to the depth bound over connections with colliding identifiers, with close failures at every point",
  "Index divergence needs particular sequences with colliding identifiers; the tests add and remove once.",
  ["sql/net/conn_manager_impl.go", "sql/net/conn_manager.go"],
  [("two indexes", "sql/net/conn_manager_impl.go: AddConn, UpdateConn, removeConn, Close")],
  ["ConnManager methods"],
  [("m, uidMap", "connections by UUID and by ID", "sql/net/conn_manager_impl.go")])
p("C28", "The connection manager is linearizable under concurrent use",
  "For concurrent callers adding, updating, removing, looking up, listing and stopping on one connection manager, every interleaving is free of data races and deadlocks, every call returns what some sequential order of the calls would return (closing the manager counts as listing the connections followed by closing and removing each of them in its own step), and the final state is the one of that order.",
  ["schedules"], "every interleaving of two or three goroutines with one or two operations each on colliding identifiers, up to the preemption bound",
  "Check-then-act races need a particular interleaving; the tests are sequential.",
  ["sql/net/conn_manager_impl.go"],
  [("read-write mutex", "sql/net/conn_manager_impl.go: every method")],
  ["call and return history of ConnManager methods"],
  [("m, uidMap", "connections by UUID and by ID", "sql/net/conn_manager_impl.go")])
p("C29", "Schema-column queries and results describe exactly the given tables",
  "A schema-columns statement generated for a database and tables is a SELECT on the information schema columns whose condition names exactly that database and these tables, reading such a SELECT back gives the same names (a condition on any other column names nothing, and one that is not an equality or two joined by AND is an error), and only a SELECT on exactly that table is recognised as such a query; the result set built from schemas has one row per column of every table in order with its table, column name and data type, and reading it back gives exactly these columns.",
  ["inputs"], "every combination of database and table names (including special characters) and every list of schemas within the bounds and the grammar's limits",
  "The round trip must hold for all names, types and table lists; the tests use one table.",
  ["sql/system/schema_columns.go", "sql/system/schema_columns_stmt_impl.go", "sql/system/schema_columns_resutset.go", "sql/system/schema_columns_resutset_from.go", "sql/system/schema_columns_resutset_impl.go"],
  [("statement generation and reading", "sql/system/schema_columns_stmt_impl.go"), ("result set", "sql/system/schema_columns_resutset_from.go")],
  ["SchemaColumnsStatement, SchemaColumnsResultSet"])
p("C30", "Data type names and values map to data types consistently",
  "Every data type has a distinct printed name that maps back to exactly that type in any mixture of case (given as text or bytes), every other name is an error, and every supported Go value maps to the column type of its kind, also in a result set schema made of named values, which has one column per name in the order of the names, independent of internal map iteration order.",
  ["inputs", "schedules"], "every data type, case pattern and one-character edit of its name, every value kind, every map iteration order",
  "Name lookup iterates a map, so the outcome may depend on iteration order; the tests check a few names.",
  ["sql/query/data_type.go", "sql/query/column_def.go"],
  [("names", "sql/query/data_type.go: NewDataTypeFromString, String, NewDataTypeForValue")],
  ["NewDataTypeFrom, DataType.String, NewDataTypeForValue"])
p("C31", "Copies and statements are isolated from each other",
  "A copy of a column or column list reports the same name, definition, value and function as its original and afterwards changes independently of it, and statements parsed from one text or by one parser never share changeable parts: setting values or schemas on one leaves all others as they were parsed.",
  ["histories"], "every column kind, every mutation sequence up to the depth bound on either side of the copy",
  "Aliasing shows only when one side is changed afterwards; the tests never do.",
  ["sql/query/column.go", "sql/query/columns.go", "sql/query/insert.go", V],
  [("copying", "sql/query/column.go: Copy; sql/query/columns.go: Copy, NewColumnsWith")],
  ["Column and Columns accessors before and after changes to the other side"])
p("C32", "A statement built with the constructors reports and prints its parts",
  "For every statement built with the public constructors and options from parts of the supported dialect (names, literals of any Go number, string or Boolean value and NULL, comparisons, AND and OR, selectors, functions, tables, orders, limits, column definitions, indexes), the statement reports exactly the given parts, and its printed text is SQL of the dialect that parses to one statement of the same kind that reports the same parts.",
  ["inputs"], "every combination of parts within the bounds, for every statement kind, in every order of the options",
  "The tests print parsed statements only; statements that a caller builds have other values (Go numbers, Booleans, NULL, options in any order) and are sent as text to other systems.",
  ["sql/query/select.go", "sql/query/insert.go", "sql/query/update.go", "sql/query/delete.go", "sql/query/create_table.go", "sql/query/create_index.go", "sql/query/drop_table.go", "sql/query/alter_table.go", "sql/query/copy.go", "sql/query/literal.go", "sql/query/column.go", "sql/query/expr_cmp.go", "sql/query/schema.go"],
  [("constructors and printing", "sql/query: New*With, With*, String"), ("literal printing", "sql/query/literal.go: ValueString")],
  ["statement accessors and String(); ParseString of the printed text"])
p("C33", "Errors can be told apart by kind, and SQLSTATE codes are the standard ones",
  "Every error made by an error constructor, and every error of a failed lookup, drop, read or conversion, matches (errors.Is) exactly the kind its name says - not exist, exist, not found, not supported, not implemented, not equal, invalid - also when wrapped, and carries the given names; every SQLSTATE code and class constant has the value and text of its condition in the PostgreSQL table, and no other code or class has a text.",
  ["inputs"], "every constructor with every name of a set that contains format verbs and kind words; every failing operation; every text of five characters 0-9A-Z",
  "A wrong or unwrapped kind shows only when a caller compares errors; the tests compare none.",
  ["sql/errors/errors.go", "sql/errors/query.go", "sql/errors/code.go", "sql/errors/class.go", "sql/query/errors.go", "sql/fn/errors.go", "sql/system/errors.go", "sql/query/response/resultset/row_impl.go", "sql/query/response/resultset/schema_impl.go"],
  [("error constructors", "sql/errors/errors.go, sql/errors/query.go: NewErr*"), ("SQLSTATE", "sql/errors/code.go: Code.String; sql/errors/class.go: Class.String")],
  ["errors.Is and Error() of returned errors; Code and Class values and String()"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
