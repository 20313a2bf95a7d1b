package main

import (
	_ "embed"
	"fmt"
	"os"
	"sort"
	"strings"
)

// Names that are also keywords, functions or data types of the dialect. Where the grammar takes such a word as a name
// is recorded in keyword_names.txt (form and word): there it must always be reported as that name.

//go:embed keyword_names.txt
var keywordNames string

const grammarKeywords = `ABORT ACTION ADD AFTER ALL ALTER ANALYZE AND AS ASC ATTACH AUTOINCREMENT BEFORE BEGIN BETWEEN BY CASCADE CASE CAST CHECK COLLATE COLUMN COMMIT CONFLICT
CONSTRAINT COPY CREATE CROSS CSV CURRENT_DATE CURRENT_TIME CURRENT_TIMESTAMP DATABASE DEFAULT DEFERRABLE DEFERRED DELETE DESC DETACH DISTINCT DROP EACH ELSE END ESCAPE EXCEPT EXCLUSIVE
EXISTS EXPLAIN FAIL FOR FOREIGN FORMAT FROM FULL GLOB GROUP HAVING IF IGNORE IMMEDIATE IN INDEX INDEXED INITIALLY INNER INSERT INSTEAD INTERSECT INTO IS ISNULL JOIN KEY LEFT LIKE LIMIT
MATCH NATURAL NO NOT NOTNULL NULL OF OFFSET ON OR ORDER OUTER PLAN PRAGMA PRIMARY QUERY RAISE RECURSIVE REFERENCES REGEXP REINDEX RELEASE RENAME REPLACE RESTRICT RIGHT ROLLBACK ROW ROWS
SAVEPOINT SELECT SET STDIN TABLE TEXT TEMP TEMPORARY THEN TO TRANSACTION TRIGGER TRUNCATE UNION UNIQUE UPDATE USE USING VACUUM VALUES VIEW VIRTUAL WHEN WHERE WITH WITHOUT FIRST_VALUE OVER PARTITION
RANGE PRECEDING UNBOUNDED CURRENT FOLLOWING CUME_DIST DENSE_RANK LAG LAST_VALUE LEAD NTH_VALUE NTILE PERCENT_RANK RANK ROW_NUMBER GENERATED ALWAYS STORED TRUE FALSE WINDOW NULLS FIRST LAST
FILTER GROUPS EXCLUDE BINARY BLOB BIGINT BIT BOOLEAN CHAR CHARACTER CLOB DATE DATETIME DECIMAL DOUBLE FLOAT INT INTEGER LONGBLOB LONGTEXT MEDIUMINT NUMERIC NAME REAL SMALLINT TIME TIMESTAMP
TINYINT VARBINARY VARCHAR YEAR ABS CEIL FLOOR ROUND SQRT LOG LOG10 EXP POWER MOD SIN COS TAN RAND PI UPPER LOWER TRIM NOW MAX MIN SUM AVG COUNT`

func keywordWords() []string {
	out := []string{}
	for _, w := range strings.Fields(grammarKeywords) {
		l := strings.ToLower(w)
		out = append(out, l, l[:1]+strings.ToUpper(l[1:]), strings.ToUpper(l[:1])+l[1:], w)
	}
	return out
}

type wordForm struct {
	name string
	at   func(w string) mstmt
}

func wordForms() map[string][]wordForm {
	t := mname{"", "t"}
	one := lraw("1")
	intT := mtype{"INT", "INT", nil}
	a := scol("a")
	sel := func(m mselect) mstmt {
		if m.sels == nil {
			m.sels = []msel{a}
		}
		if m.from == nil {
			m.from = []mname{t}
		}
		return m.stmt()
	}
	return map[string][]wordForm{
		"select": {
			{"column", func(w string) mstmt { return sel(mselect{sels: []msel{scol(w)}}) }},
			{"column2", func(w string) mstmt { return sel(mselect{sels: []msel{a, scol(w)}}) }},
			{"table", func(w string) mstmt { return sel(mselect{from: []mname{{"", w}}}) }},
			{"table-where", func(w string) mstmt { return sel(mselect{from: []mname{{"", w}}, where: mcmp("a", 0, one)}) }},
			{"table2", func(w string) mstmt { return sel(mselect{from: []mname{t, {"", w}}}) }},
			{"qualified", func(w string) mstmt { return sel(mselect{from: []mname{{"s", w}}}) }},
			{"qualifier", func(w string) mstmt { return sel(mselect{from: []mname{{w, "t"}}}) }},
			{"group", func(w string) mstmt { return sel(mselect{group: w}) }},
			{"order", func(w string) mstmt { return sel(mselect{orders: []mord{{w, ""}}}) }},
			{"order-desc", func(w string) mstmt { return sel(mselect{orders: []mord{{"a", ""}, {w, "DESC"}}}) }},
			{"argument", func(w string) mstmt { return sel(mselect{sels: []msel{sfn("SUM", id(w))}}) }},
			{"function", func(w string) mstmt { return sel(mselect{sels: []msel{sfn(w, id("a"))}}) }},
		},
		"insert": {
			{"table", func(w string) mstmt {
				return minsert{tbl: mname{"", w}, cols: []string{"a"}, rows: [][]mlit{{one}}}.stmt()
			}},
			{"table-values", func(w string) mstmt { return minsert{tbl: mname{"", w}, rows: [][]mlit{{one}}}.stmt() }},
			{"column", func(w string) mstmt { return minsert{tbl: t, cols: []string{w}, rows: [][]mlit{{one}}}.stmt() }},
			{"column1", func(w string) mstmt {
				return minsert{tbl: t, cols: []string{w, "a"}, rows: [][]mlit{{one, lstr("x")}}}.stmt()
			}},
			{"column2", func(w string) mstmt {
				return minsert{tbl: t, cols: []string{"a", w}, rows: [][]mlit{{one, lstr("x")}, {one, lstr("y")}}}.stmt()
			}},
		},
		"update": {
			{"table", func(w string) mstmt { return mupdate{mname{"", w}, []mset{{"a", one}}, mcond{}}.stmt() }},
			{"column", func(w string) mstmt { return mupdate{t, []mset{{w, one}}, mcmp("a", 0, one)}.stmt() }},
			{"column2", func(w string) mstmt { return mupdate{t, []mset{{"a", one}, {w, lstr("x")}}, mcond{}}.stmt() }},
			{"operand", func(w string) mstmt { return mupdate{t, []mset{{"a", marith(w, "+", li("1"))}}, mcond{}}.stmt() }},
			{"delete", func(w string) mstmt { return mdelete(mname{"", w}, mcond{}) }},
			{"delete-where", func(w string) mstmt { return mdelete(mname{"", w}, mcmp("a", 0, one)) }},
		},
		"cond": {
			{"select", func(w string) mstmt { return sel(mselect{where: mcmp(w, 0, one)}) }},
			{"and", func(w string) mstmt { return sel(mselect{where: mlog("AND", mcmp("a", 3, one), mcmp(w, 0, one))}) }},
			{"or", func(w string) mstmt { return mdelete(t, mlog("OR", mcmp(w, 3, one), mcmp("a", 0, one))) }},
		},
		"create": {
			{"table", func(w string) mstmt { return mcreate{tbl: mname{"", w}, cols: []mcol{{"a", intT, false}}}.stmt() }},
			{"column", func(w string) mstmt { return mcreate{tbl: t, cols: []mcol{{w, intT, false}}}.stmt() }},
			{"column2", func(w string) mstmt {
				return mcreate{tbl: t, cols: []mcol{{"a", intT, false}, {w, intT, false}, {"c", intT, false}}}.stmt()
			}},
			{"key-column", func(w string) mstmt {
				return mcreate{tbl: t, cols: []mcol{{w, intT, true}, {"b", intT, false}}}.stmt()
			}},
			{"key-columns", func(w string) mstmt {
				return mcreate{tbl: t, cols: []mcol{{"a", intT, false}, {w, intT, false}}, idx: []mindex{{"PRIMARY KEY", "", []string{"a", w}}}}.stmt()
			}},
			{"index-name", func(w string) mstmt {
				return mcreate{tbl: t, cols: []mcol{{"a", intT, false}}, idx: []mindex{{"INDEX", w, []string{"a"}}}}.stmt()
			}},
			{"index-column", func(w string) mstmt {
				return mcreate{tbl: t, cols: []mcol{{w, intT, false}}, idx: []mindex{{"INDEX", "i", []string{w}}}}.stmt()
			}},
		},
		"ddl": {
			{"index", func(w string) mstmt { return mcreateIndex(false, false, w, "t", []string{"a"}, nil) }},
			{"index-table", func(w string) mstmt { return mcreateIndex(false, false, "i", w, []string{"a"}, nil) }},
			{"index-column", func(w string) mstmt { return mcreateIndex(false, false, "i", "t", []string{"a", w}, nil) }},
			{"drop-index", func(w string) mstmt { return mdropIndex(false, mname{"", w}) }},
			{"drop-table", func(w string) mstmt { return mdropTable(false, []mname{{"", w}}, "") }},
			{"drop-table2", func(w string) mstmt { return mdropTable(false, []mname{t, {"", w}}, "") }},
			{"truncate", func(w string) mstmt { return mtruncate("", []mname{{"", w}}) }},
			{"truncate2", func(w string) mstmt { return mtruncate("TABLE", []mname{t, {"", w}}) }},
			{"alter", func(w string) mstmt { return malter(mname{"", w}, cat(kw("RENAME TO"), id("u")), `RENAME-TO "u"`) }},
			{"rename", func(w string) mstmt { return malter(t, cat(kw("RENAME TO"), id(w)), "RENAME-TO "+q(w)) }},
			{"rename-from", func(w string) mstmt {
				return malter(t, cat(kw("RENAME COLUMN"), id(w), kw("TO"), id("b")), "RENAME-COLUMN "+q(w)+` "b"`)
			}},
			{"rename-to", func(w string) mstmt {
				return malter(t, cat(kw("RENAME COLUMN"), id("a"), kw("TO"), id(w)), `RENAME-COLUMN "a" `+q(w))
			}},
			{"add-column", func(w string) mstmt {
				return malter(t, cat(kw("ADD COLUMN"), id(w), kw("INT")), "ADD-COLUMN "+q(w)+" INT 0 INT")
			}},
			{"drop-column", func(w string) mstmt { return malter(t, cat(kw("DROP COLUMN"), id(w)), "DROP-COLUMN "+q(w)) }},
			{"add-index", func(w string) mstmt {
				return malter(t, cat(kw("ADD INDEX"), id(w), pu("("), id("a"), pu(")")), "ADD-INDEX INDEX:"+q(w)+`("a")`)
			}},
			{"add-key", func(w string) mstmt {
				return malter(t, cat(kw("ADD PRIMARY KEY"), pu("("), id(w), pu(")")), "ADD-INDEX PRIMARY("+q(w)+")")
			}},
			{"create-database", func(w string) mstmt {
				return mstmt{cat(kw("CREATE DATABASE"), id(w)), "CREATE DATABASE ifne=false " + q(w)}
			}},
			{"drop-database", func(w string) mstmt {
				return mstmt{cat(kw("DROP DATABASE"), id(w)), "DROP DATABASE ife=false " + q(w)}
			}},
			{"alter-database", func(w string) mstmt {
				return mstmt{cat(kw("ALTER DATABASE"), id(w), kw("RENAME TO"), id("e")), "ALTER DATABASE " + q(w) + ` to "e"`}
			}},
			{"use", func(w string) mstmt { return mstmt{cat(kw("USE"), id(w)), "USE " + q(w)} }},
		},
		"tcl": {
			{"copy", func(w string) mstmt { return mcopy(mname{"", w}, []string{"a"}, "STDIN", "STDIN", "", "TEXT") }},
			{"copy-column", func(w string) mstmt { return mcopy(t, []string{"a", w}, "STDIN", "STDIN", "", "TEXT") }},
			{"vacuum", func(w string) mstmt { return mstmt{cat(kw("VACUUM"), id(w)), "VACUUM " + q(w)} }},
		},
	}
}

// keywordSpace is the space of the recorded names of one family of statements.
func keywordSpace(family string) space {
	forms := map[string]wordForm{}
	for _, f := range wordForms()[family] {
		forms[f.name] = f
	}
	ms := []mstmt{}
	for _, line := range strings.Split(keywordNames, "\n") {
		f := strings.Fields(line)
		if len(f) < 3 || f[0] != family {
			continue
		}
		for _, w := range f[2:] {
			ms = append(ms, forms[f[1]].at(w))
		}
	}
	return listSpace("keyword-names", ms)
}

// genWords writes the recorded names: the words that the current tree takes as names and prints again.
func genWords() {
	fams := []string{}
	for f := range wordForms() {
		fams = append(fams, f)
	}
	sort.Strings(fams)
	for _, fam := range fams {
		for _, f := range wordForms()[fam] {
			ok := []string{}
			for _, w := range keywordWords() {
				m := f.at(w)
				stmts, err := parse(m.sql())
				if err != nil || len(stmts) != 1 || obsStmt(stmts[0]) != m.obs {
					continue
				}
				again, err := parse(stmts[0].String())
				if err != nil || len(again) != 1 || obsStmt(again[0]) != m.obs {
					fmt.Fprintf(os.Stderr, "NOTE round trip: %s -> %s\n", m.sql(), stmts[0].String())
					continue
				}
				ok = append(ok, w)
			}
			fmt.Println(fam, f.name, strings.Join(ok, " "))
		}
	}
}
