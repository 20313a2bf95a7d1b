package main

import "fmt"

// checkSpace parses every statement of a space and compares its observation with the model's.
func checkSpace(r *Run, s space) {
	r.Block(s.name, s.n, func(i int, c *Case) {
		m := s.at(i)
		sql := m.sql()
		c.In(sql)
		_, o, ok := parse1(c, sql)
		if !ok {
			return
		}
		c.Trace()
		c.State(o)
		c.Eq("observed statement", o, m.obs)
	})
}

const parseRule = "every model statement of the listed finite spaces is written as SQL, parsed by a fresh parser of the current tree, and everything the public accessors report is compared with what the model statement says"

// withWords adds the names that are also words of the dialect.
func withWords(spaces func(r *Run) []space, family string) func(r *Run) []space {
	return func(r *Run) []space {
		return append(append(append(spaces(r), keywordSpace(family)), sameSpaces(r, family)...), formSpaces(r, family)...)
	}
}

// quotedFamilies are the families of statements whose names are also written in quotes.
var quotedFamilies = map[string]string{"C01": "select", "C02": "insert", "C04": "cond", "C03": "update", "C05": "create", "C06": "ddl", "C07": "tcl"}

func checkQuotedNames(r *Run, idn string) {
	if f := quotedFamilies[idn]; f != "" {
		checkQuoted(r, quotedSpace(r, f, "`"), "`")
		if f != "select" && f != "cond" {
			checkQuoted(r, quotedSpace(r, f, "'"), "'")
		}
	}
}

func parseProp(idn string, spaces func(r *Run) []space) {
	register(&Prop{ID: idn, Rule: parseRule, Run: func(r *Run) {
		for _, s := range spaces(r) {
			checkSpace(r, s)
		}
		checkQuotedNames(r, idn)
	}})
}

func init() {
	parseProp("C01", withWords(selectSpaces, "select"))
	parseProp("C03", withWords(updateSpaces, "update"))
	parseProp("C04", withWords(condSpaces, "cond"))
	parseProp("C05", withWords(createTableSpaces, "create"))
	parseProp("C06", withWords(ddlSpaces, "ddl"))
	parseProp("C07", withWords(tclSpaces, "tcl"))
	parseProp("C09", literalSpaces)
	register(&Prop{ID: "C02", Rule: parseRule + "; every INSERT whose rows do not all have one value per listed column must be rejected", Run: func(r *Run) {
		for _, s := range withWords(insertSpaces, "insert")(r) {
			checkSpace(r, s)
		}
		checkQuotedNames(r, "C02")
		// Every shape of up to 3 rows of 1..5 values against 1..4 columns.
		nv := r.Pick(6, 8)
		d := dims{r.Pick(5, 7), 2, seqCount(nv, 3) - 1}
		r.Block("insert-mismatch", d.size(), func(i int, c *Case) {
			x := d.at(i)
			m := minsert{tbl: mname{"", "t"}}
			if x[1] == 1 {
				m.tbl.s = "s"
			}
			for k := 0; k <= x[0]; k++ {
				m.cols = append(m.cols, colName(k))
			}
			ok := true
			for w, k := range seqAt(nv, x[2]+1) {
				row := []mlit{}
				for v := 0; v <= k; v++ {
					row = append(row, lraw(fmt.Sprint(w*10+v)))
				}
				ok = ok && len(row) == len(m.cols)
				m.rows = append(m.rows, row)
			}
			if ok {
				st := m.stmt()
				c.In(st.sql())
				if _, o, good := parse1(c, st.sql()); good {
					c.Eq("observed statement", o, st.obs)
				}
				return
			}
			// The observation is not used, so the columns are only written.
			t := cat(kw("INSERT INTO"), m.tbl.toks(), pu("("), commas(len(m.cols), func(i int) toks { return id(m.cols[i]) }), pu(")"), kw("VALUES"))
			t = cat(t, commas(len(m.rows), func(n int) toks {
				return cat(pu("("), commas(len(m.rows[n]), func(i int) toks { return m.rows[n][i].t }), pu(")"))
			}))
			c.In(t.String())
			c.Step(1)
			stmts, err := parse(t.String())
			c.Trace()
			c.Eq("rows with the wrong number of values", obsParse(stmts, err), "ERROR")
		})
	}})
}
