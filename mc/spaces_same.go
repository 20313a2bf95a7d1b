package main

// The spaces of equal names: every assignment of a few names to all the places of a statement where a name or a string
// can stand, so that places which have nothing to do with each other hold equal or almost equal texts.

// sameNames are the names assigned to the places.
func sameNames(r *Run) []string {
	if r.Thorough() {
		return []string{"a", "A", "b", "null"}
	}
	return []string{"a", "A", "b"}
}

// sameSpace is the space of all assignments of the words to n places.
func sameSpace(name string, words []string, n int, at func(w []string) mstmt) space {
	d := dims{}
	for i := 0; i < n; i++ {
		d = append(d, len(words))
	}
	return space{name, d.size(), func(i int) mstmt {
		w := make([]string, n)
		for k, x := range d.at(i) {
			w[k] = words[x]
		}
		return at(w)
	}}
}

// litFor is the literal which is written like the word, if there is one, or the string of it.
func litFor(w string) mlit {
	switch w {
	case "null", "true", "false", "current_date", "current_time", "current_timestamp":
		return lkey(w)
	}
	return lstr(w)
}

func sameSpaces(r *Run, family string) []space {
	ws := sameNames(r)
	intT, textT := mtype{"INT", "INT", nil}, mtype{"TEXT", "TEXT", nil}
	// Names which are also written like literals.
	lw := []string{"a", "null", "NULL", "true", "False", "current_date", "x"}
	litOf := func(w string) mlit {
		if w == "a" || w == "x" {
			return lstr(w)
		}
		return lkey(w)
	}
	switch family {
	case "select":
		return []space{
			sameSpace("same-names", ws, r.Pick(8, 7), func(w []string) mstmt {
				for len(w) < 8 {
					w = append(w, w[0])
				}
				return mselect{sels: []msel{scol(w[0]), scol(w[1]), sfn("SUM", id(w[2]))}, from: []mname{{"", w[3]}, {w[6], w[7]}}, group: w[4], orders: []mord{{w[5], "DESC"}, {w[0], ""}}}.stmt()
			}),
			sameSpace("same-qualified", ws, r.Pick(7, 7), func(w []string) mstmt {
				return mselect{sels: []msel{sqcol(mname{w[0], w[1]}), sfn("COUNT", id(w[2]))}, from: []mname{{w[3], w[4]}}, where: mcmp(w[5], 0, litFor(w[6]))}.stmt()
			}),
			// Names which are also functions.
			sameSpace("same-functions", []string{"a", "sum", "SUM", "count", "abs"}, 5, func(w []string) mstmt {
				return mselect{sels: []msel{scol(w[0]), sfn("SUM", id(w[1])), sfn(w[2], id(w[3]))}, from: []mname{{"", "t"}}, orders: []mord{{w[4], "DESC"}}}.stmt()
			}),
			// Equal and almost equal ordering terms and functions.
			sameSpace("same-orders", []string{"a", "A", "a DESC", "A ASC", "b", "b DESC"}, r.Pick(4, 5), func(w []string) mstmt {
				m := mselect{sels: []msel{scol("a")}, from: []mname{{"", "t"}}}
				for _, o := range w {
					switch {
					case len(o) == 1:
						m.orders = append(m.orders, mord{o, ""})
					case o[2:] == "ASC":
						m.orders = append(m.orders, mord{o[:1], "ASC"})
					default:
						m.orders = append(m.orders, mord{o[:1], "DESC"})
					}
				}
				return m.stmt()
			}),
			sameSpace("same-selectors", []string{"a", "A", "b", "SUM a", "SUM b", "sum a", "MIN a"}, r.Pick(4, 5), func(w []string) mstmt {
				m := mselect{from: []mname{{"", "t"}}}
				for _, s := range w {
					if len(s) == 1 {
						m.sels = append(m.sels, scol(s))
					} else {
						m.sels = append(m.sels, sfn(s[:3], id(s[4:])))
					}
				}
				return m.stmt()
			}),
		}
	case "insert":
		return []space{
			sameSpace("same-names", ws, 8, func(w []string) mstmt {
				return minsert{tbl: mname{w[0], w[1]}, cols: []string{w[2], w[3]}, rows: [][]mlit{{lstr(w[4]), lstr(w[5])}, {lstr(w[6]), lstr(w[7])}}}.stmt()
			}),
			sameSpace("same-values", []string{"a", "A", "", "1", " "}, r.Pick(6, 7), func(w []string) mstmt {
				for len(w) < 7 {
					w = append(w, "1")
				}
				row := func(a, b, c string) []mlit { return []mlit{lstr(a), lstr(b), lstr(c)} }
				rows := [][]mlit{row(w[0], w[1], w[2]), row(w[3], w[4], w[5]), {lraw("1"), lraw("1.0"), lstr(w[6])}}
				return minsert{tbl: mname{"", "t"}, cols: []string{"a", "b", "c"}, rows: rows}.stmt()
			}),
			sameSpace("same-literals", lw, 4, func(w []string) mstmt {
				return minsert{tbl: mname{"", "t"}, cols: []string{w[0], w[1]}, rows: [][]mlit{{litOf(w[2]), litOf(w[3])}}}.stmt()
			}),
		}
	case "update":
		return []space{
			sameSpace("same-names", ws, r.Pick(8, 8), func(w []string) mstmt {
				return mupdate{mname{w[0], w[1]}, []mset{{w[2], lstr(w[3])}, {w[4], lstr(w[5])}}, mcmp(w[6], 0, lstr(w[7]))}.stmt()
			}),
			sameSpace("same-operands", ws, 7, func(w []string) mstmt {
				return mupdate{mname{"", w[0]}, []mset{{w[1], marith(w[2], "+", id(w[3]))}, {w[4], mtext(id(w[5]))}}, mcmp(w[6], 0, lstr(w[1]))}.stmt()
			}),
			sameSpace("same-literals", lw, 4, func(w []string) mstmt {
				return mupdate{mname{"", "t"}, []mset{{w[0], litOf(w[1])}, {w[2], litOf(w[3])}}, mcmp(w[0], 1, litOf(w[3]))}.stmt()
			}),
			sameSpace("same-delete", ws, 6, func(w []string) mstmt {
				return mdelete(mname{w[0], w[1]}, mlog("OR", mcmp(w[2], 0, lstr(w[3])), mcmp(w[4], 0, lstr(w[5]))))
			}),
		}
	case "cond":
		return []space{
			sameSpace("same-names", ws, 6, func(w []string) mstmt {
				return mselect{sels: []msel{scol(w[0])}, from: []mname{{"", w[1]}}, where: mlog("AND", mcmp(w[2], 3, lstr(w[3])), mcmp(w[4], 3, lstr(w[5])))}.stmt()
			}),
			sameSpace("same-literals", lw, 4, func(w []string) mstmt {
				return mdelete(mname{"", "t"}, mlog("OR", mcmp(w[0], 0, litOf(w[1])), mcmp(w[2], 1, litOf(w[3]))))
			}),
		}
	case "create":
		return []space{
			sameSpace("same-names", ws, 6, func(w []string) mstmt {
				return mcreate{tbl: mname{w[0], w[1]}, cols: []mcol{{"k", intT, true}, {w[2], textT, false}, {w[3], intT, false}, {w[4], textT, false}}, idx: []mindex{{"PRIMARY KEY", "", []string{w[5], "k"}}}}.stmt()
			}),
			sameSpace("same-indexes", []string{"a", "b", "c"}, r.Pick(7, 8), func(w []string) mstmt {
				m := mcreate{tbl: mname{"", w[0]}, cols: []mcol{{"a", intT, false}, {"b", textT, false}, {"c", intT, false}}}
				for k := 1; k+1 < len(w); k += 2 {
					m.idx = append(m.idx, mindex{[]string{"INDEX", "KEY"}[k/2%2], w[k], []string{w[k+1]}})
				}
				return m.stmt()
			}),
			// Columns named like types, and the other way around.
			sameSpace("same-types", []string{"int", "text", "INT", "a"}, 3, func(w []string) mstmt {
				return mcreate{tbl: mname{"", w[0]}, cols: []mcol{{w[1], intT, false}, {w[2], textT, false}}}.stmt()
			}),
		}
	case "ddl":
		return []space{
			sameSpace("same-index", ws, 5, func(w []string) mstmt { return mcreateIndex(false, false, w[0], w[1], []string{w[2], w[3], w[4]}, nil) }),
			sameSpace("same-drop-index", ws, 2, func(w []string) mstmt { return mdropIndex(false, mname{w[0], w[1]}) }),
			sameSpace("same-drop-table", ws, 5, func(w []string) mstmt {
				return mdropTable(true, []mname{{w[0], w[1]}, {"", w[2]}, {"", w[3]}, {"", w[4]}}, "")
			}),
			sameSpace("same-truncate", ws, 4, func(w []string) mstmt {
				return mtruncate("TABLE", []mname{{"", w[0]}, {"", w[1]}, {"", w[2]}, {"", w[3]}})
			}),
			sameSpace("same-rename", ws, 4, func(w []string) mstmt {
				return malter(mname{w[0], w[1]}, cat(kw("RENAME COLUMN"), id(w[2]), kw("TO"), id(w[3])), "RENAME-COLUMN "+q(w[2])+" "+q(w[3]))
			}),
			sameSpace("same-rename-table", ws, 3, func(w []string) mstmt {
				return malter(mname{w[0], w[1]}, cat(kw("RENAME TO"), id(w[2])), "RENAME-TO "+q(w[2]))
			}),
			sameSpace("same-add-column", ws, 3, func(w []string) mstmt {
				return malter(mname{w[0], w[1]}, cat(kw("ADD COLUMN"), id(w[2]), intT.toks()), "ADD-COLUMN "+q(w[2])+" "+intT.obs())
			}),
			sameSpace("same-add-index", ws, 5, func(w []string) mstmt {
				m := mindex{"INDEX", w[2], []string{w[3], w[4]}}
				return malter(mname{w[0], w[1]}, cat(kw("ADD"), m.toks()), "ADD-INDEX "+m.obs())
			}),
			sameSpace("same-database", ws, 2, func(w []string) mstmt {
				return mstmt{cat(kw("ALTER DATABASE"), id(w[0]), kw("RENAME TO"), id(w[1])), "ALTER DATABASE " + q(w[0]) + " to " + q(w[1])}
			}),
		}
	case "tcl":
		return []space{
			sameSpace("same-copy", append([]string{"csvs", "texts", "stdins"}, ws...), 4, func(w []string) mstmt {
				return mcopy(mname{"", w[0]}, []string{w[1], w[2]}, w[3], w[3], "CSV", "CSV")
			}),
			sameSpace("same-copy-qualified", ws, 5, func(w []string) mstmt {
				return mcopy(mname{w[0], w[1]}, []string{w[2], w[3]}, "'"+w[4]+"'", w[4], "WITH FORMAT BINARY", "BINARY")
			}),
		}
	}
	return nil
}
