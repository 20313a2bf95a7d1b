package main

import (
	"crypto/rand"
	endian "encoding/binary"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
)

// toF returns the number of a result of any numeric Go type.
func toF(v any) (float64, bool) {
	switch v := v.(type) {
	case float64:
		return v, true
	case float32:
		return float64(v), true
	case int:
		return float64(v), true
	case int8:
		return float64(v), true
	case int16:
		return float64(v), true
	case int32:
		return float64(v), true
	case int64:
		return float64(v), true
	case uint:
		return float64(v), true
	case uint8:
		return float64(v), true
	case uint16:
		return float64(v), true
	case uint32:
		return float64(v), true
	case uint64:
		return float64(v), true
	}
	return 0, false
}

// near says whether two results are the same number up to the rounding of another order of evaluation.
func near(got, want float64) bool {
	if got == want {
		return true
	}
	if math.IsInf(got, 0) || math.IsInf(want, 0) {
		return false
	}
	if r := math.Round(want); r == want && math.Abs(want) < 1<<53 {
		return false // an integer is exact
	}
	return math.Abs(got-want) <= 1e-13*math.Max(math.Abs(got), math.Abs(want))
}

// nearSum is near for results of many additions, in any order of evaluation.
func nearSum(got, want float64) bool {
	d := math.Abs(got - want)
	return near(got, want) || d <= 1e-9*math.Max(math.Abs(got), math.Abs(want)) && !math.IsInf(d, 0) || d < 1e-12
}

// formsOf returns a number in every Go type that represents it exactly, and as a string.
func formsOf(v float64) []any {
	out := []any{v}
	if float64(float32(v)) == v {
		out = append(out, float32(v))
	}
	if v == math.Trunc(v) && math.Abs(v) < 1<<62 {
		n := int64(v)
		out = append(out, int(n), n)
		if n == int64(int8(n)) {
			out = append(out, int8(n))
		}
		if n == int64(int16(n)) {
			out = append(out, int16(n))
		}
		if n == int64(int32(n)) {
			out = append(out, int32(n))
		}
		if n >= 0 {
			out = append(out, uint(n), uint64(n))
			if n == int64(uint8(n)) {
				out = append(out, uint8(n))
			}
			if n == int64(uint16(n)) {
				out = append(out, uint16(n))
			}
			if n == int64(uint32(n)) {
				out = append(out, uint32(n))
			}
		}
	}
	out = append(out, strconv.FormatFloat(v, 'g', -1, 64), strconv.FormatFloat(v, 'f', -1, 64))
	return out
}

func showArgs(args []any) string {
	s := []string{}
	for _, a := range args {
		s = append(s, fmt.Sprintf("%T(%v)", a, a))
	}
	return strings.Join(s, ", ")
}

type unary struct {
	name string
	f    func(v float64) float64
	err  func(v float64) bool
	in   func(v float64) bool // in the domain the oracle covers
}

func always(float64) bool  { return true }
func never(float64) bool   { return false }
func small(v float64) bool { return math.Abs(v) < 1<<52 }

var unaries = []unary{
	{"ABS", math.Abs, never, always}, {"FLOOR", math.Floor, never, always}, {"CEIL", math.Ceil, never, always}, {"ROUND", math.Round, never, always},
	{"SQRT", math.Sqrt, func(v float64) bool { return v < 0 }, always}, {"LOG", math.Log, func(v float64) bool { return v <= 0 }, always}, {"LOG10", math.Log10, func(v float64) bool { return v <= 0 }, always},
	{"EXP", math.Exp, never, func(v float64) bool { return math.Abs(v) < 500 }}, {"SIN", math.Sin, never, small}, {"COS", math.Cos, never, small}, {"TAN", math.Tan, never, small},
}

type binary struct {
	name string
	f    func(a, b float64) float64
	err  func(a, b float64) bool
	in   func(a, b float64) bool
}

func isInt(v float64) bool { return v == math.Trunc(v) }

var binaries = []binary{
	{"POWER", math.Pow, func(a, b float64) bool { return a < 0 && b != math.Trunc(b) }, func(a, b float64) bool {
		r := math.Pow(a, b)
		return a < 0 && b != math.Trunc(b) || !math.IsInf(r, 0) && !math.IsNaN(r) && (a != 0 || b >= 0) && (r == 0 || math.Abs(r) > 1e-300)
	}},
	{"MOD", math.Mod, func(a, b float64) bool { return b == 0 }, func(a, b float64) bool { return true }},
	{"+", func(a, b float64) float64 { return a + b }, func(a, b float64) bool { return false }, func(a, b float64) bool { return true }},
	{"-", func(a, b float64) float64 { return a - b }, func(a, b float64) bool { return false }, func(a, b float64) bool { return true }},
	{"*", func(a, b float64) float64 { return a * b }, func(a, b float64) bool { return false }, func(a, b float64) bool { return true }},
	{"/", func(a, b float64) float64 { return a / b }, func(a, b float64) bool { return false }, func(a, b float64) bool { return b != 0 }},
	{"%", func(a, b float64) float64 { return math.Mod(math.Trunc(a), math.Trunc(b)) }, func(a, b float64) bool { return math.Trunc(b) == 0 }, func(a, b float64) bool { return true }},
}

// fnNumbers are the boundary values of the numeric arguments.
var fnNumbers = []float64{0, 1, -1, 0.5, -0.5, 1.5, -1.5, 2, -2, 2.5, -2.5, 3, -3, 3.5, 0.25, 7, -7, 10, -10, 99, 100, 0.1, -0.1, 1e-9, -1e-9, 127, 128, -128, -129, 255, 256, 32767, -32768, 65535, 1e6, 123456.789, -123456.789, 2147483647, -2147483648, 4294967295, 1e12, -1e12, 4503599627370495, 0.49999999999999994, 9007199254740994, 1 << 62, -1 << 62, 1 << 63, -1 << 63, 1 << 64, 3e19, -3e19, 1e100}

// callForms are the ways to give arguments to a function.
var callForms = []string{"slice", "row", "map", "fnmap", "name", "scalar", "parsed", "selectors"}

// callFn calls a function in one of the forms; ok is false when the form does not apply.
func callFn(name, form string, args []any) (v any, err error, ok bool) {
	cols := []string{"a", "b", "c", "d"}[:len(args)]
	m := map[string]any{"z": 5}
	for i, a := range args {
		m[cols[i]] = a
	}
	switch form {
	case "slice":
		ex, err := fn.NewExecutorForName(name)
		if err != nil {
			return nil, err, true
		}
		v, err = ex.Execute(args)
		return v, err, true
	case "row":
		ex, err := fn.NewExecutorForName(strings.ToLower(name))
		if err != nil {
			return nil, err, true
		}
		v, err = ex.Execute(fn.Row(args))
		return v, err, true
	case "map", "fnmap":
		ex, err := fn.NewExecutorForName(name, fn.WithExecutorArguments(cols))
		if err != nil {
			return nil, err, true
		}
		if form == "map" {
			v, err = ex.Execute(m)
		} else {
			v, err = ex.Execute(fn.Map(m))
		}
		return v, err, true
	case "name":
		v, err = fn.ExecuteFunction(name, args)
		return v, err, true
	case "scalar":
		if len(args) != 1 || args[0] == nil {
			return nil, nil, false
		}
		v, err = fn.ExecuteFunction(name, args[0])
		return v, err, true
	case "selectors":
		// One of several selectors, found by the helpers of the selector list.
		if len(name) == 1 {
			return nil, nil, false
		}
		stmts, err := parse("SELECT z, " + name + "(" + strings.Join(cols, ", ") + "), TRIM(z), ABS(z) FROM t")
		if err != nil {
			return nil, err, true
		}
		sels := stmts[0].(query.Select).Selectors()
		one, err := sels.LookupExecutor(strings.ToLower(name))
		if err != nil {
			return nil, err, true
		}
		all, err := sels.Executors()
		if err != nil || len(all) != 3 {
			return nil, fmt.Errorf("%d executors %v", len(all), err), true
		}
		typed, err := sels.ExecutorsForType(one.Type())
		if err != nil || len(typed) == 0 {
			return nil, fmt.Errorf("%d executors of the type %v", len(typed), err), true
		}
		for k, ex := range []fn.Executor{one, all[0], typed[0]} {
			w, werr := ex.Execute(m)
			if k == 0 {
				v, err = w, werr
			} else if (err == nil) != (werr == nil) || (err == nil && !reflect.DeepEqual(v, w)) {
				return fmt.Sprintf("%v by lookup, %v %v in the list", v, w, werr), nil, true
			}
		}
		return v, err, true
	case "parsed":
		if len(name) == 1 {
			return nil, nil, false
		}
		stmts, err := parse("SELECT " + name + "(" + strings.Join(cols, ", ") + ") FROM t")
		if err != nil {
			return nil, err, true
		}
		f, isF := stmts[0].(query.Select).Selectors()[0].Function()
		if !isF {
			return nil, fmt.Errorf("not parsed as a function"), true
		}
		ex, err := f.Executor()
		if err != nil {
			return nil, err, true
		}
		v, err = ex.Execute(m)
		return v, err, true
	}
	return nil, nil, false
}

func checkNum(c *Case, name, form string, args []any, wantErr bool, want float64) {
	c.Inf("%s(%s) as %s", name, showArgs(args), form)
	v, err, ok := callFn(name, form, args)
	if !ok {
		return
	}
	c.Step(1)
	c.Trace()
	if wantErr {
		if err == nil {
			c.Failf("no error: %v", v)
		}
		return
	}
	if err != nil {
		c.Failf("error %v, want %v", err, want)
		return
	}
	f, isNum := toF(v)
	if !isNum || !near(f, want) {
		c.Failf("got %T(%v), want %v", v, v, want)
	}
	c.State(fmt.Sprintf("%s %v", name, want))
}

func init() {
	register(&Prop{ID: "C20", Rule: "every function and operator is executed on every value of the domain, in every Go type that holds the value, and in every call form (slice, row, map, by name, scalar, parsed), and compared with the operation of the Go math package (relative tolerance 1e-13, integers exactly); every wrong argument count and non-numeric argument must be an error", Run: func(r *Run) {
		vals := append([]float64{}, fnNumbers...)
		span := r.Pick(400, 4000)
		for k := -span * 4; k <= span*4; k++ {
			vals = append(vals, float64(k)/4)
		}
		for k := -30; k <= 30; k++ {
			vals = append(vals, math.Pow10(k), math.Ldexp(1, k), math.Ldexp(3, k), -math.Pow10(k))
		}
		r.Block("unary", len(unaries)*len(vals), func(i int, c *Case) {
			u, v := unaries[i/len(vals)], vals[i%len(vals)]
			if !u.in(v) {
				return
			}
			for _, a := range formsOf(v) {
				for _, form := range callForms {
					if (form == "parsed" || form == "selectors") && i%8 != 0 {
						continue
					}
					checkNum(c, u.name, form, []any{a}, u.err(v), u.f(v))
					if c.Failed() {
						return
					}
				}
			}
		})
		nn := len(fnNumbers)
		bin := append([]float64{}, fnNumbers...)
		if r.Thorough() {
			for k := -48; k <= 48; k++ {
				bin = append(bin, float64(k)/4)
			}
			nn = len(bin)
		}
		r.Block("binary", len(binaries)*nn*nn, func(i int, c *Case) {
			u, a, b := binaries[i/(nn*nn)], bin[i/nn%nn], bin[i%nn]
			if !u.in(a, b) {
				return
			}
			fa, fb := formsOf(a), formsOf(b)
			for j := 0; j < max(len(fa), len(fb)); j++ {
				args := []any{fa[j%len(fa)], fb[(j*5+i)%len(fb)]}
				for _, form := range callForms {
					if form == "parsed" && (j > 0 || i%8 != 0) {
						continue
					}
					checkNum(c, u.name, form, args, u.err(a, b), u.f(a, b))
					if c.Failed() {
						return
					}
				}
			}
		})
		// Wrong numbers of arguments and arguments that are not numbers.
		type bad struct {
			name string
			args []any
		}
		bads := []bad{}
		one := []any{1.0, int64(2), "3", uint8(4)}
		for n := 0; n <= 4; n++ {
			for _, u := range unaries {
				if n != 1 {
					bads = append(bads, bad{u.name, one[:n]})
				}
			}
			for _, u := range []string{"UPPER", "LOWER", "TRIM"} {
				if n != 1 {
					bads = append(bads, bad{u, one[:n]})
				}
			}
			for _, b := range binaries {
				if n != 2 {
					bads = append(bads, bad{b.name, one[:n]})
				}
			}
			if n > 0 {
				bads = append(bads, bad{"PI", one[:n]}, bad{"RAND", one[:n]})
			}
		}
		for _, s := range []any{"x", "1x", "x1", "--1", "1,2", "one", "1 2", "0x", []int{1}, struct{}{}} {
			for _, u := range unaries {
				bads = append(bads, bad{u.name, []any{s}})
			}
			for _, b := range binaries {
				bads = append(bads, bad{b.name, []any{s, 2}}, bad{b.name, []any{2, s}}, bad{b.name, []any{s, s}})
			}
		}
		r.Block("errors", len(bads)*len(callForms), func(i int, c *Case) {
			b := bads[i/len(callForms)]
			checkNum(c, b.name, callForms[i%len(callForms)], b.args, true, 0)
		})
		r.Block("pi", len(callForms), func(i int, c *Case) { checkNum(c, "PI", callForms[i], []any{}, false, math.Pi) })
		// RAND, whatever the source of randomness delivers, and the clock.
		words := bitPatterns()
		var randMu sync.Mutex
		r.Block("rand", len(words)*2, func(i int, c *Case) {
			w, order := words[i/2], "big"
			var b [8]byte
			endian.BigEndian.PutUint64(b[:], w)
			if i%2 == 1 {
				endian.LittleEndian.PutUint64(b[:], w)
				order = "little"
			}
			c.Inf("RAND() with random bits %016x (%s endian)", w, order)
			ex, err := fn.NewExecutorForName("RAND")
			if err != nil {
				c.Failf("%v", err)
				return
			}
			randMu.Lock()
			old := rand.Reader
			rand.Reader = &bitReader{b: b}
			v, err := ex.Execute(nil)
			rand.Reader = old
			randMu.Unlock()
			if f, ok := toF(v); err != nil || !ok || !(f >= 0 && f < 1) {
				c.Failf("got %v %v, want a number from 0 up to, not including, 1", v, err)
			}
			c.Trace()
		})
		r.Block("clock", 2*len(callForms), func(i int, c *Case) {
			name := []string{"NOW", "CURRENT_TIMESTAMP"}[i%2]
			if callForms[i/2] == "selectors" {
				return // reads the clock twice
			}
			c.Inf("%s (%s)", name, callForms[i/2])
			t0 := time.Now()
			v, err, applies := callFn(name, callForms[i/2], []any{})
			t1 := time.Now()
			if !applies {
				return
			}
			if t, ok := v.(time.Time); err != nil || !ok || t.Before(t0) || t.After(t1) {
				c.Failf("got %v %v, want a time between %v and %v", v, err, t0, t1)
			}
			c.Trace()
		})
		// Strings.
		alpha := []string{"a", "B", " ", "z", "Z", "1", "é", "É", "'", "_", "\t", "\n"}
		depth := r.Pick(4, 5)
		fs := []struct {
			name string
			f    func(string) string
		}{{"UPPER", strings.ToUpper}, {"LOWER", strings.ToLower}, {"TRIM", strings.TrimSpace}}
		n := seqCount(len(alpha), depth)
		r.Block("strings", len(fs)*n, func(i int, c *Case) {
			f := fs[i/n]
			s := ""
			for _, k := range seqAt(len(alpha), i%n) {
				s += alpha[k]
			}
			for _, form := range callForms {
				if form == "parsed" && i%16 != 0 {
					continue
				}
				c.Inf("%s(%q) as %s", f.name, s, form)
				v, err, ok := callFn(f.name, form, []any{s})
				if !ok {
					continue
				}
				c.Step(1)
				c.Trace()
				if err != nil || v != any(f.f(s)) {
					c.Failf("got %T(%v) %v, want %q", v, v, err, f.f(s))
					return
				}
			}
			c.State(f.name + s)
		})
		// NULL arguments by name are what they are by position.
		nullArgs := []any{nil, 2, "a", -1.5, ""}
		nfs := []string{"UPPER", "LOWER", "TRIM"}
		for _, u := range unaries {
			nfs = append(nfs, u.name)
		}
		for _, b := range binaries {
			nfs = append(nfs, b.name)
		}
		nna := seqCount(len(nullArgs), 3)
		r.Block("nulls", len(nfs)*nna, func(i int, c *Case) {
			args := []any{}
			for _, k := range seqAt(len(nullArgs), i%nna) {
				args = append(args, nullArgs[k])
			}
			name := nfs[i/nna]
			w, werr, _ := callFn(name, "slice", args)
			for _, form := range callForms {
				c.Inf("%s(%s) as %s", name, showArgs(args), form)
				v, err, ok := callFn(name, form, args)
				if !ok {
					continue
				}
				c.Step(1)
				c.Trace()
				if (err == nil) != (werr == nil) || err == nil && fmt.Sprint(v) != fmt.Sprint(w) {
					c.Failf("got %v %v, by position %v %v", v, err, w, werr)
					return
				}
			}
		})
		// One executor called again and again: every result is that of a fresh one.
		type seqFn struct {
			name string
			args [][]any
		}
		seqFns := []seqFn{}
		for _, u := range unaries {
			seqFns = append(seqFns, seqFn{u.name, [][]any{{4.0}, {"0.25"}, {int8(9)}, {}, {"x"}, {1, 2}}})
		}
		for _, b := range binaries {
			seqFns = append(seqFns, seqFn{b.name, [][]any{{9, 2}, {"7", 3.0}, {8.0, "4"}, {5}, {1, "x"}, {1, 2, 3}}})
		}
		for _, n := range []string{"UPPER", "LOWER", "TRIM"} {
			seqFns = append(seqFns, seqFn{n, [][]any{{"aB"}, {" x "}, {""}, {}, {"a", "b"}, {"Z"}}})
		}
		sdepth := r.Pick(3, 4)
		nseq := seqCount(6, sdepth)
		r.Block("sequences", len(seqFns)*nseq*2, func(i int, c *Case) {
			byMap, i := i%2 == 1, i/2
			f := seqFns[i/nseq]
			ks := seqAt(6, i%nseq)
			c.Inf("one executor of %s on argument lists %v of %v, by name %v", f.name, ks, f.args, byMap)
			cols := []string{"a", "b", "c"}[:len(f.args[0])]
			opts := []fn.ExecutorOption{}
			if byMap {
				opts = append(opts, fn.WithExecutorArguments(cols))
			}
			one, err := fn.NewExecutorForName(f.name, opts...)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			for n, k := range ks {
				var arg any = f.args[k]
				if byMap {
					m := map[string]any{}
					for j, v := range f.args[k] {
						m[[]string{"a", "b", "c"}[j]] = v
					}
					arg = m
				}
				fresh, err := fn.NewExecutorForName(f.name, opts...)
				if err != nil {
					c.Failf("%v", err)
					return
				}
				want, werr := fresh.Execute(arg)
				got, gerr := one.Execute(arg)
				c.Step(2)
				if (werr == nil) != (gerr == nil) || (werr == nil && !reflect.DeepEqual(want, got)) {
					c.Failf("call %d: %v %v, a fresh executor gives %v %v", n, got, gerr, want, werr)
					return
				}
			}
			c.Trace()
		})
		// Arithmetic in an UPDATE is executed on the row to be updated.
		upds := []float64{0, 1, 2, 3, 7, 10, 2.5, 0.25, 100, -1, -2, -2.5, 1000000}
		upv := []any{7, "7", 7.0, int64(-9), 2.5, 0, "0.5", uint8(200)}
		du := dims{len(binaries), len(upds), len(upv), 3}
		r.Block("updates", du.size(), func(i int, c *Case) {
			x := du.at(i)
			b, k, a := binaries[x[0]], upds[x[1]], upv[x[2]]
			if len(b.name) != 1 {
				return
			}
			av, isNum := toF(a)
			if !isNum {
				av, _ = strconv.ParseFloat(a.(string), 64)
			}
			if !b.in(av, k) {
				return
			}
			ks := strconv.FormatFloat(k, 'f', -1, 64)
			text := []string{"UPDATE t SET x = a " + b.name + " " + ks, "UPDATE t SET a = a " + b.name + " " + ks + ", y = 'q' WHERE z = 1", "UPDATE t SET y = 1, x = a " + b.name + " b"}[x[3]]
			c.Inf("%s with a = %T(%v), b = %v", text, a, a, k)
			stmts, err := parse(text)
			if err != nil || len(stmts) != 1 {
				c.Failf("%v", err)
				return
			}
			upd, ok := stmts[0].(query.Update)
			if !ok {
				c.Failf("%T", stmts[0])
				return
			}
			n := 0
			for _, col := range upd.Columns() {
				f, isF := col.Function()
				if isF != col.IsFunction() {
					c.Failf("%s: function %v, %v", col.Name(), isF, col.IsFunction())
				}
				if !isF {
					continue
				}
				n++
				if f.Type() != fn.ArithOperator || !f.IsType(fn.ArithOperator) || f.IsType(fn.AggregateFunction) || f.Name() != b.name {
					c.Failf("function %q of type %v", f.Name(), f.Type())
				}
				ex, err := f.Executor()
				if err != nil {
					c.Failf("%v", err)
					return
				}
				for round := 0; round < 2; round++ {
					v, err := ex.Execute(map[string]any{"a": a, "b": k, "x": 1, "y": "q", "z": 3})
					c.Step(1)
					got, isNum := toF(v)
					if b.err(av, k) {
						if err == nil {
							c.Failf("no error: %v", v)
						}
					} else if err != nil || !isNum || !near(got, b.f(av, k)) {
						c.Failf("got %v %v, want %v", v, err, b.f(av, k))
					}
				}
			}
			if n != 1 {
				c.Failf("%d columns with functions", n)
			}
			c.Trace()
			c.State(text)
		})
		// Arguments which are no columns are constants.
		r.Block("constants", len(binaries)*len(fnNumbers), func(i int, c *Case) {
			b, k := binaries[i/len(fnNumbers)], fnNumbers[i%len(fnNumbers)]
			if !b.in(7, k) || b.err(7, k) {
				return
			}
			ks := strconv.FormatFloat(k, 'f', -1, 64)
			c.Inf("%s(a, %s) with a=7", b.name, ks)
			ex, err := fn.NewExecutorForName(b.name, fn.WithExecutorArguments([]string{"a", ks}))
			if err != nil {
				c.Failf("%v", err)
				return
			}
			v, err := ex.Execute(map[string]any{"a": 7, "b": 5})
			c.Step(1)
			c.Trace()
			f, isNum := toF(v)
			if err != nil || !isNum || !near(f, b.f(7, k)) {
				c.Failf("got %v %v, want %v", v, err, b.f(7, k))
			}
		})
	}})
}

type fnName struct {
	name string
	typ  fn.FunctionType
}

var fnNames = []fnName{
	{"ABS", fn.MathFunction}, {"CEIL", fn.MathFunction}, {"FLOOR", fn.MathFunction}, {"ROUND", fn.MathFunction}, {"SQRT", fn.MathFunction}, {"LOG", fn.MathFunction}, {"LOG10", fn.MathFunction}, {"EXP", fn.MathFunction},
	{"POWER", fn.MathFunction}, {"MOD", fn.MathFunction}, {"SIN", fn.MathFunction}, {"COS", fn.MathFunction}, {"TAN", fn.MathFunction}, {"RAND", fn.MathFunction}, {"PI", fn.MathFunction},
	{"UPPER", fn.StringFunction}, {"LOWER", fn.StringFunction}, {"TRIM", fn.StringFunction}, {"CURRENT_TIMESTAMP", fn.TimeFunction}, {"NOW", fn.TimeFunction},
	{"MAX", fn.AggregateFunction}, {"MIN", fn.AggregateFunction}, {"SUM", fn.AggregateFunction}, {"AVG", fn.AggregateFunction}, {"COUNT", fn.AggregateFunction},
	{"+", fn.ArithOperator}, {"-", fn.ArithOperator}, {"*", fn.ArithOperator}, {"/", fn.ArithOperator}, {"%", fn.ArithOperator},
}

// caseForms returns all (or for long names a spanning set of) mixtures of case of a name.
func caseForms(name string) []string {
	n := len(name)
	if n <= 6 {
		out := []string{}
		for k := 0; k < 1<<n; k++ {
			b := []byte(strings.ToUpper(name))
			for i := range b {
				if k>>i&1 == 1 {
					b[i] = strings.ToLower(string(b[i]))[0]
				}
			}
			out = append(out, string(b))
		}
		return uniq(out)
	}
	out := []string{name, strings.ToLower(name)}
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			b := []byte(name)
			b[i] = strings.ToLower(string(b[i]))[0]
			b[j] = strings.ToLower(string(b[j]))[0]
			out = append(out, string(b))
		}
	}
	return uniq(out)
}

func uniq(in []string) []string {
	seen := map[string]bool{}
	out := []string{}
	for _, s := range in {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// probe computes a function on fixed arguments and compares it.
func probe(c *Case, ex fn.Executor, name string) {
	for _, u := range unaries {
		if u.name == name {
			for _, a := range []float64{0.7, 2.5, 9} {
				v, err := ex.Execute([]any{a})
				if f, ok := toF(v); err != nil || !ok || !near(f, u.f(a)) {
					c.Failf("executor computes %v %v on %v, want %v", v, err, a, u.f(a))
				}
			}
			return
		}
	}
	for _, b := range binaries {
		if b.name == name {
			for _, a := range [][2]float64{{7, 3}, {2, 5}, {9, 4}} {
				v, err := ex.Execute([]any{a[0], a[1]})
				if f, ok := toF(v); err != nil || !ok || !near(f, b.f(a[0], a[1])) {
					c.Failf("executor computes %v %v on %v, want %v", v, err, a, b.f(a[0], a[1]))
				}
			}
			return
		}
	}
	want := map[string]string{"UPPER": " AB ", "LOWER": " ab ", "TRIM": "aB"}
	if w, ok := want[name]; ok {
		v, err := ex.Execute([]any{" aB "})
		if err != nil || v != any(w) {
			c.Failf("executor computes %v %v, want %q", v, err, w)
		}
		return
	}
	v, err := ex.Execute(nil)
	if err != nil {
		c.Failf("executor fails: %v", err)
		return
	}
	switch name {
	case "PI":
		if f, ok := toF(v); !ok || !near(f, math.Pi) {
			c.Failf("executor computes %v", v)
		}
	case "RAND":
		if f, ok := toF(v); !ok || f < 0 || f >= 1 {
			c.Failf("executor computes %v", v)
		}
	}
}

func probeAggr(c *Case, a fn.Aggregator, name string) {
	want := map[string]float64{"MAX": 6, "MIN": 1, "SUM": 9, "AVG": 3, "COUNT": 3}[name]
	for _, v := range []float64{2, 6, 1} {
		if err := a.Aggregate([]any{v}); err != nil {
			c.Failf("aggregate: %v", err)
			return
		}
	}
	rs, err := a.Finalize()
	if err != nil || !rs.Next() {
		c.Failf("finalize: %v", err)
		return
	}
	row, err := rs.Row()
	if err != nil || len(row) != 1 {
		c.Failf("row %v: %v", row, err)
		return
	}
	if f, ok := toF(row[0]); !ok || !near(f, want) {
		c.Failf("aggregator computes %v, want %v", row[0], want)
	}
}

func init() {
	register(&Prop{ID: "C21", Rule: "every registered name in every mixture of case, with and without argument lists, and every prefix, one-character extension, insertion, deletion and substitution of it (and combinations of two names) is given to the registry, the type lookup, the executor and aggregator constructors, the function object and, inside a SELECT, the selectors; the answers must be those of the exact name or, for all other names, that there is no such function", Run: func(r *Run) {
		type nf struct {
			f    fnName
			form string
		}
		forms := []nf{}
		for _, f := range fnNames {
			for _, s := range caseForms(f.name) {
				forms = append(forms, nf{f, s})
			}
		}
		lists := []string{"", "(a)", "()", "(*)", "(a,b)", "( a )", "(", "(LOG10(x))", "(sum)"}
		r.Block("names", len(forms)*len(lists), func(i int, c *Case) {
			f, name, l := forms[i/len(lists)].f, forms[i/len(lists)].form, lists[i%len(lists)]
			full := name + l
			c.In(full)
			arith := f.typ == fn.ArithOperator
			if arith && l != "" {
				return
			}
			c.Step(6)
			c.Trace()
			c.State(full)
			if !fn.IsRegisteredFunction(full) {
				c.Failf("not registered")
			}
			t, err := fn.NewFunctionTypeForName(name)
			if err != nil || t != f.typ {
				c.Failf("type %v %v, want %v", t, err, f.typ)
			}
			ex, err := fn.NewExecutorForName(full)
			if f.typ == fn.AggregateFunction {
				if err == nil {
					c.Failf("an executor %s for an aggregate", ex.Name())
				}
			} else if err != nil {
				c.Failf("no executor: %v", err)
			} else {
				if ex.Name() != f.name || ex.Type() != f.typ {
					c.Failf("executor %s of type %v", ex.Name(), ex.Type())
				}
				probe(c, ex, f.name)
			}
			ag, err := fn.NewAggregatorForName(full, fn.WithAggregatorArguments([]string{"a"}))
			if f.typ != fn.AggregateFunction {
				if err == nil {
					c.Failf("an aggregator %s for a scalar function", ag.Name())
				}
			} else if err != nil {
				c.Failf("no aggregator: %v", err)
			} else {
				if ag.Name() != f.name || ag.Type() != f.typ {
					c.Failf("aggregator %s of type %v", ag.Name(), ag.Type())
				}
				probeAggr(c, ag, f.name)
			}
			fo := fn.NewFunction(fn.WithFunctionName(name), fn.WithFunctionArguments(fn.NewArgumentWith("a")))
			if fo.Name() != f.name || fo.Type() != f.typ || !fo.IsName(name) || !fo.IsName(strings.ToLower(name)) || !fo.IsType(f.typ) || fo.IsAggregator() != (f.typ == fn.AggregateFunction) {
				c.Failf("function %s of type %v", fo.Name(), fo.Type())
			}
			if f.typ == fn.AggregateFunction {
				a, err := fo.Aggregator()
				if err != nil || a.Name() != f.name {
					c.Failf("aggregator of the function: %v", err)
				}
			} else if e, err := fo.Executor(); err != nil || e.Name() != f.name {
				c.Failf("executor of the function: %v", err)
			}
			for _, g := range fnNames {
				if fo.IsName(g.name) != (g.name == f.name) {
					c.Failf("IsName(%s) = %v", g.name, fo.IsName(g.name))
				}
				if fo.IsType(g.typ) != (g.typ == f.typ) {
					c.Failf("IsType(%v) = %v", g.typ, fo.IsType(g.typ))
				}
			}
		})
		// A function made of a given executor or aggregator is that one; the registered names are exactly these.
		given := []string{"ABS", "count", ""}
		r.Block("given", len(fnNames)*len(given)*6, func(i int, c *Case) {
			f, other, way := fnNames[i/6/len(given)], given[i/6%len(given)], i%6
			c.Inf("function of a given %s, other name %q, way %d", f.name, other, way)
			args := []string{"x", "y"}
			if f.typ == fn.AggregateFunction {
				args = args[:1]
			}
			fargs := fn.WithFunctionArguments(fn.NewArgumentWith("q"))
			var opt fn.FunctionOption
			var ex fn.Executor
			var ag fn.Aggregator
			var err error
			if f.typ == fn.AggregateFunction {
				ag, err = fn.NewAggregatorForName(f.name, fn.WithAggregatorArguments(args))
				opt = fn.WithFunctionAggregator(ag)
			} else {
				ex, err = fn.NewExecutorForName(f.name, fn.WithExecutorArguments(args))
				opt = fn.WithFunctionExecutor(ex)
			}
			if err != nil {
				c.Failf("%v", err)
				return
			}
			opts := []fn.FunctionOption{opt}
			switch way {
			case 1:
				opts = []fn.FunctionOption{fargs, opt}
			case 2:
				opts = []fn.FunctionOption{opt, fargs}
			case 3:
				opts = []fn.FunctionOption{fn.WithFunctionName(other), opt}
			case 4:
				opts = []fn.FunctionOption{fn.WithFunctionName(other), fargs, opt}
			case 5:
				opts = []fn.FunctionOption{fn.WithFunctionType(fn.MathFunction), opt}
			}
			fo := fn.NewFunction(opts...)
			c.Step(1)
			c.Trace()
			if fo.Name() != f.name || fo.Type() != f.typ || !fo.IsName(strings.ToLower(f.name)) || fo.IsAggregator() != (f.typ == fn.AggregateFunction) {
				c.Failf("function %s of type %v", fo.Name(), fo.Type())
			}
			if ex != nil {
				got, err := fo.Executor()
				if err != nil {
					c.Failf("executor: %v", err)
					return
				}
				c.Eq("arguments", strings.Join(got.Arguments(), ","), strings.Join(args, ","))
				probe(c, got, f.name)
				if f.typ == fn.MathFunction || f.typ == fn.ArithOperator {
					if a, err := fo.Aggregator(); err == nil {
						c.Failf("an aggregator %s", a.Name())
					}
				}
				return
			}
			got, err := fo.Aggregator()
			if err != nil {
				c.Failf("aggregator: %v", err)
				return
			}
			probeAggr(c, got, f.name)
			rs, err := got.Finalize()
			if err != nil {
				c.Failf("%v", err)
				return
			}
			c.Eq("columns", strings.Join(rs.Columns(), ","), f.name+"(x)")
		})
		r.Block("registered names", 1, func(i int, c *Case) {
			got := append([]string{}, fn.RegisteredFunctionNames()...)
			want := []string{}
			for _, f := range fnNames {
				want = append(want, f.name)
			}
			sort.Strings(got)
			sort.Strings(want)
			c.In("RegisteredFunctionNames()")
			c.Eq("names", strings.Join(got, " "), strings.Join(want, " "))
		})
		parsedLists := []string{"(a)", "()", "(*)", "(a, b)"}
		r.Block("parsed", len(forms)*len(parsedLists), func(i int, c *Case) {
			f, name := forms[i/len(parsedLists)].f, forms[i/len(parsedLists)].form
			if f.typ == fn.ArithOperator || f.name == "CURRENT_TIMESTAMP" {
				return // not written as a call
			}
			checkParsedFn(c, name, parsedLists[i%len(parsedLists)], &f)
		})
		// Names that are none.
		registered := map[string]bool{}
		for _, f := range fnNames {
			registered[f.name] = true
		}
		others := []string{"", " ", "(", ")", "()", "(ABS)", " ABS", "ABS ", "ABS\t", "ABS;", "A BS", "ABS.", ".ABS", "'ABS'", "\"ABS\"", "++", "+-", "**", "//", "%%", "+ ", " +", "+1", "-a", "FOO", "VARIANCE", "LENGTH", "CAST", "SQUARE", "LOG2", "LOG100", "LOG1", "CEILING", "POW", "AVERAGE", "MAXIMUM", "MINUS", "SUMMARY", "COUNTER", "PIE", "SINH", "TANH", "COSH", "EXPM1", "MODE", "ABSOLUTE", "ROUNDED", "TRIMMED", "NOWADAYS", "CURRENT_TIME", "CURRENT_DATE", "CURRENT_TIMESTAMPS", "RANDOM", "UPPERCASE", "*a", "COUNT*", "SUM[a]"}
		for _, f := range fnNames {
			for k := 1; k < len(f.name); k++ {
				others = append(others, f.name[:k], f.name[k:])
			}
			for _, x := range "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_ .,+-" {
				others = append(others, f.name+string(x), string(x)+f.name)
				for k := range f.name {
					others = append(others, f.name[:k]+string(x)+f.name[k+1:], f.name[:k]+string(x)+f.name[k:])
				}
			}
			for k := range f.name {
				others = append(others, f.name[:k]+f.name[k+1:])
			}
			for _, g := range fnNames {
				others = append(others, f.name+g.name, f.name+"_"+g.name, f.name+" "+g.name)
			}
		}
		bads := []string{}
		for _, o := range uniq(others) {
			if !registered[strings.ToUpper(o)] {
				bads = append(bads, o, strings.ToLower(o))
			}
		}
		bads = uniq(bads)
		badLists := []string{"", "(a)", "()", "(ABS(a))", "(SUM)"}
		r.Block("other-names", len(bads)*len(badLists), func(i int, c *Case) {
			name, l := bads[i/len(badLists)], badLists[i%len(badLists)]
			full := name + l
			c.In(full)
			base, _, _ := strings.Cut(full, "(")
			if registered[strings.ToUpper(base)] {
				return
			}
			c.Step(6)
			c.Trace()
			c.State(full)
			if strings.HasSuffix(name, ")") {
				return // the tests fix that "ABS)" is registered
			}
			if fn.IsRegisteredFunction(full) {
				c.Failf("registered")
			}
			if t, err := fn.NewFunctionTypeForName(full); err == nil {
				c.Failf("type %v", t)
			}
			if ex, err := fn.NewExecutorForName(full, fn.WithExecutorArguments([]string{"a"})); err == nil {
				c.Failf("executor %s", ex.Name())
			}
			if ag, err := fn.NewAggregatorForName(full, fn.WithAggregatorArguments([]string{"a"})); err == nil {
				c.Failf("aggregator %s", ag.Name())
			}
			if v, err := fn.ExecuteFunction(full, []any{0.5}); err == nil {
				c.Failf("executes to %v", v)
			}
			fo := fn.NewFunction(fn.WithFunctionName(full))
			if fo.IsAggregator() || fo.Type() != fn.UnknownFunctionType {
				c.Failf("function of type %v", fo.Type())
			}
			if _, err := fo.Executor(); err == nil {
				c.Failf("function with an executor")
			}
			if _, err := fo.Aggregator(); err == nil {
				c.Failf("function with an aggregator")
			}
			for _, g := range fnNames {
				if fo.IsName(g.name) {
					c.Failf("IsName(%s)", g.name)
				}
			}
		})
		ids := []string{}
		for _, b := range bads {
			if isIdent(b) && !isWord[strings.ToUpper(b)] {
				ids = append(ids, b)
			}
		}
		r.Block("other-names-parsed", len(ids), func(i int, c *Case) { checkParsedFn(c, ids[i], parsedLists[i%len(parsedLists)], nil) })
		// Columns are never functions, whatever they are called.
		r.Block("columns", len(forms), func(i int, c *Case) {
			f, name := forms[i].f, forms[i].form
			if f.typ == fn.ArithOperator || f.name == "CURRENT_TIMESTAMP" {
				return
			}
			text := "SELECT " + name + " FROM t"
			c.In(text)
			stmts, err := parse(text)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			c.Step(1)
			c.Trace()
			sel := stmts[0].(query.Select)
			if len(sel.Selectors()) != 1 || sel.Selectors()[0].Name() != name || sel.HasAggregator() || sel.HasExecutor() || sel.Selectors().HasFunction() {
				c.Failf("a column is a function: %s", obsStmt(stmts[0]))
			}
		})
		// Mixed selectors.
		sels := []string{"a", "*", "SUM(a)", "count(*)", "ABS(a)", "upper(a)", "LOG10(a)", "NOW()"}
		kinds := []string{"", "", "SUM", "COUNT", "ABS", "UPPER", "LOG10", "NOW"}
		types := []fn.FunctionType{0, 0, fn.AggregateFunction, fn.AggregateFunction, fn.MathFunction, fn.StringFunction, fn.MathFunction, fn.TimeFunction}
		depth := r.Pick(3, 4)
		r.Block("mixed", seqCount(len(sels), depth)-1, func(i int, c *Case) {
			seq := seqAt(len(sels), i+1)
			t := []string{}
			for _, k := range seq {
				t = append(t, sels[k])
			}
			text := "SELECT " + strings.Join(t, ", ") + " FROM t"
			c.In(text)
			stmts, err := parse(text)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			c.Step(1)
			c.Trace()
			sel := stmts[0].(query.Select)
			ss := sel.Selectors()
			fns, hasAggr, hasEx := []string{}, false, false
			for _, k := range seq {
				if kinds[k] == "" {
					continue
				}
				fns = append(fns, kinds[k])
				if types[k] == fn.AggregateFunction {
					hasAggr = true
				} else {
					hasEx = true
				}
			}
			got := []string{}
			for _, f := range ss.Functions() {
				got = append(got, f.Name())
			}
			c.Eq("functions", strings.Join(got, " "), strings.Join(fns, " "))
			if ss.HasFunction() != (len(fns) > 0) || ss.HasAggregator() != hasAggr || sel.HasAggregator() != hasAggr || ss.HasExecutor() != hasEx || sel.HasExecutor() != hasEx {
				c.Failf("HasFunction %v HasAggregator %v HasExecutor %v", ss.HasFunction(), ss.HasAggregator(), ss.HasExecutor())
			}
			for _, ty := range []fn.FunctionType{fn.MathFunction, fn.AggregateFunction, fn.StringFunction, fn.TimeFunction, fn.ArithOperator} {
				want := false
				for _, k := range seq {
					want = want || types[k] == ty
				}
				if ss.HasFunctionWithType(ty) != want {
					c.Failf("HasFunctionWithType(%v) = %v", ty, !want)
				}
			}
			// The executors are those of the functions which are not aggregates, in their order.
			for _, ty := range []fn.FunctionType{0, fn.MathFunction, fn.StringFunction, fn.TimeFunction, fn.ArithOperator} {
				want := []string{}
				for _, k := range seq {
					if kinds[k] != "" && types[k] != fn.AggregateFunction && (ty == 0 || types[k] == ty) {
						want = append(want, kinds[k])
					}
				}
				var exs []query.FunctionExecutor
				var err error
				if ty == 0 {
					exs, err = ss.Executors()
				} else {
					exs, err = ss.ExecutorsForType(ty)
				}
				if err != nil {
					c.Failf("executors of type %v: %v", ty, err)
					continue
				}
				got := []string{}
				for _, ex := range exs {
					got = append(got, ex.Name())
				}
				c.Eq(fmt.Sprintf("executors of type %v", ty), strings.Join(got, " "), strings.Join(want, " "))
			}
			for j, n := range []string{"Abs", "UPPER", "log10", "now", "SQRT", "FLOOR"} {
				ex, err := ss.LookupExecutor(n)
				want := false
				for _, g := range fns {
					want = want || strings.EqualFold(g, n)
				}
				if (err == nil) != want || (want && !strings.EqualFold(ex.Name(), n)) {
					c.Failf("LookupExecutor(%d %s): %v", j, n, err)
				}
			}
			for j, n := range []string{"SUM", "count", "Abs", "UPPER", "log10", "LOG", "NOW", "MAX"} {
				f, err := ss.LookupFunction(n)
				want := false
				for _, g := range fns {
					want = want || strings.EqualFold(g, n)
				}
				if (err == nil) != want || (want && !f.IsName(n)) {
					c.Failf("LookupFunction(%d %s): %v", j, n, err)
				}
			}
		})
	}})
}

func isIdent(s string) bool {
	for i, x := range s {
		if !(x == '_' || x >= 'a' && x <= 'z' || x >= 'A' && x <= 'Z' || i > 0 && x >= '0' && x <= '9') {
			return false
		}
	}
	return s != ""
}

func checkParsedFn(c *Case, name, list string, f *fnName) {
	text := "SELECT " + name + list + " FROM t"
	c.In(text)
	stmts, err := parse(text)
	if err != nil {
		c.Failf("%v", err)
		return
	}
	c.Step(1)
	c.Trace()
	sel := stmts[0].(query.Select)
	if len(sel.Selectors()) != 1 {
		c.Failf("%s", obsStmt(stmts[0]))
		return
	}
	fo, ok := sel.Selectors()[0].Function()
	if !ok {
		c.Failf("not a function: %s", obsStmt(stmts[0]))
		return
	}
	typ := fn.UnknownFunctionType
	if f != nil {
		typ = f.typ
	}
	if fo.Name() != strings.ToUpper(name) || fo.Type() != typ || fo.IsAggregator() != (typ == fn.AggregateFunction) {
		c.Failf("function %s of type %v, want %v", fo.Name(), fo.Type(), typ)
		return
	}
	if sel.HasAggregator() != (typ == fn.AggregateFunction) {
		c.Failf("HasAggregator = %v", sel.HasAggregator())
	}
	if f == nil {
		if _, err := fo.Executor(); err == nil {
			c.Failf("an executor")
		}
		if _, err := fo.Aggregator(); err == nil {
			c.Failf("an aggregator")
		}
		return
	}
	if typ == fn.AggregateFunction {
		if list == "()" {
			return
		}
		if a, err := fo.Aggregator(); err != nil || a.Name() != f.name {
			c.Failf("aggregator: %v", err)
		}
		return
	}
	if e, err := fo.Executor(); err != nil || e.Name() != f.name || e.Type() != f.typ {
		c.Failf("executor: %v", err)
	} else {
		probe(c, e, f.name)
	}
}

// isWord are the keywords of the grammar.
var isWord = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(grammarKeywords) {
		m[strings.ToUpper(w)] = true
	}
	return m
}()

// bitReader delivers the same eight bytes over and over.
type bitReader struct {
	b [8]byte
	n int
}

func (r *bitReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = r.b[r.n%8]
		r.n++
	}
	return len(p), nil
}

// bitPatterns returns every 64-bit word of at most three runs of equal bits.
func bitPatterns() []uint64 {
	seen := map[uint64]bool{}
	var out []uint64
	for i := 0; i <= 64; i++ {
		for j := i; j <= 64; j++ {
			var w uint64
			for k := i; k < j; k++ {
				w |= 1 << k
			}
			for _, x := range []uint64{w, ^w} {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
		}
	}
	return out
}
