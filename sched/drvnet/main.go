// Command drvnet decides the properties of connections and the connection manager under concurrency.
package main

import (
	"errors"
	"fmt"
	"slices"
	"strconv"
	"strings"
	"time"

	sqlnet "github.com/cybergarage/go-sqlparser/sql/net"
	"github.com/cybergarage/go-tracing/tracer"
	"github.com/google/uuid"

	"verif/mc/explore"
	"verif/mc/vsched"
)

// counter gives deterministic UUIDs.
type counter struct{ n int }

func (c *counter) Read(p []byte) (int, error) {
	c.n++
	for i := range p {
		p[i] = byte(c.n >> (8 * (i % 3)))
	}
	return len(p), nil
}

func main() {
	fakePoint = vsched.SyncPoint
	explore.Main([]*explore.Prop{propManager(), propConn()})
}

// ---- the connection manager ----

// Clone implements explore.Model.
func (m *mgrModel) Clone() explore.Model { return m.clone() }

// Key implements explore.Model.
func (m *mgrModel) Key() string { return m.key() }

// closeFrame is the progress of closing: the connections listed when it began, one closing and one removal each.
type closeFrame struct {
	conns []int
	phase []int // 0 to close, 1 to remove, 2 done
	errs  []error
}

// opClosed observes how often the underlying connections were closed.
type opClosed struct{}

// Step implements explore.Model.
func (m *mgrModel) Step(op, frame any) []explore.Next {
	if _, ok := op.(opClosed); ok {
		want := m.closedKey()
		return []explore.Next{{Model: m, Done: true, Match: func(res any) bool { return res.(string) == want }}}
	}
	o := op.(mgrOp)
	if o.kind != "close" && o.kind != "stop" {
		want, _ := m.apply(o)
		return []explore.Next{{Model: m, Done: true, Match: func(res any) bool {
			r := res.(mgrResult)
			if o.kind == "rm" || o.kind == "rmid" || o.kind == "rmuu" {
				return true
			}
			return r.ok == want.ok && r.conn == want.conn && r.list == want.list
		}}}
	}
	match := func(f *closeFrame) func(res any) bool {
		return func(res any) bool {
			r := res.(mgrResult)
			if r.ok != (len(f.errs) == 0) {
				return false
			}
			for _, e := range f.errs {
				if len(r.errs) == 0 || !errors.Is(r.errs[0], e) {
					return false
				}
			}
			return true
		}
	}
	if frame == nil {
		f := &closeFrame{}
		for _, c := range m.reg {
			if c >= 0 {
				f.conns = append(f.conns, c)
				f.phase = append(f.phase, 0)
			}
		}
		if len(f.conns) == 0 {
			return []explore.Next{{Model: m, Done: true, Match: match(f)}}
		}
		return []explore.Next{{Model: m, Frame: f, Key: fmt.Sprint(*f)}}
	}
	f := frame.(*closeFrame)
	out := []explore.Next{}
	for i, c := range f.conns {
		if f.phase[i] == 2 {
			continue
		}
		n := m.clone()
		g := &closeFrame{f.conns, append([]int{}, f.phase...), append([]error{}, f.errs...)}
		if f.phase[i] == 0 {
			if err := n.closeConn(c); err != nil {
				g.errs = append(g.errs, err)
				g.phase[i] = 2
			} else {
				g.phase[i] = 1
			}
		} else {
			n.apply(mgrOp{kind: "rm", x: c})
			g.phase[i] = 2
		}
		done := true
		for _, p := range g.phase {
			done = done && p == 2
		}
		if done {
			out = append(out, explore.Next{Model: n, Done: true, Match: match(g)})
		} else {
			out = append(out, explore.Next{Model: n, Frame: g, Key: fmt.Sprint(*g)})
		}
	}
	return out
}

func (m *mgrModel) closedKey() string {
	s := ""
	for i := range m.u.conns {
		n := 0
		if m.done[m.u.group[i]] {
			n = 1
		}
		s += fmt.Sprint(n, " ")
	}
	return s
}

func (u *connUniverse) closedKey() string {
	s := ""
	for _, f := range u.fakes {
		s += fmt.Sprint(f.closed, " ")
	}
	return s
}

// history collects the calls of an execution.
type history struct {
	logs [][]explore.Call
}

func (h *history) run(t int, op any, f func() any) {
	vsched.SyncPoint()
	c := explore.Call{Thread: t, Op: op, Inv: vsched.Now()}
	c.Res = f()
	c.Ret = vsched.Now()
	h.logs[t] = append(h.logs[t], c)
}

// memo remembers the judged histories of a scenario.
type memo map[string]bool

func historyKey(calls []explore.Call) string {
	sb := strings.Builder{}
	for _, c := range calls {
		sb.WriteString(strconv.Itoa(c.Thread))
		sb.WriteByte(' ')
		sb.WriteString(strconv.FormatInt(c.Inv, 10))
		sb.WriteByte(' ')
		sb.WriteString(strconv.FormatInt(c.Ret, 10))
		sb.WriteByte(' ')
		switch r := c.Res.(type) {
		case string:
			sb.WriteString(r)
		case mgrResult:
			if r.ok {
				sb.WriteByte('+')
			}
			sb.WriteString(strconv.Itoa(r.conn))
			sb.WriteString(r.list)
			for _, e := range r.errs {
				sb.WriteString(e.Error())
			}
		}
		sb.WriteByte('\n')
	}
	return sb.String()
}

func (h *history) calls() []explore.Call {
	out := []explore.Call{}
	for _, l := range h.logs {
		out = append(out, l...)
	}
	slices.SortFunc(out, func(a, b explore.Call) int { return int(a.Inv - b.Inv) })
	return out
}

func mgrScenario(initial []int, progs [][]mgrOp, failA, bound int, stmt bool, max int) *explore.Scenario {
	u0 := newUniverse(0, 0)
	names := []string{}
	for _, p := range progs {
		l := []string{}
		for _, o := range p {
			l = append(l, o.name(u0))
		}
		names = append(names, strings.Join(l, ";"))
	}
	in := ""
	for _, i := range initial {
		in += u0.names[i]
	}
	name := fmt.Sprintf("{%s} fail %d: %s", in, failA, strings.Join(names, " || "))
	seen := memo{}
	return &explore.Scenario{Name: name, Bound: bound, Stmt: stmt, Max: max, New: func() *explore.Exec {
		uuid.SetRand(&counter{})
		u := newUniverse(failA, 0)
		cm := sqlnet.NewConnManager()
		m := newMgrModel(u)
		for _, i := range initial {
			cm.AddConn(u.conns[i])
			m.apply(mgrOp{kind: "add", x: i})
		}
		h := &history{logs: make([][]explore.Call, len(progs))}
		x := &explore.Exec{}
		for _, p := range progs {
			x.Threads = append(x.Threads, func(t int) {
				for _, o := range p {
					h.run(t, o, func() any { return runMgr(cm, u, o) })
				}
			})
		}
		x.Check = func() string {
			calls := h.calls()
			// The final state, observed after all calls.
			last := vsched.Now()
			add := func(op any, res any) {
				last += 2
				calls = append(calls, explore.Call{Thread: -1, Op: op, Inv: last, Ret: last + 1, Res: res})
			}
			for _, o := range []mgrOp{{kind: "list"}, {kind: "lkid", x: 1}, {kind: "lkid", x: 2}, {kind: "lkid", x: 0}, {kind: "lkuu", x: 0}, {kind: "lkuu", x: 1}, {kind: "lkuu", x: 2}} {
				add(o, runMgr(cm, u, o))
			}
			add(opClosed{}, u.closedKey())
			key := historyKey(calls)
			if seen[key] {
				return ""
			}
			if explore.Linearizable(m, calls) {
				seen[key] = true
				return ""
			}
			s := []string{}
			for _, c := range calls {
				n := "closed"
				if o, ok := c.Op.(mgrOp); ok {
					n = o.name(u)
				}
				s = append(s, fmt.Sprintf("[%d..%d] thread %d %s = %v", c.Inv, c.Ret, c.Thread, n, c.Res))
			}
			return "no sequential order of the calls explains the results:\n  " + strings.Join(s, "\n  ")
		}
		return x
	}}
}

func propManager() *explore.Prop {
	return &explore.Prop{
		ID:   "C28",
		Rule: "all schedules up to the preemption bound of all pairs and triples of operations (and pairs of two-step programs) on one manager; every execution is checked for data races, deadlocks, panics and linearizability including the final state; closing counts as a listing followed by one closing and one removal per listed connection",
		Assume: []string{
			"scheduling points: lock operations, and every statement of the package in the statement-level scenarios; data races are judged by happens-before on every execution",
		},
		Scenarios: func(thorough bool) []*explore.Scenario {
			out := []*explore.Scenario{}
			o := func(k string, x int, y ...int) mgrOp {
				op := mgrOp{kind: k, x: x}
				if len(y) > 0 {
					op.y = y[0]
				}
				return op
			}
			ops := []mgrOp{o("add", 0), o("add", 1), o("add", 2), o("upd", 0, 1), o("upd", 0, 2), o("upd", 0, 3), o("upd", 1, 2), o("rm", 0), o("rm", 1), o("rmid", 1), o("rmuu", 0), o("close", 0), o("stop", 0), o("start", 0), o("lkid", 1), o("lkuu", 0), o("lkuu", 1), o("list", 0)}
			inits := [][]int{{}, {0}, {0, 1}, {2, 1}}
			// Statement level: all pairs.
			for _, in := range inits {
				for i := range ops {
					for j := i; j < len(ops); j++ {
						out = append(out, mgrScenario(in, [][]mgrOp{{ops[i]}, {ops[j]}}, 0, 2, true, 0))
					}
				}
			}
			// Failing closes.
			for i := range ops {
				out = append(out, mgrScenario([]int{0, 1}, [][]mgrOp{{o("close", 0)}, {ops[i]}}, 1, 3, false, 0))
				out = append(out, mgrScenario([]int{0, 1}, [][]mgrOp{{o("stop", 0)}, {ops[i]}, {o("close", 0)}}, 1, 2, false, 0))
			}
			// Two observations against each operation.
			look := []mgrOp{o("lkid", 1), o("lkuu", 0), o("lkid", 2), o("lkuu", 1), o("list", 0), o("lkuu", 2)}
			for _, in := range inits {
				for i := range ops {
					for a := range look {
						for b := range look {
							out = append(out, mgrScenario(in, [][]mgrOp{{ops[i]}, {look[a], look[b]}}, 0, 2, false, 0))
						}
					}
				}
			}
			// Triples.
			core := []mgrOp{o("add", 0), o("add", 1), o("add", 2), o("upd", 0, 1), o("upd", 0, 3), o("rm", 0), o("rmid", 1), o("rmuu", 0), o("close", 0), o("lkid", 1), o("list", 0)}
			for _, in := range inits[1:3] {
				for i := range core {
					for j := i; j < len(core); j++ {
						for k := j; k < len(core); k++ {
							out = append(out, mgrScenario(in, [][]mgrOp{{core[i]}, {core[j]}, {core[k]}}, 0, 2, thorough, 0))
						}
					}
				}
			}
			// Pairs of two-step programs.
			two := []mgrOp{o("add", 0), o("add", 2), o("upd", 0, 1), o("rmid", 1), o("rm", 0), o("close", 0), o("list", 0)}
			if thorough {
				two = core
			}
			progs := [][]mgrOp{}
			for _, a := range two {
				for _, b := range two {
					progs = append(progs, []mgrOp{a, b})
				}
			}
			for i := range progs {
				for j := i; j < len(progs); j++ {
					out = append(out, mgrScenario([]int{0}, [][]mgrOp{progs[i], progs[j]}, 0, 2, false, 0))
				}
			}
			return out
		},
	}
}

// ---- connections ----

type connOp struct {
	kind string
	args []string
}

func (o connOp) String() string { return o.kind + "(" + strings.Join(o.args, ",") + ")" }

// spanCtx is a span context which is told apart by its name.
type spanCtx struct{ name string }

type fakeSpan struct {
	tracer.Span
	name string
}

// Span returns a span of the context.
func (s *spanCtx) Span() tracer.Span { return &fakeSpan{name: s.name} }

// StartSpan starts a span.
func (s *spanCtx) StartSpan(name string) bool { return s.name == "s1" }

// FinishSpan finishes a span.
func (s *spanCtx) FinishSpan() bool { return s.name == "s2" }

var spans = map[string]*spanCtx{"s0": {"s0"}, "s1": {"s1"}, "s2": {"s2"}}

type connModel struct {
	user, db, span string
	schemas        []string
	closed         bool
	calls, fails   int
}

// Clone implements explore.Model.
func (m *connModel) Clone() explore.Model {
	n := *m
	n.schemas = slices.Clone(m.schemas)
	return &n
}

// Key implements explore.Model.
func (m *connModel) Key() string { return fmt.Sprintf("%+v", *m) }

// apply runs the operation on the model and returns its result.
func (m *connModel) apply(o connOp) string {
	switch o.kind {
	case "SetUser":
		m.user = o.args[0]
	case "User":
		return m.user
	case "SetDatabase":
		m.db = o.args[0]
		m.schemas = nil
	case "Database":
		return m.db
	case "SetSchemas":
		for _, s := range o.args {
			if !slices.Contains(m.schemas, s) {
				m.schemas = append(m.schemas, s)
			}
		}
	case "Schemas":
		return strings.Join(m.schemas, ",")
	case "SetSpan":
		m.span = o.args[0]
	case "Span", "SpanOf":
		return m.span
	case "StartSpan":
		return fmt.Sprint(m.span == "s1")
	case "FinishSpan":
		return fmt.Sprint(m.span == "s2")
	case "Close":
		if m.closed {
			return "ok"
		}
		m.calls++
		if m.calls <= m.fails {
			return "error"
		}
		m.closed = true
		return "ok"
	case "IDs":
		return "same"
	case "closed":
		return fmt.Sprint(m.closed)
	}
	return ""
}

// Step implements explore.Model.
func (m *connModel) Step(op, frame any) []explore.Next {
	o := op.(connOp)
	want := m.apply(o)
	return []explore.Next{{Model: m, Done: true, Match: func(res any) bool { return res.(string) == want }}}
}

type connUnderTest struct {
	c    sqlnet.Conn
	f    *fakeConn
	id   uuid.UUID
	ts   time.Time
	args []string
}

func newConnUnderTest(fails int, preset bool) (*connUnderTest, *connModel) {
	f := newFake("conn", fails)
	m := &connModel{fails: fails, span: "s0"}
	opts := []sqlnet.ConnOption{sqlnet.WithConnID(77), sqlnet.WithConnTracer(spans["s0"])}
	if preset {
		opts = append(opts, sqlnet.WithConnUser("u0"), sqlnet.WithConnDatabase("d0"), sqlnet.WithConnSchemas("x0"))
		m.user, m.db, m.schemas = "u0", "d0", []string{"x0"}
	}
	c := sqlnet.NewConnWith(f, opts...)
	return &connUnderTest{c: c, f: f, id: c.UUID(), ts: c.Timestamp()}, m
}

func (x *connUnderTest) run(o connOp) string {
	c := x.c
	switch o.kind {
	case "SetUser":
		c.SetUser(o.args[0])
	case "User":
		return c.User()
	case "SetDatabase":
		c.SetDatabase(o.args[0])
	case "Database":
		return c.Database()
	case "SetSchemas":
		args := slices.Clone(o.args)
		c.SetSchemas(args...)
		for i := range args {
			args[i] = "changed"
		}
	case "Schemas":
		l := c.Schemas()
		s := strings.Join(l, ",")
		for i := range l {
			l[i] = "changed"
		}
		_ = append(l, "more")
		return s
	case "SetSpan":
		c.SetSpanContext(spans[o.args[0]])
	case "Span":
		if s, ok := c.SpanContext().(*spanCtx); ok {
			return s.name
		}
		return "?"
	case "SpanOf":
		if s, ok := c.Span().(*fakeSpan); ok {
			return s.name
		}
		return "?"
	case "StartSpan":
		return fmt.Sprint(c.StartSpan("x"))
	case "FinishSpan":
		return fmt.Sprint(c.FinishSpan())
	case "Close":
		if err := c.Close(); err != nil {
			if !errors.Is(err, x.f.err) {
				return "wrong error"
			}
			return "error"
		}
		return "ok"
	case "IDs":
		if c.ID() == 77 && c.UUID() == x.id && c.Timestamp().Equal(x.ts) {
			return "same"
		}
		return "changed"
	case "closed":
		if x.f.closed > 1 {
			return fmt.Sprintf("closed %d times", x.f.closed)
		}
		return fmt.Sprint(x.f.closed == 1)
	}
	return ""
}

func connOps() []connOp {
	o := func(k string, a ...string) connOp { return connOp{k, a} }
	return []connOp{
		o("SetUser", "u1"), o("SetUser", "u2"), o("User"),
		o("SetDatabase", "d1"), o("SetDatabase", "d2"), o("Database"),
		o("SetSchemas", "x1", "x2"), o("SetSchemas", "x2", "x3", "x3"), o("SetSchemas"), o("Schemas"),
		o("SetSpan", "s1"), o("SetSpan", "s2"), o("Span"), o("SpanOf"), o("StartSpan"), o("FinishSpan"),
		o("Close"), o("IDs"),
	}
}

var connFinal = []connOp{{kind: "User"}, {kind: "Database"}, {kind: "Schemas"}, {kind: "Schemas"}, {kind: "Span"}, {kind: "IDs"}, {kind: "closed"}}

func connScenario(progs [][]connOp, fails int, preset bool, bound int, stmt bool) *explore.Scenario {
	names := []string{}
	for _, p := range progs {
		names = append(names, fmt.Sprint(p))
	}
	name := fmt.Sprintf("fails %d preset %v: %s", fails, preset, strings.Join(names, " || "))
	seen := memo{}
	return &explore.Scenario{Name: name, Bound: bound, Stmt: stmt, New: func() *explore.Exec {
		c, m := newConnUnderTest(fails, preset)
		h := &history{logs: make([][]explore.Call, len(progs))}
		x := &explore.Exec{}
		for _, p := range progs {
			x.Threads = append(x.Threads, func(t int) {
				for _, o := range p {
					h.run(t, o, func() any { return c.run(o) })
				}
			})
		}
		x.Check = func() string {
			calls := h.calls()
			last := vsched.Now()
			for _, o := range connFinal {
				last += 2
				calls = append(calls, explore.Call{Thread: -1, Op: o, Inv: last, Ret: last + 1, Res: c.run(o)})
			}
			key := historyKey(calls)
			if seen[key] {
				return ""
			}
			if explore.Linearizable(m, calls) {
				seen[key] = true
				return ""
			}
			s := []string{}
			for _, k := range calls {
				s = append(s, fmt.Sprintf("[%d..%d] thread %d %v = %v", k.Inv, k.Ret, k.Thread, k.Op, k.Res))
			}
			return "no sequential order of the calls explains the results:\n  " + strings.Join(s, "\n  ")
		}
		return x
	}}
}

func propConn() *explore.Prop {
	return &explore.Prop{
		ID:   "C26",
		Rule: "all sequential histories of calls on a connection up to a depth against a model; all schedules up to the preemption bound of pairs, triples and two-step programs, each execution checked for data races, deadlocks and linearizability",
		Assume: []string{
			"scheduling points: lock operations, and every statement of the package in the statement-level scenarios; data races are judged by happens-before on every execution",
			"spans are used only on a connection with a span context",
		},
		Sequential: connSequential,
		Scenarios: func(thorough bool) []*explore.Scenario {
			ops := connOps()
			out := []*explore.Scenario{}
			for i := range ops {
				for j := i; j < len(ops); j++ {
					for _, preset := range []bool{false, true} {
						for _, fails := range []int{0, 1} {
							if fails == 1 && ops[i].kind != "Close" && ops[j].kind != "Close" {
								continue
							}
							out = append(out, connScenario([][]connOp{{ops[i]}, {ops[j]}}, fails, preset, 2, true))
						}
					}
				}
			}
			// Two calls against two calls.
			two := []connOp{}
			for _, o := range ops {
				switch o.kind {
				case "SetDatabase", "Database", "SetSchemas", "Schemas", "Close":
					two = append(two, o)
				}
			}
			progs := [][]connOp{}
			for _, a := range two {
				for _, b := range two {
					progs = append(progs, []connOp{a, b})
				}
			}
			for i := range progs {
				for j := i; j < len(progs); j++ {
					out = append(out, connScenario([][]connOp{progs[i], progs[j]}, 0, true, 2, false))
				}
			}
			for i := range two {
				for j := i; j < len(two); j++ {
					for k := j; k < len(two); k++ {
						out = append(out, connScenario([][]connOp{{two[i]}, {two[j]}, {two[k]}}, 1, true, 2, thorough))
					}
				}
			}
			cl := connOp{kind: "Close"}
			for fails := 0; fails < 4; fails++ {
				out = append(out, connScenario([][]connOp{{cl, cl}, {cl, cl}}, fails, false, 4, true))
				out = append(out, connScenario([][]connOp{{cl}, {cl}, {cl}}, fails, false, 3, true))
			}
			return out
		},
	}
}

// connSequential decides the histories of one caller.
func connSequential(thorough bool) (n, calls, nstates int, input, failure string) {
	ops := connOps()
	depth := 4
	if thorough {
		depth = 5
	}
	states := map[string]bool{}
	var seq []connOp
	var rec func(d int)
	check := func(fails int, preset bool) {
		c, m := newConnUnderTest(fails, preset)
		n++
		for _, list := range [][]connOp{seq, connFinal} {
			for _, o := range list {
				calls++
				want := m.apply(o)
				if got := c.run(o); got != want && failure == "" {
					input = fmt.Sprintf("fails %d preset %v: %v", fails, preset, seq)
					failure = fmt.Sprintf("%v gives %q, want %q", o, got, want)
				}
			}
		}
		states[m.Key()] = true
	}
	rec = func(d int) {
		if failure != "" {
			return
		}
		check(len(seq)%3, len(seq)%2 == 0)
		if d <= 3 {
			for f := 0; f < 3; f++ {
				check(f, true)
				check(f, false)
			}
		}
		if d == depth {
			return
		}
		for _, o := range ops {
			seq = append(seq, o)
			rec(d + 1)
			seq = seq[:len(seq)-1]
		}
	}
	rec(0)
	if failure == "" {
		input, failure = connOptions()
	}
	return n, calls, len(states), input, failure
}

// connOptions checks the options, the identifiers and the independence of given lists.
func connOptions() (string, string) {
	given := make([]string, 1, 8)
	given[0] = "g"
	before := time.Now()
	a := sqlnet.NewConnWith(newFake("a", 0), sqlnet.WithConnSchemas(given...), sqlnet.WithConnID(5), sqlnet.WithConnUser("u"), sqlnet.WithConnDatabase("d"))
	b := sqlnet.NewConnWith(newFake("b", 0), sqlnet.WithConnSchemas(given...))
	after := time.Now()
	a.SetSchemas("a1", "a2")
	b.SetSchemas("b1")
	given[0] = "changed"
	in := "two connections made from one schema list"
	if s := strings.Join(a.Schemas(), ","); s != "g,a1,a2" {
		return in, "the first has the schemas " + s
	}
	if s := strings.Join(b.Schemas(), ","); s != "g,b1" {
		return in, "the second has the schemas " + s
	}
	if a.ID() != 5 || a.User() != "u" || a.Database() != "d" || b.ID() != 0 || b.User() != "" || b.Database() != "" {
		return "options", fmt.Sprint("wrong values ", a.ID(), a.User(), a.Database(), b.ID(), b.User(), b.Database())
	}
	if a.Timestamp().Before(before) || a.Timestamp().After(after) {
		return "timestamp", "not the time of the creation"
	}
	seen := map[uuid.UUID]bool{}
	for i := 0; i < 2000; i++ {
		c := sqlnet.NewConnWith(newFake("c", 0))
		if seen[c.UUID()] {
			return "2000 connections", "two have the same UUID"
		}
		seen[c.UUID()] = true
	}
	return "", ""
}
