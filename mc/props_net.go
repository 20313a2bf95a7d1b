package main

import (
	"errors"
	"fmt"
	"math"
	"strings"

	sqlnet "github.com/cybergarage/go-sqlparser/sql/net"
)

// mgrOps is the alphabet of the histories.
func mgrOps() []mgrOp {
	ops := []mgrOp{}
	for i := 0; i < 6; i++ {
		ops = append(ops, mgrOp{kind: "add", x: i})
	}
	for i := 0; i < 6; i++ {
		ops = append(ops, mgrOp{kind: "rm", x: i})
	}
	for _, id := range []int{0, 1, 2, 3, 9} {
		ops = append(ops, mgrOp{kind: "rmid", x: id})
	}
	for i := 0; i < 4; i++ {
		ops = append(ops, mgrOp{kind: "rmuu", x: i % 3})
	}
	ops = ops[:len(ops)-1]
	for _, p := range [][2]int{{0, 0}, {0, 1}, {0, 2}, {0, 3}, {0, 4}, {1, 0}, {1, 2}, {2, 0}, {2, 1}, {3, 0}, {4, 0}, {4, 1}, {5, 2}, {0, 5}} {
		ops = append(ops, mgrOp{kind: "upd", x: p[0], y: p[1]})
	}
	ops = append(ops, mgrOp{kind: "close"}, mgrOp{kind: "start"}, mgrOp{kind: "look"})
	return ops
}

// observeMgr compares all lookups and the list with the model.
func observeMgr(c *Case, cm sqlnet.ConnManager, m *mgrModel, when string) {
	u := m.u
	probe := func(o mgrOp) {
		if c.Failed() {
			return
		}
		c.Step(1)
		want, _ := m.apply(o)
		got := runMgr(cm, u, o)
		if got.ok != want.ok || got.conn != want.conn || got.list != want.list {
			c.Failf("%s: %s gives (%v, %d, %q), want (%v, %d, %q)", when, o.name(u), got.ok, got.conn, got.list, want.ok, want.conn, want.list)
		}
	}
	for _, id := range []int{0, 1, 2, 3, 9} {
		probe(mgrOp{kind: "lkid", x: id})
	}
	for _, i := range []int{0, 1, 2, 5} {
		probe(mgrOp{kind: "lkuu", x: i})
	}
	probe(mgrOp{kind: "list"})
	for i, f := range u.fakes {
		closed := 0
		if m.done[u.group[i]] {
			closed = 1
		}
		if f.closed != closed {
			c.Failf("%s: the connection %s is closed %d times, want %d", when, u.names[i], f.closed, closed)
		}
	}
}

// stateOf returns the registered connections as the lookups show them, or false if they disagree.
func (m *mgrModel) matches(cm sqlnet.ConnManager) bool {
	for _, o := range []mgrOp{{kind: "lkid", x: 0}, {kind: "lkid", x: 1}, {kind: "lkid", x: 2}, {kind: "lkid", x: 3}, {kind: "lkuu", x: 0}, {kind: "lkuu", x: 1}, {kind: "lkuu", x: 2}, {kind: "lkuu", x: 5}, {kind: "list"}} {
		w, _ := m.apply(o)
		g := runMgr(cm, m.u, o)
		if w.ok != g.ok || w.conn != g.conn || w.list != g.list {
			return false
		}
	}
	return true
}

// runMgrHistory runs a history on a fresh manager and the model; the results and the state are compared after each
// of the operations from check on.
func runMgrHistory(c *Case, ops []mgrOp, seq []int, failA, failB, check int, ids ...uint64) {
	u := newUniverse(failA, failB, ids...)
	cm := sqlnet.NewConnManager()
	m := newMgrModel(u)
	names := []string{}
	for _, k := range seq {
		names = append(names, ops[k].name(u))
	}
	if len(ids) > 0 {
		names = append([]string{fmt.Sprintf("IDs %v", u.uids)}, names...)
	}
	c.Inf("failing closes a=%d b=%d: %s", failA, failB, strings.Join(names, "; "))
	for n, k := range seq {
		o := ops[k]
		when := fmt.Sprintf("after %s", strings.Join(names[:n+1], "; "))
		c.Step(1)
		if o.kind == "look" {
			observeMgr(c, cm, m, when)
			continue
		}
		before := m.clone()
		want, loose := m.apply(o)
		got := runMgr(cm, u, o)
		if loose {
			// The connection was updated or removed under another ID: as if unknown, or as if it were the same.
			alt := before.clone()
			g := u.group[o.x]
			alt.reg[g] = -1
			if o.kind == "upd" {
				alt.reg[u.group[o.y]] = o.y
			}
			switch {
			case o.kind == "upd" && got.ok:
				m = alt
			case o.kind == "upd":
			case alt.matches(cm):
				m = alt
			}
		} else if got.ok != want.ok {
			c.Failf("%s: success is %v (%v), want %v", when, got.ok, got.errs, want.ok)
			return
		}
		for _, e := range want.errs {
			if len(got.errs) == 0 || !errors.Is(got.errs[0], e) {
				c.Failf("%s: the error %v does not report %v", when, got.errs, e)
			}
		}
		if n >= check {
			observeMgr(c, cm, m, when)
		}
		if c.Failed() {
			return
		}
	}
	c.State(m.key())
	c.Trace()
}

func init() {
	register(&Prop{
		ID:   "C27",
		Rule: "all histories up to a depth over the operations of a connection manager, on connections with equal and different IDs and decorated connections, for every failure pattern of closing; results, lookups by ID and UUID, list and closed connections against a model",
		Assume: []string{
			"the identifiers of a connection do not change while it is registered",
		},
		Run: func(r *Run) {
			ops := mgrOps()
			depth := r.Pick(4, 5)
			n := seqCount(len(ops), depth)
			r.Block(fmt.Sprintf("histories-%d", depth), n, func(i int, c *Case) {
				seq := seqAt(len(ops), i)
				runMgrHistory(c, ops, seq, 0, 0, len(seq)-1)
			})
			// Other IDs: those of two connections may be zero, the largest ones, or equal in their lower or upper halves.
			idSets := [][]uint64{{1, 0, 2, 3}, {2, 1, 0, 3}, {3, 1, 2, 0}, {math.MaxUint64, math.MaxUint64 - 1, 0, 1}, {0, math.MaxUint64, math.MaxInt64, math.MaxInt64 + 1}, {1 << 32, 0, 1 << 33, 1 << 31}, {1, 1 + 1<<32, 1 + 1<<33, 1 + 1<<16}, {1, 257, 513, 65537}, {1<<53 + 1, 1 << 53, 1<<53 + 2, 1<<53 - 1}}
			ni := seqCount(len(ops), depth-1)
			r.Block(fmt.Sprintf("ids-%d", depth-1), ni*len(idSets), func(i int, c *Case) {
				seq := seqAt(len(ops), i/len(idSets))
				runMgrHistory(c, ops, seq, 0, 0, len(seq)-1, idSets[i%len(idSets)]...)
			})
			// Closing connections which fail.
			fl := []int{0, 1, 2, -1}
			sub := []mgrOp{}
			for _, o := range ops {
				switch o.kind {
				case "close", "look":
					sub = append(sub, o)
				case "add":
					if o.x < 4 {
						sub = append(sub, o)
					}
				case "rm":
					if o.x < 2 {
						sub = append(sub, o)
					}
				case "upd":
					if o.x == 0 && o.y < 4 {
						sub = append(sub, o)
					}
				}
			}
			sub = append(sub, mgrOp{kind: "stop"})
			d2 := r.Pick(4, 5)
			n2 := seqCount(len(sub), d2)
			r.Block(fmt.Sprintf("failing-%d", d2), n2*16, func(i int, c *Case) {
				x := i % 16
				seq := seqAt(len(sub), i/16)
				runMgrHistory(c, sub, seq, fl[x/4], fl[x%4], len(seq)-1)
			})
			// Two registered connections, then longer histories of closing with failures.
			sub3 := []mgrOp{{kind: "close"}, {kind: "stop"}, {kind: "add", x: 0}, {kind: "add", x: 2}, {kind: "rm", x: 0}, {kind: "rmid", x: 1}, {kind: "upd", x: 0, y: 3}}
			d3 := r.Pick(5, 7)
			all := append([]mgrOp{{kind: "add", x: 0}, {kind: "add", x: 1}}, sub3...)
			r.Block(fmt.Sprintf("closing-%d", d3), seqCount(len(sub3), d3)*16, func(i int, c *Case) {
				x := i % 16
				seq := []int{0, 1}
				for _, k := range seqAt(len(sub3), i/16) {
					seq = append(seq, k+2)
				}
				runMgrHistory(c, all, seq, fl[x/4], fl[x%4], max(1, len(seq)-1))
			})
			r.many()
		},
	})
}

// many checks managers of many connections: all sizes, every way to remove each of them.
func (r *Run) many() {
	sizes := r.Pick(48, 160)
	ways := 5
	r.Block("many", sizes*ways*3, func(i int, c *Case) {
		d := dims{sizes, ways, 3}.at(i)
		n, way, ord := d[0], d[1], d[2]
		c.Inf("%d connections, way %d, order %d", n, way, ord)
		cm := sqlnet.NewConnManager()
		conns := make([]sqlnet.Conn, n)
		fakes := make([]*fakeConn, n)
		for k := range conns {
			fakes[k] = newFake(fmt.Sprint(k), 0)
			conns[k] = sqlnet.NewConnWith(fakes[k], sqlnet.WithConnID(uint64(k*k)))
			c.Step(1)
			if err := cm.AddConn(conns[k]); err != nil {
				c.Failf("add %d: %v", k, err)
				return
			}
		}
		in := map[sqlnet.Conn]bool{}
		for _, x := range conns {
			in[x] = true
		}
		check := func(when string) {
			list := cm.Conns()
			seen := map[sqlnet.Conn]bool{}
			for _, x := range list {
				if !in[x] || seen[x] {
					c.Failf("%s: wrong list", when)
				}
				seen[x] = true
			}
			if len(seen) != len(in) {
				c.Failf("%s: the list has %d connections, want %d", when, len(seen), len(in))
			}
			for _, x := range conns {
				a, ok1 := cm.LookupConnByUID(x.ID())
				b, ok2 := cm.LookupConnByUUID(x.UUID())
				c.Step(2)
				if ok1 != in[x] || ok2 != in[x] || (ok1 && (a != x || b != x)) {
					c.Failf("%s: lookups of %d: %v %v, want %v", when, x.ID(), ok1, ok2, in[x])
				}
			}
		}
		check("after adding")
		for s := 0; s < n && !c.Failed(); s++ {
			k := s
			switch ord {
			case 1:
				k = n - 1 - s
			case 2:
				k = (s*7 + 3) % n
				for !in[conns[k]] {
					k = (k + 1) % n
				}
			}
			x := conns[k]
			c.Step(1)
			switch way {
			case 0:
				cm.RemoveConn(x)
			case 1:
				cm.RemoveConnByUID(x.ID())
			case 2:
				cm.RemoveConnByUUID(x.UUID())
			case 3: // replace
				y := sqlnet.NewConnWith(newFake("y", 0), sqlnet.WithConnID(x.ID()))
				if err := cm.UpdateConn(x, y); err != nil {
					c.Failf("update %d: %v", k, err)
				}
				if a, ok := cm.LookupConnByUID(x.ID()); !ok || a != y {
					c.Failf("update %d: not found by ID", k)
				}
				if _, ok := cm.LookupConnByUUID(x.UUID()); ok {
					c.Failf("update %d: the old connection is found", k)
				}
				if a, ok := cm.LookupConnByUUID(y.UUID()); !ok || a != y {
					c.Failf("update %d: not found by UUID", k)
				}
				cm.RemoveConn(y)
			case 4:
				if err := cm.Close(); err != nil {
					c.Failf("close: %v", err)
				}
				for _, f := range fakes {
					if f.closed != 1 {
						c.Failf("a connection is closed %d times", f.closed)
					}
				}
				in = map[sqlnet.Conn]bool{}
				check("after closing")
				c.Trace()
				return
			}
			delete(in, x)
			if s%7 == 0 || s == n-1 {
				check(fmt.Sprintf("after removing %d", k))
			}
		}
		c.Trace()
	})
}
