package main

import (
	"errors"
	"fmt"
	"net"
	"sort"
	"strings"

	sqlnet "github.com/cybergarage/go-sqlparser/sql/net"
)

// fakeConn is an underlying connection which counts the calls of Close and fails as told.
type fakeConn struct {
	net.Conn
	fails  int // number of calls of Close which fail, -1 for all
	calls  int
	closed int // successful calls
	err    error
}

// fakePoint is a scheduling point inside of the closing of an underlying connection.
var fakePoint = func() {}

func newFake(name string, fails int) *fakeConn {
	return &fakeConn{fails: fails, err: errors.New("cannot close " + name)}
}

// Close counts the call.
func (f *fakeConn) Close() error {
	fakePoint()
	f.calls++
	defer fakePoint()
	if f.fails < 0 || f.calls <= f.fails {
		return f.err
	}
	f.closed++
	return nil
}

// wrapped is a connection which decorates another one (as an upgraded connection does): it has the UUID of the
// decorated connection, and its ID or another one.
type wrapped struct {
	sqlnet.Conn
	id uint64
}

// ID returns the ID.
func (w *wrapped) ID() uint64 { return w.id }

// connUniverse is the set of connections of a manager history.
type connUniverse struct {
	names []string
	conns []sqlnet.Conn
	fakes []*fakeConn // shared by decorated connections
	uids  []uint64
	group []int // connections of the same group have the same UUID
	ids   []uint64
}

// id returns the ID which stands for the nominal one.
func (u *connUniverse) id(n int) uint64 {
	if n < len(u.ids) {
		return u.ids[n]
	}
	return uint64(n)
}

func (u *connUniverse) add(name string, c sqlnet.Conn, f *fakeConn, group int) {
	u.names = append(u.names, name)
	u.conns = append(u.conns, c)
	u.fakes = append(u.fakes, f)
	u.group = append(u.group, group)
	u.uids = append(u.uids, c.ID())
}

// newUniverse returns a (ID 1), b (ID 2), c (ID 1 too), d (a decorated), e (a decorated under ID 3), f (ID 0); other IDs may
// stand for those from 0 on.
func newUniverse(failA, failB int, ids ...uint64) *connUniverse {
	u := &connUniverse{ids: ids}
	fa, fb, fc, ff := newFake("a", failA), newFake("b", failB), newFake("c", 0), newFake("f", 0)
	a := sqlnet.NewConnWith(fa, sqlnet.WithConnID(u.id(1)))
	u.add("a", a, fa, 0)
	u.add("b", sqlnet.NewConnWith(fb, sqlnet.WithConnID(u.id(2))), fb, 1)
	u.add("c", sqlnet.NewConnWith(fc, sqlnet.WithConnID(u.id(1))), fc, 2)
	u.add("d", &wrapped{a, u.id(1)}, fa, 0)
	u.add("e", &wrapped{a, u.id(3)}, fa, 0)
	if u.id(0) == 0 {
		u.add("f", sqlnet.NewConnWith(ff), ff, 3)
	} else {
		u.add("f", sqlnet.NewConnWith(ff, sqlnet.WithConnID(u.id(0))), ff, 3)
	}
	return u
}

// mgrOp is an operation of a manager history.
type mgrOp struct {
	kind string // add, upd, rm, rmid, rmuu, close, stop, start, look, list
	x, y int
}

func (o mgrOp) name(u *connUniverse) string {
	switch o.kind {
	case "add", "rm", "rmuu", "lkuu":
		return o.kind + "(" + u.names[o.x] + ")"
	case "upd":
		return "upd(" + u.names[o.x] + "," + u.names[o.y] + ")"
	case "rmid", "lkid":
		return fmt.Sprintf("%s(%d)", o.kind, u.id(o.x))
	}
	return o.kind
}

// mgrModel is the model of a manager: the registered connections by the group of their UUID (-1: none).
type mgrModel struct {
	u      *connUniverse
	reg    []int // by group
	opened []int // by group: closed state of the decorated connection, number of calls
	done   []bool
}

func newMgrModel(u *connUniverse) *mgrModel {
	n := 0
	for _, g := range u.group {
		n = max(n, g+1)
	}
	m := &mgrModel{u: u, reg: make([]int, n), opened: make([]int, n), done: make([]bool, n)}
	for i := range m.reg {
		m.reg[i] = -1
	}
	return m
}

func (m *mgrModel) clone() *mgrModel {
	n := &mgrModel{u: m.u}
	n.reg = append([]int{}, m.reg...)
	n.opened = append([]int{}, m.opened...)
	n.done = append([]bool{}, m.done...)
	return n
}

func (m *mgrModel) key() string { return fmt.Sprint(m.reg, m.opened, m.done) }

// byID returns the registered connection of the ID.
func (m *mgrModel) byID(id uint64) int {
	for _, c := range m.reg {
		if c >= 0 && m.u.uids[c] == id {
			return c
		}
	}
	return -1
}

// closeConn models the closing of the connection: it is closed at most once.
func (m *mgrModel) closeConn(c int) error {
	g := m.u.group[c]
	if m.done[g] {
		return nil
	}
	f := m.u.fakes[c]
	m.opened[g]++
	if f.fails < 0 || m.opened[g] <= f.fails {
		return f.err
	}
	m.done[g] = true
	return nil
}

// mgrResult is the observable result of an operation.
type mgrResult struct {
	ok   bool
	conn int // index of the returned connection, -1 none
	list string
	errs []error
}

// apply runs the operation on the model. Either result is accepted where the manager is asked to update or remove a
// connection under another ID than the one it is registered with: loose is then set and the model is unchanged.
func (m *mgrModel) apply(o mgrOp) (res mgrResult, loose bool) {
	u := m.u
	res.ok, res.conn = true, -1
	switch o.kind {
	case "add":
		if m.reg[u.group[o.x]] >= 0 || m.byID(u.uids[o.x]) >= 0 {
			res.ok = false
			return res, false
		}
		m.reg[u.group[o.x]] = o.x
	case "upd":
		g, h := u.group[o.x], u.group[o.y]
		old := m.reg[g]
		if old < 0 {
			res.ok = false
			return res, false
		}
		if c := m.byID(u.uids[o.y]); (h != g && m.reg[h] >= 0) || (c >= 0 && u.group[c] != g) {
			res.ok = false
			return res, false
		}
		if u.uids[old] != u.uids[o.x] {
			return res, true
		}
		m.reg[g] = -1
		m.reg[h] = o.y
	case "rm":
		g := u.group[o.x]
		if c := m.reg[g]; c >= 0 && u.uids[c] != u.uids[o.x] {
			return res, true
		}
		m.reg[g] = -1
	case "rmuu":
		m.reg[u.group[o.x]] = -1
	case "rmid":
		if c := m.byID(u.id(o.x)); c >= 0 {
			m.reg[u.group[c]] = -1
		}
	case "close", "stop":
		for g, c := range m.reg {
			if c < 0 {
				continue
			}
			if err := m.closeConn(c); err != nil {
				res.ok = false
				res.errs = append(res.errs, err)
			} else {
				m.reg[g] = -1
			}
		}
	case "lkid":
		res.conn = m.byID(u.id(o.x))
		res.ok = res.conn >= 0
	case "lkuu":
		res.conn = m.reg[u.group[o.x]]
		res.ok = res.conn >= 0
	case "list":
		l := []string{}
		for _, c := range m.reg {
			if c >= 0 {
				l = append(l, u.names[c])
			}
		}
		sort.Strings(l)
		res.list = strings.Join(l, ",")
	}
	return res, false
}

func (u *connUniverse) indexOf(c sqlnet.Conn) int {
	for i, x := range u.conns {
		if x == c {
			return i
		}
	}
	return -2
}

// runMgr runs the operation on a manager.
func runMgr(m sqlnet.ConnManager, u *connUniverse, o mgrOp) mgrResult {
	res := mgrResult{ok: true, conn: -1}
	fail := func(err error) {
		if err != nil {
			res.ok = false
			res.errs = []error{err}
		}
	}
	found := func(c sqlnet.Conn, ok bool) {
		res.ok = ok
		if ok {
			res.conn = u.indexOf(c)
		}
	}
	switch o.kind {
	case "add":
		fail(m.AddConn(u.conns[o.x]))
	case "upd":
		fail(m.UpdateConn(u.conns[o.x], u.conns[o.y]))
	case "rm":
		m.RemoveConn(u.conns[o.x])
	case "rmid":
		m.RemoveConnByUID(u.id(o.x))
	case "rmuu":
		m.RemoveConnByUUID(u.conns[o.x].UUID())
	case "close":
		fail(m.Close())
	case "stop":
		fail(m.Stop())
	case "start":
		fail(m.Start())
	case "lkid":
		found(m.LookupConnByUID(u.id(o.x)))
	case "lkuu":
		found(m.LookupConnByUUID(u.conns[o.x].UUID()))
	case "list":
		l := []string{}
		conns := m.Conns()
		for i, c := range conns {
			k := u.indexOf(c)
			if k < 0 {
				l = append(l, "?")
			} else {
				l = append(l, u.names[k])
			}
			conns[i] = nil
		}
		sort.Strings(l)
		res.list = strings.Join(l, ",")
	}
	return res
}
