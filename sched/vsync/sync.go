// Package sync replaces the package sync in the instrumented code: its operations are scheduling points of the
// controlled scheduler and wait there; the real operations follow uncontended and give the happens-before edges.
package sync

import (
	real "sync"

	"verif/mc/vsched"
)

// Locker is sync.Locker.
type Locker = real.Locker

// Mutex replaces sync.Mutex.
type Mutex struct {
	m    real.Mutex
	held held
}

// Lock locks the mutex.
func (m *Mutex) Lock() {
	if vsched.Active() {
		vsched.SyncPoint()
		m.held.lock()
	}
	m.m.Lock()
	m.held.set(true)
}

// TryLock tries to lock the mutex.
func (m *Mutex) TryLock() bool {
	vsched.SyncPoint()
	ok := m.m.TryLock()
	if ok {
		m.held.set(true)
	}
	return ok
}

// Unlock unlocks the mutex.
func (m *Mutex) Unlock() {
	m.held.set(false)
	m.m.Unlock()
	if vsched.Active() && !vsched.Unwinding() {
		vsched.SyncPoint()
	}
}

type held struct{ l vsched.Lock }

func (h *held) lock()      { h.l.WaitFree() }
func (h *held) set(b bool) { h.l.Set(b) }

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	m real.RWMutex
	l vsched.RWLock
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	if vsched.Active() {
		vsched.SyncPoint()
		m.l.WaitWrite()
	}
	m.m.Lock()
	m.l.SetWrite(true)
}

// Unlock unlocks for writing.
func (m *RWMutex) Unlock() {
	m.l.SetWrite(false)
	m.m.Unlock()
	if vsched.Active() && !vsched.Unwinding() {
		vsched.SyncPoint()
	}
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if vsched.Active() {
		vsched.SyncPoint()
		m.l.WaitRead()
	}
	m.m.RLock()
	m.l.AddRead(1)
}

// RUnlock unlocks for reading.
func (m *RWMutex) RUnlock() {
	m.l.AddRead(-1)
	m.m.RUnlock()
	if vsched.Active() && !vsched.Unwinding() {
		vsched.SyncPoint()
	}
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	vsched.SyncPoint()
	ok := m.m.TryLock()
	if ok {
		m.l.SetWrite(true)
	}
	return ok
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	vsched.SyncPoint()
	ok := m.m.TryRLock()
	if ok {
		m.l.AddRead(1)
	}
	return ok
}

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once replaces sync.Once.
type Once struct {
	o real.Once
	l vsched.Lock
}

// Do calls f once.
func (o *Once) Do(f func()) {
	if !vsched.Active() {
		o.o.Do(f)
		return
	}
	vsched.SyncPoint()
	o.l.WaitFree()
	o.l.Set(true)
	defer o.l.Set(false)
	o.o.Do(f)
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	w real.WaitGroup
	n vsched.Count
}

// Add adds to the counter.
func (w *WaitGroup) Add(n int) {
	w.n.Add(n)
	w.w.Add(n)
}

// Done decrements the counter.
func (w *WaitGroup) Done() { w.Add(-1) }

// Go runs f as a thread of the group.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

// Wait waits for the counter to be zero.
func (w *WaitGroup) Wait() {
	if vsched.Active() {
		vsched.SyncPoint()
		w.n.WaitZero()
	}
	w.w.Wait()
}

// Cond replaces sync.Cond.
type Cond struct {
	L Locker
	n vsched.Count // generation of signals given
	m real.Mutex
	q []*bool
}

// NewCond returns a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	ok := new(bool)
	c.m.Lock()
	c.q = append(c.q, ok)
	c.m.Unlock()
	c.L.Unlock()
	if vsched.Active() {
		vsched.BlockFlag(ok)
	} else {
		for {
			c.m.Lock()
			done := *ok
			c.m.Unlock()
			if done {
				break
			}
			vsched.Yield()
		}
	}
	c.m.Lock()
	c.m.Unlock()
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() {
	c.m.Lock()
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
	c.m.Unlock()
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	c.m.Lock()
	for _, p := range c.q {
		*p = true
	}
	c.q = nil
	c.m.Unlock()
}

// Pool replaces sync.Pool: a deterministic one.
type Pool struct {
	New func() any
	m   real.Mutex
	q   []any
}

// Get gets a value.
func (p *Pool) Get() any {
	vsched.SyncPoint()
	p.m.Lock()
	if n := len(p.q); n > 0 {
		v := p.q[n-1]
		p.q = p.q[:n-1]
		p.m.Unlock()
		return v
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put puts a value.
func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	p.m.Lock()
	p.q = append(p.q, v)
	p.m.Unlock()
	vsched.SyncPoint()
}

// Map replaces sync.Map.
type Map struct{ m real.Map }

// Load is sync.Map.Load.
func (m *Map) Load(k any) (any, bool) { vsched.SyncPoint(); return m.m.Load(k) }

// Store is sync.Map.Store.
func (m *Map) Store(k, v any) { vsched.SyncPoint(); m.m.Store(k, v) }

// LoadOrStore is sync.Map.LoadOrStore.
func (m *Map) LoadOrStore(k, v any) (any, bool) { vsched.SyncPoint(); return m.m.LoadOrStore(k, v) }

// LoadAndDelete is sync.Map.LoadAndDelete.
func (m *Map) LoadAndDelete(k any) (any, bool) { vsched.SyncPoint(); return m.m.LoadAndDelete(k) }

// Delete is sync.Map.Delete.
func (m *Map) Delete(k any) { vsched.SyncPoint(); m.m.Delete(k) }

// Swap is sync.Map.Swap.
func (m *Map) Swap(k, v any) (any, bool) { vsched.SyncPoint(); return m.m.Swap(k, v) }

// CompareAndSwap is sync.Map.CompareAndSwap.
func (m *Map) CompareAndSwap(k, o, n any) bool {
	vsched.SyncPoint()
	return m.m.CompareAndSwap(k, o, n)
}

// CompareAndDelete is sync.Map.CompareAndDelete.
func (m *Map) CompareAndDelete(k, o any) bool { vsched.SyncPoint(); return m.m.CompareAndDelete(k, o) }

// Clear is sync.Map.Clear.
func (m *Map) Clear() { vsched.SyncPoint(); m.m.Clear() }

// Range is sync.Map.Range.
func (m *Map) Range(f func(k, v any) bool) {
	m.m.Range(func(k, v any) bool { vsched.SyncPoint(); return f(k, v) })
}
