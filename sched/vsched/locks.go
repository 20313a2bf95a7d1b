package vsched

import "runtime"

// Lock is the logical state of a mutex.
type Lock struct{ held bool }

// WaitFree waits until the lock is free.
func (l *Lock) WaitFree() { Block(func() bool { return !l.held }) }

// Set sets the state.
func (l *Lock) Set(b bool) { l.held = b }

// RWLock is the logical state of a reader/writer lock: a waiting writer keeps new readers out.
type RWLock struct {
	write   bool
	readers int
	pending int
}

// WaitWrite waits until the lock is free.
func (l *RWLock) WaitWrite() {
	if !l.write && l.readers == 0 {
		return
	}
	l.pending++
	defer l.unpend()
	Block(func() bool { return !l.write && l.readers == 0 })
}

func (l *RWLock) unpend() { l.pending-- }

// WaitRead waits until no writer holds the lock or waits for it.
func (l *RWLock) WaitRead() { Block(func() bool { return !l.write && l.pending == 0 }) }

// SetWrite sets the writer state.
func (l *RWLock) SetWrite(b bool) { l.write = b }

// AddRead counts readers.
func (l *RWLock) AddRead(n int) { l.readers += n }

// Count is a counter.
type Count struct{ n int }

// Add adds to the counter.
func (c *Count) Add(n int) { c.n += n }

// WaitZero waits until the counter is zero.
func (c *Count) WaitZero() { Block(func() bool { return c.n <= 0 }) }

// BlockFlag waits until the flag is set.
func BlockFlag(p *bool) { Block(func() bool { return *p }) }

// Yield yields the processor.
func Yield() { runtime.Gosched() }

// Unwinding reports whether the execution is being aborted.
func Unwinding() bool { return abort }
