// Package vsched is the controlled scheduler of the model checker: exactly one thread of an execution runs at a time,
// and at every scheduling point the next thread is chosen by the explorer. It is compiled without race
// instrumentation and uses neither locks, channels nor atomics, so that handing over the turn creates no
// happens-before edge which would hide a data race of the code under test.
package vsched

import (
	"runtime"
	"time"
)

const (
	maxThreads = 16
	maxChoices = 1 << 16
)

// Abort is the panic value which unwinds the threads of an aborted execution.
type Abort struct{}

const (
	stNone = iota
	stReady
	stBlocked
	stDone
)

// Choice is one recorded choice: N alternatives, the chosen one, and the preemptions before it.
type Choice struct {
	N, Chosen int32
	Preempts  int32
	// FreeAlt tells that the alternatives other than the first cost no preemption.
	FreeAlt bool
}

var (
	active  bool // an execution is running
	freerun bool // the control was given up: threads run on their own
	abort   bool
	cur     int
	nthr    int
	state   [maxThreads]int
	waits   [maxThreads]func() bool

	choices  [maxChoices]Choice
	nchoices int
	prefix   []int32
	preempts int32
	overflow bool
	diverged bool

	clock    int64
	points   int64
	deadlock bool
	lastMove int64 // wall clock of the last move, ns
	spins    int64

	// Stmt enables the points before statements (otherwise only synchronisation operations are points).
	Stmt bool
	// order of map iterations outside of executions
	order  int
	native bool
	// ChooseMaps makes the map order a choice of the explorer.
	ChooseMaps bool
)

// Begin starts an execution of n threads which follows the prefix of choices.
func Begin(n int, pre []int32) {
	nthr = n
	for i := 0; i < maxThreads; i++ {
		state[i] = stNone
		waits[i] = nil
	}
	for i := 0; i < n; i++ {
		state[i] = stReady
	}
	prefix = pre
	nchoices, preempts, overflow, diverged = 0, 0, false, false
	abort, freerun, deadlock = false, false, false
	clock, points, spins = 0, 0, 0
	lastMove = time.Now().UnixNano()
	cur = -1
	active = true
}

// Start lets the first thread run; to be called when all threads have been started.
func Start() { pick(false) }

// Wait waits until all threads are done; it reports false when the control had to be given up and the threads are
// still not done.
func Wait() bool {
	t0 := time.Now()
	for n := 0; ; n++ {
		done := true
		for i := 0; i < nthr; i++ {
			if state[i] != stDone {
				done = false
			}
		}
		if done {
			break
		}
		runtime.Gosched()
		if n&1023 == 1023 {
			if freerun && time.Since(t0) > 20*time.Second {
				return false
			}
			watch()
		}
	}
	active = false
	return true
}

func watch() {
	if !freerun && time.Now().UnixNano()-lastMove > int64(3*time.Second) {
		// The running thread is blocked by something the scheduler does not know.
		freerun = true
	}
}

// Controlled reports whether the last execution was controlled throughout.
func Controlled() bool { return !freerun && !overflow && !diverged }

// Deadlock reports whether the last execution ended in a deadlock.
func Deadlock() bool { return deadlock }

// Diverged reports whether the execution did not follow its prefix.
func Diverged() bool { return diverged }

// Choices returns the number of choices of the last execution.
func Choices() int { return nchoices }

// At returns a choice.
func At(i int) Choice { return choices[i] }

// Points returns the number of scheduling points of the execution.
func Points() int64 { return points }

// Now returns the next time of the logical clock.
func Now() int64 {
	clock++
	return clock
}

// Active reports whether an execution is controlled.
func Active() bool { return active && !freerun }

// Enter makes the calling goroutine thread id and waits for its turn.
func Enter(id int) { waitTurn(id) }

// Exit ends the thread.
func Exit(id int) {
	state[id] = stDone
	if freerun || !active {
		return
	}
	pick(false)
}

// Current returns the running thread.
func Current() int { return cur }

func waitTurn(id int) {
	n := 0
	for cur != id && !freerun && !abort {
		runtime.Gosched()
		n++
		if n&4095 == 4095 {
			watch()
		}
	}
	if abort && !freerun {
		if cur != id {
			// Aborting: the threads unwind one after another is not needed, they touch nothing but themselves.
		}
		panic(Abort{})
	}
}

// choose records a choice of n alternatives and returns the chosen one.
func choose(n int, free bool) int {
	c := 0
	if nchoices < len(prefix) {
		c = int(prefix[nchoices])
		if c >= n {
			c = 0
			diverged = true
		}
	}
	if nchoices >= maxChoices {
		overflow = true
		return 0
	}
	choices[nchoices] = Choice{int32(n), int32(c), preempts, free}
	nchoices++
	if c != 0 && !free {
		preempts++
	}
	return c
}

// pick chooses the next thread; running tells whether the current thread can go on.
func pick(running bool) {
	var en [maxThreads]int
	n := 0
	if running {
		en[0] = cur
		n = 1
	}
	alive := false
	for i := 0; i < nthr; i++ {
		switch state[i] {
		case stReady:
			alive = true
			if running && i == cur {
				continue
			}
			en[n] = i
			n++
		case stBlocked:
			alive = true
			if waits[i]() {
				en[n] = i
				n++
			}
		}
	}
	if n == 0 {
		if alive {
			deadlock = true
			abort = true
		}
		cur = -2
		return
	}
	c := 0
	if n > 1 {
		c = choose(n, !running)
	}
	if cur != en[c] {
		lastMove = time.Now().UnixNano()
	}
	cur = en[c]
}

// Point is a scheduling point before a statement.
func Point() {
	if !active || !Stmt || freerun {
		return
	}
	SyncPoint()
}

// SyncPoint is a scheduling point before a synchronisation operation.
func SyncPoint() {
	if !active || freerun {
		return
	}
	if abort {
		panic(Abort{})
	}
	me := cur
	if me < 0 {
		return
	}
	points++
	if points > 1<<22 {
		// A thread does not end: give up the control.
		freerun = true
		return
	}
	pick(true)
	if cur != me {
		waitTurn(me)
	}
}

// Block waits until the condition holds; it returns at once when the execution is not controlled.
func Block(cond func() bool) {
	if !active || freerun {
		return
	}
	if abort {
		panic(Abort{})
	}
	if cond() {
		return
	}
	me := cur
	if me < 0 {
		return
	}
	state[me] = stBlocked
	waits[me] = cond
	pick(false)
	if cur != me {
		waitTurn(me)
	}
	state[me] = stReady
	waits[me] = nil
}

// Go runs f as a new thread of the execution.
func Go(f func()) {
	if !active || freerun {
		go f()
		return
	}
	if nthr >= maxThreads {
		freerun = true
		go f()
		return
	}
	id := nthr
	nthr++
	state[id] = stReady
	go func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(Abort); !ok {
					Panicked(e)
				}
			}
			Exit(id)
		}()
		Enter(id)
		f()
	}()
	SyncPoint()
}

// Panicked is called with the panics of threads started by the code under test.
var Panicked = func(e any) {}

// Choose lets the explorer choose one of n alternatives (no preemption).
func Choose(n int) int {
	if !active || freerun || n < 2 {
		return 0
	}
	return choose(n, true)
}

// SetOrder sets the order of map iterations outside of executions; a negative number is Go's own order.
func SetOrder(n int) { native, order = n < 0, n }
