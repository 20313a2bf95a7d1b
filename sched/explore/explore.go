// Package explore is the stateless model checker: it executes a scenario under every schedule up to a preemption
// bound, by re-execution with a growing prefix of choices, and judges every execution.
package explore

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"verif/mc/vsched"
)

// Exec is one execution: the bodies of its threads and the judgement of the outcome ("" when it is right).
type Exec struct {
	Threads []func(t int)
	Check   func() string
}

// Scenario is a set of executions to explore.
type Scenario struct {
	Name  string
	Bound int
	// Stmt makes every statement a scheduling point.
	Stmt bool
	// Max bounds the number of executions (0: none); a scenario which is cut is not exhaustive.
	Max int
	New func() *Exec
	// NoMaps keeps the map order fixed.
	NoMaps bool
	// Cold makes the scenario run in a process of its own.
	Cold bool
}

// Result is the outcome of a scenario.
type Result struct {
	Name       string  `json:"name"`
	Index      int     `json:"index"`
	Execs      int     `json:"schedules"`
	Points     int64   `json:"points"`
	Choices    int64   `json:"choices"`
	Exhaustive bool    `json:"exhaustive"`
	Failure    string  `json:"failure,omitempty"`
	Prefix     []int32 `json:"prefix,omitempty"`
	Note       string  `json:"note,omitempty"`
	WallS      float64 `json:"wall_s"`
}

// raceErrors is set by the race build.
var raceErrors = func() int { return 0 }

// Races tells whether the race detector is there.
var Races = false

// RaceLog is the prefix of the race detector's log.
var RaceLog string

func raceReport() string {
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", RaceLog, os.Getpid()))
	if err != nil {
		return ""
	}
	parts := strings.Split(string(b), "==================")
	for i := len(parts) - 1; i >= 0; i-- {
		if strings.Contains(parts[i], "DATA RACE") {
			lines := strings.Split(strings.TrimSpace(parts[i]), "\n")
			if len(lines) > 40 {
				lines = lines[:40]
			}
			return strings.Join(lines, "\n")
		}
	}
	return ""
}

// One executes the scenario under one prefix and returns the failure.
func One(s *Scenario, prefix []int32) (failure string, ok bool) {
	x := s.New()
	n := len(x.Threads)
	panics := make([]string, n+1)
	var mu sync.Mutex
	vsched.Panicked = func(e any) {
		mu.Lock()
		panics[n] = fmt.Sprintf("panic: %v", e)
		mu.Unlock()
	}
	var wg sync.WaitGroup
	before := raceErrors()
	vsched.Stmt = s.Stmt
	vsched.ChooseMaps = !s.NoMaps
	vsched.Begin(n, prefix)
	for t := 0; t < n; t++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer vsched.Exit(t)
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(vsched.Abort); !ok {
						panics[t] = fmt.Sprintf("thread %d panics: %v\n%s", t, e, tail(string(debug.Stack())))
					}
				}
			}()
			vsched.Enter(t)
			x.Threads[t](t)
		}()
	}
	vsched.Start()
	if !vsched.Wait() {
		return "the threads do not end (deadlock)", false
	}
	wg.Wait()
	ok = vsched.Controlled()
	for _, p := range panics {
		if p != "" {
			return p, ok
		}
	}
	if vsched.Deadlock() {
		return "deadlock: no thread can go on", ok
	}
	if raceErrors() > before {
		return "data race:\n" + raceReport(), ok
	}
	if !ok && vsched.Diverged() {
		return "", ok
	}
	return x.Check(), ok
}

func tail(s string) string {
	out := []string{}
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "go-sqlparser") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
			if len(out) >= 6 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

// Explore executes the scenario under all schedules up to its bound.
func Explore(s *Scenario, deadline time.Time) (res Result) {
	t0 := time.Now()
	res = Result{Name: s.Name, Exhaustive: true}
	defer func() { res.WallS = time.Since(t0).Seconds() }()
	prefix := []int32{}
	for {
		fail, ok := One(s, prefix)
		res.Execs++
		res.Points += vsched.Points()
		n := vsched.Choices()
		res.Choices += int64(n)
		if fail != "" {
			res.Failure = fail
			res.Prefix = make([]int32, 0, n)
			for i := 0; i < n; i++ {
				res.Prefix = append(res.Prefix, vsched.At(i).Chosen)
			}
			for len(res.Prefix) > 0 && res.Prefix[len(res.Prefix)-1] == 0 {
				res.Prefix = res.Prefix[:len(res.Prefix)-1]
			}
			return res
		}
		if !ok {
			res.Exhaustive = false
			if res.Note == "" {
				res.Note = "an execution could not be controlled"
			}
			if !vsched.Diverged() {
				return res
			}
		}
		// The next schedule: the last choice with another alternative within the bound.
		i := n - 1
		for ; i >= 0; i-- {
			c := vsched.At(i)
			if c.Chosen+1 >= c.N {
				continue
			}
			if c.FreeAlt || int(c.Preempts)+1 <= s.Bound {
				break
			}
		}
		if i < 0 {
			return res
		}
		if (s.Max > 0 && res.Execs >= s.Max) || (res.Execs%64 == 0 && time.Now().After(deadline)) {
			res.Exhaustive = false
			res.Note = "cut"
			return res
		}
		next := make([]int32, i+1)
		for k := 0; k < i; k++ {
			next[k] = vsched.At(k).Chosen
		}
		next[i] = vsched.At(i).Chosen + 1
		prefix = next
	}
}

func init() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
}
