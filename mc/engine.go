// Package main is the model checker of the go-sqlparser properties: every property is decided by the exhaustive
// enumeration of a stated finite space of statements, operation sequences or schedules, executed on the real code
// and compared on every member with a reference model.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Prop is one property of properties.jsonl.
type Prop struct {
	ID    string
	Level string
	// Rule says how cases are made and what is compared.
	Rule string
	// Assume lists the assumptions of the check.
	Assume []string
	Run    func(r *Run)
}

var registry = map[string]*Prop{}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "model_checking"
	}
	registry[p.ID] = p
}

// Violation is one failed case.
type Violation struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Block    string `json:"block"`
	Index    int    `json:"index"`
	Input    string `json:"input"`
	Message  string `json:"message"`
	Rerun    string `json:"reproduced"`
	Replay   string `json:"replay_command"`
}

// Run is one run of a property.
type Run struct {
	prop     *Prop
	tier     string
	deadline time.Time
	start    time.Time

	onlyBlock string
	onlyIndex int

	evals  atomic.Int64
	trans  atomic.Int64
	traces atomic.Int64
	capped atomic.Bool

	seed   maphash.Seed
	states [64]struct {
		sync.Mutex
		m map[uint64]struct{}
	}

	mu      sync.Mutex
	samples []any
	viols   []Violation
	blocks  []blockStat
	extra   map[string]any
	skipped []string
	workers int
}

type blockStat struct {
	Name  string  `json:"name"`
	Cases int     `json:"cases"`
	Done  int     `json:"done"`
	WallS float64 `json:"wall_s"`
}

// Thorough reports whether the thorough tier runs.
func (r *Run) Thorough() bool { return r.tier == "thorough" }

// Pick returns q on the quick tier and t on the thorough tier.
func (r *Run) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

// Case is one enumerated case.
type Case struct {
	r      *Run
	block  string
	index  int
	input  string
	failed string
	quiet  bool
	got    string // an observation which is to be the same again
}

// eachMapOrder runs f under n orders of the library's map iterations (in a Serial block); the observation must be the
// same under all of them.
func eachMapOrder(c *Case, n int, f func()) {
	defer setMapOrder(-1)
	first := ""
	for p := 0; p < n && !c.Failed(); p++ {
		setMapOrder(p)
		c.got = ""
		f()
		if p == 0 {
			first = c.got
		} else if c.got != first {
			c.Failf("map order %d gives %s, map order 0 gives %s", p, clip(c.got), clip(first))
		}
	}
}

// In records the input of the case.
func (c *Case) In(input string) { c.input = input }

// Inf records the formatted input of the case.
func (c *Case) Inf(format string, args ...any) { c.input = fmt.Sprintf(format, args...) }

// Failf records a violation.
func (c *Case) Failf(format string, args ...any) {
	if c.failed == "" {
		c.failed = fmt.Sprintf(format, args...)
	}
}

// Failed reports whether the case has failed.
func (c *Case) Failed() bool { return c.failed != "" }

// Eq fails unless got and want are equal.
func (c *Case) Eq(what, got, want string) bool {
	if got != want {
		c.Failf("%s: got %s, want %s", what, clip(got), clip(want))
		return false
	}
	return true
}

// Step counts transitions (calls of the implementation).
func (c *Case) Step(n int) {
	if !c.quiet {
		c.r.trans.Add(int64(n))
	}
}

// Trace counts one comparison of a complete model trace with the implementation.
func (c *Case) Trace() {
	if !c.quiet {
		c.r.traces.Add(1)
	}
}

// State records a distinct state.
func (c *Case) State(key string) {
	if c.quiet {
		return
	}
	h := maphash.String(c.r.seed, key)
	s := &c.r.states[h&63]
	s.Lock()
	if s.m == nil {
		s.m = map[uint64]struct{}{}
	}
	s.m[h] = struct{}{}
	s.Unlock()
}

func clip(s string) string {
	if len(s) > 700 {
		return fmt.Sprintf("%q...(%d bytes)", s[:700], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// Extra records additional coverage information.
func (r *Run) Extra(k string, v any) {
	r.mu.Lock()
	r.extra[k] = v
	r.mu.Unlock()
}

func (r *Run) stateCount() int {
	n := 0
	for i := range r.states {
		n += len(r.states[i].m)
	}
	return n
}

type slot struct {
	mu    sync.Mutex
	busy  bool
	since time.Time
	c     *Case
}

const hangLimit = 150 * time.Second

// runCase runs one case and converts panics into failures.
func (r *Run) runCase(block string, i int, f func(i int, c *Case), quiet bool, sl *slot) (c *Case) {
	c = &Case{r: r, block: block, index: i, quiet: quiet}
	if sl != nil {
		sl.mu.Lock()
		sl.busy, sl.since, sl.c = true, time.Now(), c
		sl.mu.Unlock()
		defer func() {
			sl.mu.Lock()
			sl.busy = false
			sl.mu.Unlock()
		}()
	}
	defer func() {
		if e := recover(); e != nil {
			c.failed = fmt.Sprintf("panic: %v\n%s", e, stackTail())
		}
	}()
	f(i, c)
	return c
}

func stackTail() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	out := []string{}
	for _, l := range lines {
		if strings.Contains(l, "go-sqlparser") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
			if len(out) >= 8 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

// Block explores the cases 0..n-1 of one finite space on all cores.
func (r *Run) Block(name string, n int, f func(i int, c *Case)) {
	r.block(name, n, r.workers, f)
}

// Serial is Block on one worker.
func (r *Run) Serial(name string, n int, f func(i int, c *Case)) {
	r.block(name, n, 1, f)
}

func (r *Run) block(name string, n int, workers int, f func(i int, c *Case)) {
	if r.onlyBlock != "" {
		if r.onlyBlock != name {
			return
		}
		c := r.runCase(name, r.onlyIndex, f, false, nil)
		r.evals.Add(1)
		if c.failed != "" {
			r.addViolation(c, "replay")
		} else {
			fmt.Printf("replay of %s:%d holds; input: %s\n", name, r.onlyIndex, clip(c.input))
		}
		return
	}
	t0 := time.Now()
	var next atomic.Int64
	var done atomic.Int64
	var fails atomic.Int64
	slots := make([]*slot, workers)
	var wg sync.WaitGroup
	const chunk = 16
	for w := 0; w < workers; w++ {
		slots[w] = &slot{}
		wg.Add(1)
		go func(sl *slot) {
			defer wg.Done()
			for {
				if fails.Load() > 40 {
					return
				}
				if time.Now().After(r.deadline) {
					if next.Load() < int64(n) {
						r.capped.Store(true)
					}
					return
				}
				lo := int(next.Add(chunk)) - chunk
				if lo >= n {
					return
				}
				hi := min(lo+chunk, n)
				for i := lo; i < hi; i++ {
					c := r.runCase(name, i, f, false, sl)
					done.Add(1)
					r.evals.Add(1)
					if c.failed != "" {
						fails.Add(1)
						r.confirm(c, f)
					} else if i == 0 || i == n/2 || i == n-1 {
						r.mu.Lock()
						if len(r.samples) < 24 && c.input != "" {
							in := c.input
							if len(in) > 300 {
								in = in[:300] + "..."
							}
							r.samples = append(r.samples, map[string]any{"block": name, "index": i, "case": in})
						}
						r.mu.Unlock()
					}
				}
			}
		}(slots[w])
	}
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	tick := time.NewTicker(2 * time.Second)
	defer tick.Stop()
loop:
	for {
		select {
		case <-fin:
			break loop
		case <-tick.C:
			for _, sl := range slots {
				sl.mu.Lock()
				if sl.busy && time.Since(sl.since) > hangLimit {
					c := sl.c
					sl.mu.Unlock()
					// The code does not return: the goroutine cannot be stopped, so this ends the run.
					c.failed = fmt.Sprintf("no result after %v (the call does not terminate)", hangLimit)
					r.addViolation(c, "not repeatable in-process")
					r.finish()
				}
				sl.mu.Unlock()
			}
		}
	}
	r.mu.Lock()
	r.blocks = append(r.blocks, blockStat{name, n, int(done.Load()), time.Since(t0).Seconds()})
	r.mu.Unlock()
}

// confirm re-runs a failing case before it is reported.
func (r *Run) confirm(c *Case, f func(i int, c *Case)) {
	repro := 0
	tries := 5
	for k := 0; k < tries; k++ {
		if x := r.runCase(c.block, c.index, f, true, nil); x.failed != "" {
			repro++
		}
	}
	if repro == 0 {
		// Depends on something the case does not control (map iteration order): look for it again.
		for k := 0; k < 300 && repro == 0; k++ {
			tries++
			if x := r.runCase(c.block, c.index, f, true, nil); x.failed != "" {
				repro++
			}
		}
		if repro == 0 {
			r.mu.Lock()
			r.skipped = append(r.skipped, fmt.Sprintf("%s:%d failed once and never again: %s", c.block, c.index, c.failed))
			r.mu.Unlock()
			return
		}
	}
	r.addViolation(c, fmt.Sprintf("%d of %d re-runs", repro, tries))
}

func (r *Run) addViolation(c *Case, rerun string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.viols = append(r.viols, Violation{
		Property: r.prop.ID, Tier: r.tier, Block: c.block, Index: c.index,
		Input: c.input, Message: c.failed, Rerun: rerun,
	})
}

// finding is a line of known_findings.txt.
type finding struct {
	property, input, what string
}

func loadFindings(path string) []finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	out := []finding{}
	for _, line := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(line, "finding: property=")
		if !ok {
			continue
		}
		id, rest, _ := strings.Cut(rest, " ")
		rest, ok = strings.CutPrefix(rest, "input=")
		if !ok {
			continue
		}
		var in string
		dec := json.NewDecoder(strings.NewReader(rest))
		if err := dec.Decode(&in); err != nil {
			continue
		}
		out = append(out, finding{id, in, strings.TrimSpace(rest[dec.InputOffset():])})
	}
	return out
}

var (
	verifDir  string
	finishMu  sync.Mutex
	notePlain string
)

// finish writes the evidence, prints the outcome and exits.
func (r *Run) finish() {
	finishMu.Lock()
	r.mu.Lock()
	sort.SliceStable(r.viols, func(i, j int) bool {
		if r.viols[i].Block != r.viols[j].Block {
			return r.viols[i].Block < r.viols[j].Block
		}
		return r.viols[i].Index < r.viols[j].Index
	})
	known := loadFindings(filepath.Join(verifDir, "known_findings.txt"))
	unknown := []Violation{}
	knownSeen := []string{}
	for _, v := range r.viols {
		isKnown := false
		for _, k := range known {
			if k.property == v.Property && k.input == v.Input {
				isKnown = true
				line := fmt.Sprintf("KNOWN-FINDING: property=%s %s: %s", v.Property, k.input, k.what)
				line = strings.ReplaceAll(line, "\n", " ")
				dup := false
				for _, s := range knownSeen {
					dup = dup || s == line
				}
				if !dup {
					knownSeen = append(knownSeen, line)
					fmt.Println(line)
				}
				break
			}
		}
		if !isKnown {
			unknown = append(unknown, v)
		}
	}
	exhaustive := !r.capped.Load()
	done, total := 0, 0
	for _, b := range r.blocks {
		done += b.Done
		total += b.Cases
	}
	if done != total {
		exhaustive = false
	}
	wall := time.Since(r.start).Seconds()
	cov := map[string]any{
		"states":                        r.stateCount(),
		"transitions":                   r.trans.Load(),
		"traces_validated_against_impl": r.traces.Load(),
		"samples":                       r.samples,
		"exhaustive":                    exhaustive,
		"evaluations":                   r.evals.Load(),
		"rule":                          r.prop.Rule,
		"map_orders_controlled":         mapOrders, "blocks": r.blocks,
	}
	if len(r.samples) == 0 {
		cov["samples"] = []any{"none"}
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	if len(knownSeen) > 0 {
		cov["known_findings"] = knownSeen
	}
	if len(r.skipped) > 0 {
		cov["not_reproduced"] = r.skipped
	}
	assume := append([]string{}, r.prop.Assume...)
	if notePlain != "" {
		assume = append(assume, notePlain)
	}
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	ev := map[string]any{
		"property": r.prop.ID, "tier": r.tier, "seed": seed, "level": r.prop.Level,
		"coverage": cov, "assumptions": assume, "wall_s": wall, "violations": len(unknown),
	}
	if r.onlyBlock == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(verifDir, "evidence", r.prop.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			os.Exit(3)
		}
	}
	fmt.Printf("%s %s: cases=%d states=%d transitions=%d traces=%d exhaustive=%v wall=%.1fs\n",
		r.prop.ID, r.tier, r.evals.Load(), r.stateCount(), r.trans.Load(), r.traces.Load(), exhaustive, wall)
	for _, s := range r.skipped {
		fmt.Println("not reproduced:", s)
	}
	if len(unknown) == 0 {
		os.Exit(0)
	}
	if os.Getenv("MC_ALL") != "" {
		for _, v := range unknown {
			fmt.Printf("ALL %s:%d %s | %s\n", v.Block, v.Index, clip(v.Input), clip(v.Message))
		}
	}
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0o755)
	for n, v := range unknown {
		if n >= 3 {
			break
		}
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", v.Property, n))
		v.Replay = fmt.Sprintf("bash /verif/run.sh %s %s -only '%s:%d'", v.Property, v.Tier, v.Block, v.Index)
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("  case %s:%d input %s\n  %s\n", v.Block, v.Index, clip(v.Input), v.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, path)
	}
	os.Exit(1)
}

func main() {
	propID := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	only := flag.String("only", "", "block:index to replay")
	dir := flag.String("verif", "/verif", "verification directory")
	budget := flag.Duration("budget", 0, "time budget")
	note := flag.String("note", "", "note for the evidence")
	obs := flag.Bool("obs", false, "print the observation of the SQL lines of the standard input")
	gen := flag.Bool("gen-words", false, "print keyword_names.txt")
	genRej := flag.Bool("gen-rejected", false, "print rejected.txt")
	flag.Parse()
	// The generated parser writes every syntax error to the standard error output.
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = f
	}
	if *genRej {
		genRejected()
		return
	}
	if *gen {
		genWords()
		return
	}
	verifDir = *dir
	if *obs {
		observeLines()
		return
	}
	notePlain = *note
	p, ok := registry[*propID]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *propID)
		os.Exit(2)
	}
	b := *budget
	if b == 0 {
		b = 8 * time.Minute
		if *tier == "thorough" {
			b = 60 * time.Minute
		}
	}
	now := time.Now()
	r := &Run{prop: p, tier: *tier, start: now, deadline: now.Add(b), seed: maphash.MakeSeed(),
		extra: map[string]any{}, workers: runtime.GOMAXPROCS(0)}
	if *only != "" {
		k := strings.LastIndex(*only, ":")
		r.onlyBlock = (*only)[:k]
		fmt.Sscanf((*only)[k+1:], "%d", &r.onlyIndex)
	}
	// A large untouched block keeps the collector quiet without using memory.
	ballast := make([]byte, 1<<30)
	defer runtime.KeepAlive(ballast)
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(14 << 30)
	p.Run(r)
	r.finish()
}

// dims decodes an index into mixed-radix digits.
type dims []int

func (d dims) size() int {
	n := 1
	for _, v := range d {
		n *= v
	}
	return n
}

func (d dims) at(i int) []int {
	out := make([]int, len(d))
	for k := len(d) - 1; k >= 0; k-- {
		out[k] = i % d[k]
		i /= d[k]
	}
	return out
}

// sequences returns the number of sequences of length 0..depth over k letters.
func seqCount(k, depth int) int {
	n, p := 0, 1
	for d := 0; d <= depth; d++ {
		n += p
		p *= k
	}
	return n
}

// seqAt returns the i-th sequence (shorter sequences first).
func seqAt(k, i int) []int {
	p, d := 1, 0
	for i >= p {
		i -= p
		p *= k
		d++
	}
	out := make([]int, d)
	for x := d - 1; x >= 0; x-- {
		out[x] = i % k
		i /= k
	}
	return out
}
