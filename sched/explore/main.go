package explore

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

// Prop is a property decided by schedule exploration.
type Prop struct {
	ID     string
	Rule   string
	Assume []string
	// Scenarios returns the scenarios of the tier.
	Scenarios func(thorough bool) []*Scenario
	// Sequential, if set, decides histories of one thread in process; it returns the number of histories, of calls
	// and of states and the first failure.
	Sequential func(thorough bool) (n, calls, states int, input, failure string)
	// Solo, if set, returns the expected results of the programs, computed in a process of its own.
	Solo func() map[string]string
	// Expect gets what Solo returned.
	Expect map[string]string
}

type shardOut struct {
	Results []Result `json:"results"`
}

// Main runs the property as the coordinator or as one of its shards.
func Main(props []*Prop) {
	id := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	dir := flag.String("verif", "/verif", "verification directory")
	work := flag.String("work", "", "scratch directory")
	shard := flag.Int("shard", -1, "shard")
	of := flag.Int("of", 8, "number of shards")
	only := flag.String("only", "", "scenario:choices to replay")
	solo := flag.Bool("solo", false, "print the expected results")
	note := flag.String("note", "", "note for the evidence")
	plain := flag.Bool("plain", false, "the code is not instrumented")
	budget := flag.Duration("budget", 0, "time budget")
	flag.Parse()
	var p *Prop
	for _, x := range props {
		if x.ID == *id {
			p = x
		}
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(2)
	}
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil && (*shard >= 0 || *solo) {
		// The generated parser writes every syntax error to the standard error output.
		os.Stderr = f
	}
	RaceLog = filepath.Join(*work, "race")
	if *solo {
		b, _ := json.Marshal(p.Solo())
		os.Stdout.Write(b)
		return
	}
	if *budget == 0 {
		*budget = 6 * time.Minute
		if *tier == "thorough" {
			*budget = 50 * time.Minute
		}
	}
	if p.Solo != nil {
		f := filepath.Join(*work, "solo.json")
		b, err := os.ReadFile(f)
		if err != nil && *shard < 0 {
			b, err = exec.Command(os.Args[0], "-prop", *id, "-solo", "-work", *work).Output()
			if err == nil {
				os.WriteFile(f, b, 0o644)
			}
		}
		if err == nil {
			err = json.Unmarshal(b, &p.Expect)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "solo:", err)
			os.Exit(3)
		}
	}
	start := time.Now()
	scs := p.Scenarios(*tier == "thorough")
	switch {
	case *shard >= 0 && *only != "":
		var k int
		var pre []int32
		a, b, _ := strings.Cut(*only, ":")
		fmt.Sscan(a, &k)
		for _, f := range strings.Split(b, ",") {
			var c int32
			if _, err := fmt.Sscan(f, &c); err == nil {
				pre = append(pre, c)
			}
		}
		var r Result
		if b == "all" {
			r = Explore(scs[k], start.Add(*budget))
		} else {
			r = Result{Name: scs[k].Name, Execs: 1, Prefix: pre}
			r.Failure, _ = One(scs[k], pre)
		}
		r.Index = k
		out, _ := json.Marshal(shardOut{[]Result{r}})
		os.Stdout.Write(out)
	case *shard >= 0:
		if f := os.Getenv("VERIF_PROFILE"); f != "" && *shard == 0 {
			if w, err := os.Create(f); err == nil {
				pprof.StartCPUProfile(w)
				defer pprof.StopCPUProfile()
			}
		}
		res := []Result{}
		for k := *shard; k < len(scs); k += *of {
			var r Result
			if scs[k].Cold {
				o, crash := runShard(*work, []string{"-prop", *id, "-tier", *tier, "-work", *work, "-shard", "0", "-only", fmt.Sprintf("%d:all", k)})
				if crash != "" {
					r = Result{Name: scs[k].Name, Failure: crash}
				} else {
					r = o.Results[0]
				}
			} else {
				r = Explore(scs[k], start.Add(*budget))
			}
			r.Index = k
			res = append(res, r)
			if r.Failure != "" {
				break
			}
		}
		out, _ := json.Marshal(shardOut{res})
		os.Stdout.Write(out)
	case *only != "":
		out, crash := runShard(*work, []string{"-prop", *id, "-tier", *tier, "-work", *work, "-shard", "0", "-only", *only})
		fmt.Println(crash)
		for _, r := range out.Results {
			fmt.Printf("%s: %s\n", r.Name, r.Failure)
			if r.Failure != "" {
				fmt.Printf("VIOLATION property=%s replay=%s\n", *id, *only)
				os.Exit(1)
			}
		}
	default:
		coordinate(p, scs, *tier, *dir, *work, *of, *note, *plain, start)
	}
}

func runShard(work string, args []string) (out shardOut, crash string) {
	cmd := exec.Command(os.Args[0], args...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.Env = append(os.Environ(), "GORACE=exitcode=0 halt_on_error=0 atexit_sleep_ms=0 log_path="+filepath.Join(work, "race"))
	err := cmd.Run()
	if e := json.Unmarshal(so.Bytes(), &out); e != nil || err != nil {
		s := se.String()
		if len(s) > 6000 {
			s = s[:6000]
		}
		return out, fmt.Sprintf("the process ended: %v\n%s", err, s)
	}
	return out, ""
}

func join(p []int32) string {
	out := []string{}
	for _, c := range p {
		out = append(out, fmt.Sprint(c))
	}
	return strings.Join(out, ",")
}

func coordinate(p *Prop, scs []*Scenario, tier, dir, work string, of int, note string, plain bool, start time.Time) {
	type viol struct{ name, msg, replay, rerun string }
	viols := []viol{}
	unconfirmed := []string{}
	results := []Result{}
	seqN, seqCalls, seqStates := 0, 0, 0
	if p.Sequential != nil {
		n, calls, states, in, fail := p.Sequential(tier == "thorough")
		seqN, seqCalls, seqStates = n, calls, states
		if fail != "" {
			viols = append(viols, viol{in, fail, "sequential history " + in, "deterministic"})
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	exhaustive := true
	for i := 0; i < of; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			args := []string{"-prop", p.ID, "-tier", tier, "-work", work, "-shard", fmt.Sprint(i), "-of", fmt.Sprint(of)}
			out, crash := runShard(work, args)
			if crash != "" {
				_, again := runShard(work, args)
				mu.Lock()
				exhaustive = false
				if again != "" && strings.Contains(again, "go-sqlparser/sql") {
					viols = append(viols, viol{fmt.Sprintf("shard %d", i), again, "bash /verif/run.sh " + p.ID + " " + tier, "twice"})
				} else {
					unconfirmed = append(unconfirmed, crash)
				}
				mu.Unlock()
				return
			}
			for _, r := range out.Results {
				if r.Failure == "" {
					continue
				}
				// Confirm in a fresh process.
				only := fmt.Sprintf("%d:%s", r.Index, join(r.Prefix))
				how := ""
				o2, c2 := runShard(work, []string{"-prop", p.ID, "-tier", tier, "-work", work, "-shard", "0", "-only", only})
				if c2 != "" || (len(o2.Results) == 1 && o2.Results[0].Failure != "") {
					how = "again in a process of its own"
				} else {
					o3, c3 := runShard(work, args)
					for _, x := range o3.Results {
						if x.Failure != "" && x.Index == r.Index {
							how = "again in the same sequence of scenarios"
						}
					}
					if c3 != "" {
						how = "again in the same sequence of scenarios"
					}
				}
				mu.Lock()
				if how == "" {
					unconfirmed = append(unconfirmed, r.Name+": "+r.Failure)
					exhaustive = false
				} else {
					viols = append(viols, viol{r.Name + " schedule " + join(r.Prefix), r.Failure, fmt.Sprintf("bash /verif/run.sh %s %s -only '%s'", p.ID, tier, only), how})
				}
				mu.Unlock()
			}
			mu.Lock()
			results = append(results, out.Results...)
			mu.Unlock()
		}()
	}
	wg.Wait()
	sort.Slice(results, func(i, j int) bool { return results[i].Index < results[j].Index })
	execs, points, choices := 0, int64(0), int64(0)
	notes := []string{}
	for _, r := range results {
		execs += r.Execs
		points += r.Points
		choices += r.Choices
		if !r.Exhaustive {
			exhaustive = false
			if len(notes) < 10 {
				notes = append(notes, r.Name+": "+r.Note)
			}
		}
	}
	if len(results) != len(scs) || plain {
		exhaustive = false
	}
	if os.Getenv("VERIF_SCENARIOS") != "" {
		for _, r := range results {
			fmt.Printf("%d\t%.1fs\t%d\t%s\n", r.Execs, r.WallS, r.Points/int64(r.Execs), r.Name)
		}
	}
	samples := []any{}
	for k, r := range results {
		if k == 0 || k == len(results)/2 || k == len(results)-1 {
			samples = append(samples, map[string]any{"scenario": r.Name, "schedules": r.Execs, "points": r.Points})
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	wall := time.Since(start).Seconds()
	assume := append([]string{}, p.Assume...)
	if note != "" {
		assume = append(assume, note)
	}
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	ev := map[string]any{"property": p.ID, "tier": tier, "seed": seed, "level": "model_checking", "assumptions": assume, "wall_s": wall, "violations": len(viols),
		"coverage": map[string]any{
			"states": int(choices) + seqStates, "transitions": points + int64(seqCalls), "traces_validated_against_impl": execs + seqN, "samples": samples, "exhaustive": exhaustive,
			"evaluations": execs + seqN, "schedules": execs, "scheduling_points": points, "scenarios": len(results), "sequential_histories": seqN, "rule": p.Rule,
			"race_detector": Races, "instrumented": !plain, "not_reproduced": unconfirmed, "notes": notes,
		}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(dir, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	fmt.Printf("%s %s: scenarios=%d schedules=%d points=%d sequential=%d races=%v instrumented=%v exhaustive=%v wall=%.1fs\n", p.ID, tier, len(results), execs, points, seqN, Races, !plain, exhaustive, wall)
	for _, u := range unconfirmed {
		fmt.Println("not reproduced:", u)
	}
	if len(viols) == 0 {
		os.Exit(0)
	}
	rd := filepath.Join(dir, "replays")
	os.MkdirAll(rd, 0o755)
	for n, v := range viols {
		if n >= 3 {
			break
		}
		path := filepath.Join(rd, fmt.Sprintf("%s-%d.json", p.ID, n))
		b, _ := json.MarshalIndent(map[string]string{"property": p.ID, "input": v.name, "message": v.msg, "reproduced": v.rerun, "replay_command": v.replay}, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("  case %s\n  %s\nVIOLATION property=%s replay=%s\n", v.name, v.msg, p.ID, path)
	}
	os.Exit(1)
}
