package explore

import "fmt"

// Call is one call of a history.
type Call struct {
	Thread   int
	Op       any
	Inv, Ret int64
	Res      any
}

// Model is a sequential model whose operations run in one or more atomic steps.
type Model interface {
	Clone() Model
	Key() string
	// Step returns the possible next steps of the operation: the frame is nil at its begin.
	Step(op any, frame any) []Next
}

// Next is one possible step.
type Next struct {
	Model Model
	Frame any // to go on with, nil when the operation is done
	Done  bool
	// Match tells whether the result of the call is the one of the operation (when done).
	Match func(res any) bool
	Key   string // identifies the frame
}

// Linearizable reports whether the history has an order of the steps, within the intervals of the calls, in which
// every call returns what the model returns.
func Linearizable(m Model, calls []Call) bool {
	type st struct {
		status []int // 0 not begun, 1 begun, 2 done
		frames []any
		fkeys  []string
	}
	seen := map[string]bool{}
	var dfs func(m Model, s st) bool
	dfs = func(m Model, s st) bool {
		all := true
		for _, x := range s.status {
			if x != 2 {
				all = false
			}
		}
		if all {
			return true
		}
		key := m.Key() + fmt.Sprint(s.status, s.fkeys)
		if seen[key] {
			return false
		}
		seen[key] = true
		for i, c := range calls {
			if s.status[i] == 2 {
				continue
			}
			if s.status[i] == 0 {
				// It can begin only when all calls which returned before it was made are done.
				ok := true
				for j, d := range calls {
					if d.Ret < c.Inv && s.status[j] != 2 {
						ok = false
						break
					}
				}
				if !ok {
					continue
				}
			}
			for _, n := range m.Clone().Step(c.Op, s.frames[i]) {
				if n.Done && !n.Match(c.Res) {
					continue
				}
				t := st{append([]int{}, s.status...), append([]any{}, s.frames...), append([]string{}, s.fkeys...)}
				t.status[i] = 1
				t.frames[i] = n.Frame
				t.fkeys[i] = n.Key
				if n.Done {
					t.status[i] = 2
					t.frames[i], t.fkeys[i] = nil, ""
				}
				if dfs(n.Model, t) {
					return true
				}
			}
		}
		return false
	}
	n := len(calls)
	return dfs(m.Clone(), st{make([]int, n), make([]any, n), make([]string, n)})
}
