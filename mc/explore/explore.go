// Package explore enumerates finite spaces of cases exhaustively, runs a check
// on every one of them on all processors, and keeps the accounts.
package explore

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Case is one point of a space: an input text and further choices.
type Case struct {
	Text string `json:"text"`
	Aux  []int  `json:"aux,omitempty"`
}

// Result of checking one case.
type Result struct {
	Bad     string // what is wrong; empty if the property holds
	Outcome string // class of the outcome ("accepted", ...): counted in the evidence
	Calls   int    // implementation calls made
	Steps   int    // transitions of the model taken
	NoModel bool   // the case was not compared with a model (only counted)
}

// Space is a finite set of cases with the check to run on each.
type Space struct {
	Name string
	Doc  string
	// Enum yields every case, simplest first; it stops when yield returns false.
	Enum  func(yield func(Case) bool)
	Check func(Case) Result
	// Serial spaces run on one goroutine (their check measures or schedules).
	Serial bool
}

// Violation is a case that broke the property.
type Violation struct {
	Property string `json:"property"`
	Space    string `json:"space"`
	Case     Case   `json:"case"`
	What     string `json:"what"`
}

// Key identifies a violation in the known-findings file.
func (v Violation) Key() string {
	b, _ := json.Marshal(struct {
		P, S string
		C    Case
	}{v.Property, v.Space, v.Case})
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:8])
}

// SpaceStats is what was explored of one space.
type SpaceStats struct {
	Name     string           `json:"name"`
	Doc      string           `json:"doc"`
	Cases    int64            `json:"cases"`
	New      int64            `json:"distinct_new"`
	Outcomes map[string]int64 `json:"outcomes"`
	Complete bool             `json:"complete"`
	WallS    float64          `json:"wall_s"`
}

// Report is the account of a run.
type Report struct {
	Spaces     []SpaceStats
	Violations []Violation
	Known      []Violation
	States     int64 // distinct cases
	Calls      int64
	Steps      int64
	Compared   int64
	Samples    []any
	Exhaustive bool
	Extra      map[string]any
}

// Slots publishes what each goroutine is working on, for the supervisor.
type Slots interface {
	Set(slot int, space string, c Case)
	Clear(slot int)
}

type nullSlots struct{}

func (nullSlots) Set(int, string, Case) {}
func (nullSlots) Clear(int)             {}

// Runner runs spaces until the deadline or until enough violations were found.
type Runner struct {
	Property string
	Deadline time.Time
	Slots    Slots
	Known    map[string]bool
	Max      int // stop after that many violations

	mu     sync.Mutex
	rep    Report
	seen   [256]map[uint64]struct{}
	seenMu [256]sync.Mutex
	seed   maphash.Seed
	stop   atomic.Bool
}

// NewRunner returns a runner for one property.
func NewRunner(prop string, deadline time.Time, slots Slots, known map[string]bool) *Runner {
	if slots == nil {
		slots = nullSlots{}
	}
	r := &Runner{Property: prop, Deadline: deadline, Slots: slots, Known: known, Max: 8, seed: maphash.MakeSeed()}
	for i := range r.seen {
		r.seen[i] = map[uint64]struct{}{}
	}
	r.rep.Exhaustive = true
	r.rep.Extra = map[string]any{}
	return r
}

// fresh records a case and tells whether it is new.
func (r *Runner) fresh(space string, c Case) bool {
	var h maphash.Hash
	h.SetSeed(r.seed)
	h.WriteString(c.Text)
	if len(c.Aux) > 0 {
		h.WriteByte(0)
		fmt.Fprint(&h, c.Aux)
	}
	v := h.Sum64()
	s := v & 255
	r.seenMu[s].Lock()
	_, dup := r.seen[s][v]
	if !dup {
		r.seen[s][v] = struct{}{}
	}
	r.seenMu[s].Unlock()
	return !dup
}

// Guard runs a check and turns a panic into a finding.
func Guard(check func(Case) Result, c Case) (res Result) {
	defer func() {
		if p := recover(); p != nil {
			res = Result{Bad: fmt.Sprintf("panic: %v\n%s", p, debug.Stack()), Outcome: "panic", Calls: 1}
		}
	}()
	return check(c)
}

type tally struct {
	cases, fresh, calls, steps, compared int64
	outcomes                             map[string]int64
}

// Stopped tells whether the run is over.
func (r *Runner) Stopped() bool { return r.stop.Load() }

// Run explores one space.
func (r *Runner) Run(sp Space) {
	start := time.Now()
	st := SpaceStats{Name: sp.Name, Doc: sp.Doc, Outcomes: map[string]int64{}, Complete: true}
	if r.stop.Load() || time.Now().After(r.Deadline) {
		st.Complete = false
		r.rep.Exhaustive = false
		r.rep.Spaces = append(r.rep.Spaces, st)
		return
	}
	workers := runtime.GOMAXPROCS(0)
	if sp.Serial {
		workers = 1
	}
	const batch = 256
	ch := make(chan []Case, workers*4)
	var wg sync.WaitGroup
	var capped atomic.Bool
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			t := tally{outcomes: map[string]int64{}}
			for cases := range ch {
				for _, c := range cases {
					if r.stop.Load() {
						break
					}
					r.Slots.Set(w, sp.Name, c)
					res := Guard(sp.Check, c)
					t.cases++
					t.calls += int64(res.Calls)
					t.steps += int64(res.Steps)
					if !res.NoModel {
						t.compared++
					}
					t.outcomes[res.Outcome]++
					if r.fresh(sp.Name, c) {
						t.fresh++
					}
					if res.Bad != "" {
						r.violation(sp, c, res)
					}
				}
				r.Slots.Clear(w)
			}
			r.mu.Lock()
			st.Cases += t.cases
			st.New += t.fresh
			for k, v := range t.outcomes {
				st.Outcomes[k] += v
			}
			r.rep.States += t.fresh
			r.rep.Calls += t.calls
			r.rep.Steps += t.steps
			r.rep.Compared += t.compared
			r.mu.Unlock()
		}(w)
	}
	var buf []Case
	size := 0
	n, num := 0, -1
	shard, shards := shardOf()
	var sample []Case
	sp.Enum(func(c Case) bool {
		if num++; num%shards != shard {
			return true
		}
		if n == 0 || n == 1000 || n == 100000 {
			sample = append(sample, c)
		}
		n++
		buf = append(buf, c)
		size += len(c.Text)
		if len(buf) >= batch || size > 1<<18 || sp.Serial {
			ch <- buf
			buf, size = nil, 0
			if r.stop.Load() {
				return false
			}
			if time.Now().After(r.Deadline) {
				capped.Store(true)
				return false
			}
		}
		return true
	})
	if len(buf) > 0 {
		ch <- buf
	}
	close(ch)
	wg.Wait()
	if capped.Load() || r.stop.Load() {
		st.Complete = false
		r.rep.Exhaustive = false
	}
	st.WallS = time.Since(start).Seconds()
	if len(st.Outcomes) == 1 && os.Getenv("MC_STRICT") != "" {
		fmt.Fprintln(os.Stderr, "one outcome only:", sp.Name, st.Outcomes)
	}
	for _, c := range sample {
		r.rep.Samples = append(r.rep.Samples, map[string]any{"space": sp.Name, "case": shown(c)})
	}
	r.rep.Spaces = append(r.rep.Spaces, st)
}

// shown is the case as it is shown in the evidence, cut to a readable size.
func shown(c Case) Case {
	if n := len(c.Text); n > 400 {
		c.Text = fmt.Sprintf("%s ... (%d bytes in all)", strings.ToValidUTF8(c.Text[:300], "?"), n)
	}
	if len(c.Aux) > 100 {
		c.Aux = c.Aux[:100:100]
	}
	return c
}

func (r *Runner) violation(sp Space, c Case, res Result) {
	// A failure counts only if the same case fails again, every time.
	for i := 0; i < 3; i++ {
		if again := Guard(sp.Check, c); again.Bad == "" {
			res.Bad += fmt.Sprintf("\n(fails intermittently: repetition %d of the same case passed)", i+1)
			break
		}
	}
	v := Violation{Property: r.Property, Space: sp.Name, Case: c, What: res.Bad}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.Known[v.Key()] {
		r.rep.Known = append(r.rep.Known, v)
		return
	}
	r.rep.Violations = append(r.rep.Violations, v)
	if len(r.rep.Violations) >= r.Max {
		r.stop.Store(true)
	}
}

// Note adds a named figure to the evidence.
func (r *Runner) Note(k string, v any) {
	r.mu.Lock()
	r.rep.Extra[k] = v
	r.mu.Unlock()
}

// Capped marks the run as not exhaustive.
func (r *Runner) Capped() { r.mu.Lock(); r.rep.Exhaustive = false; r.mu.Unlock() }

// Finish returns the account, the shortest violation first.
func (r *Runner) Finish() *Report {
	sort.SliceStable(r.rep.Violations, func(i, j int) bool {
		return len(r.rep.Violations[i].Case.Text) < len(r.rep.Violations[j].Case.Text)
	})
	return &r.rep
}

// Quit prints a diagnostic and ends with the "check is broken" status.
func Quit(format string, args ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", args...)
	os.Exit(3)
}

// shardOf is the part of the cases that this process explores.
func shardOf() (i, n int) {
	if k, _ := fmt.Sscanf(os.Getenv("MC_SHARD"), "%d/%d", &i, &n); k != 2 || n < 1 {
		return 0, 1
	}
	return
}

// Shards is the number of processes that share the exploration.
func Shards() int { _, n := shardOf(); return n }

// Merge adds up the accounts of the shards of a run.
func Merge(reps []*Report) *Report {
	out := &Report{Exhaustive: true, Extra: map[string]any{}}
	at := map[string]int{}
	for _, r := range reps {
		for _, s := range r.Spaces {
			i, ok := at[s.Name]
			if !ok {
				at[s.Name] = len(out.Spaces)
				out.Spaces = append(out.Spaces, s)
				continue
			}
			t := &out.Spaces[i]
			t.Cases += s.Cases
			t.New += s.New
			for k, v := range s.Outcomes {
				if t.Outcomes == nil {
					t.Outcomes = map[string]int64{}
				}
				t.Outcomes[k] += v
			}
			t.Complete = t.Complete && s.Complete
			if s.WallS > t.WallS {
				t.WallS = s.WallS
			}
		}
		out.Violations = append(out.Violations, r.Violations...)
		out.Known = append(out.Known, r.Known...)
		out.States += r.States
		out.Calls += r.Calls
		out.Steps += r.Steps
		out.Compared += r.Compared
		if len(out.Samples) < 6 {
			out.Samples = append(out.Samples, r.Samples...)
		}
		out.Exhaustive = out.Exhaustive && r.Exhaustive
		for k, v := range r.Extra {
			if n, ok := v.(float64); ok {
				if m, ok := out.Extra[k].(float64); ok {
					v = n + m
				}
			}
			out.Extra[k] = v
		}
	}
	sort.SliceStable(out.Violations, func(i, j int) bool {
		a, b := out.Violations[i].Case, out.Violations[j].Case
		return len(a.Text)+len(a.Aux) < len(b.Text)+len(b.Aux)
	})
	return out
}
