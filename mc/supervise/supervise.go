// Package supervise runs an exploration in a child process, so that a crash,
// an endless loop or exhausted memory of the code under test is attributed to
// the case that caused it and reported as a violation like any other.
package supervise

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"verifmc/explore"
	"verifmc/mcrt"
	"verifmc/props"
)

// Options of the command.
type Options struct {
	Prop, Tier, Verif, Replay, Only string
	Budget                          float64
	Props                           map[string]*props.Prop
}

const (
	nSlots   = 64
	slotSize = 1 << 22
	hang     = 25 * time.Second
)

// slot layout: seq u64 | space len u32 | aux count u32 | text len u32 | ...
type slots struct{ mem []byte }

func openSlots(path string, create bool) (*slots, error) {
	flags := os.O_RDWR
	if create {
		flags |= os.O_CREATE | os.O_TRUNC
	}
	f, err := os.OpenFile(path, flags, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if create {
		if err := f.Truncate(nSlots * slotSize); err != nil {
			return nil, err
		}
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, nSlots*slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &slots{m}, nil
}

func (s *slots) seq(i int) *uint64 {
	return (*uint64)(unsafe.Pointer(&s.mem[i*slotSize]))
}

func (s *slots) Set(i int, space string, c explore.Case) {
	b := s.mem[i*slotSize : (i+1)*slotSize]
	binary.LittleEndian.PutUint32(b[8:], uint32(len(space)))
	na := len(c.Aux)
	if na > 100 {
		na = 100
	}
	binary.LittleEndian.PutUint32(b[12:], uint32(na))
	binary.LittleEndian.PutUint32(b[16:], uint32(len(c.Text)))
	p := 20
	p += copy(b[p:], space)
	for k := 0; k < na; k++ {
		binary.LittleEndian.PutUint64(b[p:], uint64(c.Aux[k]))
		p += 8
	}
	copy(b[p:], c.Text)
	// odd while busy
	v := atomic.LoadUint64(s.seq(i))
	atomic.StoreUint64(s.seq(i), v+2|1)
}

func (s *slots) Clear(i int) {
	v := atomic.LoadUint64(s.seq(i))
	atomic.StoreUint64(s.seq(i), (v+2)&^1)
}

func (s *slots) busy(i int) bool { return atomic.LoadUint64(s.seq(i))&1 == 1 }

func (s *slots) get(i int) (space string, c explore.Case, whole bool) {
	b := s.mem[i*slotSize : (i+1)*slotSize]
	ls := int(binary.LittleEndian.Uint32(b[8:]))
	na := int(binary.LittleEndian.Uint32(b[12:]))
	lt := int(binary.LittleEndian.Uint32(b[16:]))
	p := 20
	if p+ls+8*na > len(b) {
		return "", c, false
	}
	space = string(b[p : p+ls])
	p += ls
	for k := 0; k < na; k++ {
		c.Aux = append(c.Aux, int(int64(binary.LittleEndian.Uint64(b[p:]))))
		p += 8
	}
	whole = p+lt <= len(b)
	if !whole {
		lt = len(b) - p
	}
	c.Text = string(b[p : p+lt])
	return
}

// known reads the known-findings file.
func known(verif string) (map[string]bool, map[string]string) {
	keys, what := map[string]bool{}, map[string]string{}
	data, _ := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	for _, l := range strings.Split(string(data), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		for _, f := range strings.Fields(l) {
			if strings.HasPrefix(f, "key=") {
				keys[f[4:]] = true
				what[f[4:]] = l
			}
		}
	}
	return keys, what
}

// Main is the whole command.
func Main(o Options) int {
	switch {
	case os.Getenv("MC_WORKER") != "":
		return worker(o)
	case o.Replay != "":
		return replay(o)
	}
	return supervise(o)
}

func (o Options) prop() *props.Prop {
	p := o.Props[o.Prop]
	if p == nil {
		explore.Quit("unknown property %q", o.Prop)
	}
	return p
}

func (o Options) budget() time.Duration {
	if o.Budget > 0 {
		return time.Duration(o.Budget * float64(time.Second))
	}
	if o.Tier == "thorough" {
		return 780 * time.Second
	}
	return 420 * time.Second
}

func tier(thorough bool) props.Tier {
	if thorough {
		return props.Tier{Thorough: true, Level: 2}
	}
	return props.Tier{Level: 1}
}

func limitMemory(bytes uint64) {
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: bytes, Max: bytes})
}

func worker(o Options) int {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(10 << 30)
	if !mcrt.Detector { // it maps far more address space than it uses
		limitMemory(26 << 30)
	}
	sl, err := openSlots(os.Getenv("MC_WORKER"), false)
	if err != nil {
		explore.Quit("slots: %v", err)
	}
	k, _ := known(o.Verif)
	debug.SetMemoryLimit(10 << 30 / int64(explore.Shards()))
	r := explore.NewRunner(o.Prop, time.Now().Add(o.budget()), sl, k)
	for _, sp := range o.prop().Spaces(tier(o.Tier == "thorough")) {
		if o.Only == "" || o.Only == sp.Name {
			r.Run(sp)
		}
		if r.Stopped() {
			break
		}
	}
	rep := r.Finish()
	if o.prop().Instrumented {
		rep.Extra["instrumented_build"] = mcrt.Active()
		rep.Extra["race_detector"] = mcrt.Detector
		if !mcrt.Active() {
			rep.Exhaustive = false
		}
	}
	f, err := os.Create(os.Getenv("MC_REPORT"))
	if err != nil {
		explore.Quit("%v", err)
	}
	if err := json.NewEncoder(f).Encode(rep); err != nil {
		explore.Quit("%v", err)
	}
	f.Close()
	return 0
}

func replay(o Options) int {
	data, err := os.ReadFile(o.Replay)
	if err != nil {
		explore.Quit("%v", err)
	}
	var v explore.Violation
	if err := json.Unmarshal(data, &v); err != nil {
		explore.Quit("%v", err)
	}
	if !mcrt.Detector {
		limitMemory(8 << 30)
	}
	o.Prop = v.Property
	for _, th := range []bool{false, true} {
		for _, sp := range o.prop().Spaces(tier(th)) {
			if sp.Name != v.Space {
				continue
			}
			res := explore.Guard(sp.Check, v.Case)
			if res.Bad != "" {
				fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", v.Property, o.Replay, res.Bad)
				return 1
			}
			fmt.Printf("property=%s space=%s: this case is fine (%s)\n", v.Property, v.Space, res.Outcome)
			return 0
		}
	}
	explore.Quit("no space %q in %s", v.Space, v.Property)
	return 3
}

// alone runs one case in a fresh process and tells whether it passes.
func (o Options) alone(v explore.Violation) (bad bool, how string) {
	f, err := os.CreateTemp("", "mccase")
	if err != nil {
		return false, err.Error()
	}
	defer os.Remove(f.Name())
	_ = json.NewEncoder(f).Encode(v)
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 2*hang)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], "-replay", f.Name(), "-verif", o.Verif)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err = cmd.Run()
	if ctx.Err() != nil {
		return true, fmt.Sprintf("does not terminate (stopped after %v)", 2*hang)
	}
	if err == nil {
		return false, ""
	}
	s := out.String()
	if len(s) > 2000 {
		s = s[:2000]
	}
	return true, "ends the process: " + s
}

func supervise(o Options) int {
	start := time.Now()
	p := o.prop()
	_, knownWhat := known(o.Verif)
	dir, err := os.MkdirTemp("", "mc")
	if err != nil {
		explore.Quit("%v", err)
	}
	defer os.RemoveAll(dir)
	slotFile, repFile := filepath.Join(dir, "slots"), filepath.Join(dir, "report.json")
	var rep *explore.Report
	if n := runtime.NumCPU(); p.Processes && n > 1 {
		reps := make([]*explore.Report, n)
		var wg sync.WaitGroup
		for i := range reps {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				reps[i] = o.explore(fmt.Sprintf("%s.%d", slotFile, i), fmt.Sprintf("%s.%d", repFile, i), fmt.Sprintf("%d/%d", i, n))
			}(i)
		}
		wg.Wait()
		rep = explore.Merge(reps)
	} else {
		rep = o.explore(slotFile, repFile, "")
	}
	for _, v := range rep.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", v.Property, knownWhat[v.Key()])
	}
	WriteEvidence(o, p, rep, start)
	fmt.Printf("%s %s: %d spaces, %d states, %d transitions, %d traces compared, exhaustive=%v, %d violations, %.1fs\n",
		o.Prop, o.Tier, len(rep.Spaces), rep.States, rep.Steps, rep.Compared, rep.Exhaustive, len(rep.Violations), time.Since(start).Seconds())
	return PrintViolations(o.Verif, rep.Violations)
}

// PrintViolations writes replay files and the VIOLATION lines.
func PrintViolations(verif string, vs []explore.Violation) int {
	if len(vs) == 0 {
		return 0
	}
	dir := filepath.Join(verif, "replays")
	_ = os.MkdirAll(dir, 0o755)
	for i, v := range vs {
		if i == 3 {
			break
		}
		path := filepath.Join(dir, v.Property+"-"+v.Key()+".json")
		data, _ := json.MarshalIndent(v, "", " ")
		_ = os.WriteFile(path, append(data, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, path)
		w := v.What
		if len(w) > 3000 {
			w = w[:3000] + "..."
		}
		fmt.Printf("  space %s: %s\n", v.Space, w)
	}
	return 1
}

// WriteEvidence writes the evidence file.
func WriteEvidence(o Options, p *props.Prop, rep *explore.Report, start time.Time) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"states":                        rep.States,
		"transitions":                   rep.Steps,
		"impl_calls":                    rep.Calls,
		"traces_validated_against_impl": rep.Compared,
		"samples":                       rep.Samples,
		"spaces":                        rep.Spaces,
		"exhaustive":                    rep.Exhaustive,
		"counting":                      "states: distinct cases explored (an input text plus, where there are any, the choices made by the environment); transitions: steps of the reference model taken over all cases (tokens, characters, operations, visits or scheduler decisions, as the spaces' docs say); impl_calls: calls into the implementation; traces_validated_against_impl: cases whose complete observed outcome was compared with the reference model",
		"cpus":                          runtime.NumCPU(),
	}
	keys := make([]string, 0, len(rep.Extra))
	for k := range rep.Extra {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		cov[k] = rep.Extra[k]
	}
	if rep.Samples == nil {
		cov["samples"] = []any{}
	}
	ev := map[string]any{
		"property": o.Prop, "tier": o.Tier, "seed": seed, "level": p.Level,
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(rep.Violations),
		"assumptions": append([]string{}, p.Assume...),
	}
	dir := filepath.Join(o.Verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	data, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		explore.Quit("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, o.Prop+".json"), append(data, '\n'), 0o644); err != nil {
		explore.Quit("%v", err)
	}
}

func contains(l []int, x int) bool {
	for _, v := range l {
		if v == x {
			return true
		}
	}
	return false
}

// watch stops the worker when a case makes no progress.
func watch(sl *slots, p *os.Process, stuck chan<- []int, done <-chan struct{}) {
	last := make([]uint64, nSlots)
	since := make([]time.Time, nSlots)
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case <-done:
			return
		case <-tick.C:
		}
		now := time.Now()
		var l []int
		for i := range last {
			v := atomic.LoadUint64(sl.seq(i))
			if v != last[i] || v&1 == 0 {
				last[i], since[i] = v, now
				continue
			}
			if now.Sub(since[i]) > hang {
				l = append(l, i)
			}
		}
		if len(l) > 0 {
			stuck <- l
			_ = p.Kill()
			return
		}
	}
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if rest := l.n - l.b.Len(); rest > 0 {
		if rest > len(p) {
			rest = len(p)
		}
		l.b.Write(p[:rest])
	}
	return len(p), nil
}

// explore runs the exploration (or a shard of it) in a worker process.
func (o Options) explore(slotFile, repFile, shard string) *explore.Report {
	var rep *explore.Report
	for attempt := 1; ; attempt++ {
		sl, err := openSlots(slotFile, true)
		if err != nil {
			explore.Quit("%v", err)
		}
		args := []string{"-prop", o.Prop, "-tier", o.Tier, "-verif", o.Verif, "-budget", strconv.FormatFloat(o.budget().Seconds(), 'f', 1, 64)}
		if o.Only != "" {
			args = append(args, "-space", o.Only)
		}
		cmd := exec.Command(os.Args[0], args...)
		cmd.Env = append(os.Environ(), "MC_WORKER="+slotFile, "MC_REPORT="+repFile, "MC_SHARD="+shard)
		if shard != "" {
			cmd.Env = append(cmd.Env, "GOMAXPROCS="+map[bool]string{true: "1", false: "3"}[mcrt.Detector])
		}
		var errOut bytes.Buffer
		cmd.Stderr = &limited{b: &errOut, n: 1 << 16}
		cmd.Stdout = os.Stderr
		if err := cmd.Start(); err != nil {
			explore.Quit("%v", err)
		}
		stuck := make(chan []int, 1)
		done := make(chan struct{})
		go watch(sl, cmd.Process, stuck, done)
		werr := cmd.Wait()
		close(done)
		if werr == nil {
			data, err := os.ReadFile(repFile)
			if err != nil {
				explore.Quit("no report: %v", err)
			}
			rep = new(explore.Report)
			if err := json.Unmarshal(data, rep); err != nil {
				explore.Quit("%v", err)
			}
			break
		}
		if cmd.ProcessState.ExitCode() == 3 {
			explore.Quit("worker: %s", errOut.String())
		}
		// The worker died or was stopped: find the case that did it.
		var cand []int
		select {
		case cand = <-stuck:
		default:
		}
		for i := 0; i < nSlots; i++ {
			if sl.busy(i) && !contains(cand, i) {
				cand = append(cand, i)
			}
		}
		found := false
		for _, i := range cand {
			space, c, whole := sl.get(i)
			if !whole {
				continue
			}
			v := explore.Violation{Property: o.Prop, Space: space, Case: c}
			if bad, how := o.alone(v); bad {
				v.What = "the case " + how
				rep = &explore.Report{Violations: []explore.Violation{v}, States: 1, Calls: 1, Extra: map[string]any{}}
				found = true
				break
			}
		}
		if found {
			break
		}
		fmt.Fprintf(os.Stderr, "worker ended (%v) on no reproducible case; attempt %d\n%s\n", werr, attempt, errOut.String())
		if attempt == 3 {
			if strings.Contains(errOut.String(), "fatal error:") || strings.Contains(errOut.String(), "goroutine ") {
				v := explore.Violation{Property: o.Prop, Space: "-", What: "the exploration process keeps dying: " + errOut.String()}
				rep = &explore.Report{Violations: []explore.Violation{v}, States: 1, Calls: 1, Extra: map[string]any{}}
				break
			}
			explore.Quit("worker failed %d times", attempt)
		}
	}
	return rep
}
