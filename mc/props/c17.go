package props

import (
	"fmt"
	"strings"

	geo "github.com/mmadfox/go-geoql-parser"

	"verifmc/explore"
	"verifmc/gen"
	"verifmc/mcrt"
)

// threadTexts are the rules whose statements the threads share.
var threadTexts = []string{
	`trigger set a = 1; when si{"x","y"}:1 + @a > 2 repeat 3 every 10s`,
	`when ss in ["a", "b"] and point[1,2]:5km nearby line[[1,2]]`,
}

// threadOps are the calls that threads make.
func threadOps() []op {
	return []op{
		parseOp("when -5C"), parseOp(`when s{"x"}:1km`), parseOp("when a =="), parseOp("when weekday[mon] == time[9:05PM]"), parseOp("when point[1,2]:5m or b not in [1]"), parseOp(`when "a`), parseOp("trigger set v = 5h; when (@v)"), parseOp("when date[2024-01-02] repeat 3 every 5s"),
		formatOp(0), formatOp(1), formatFailOp(0, 7), walkOp(0, 0), walkOp(1, 3), checkOp(0, 0), checkOp(0, 1), checkOp(1, 0),
	}
}

type threads struct {
	texts []string // rules whose statements are shared
	ops   []op
	alone map[int]string
	limit int
}

// expected is the result of a call that runs alone.
func (t *threads) expected(i int) string {
	s, ok := t.alone[i]
	if !ok {
		w := worldOf(t.texts)
		w.forget = true
		s = t.ops[i].run(w)
		t.alone[i] = s
	}
	return s
}

func (t *threads) describe(calls []int, first int, plan []mcrt.Preempt) string {
	var l []string
	for i, k := range calls {
		l = append(l, fmt.Sprintf("thread %d: %s", i, t.ops[k].name))
	}
	return fmt.Sprintf("%s; thread %d first, switches (at step, to thread) %v", strings.Join(l, "; "), first, plan)
}

// schedule runs the calls as threads under one schedule.
func (t *threads) schedule(calls []int, first int, plan []mcrt.Preempt, res *Result) *mcrt.Run {
	for _, k := range calls {
		t.expected(k)
	}
	w := worldOf(t.texts)
	w.forget = true
	var before []string
	for _, s := range w.stmts {
		before = append(before, deep(s))
	}
	for _, d := range w.dicts {
		before = append(before, deep(d))
	}
	mcrt.Reset()
	got := make([]string, len(calls))
	fs := make([]func(), len(calls))
	for i, k := range calls {
		fs[i] = func() { got[i] = t.ops[k].run(w) }
	}
	races := mcrt.Races()
	run := mcrt.Threads(first, plan, t.limit, fs...)
	res.Calls += len(calls)
	res.Steps += run.Points
	wrong := func(format string, args ...any) {
		res.Bad = fmt.Sprintf(format, args...) + "\n  " + t.describe(calls, first, plan)
		res.Outcome = "differs"
	}
	if n := mcrt.Races() - races; n > 0 {
		wrong("%d data races", n)
	}
	for i, k := range calls {
		if p := run.Panics[i]; p != nil {
			wrong("thread %d panics: %v", i, p)
			return run
		}
		if got[i] != t.expected(k) {
			wrong("thread %d gets\n%s\nand alone\n%s", i, clip(got[i]), clip(t.expected(k)))
			return run
		}
	}
	if res.Bad != "" {
		return run
	}
	for i, b := range before {
		var x any
		if i < len(w.stmts) {
			x = w.stmts[i]
		} else {
			x = w.dicts[i-len(w.stmts)]
		}
		if now := deep(x); now != b {
			wrong("argument %d is changed from\n%s\nto\n%s", i, clip(b), clip(now))
			return run
		}
	}
	// and nothing is left behind
	for _, k := range calls {
		if s := t.ops[k].run(w); s != t.expected(k) {
			wrong("afterwards %s gives\n%s\nand alone\n%s", t.ops[k].name, clip(s), clip(t.expected(k)))
			return run
		}
	}
	return run
}

// check explores, for the calls and first thread in Aux, every schedule with up
// to the given number of preemptions whose first one is at a step of the given
// residue.  Aux: number of threads, calls, first thread, residue and
// modulus.
func (t *threads) check(preemptions int) func(Case) Result {
	return func(c Case) Result {
		n := c.Aux[0]
		calls, first, residue, residues := c.Aux[1:1+n], c.Aux[1+n], c.Aux[2+n], c.Aux[3+n]
		res := Result{Outcome: "as alone"}
		base := t.schedule(calls, first, nil, &res)
		if res.Bad != "" || base.Points == 0 {
			if base.Points == 0 {
				res.NoModel = true
			}
			return res
		}
		// next tries all continuations of a plan with one more switch.
		var next func(run *mcrt.Run, plan []mcrt.Preempt, from, left int)
		next = func(run *mcrt.Run, plan []mcrt.Preempt, from, left int) {
			for at := from; at < len(run.Who); at++ {
				if len(plan) == 0 && at%residues != residue {
					continue
				}
				for to := 0; to < n; to++ {
					if to == int(run.Who[at]) || run.Alive[at]>>to&1 == 0 {
						continue
					}
					p := append(append([]mcrt.Preempt{}, plan...), mcrt.Preempt{At: at, To: to})
					r := t.schedule(calls, first, p, &res)
					if res.Bad != "" {
						return
					}
					if left > 1 {
						next(r, p, at+1, left-1)
						if res.Bad != "" {
							return
						}
					}
				}
			}
		}
		next(base, nil, 0, preemptions)
		return res
	}
}

// useOp formats, type checks and walks a shared statement.
func useOp(i int) op {
	return op{name: fmt.Sprintf("formatting, checking and walking statement %d", i), stmt: i, dict: -1, run: func(w *world) string {
		f, err := format(w.stmts[i])
		n := 0
		geo.Visit(w.stmts[i].(geo.Expr), func(e geo.Expr) bool { n++; return true })
		return fmt.Sprint(f, err, geo.CheckType(w.stmts[i], sharedDict()), n)
	}}
}

// wholeOp parses a text and uses the statement.
func wholeOp(text string) op {
	return op{name: fmt.Sprintf("parsing %.60q and formatting, checking and walking the statement", text), stmt: -1, dict: -1, run: func(w *world) string {
		stmt, err := geo.Parse(text)
		if err != nil {
			return "error: " + err.Error()
		}
		f, err := format(stmt)
		n := 0
		geo.Visit(stmt.(geo.Expr), func(e geo.Expr) bool { n++; return true })
		return fmt.Sprint(deep(stmt), f, err, geo.CheckType(stmt, sharedDict()), n)
	}}
}

// checkTexts makes threads of the texts of a case: two that parse and use each
// of two rules, and two that use the statement of the first.
func checkTexts(preemptions int) func(Case) Result {
	sharedDict()
	memo := map[string]*threads{}
	return func(c Case) Result {
		th := memo[c.Text]
		if th == nil {
			t := strings.Split(c.Text, fieldSep)
			th = &threads{alone: map[int]string{}, limit: 1 << 20}
			if _, err := geo.Parse(t[0]); err == nil {
				th.texts = t[:1]
				th.ops = []op{useOp(0), wholeOp(t[0]), wholeOp(t[len(t)-1])}
			} else {
				th.ops = []op{wholeOp(t[0]), wholeOp(t[0]), wholeOp(t[len(t)-1])}
			}
			if len(memo) > 1<<10 {
				clear(memo)
			}
			memo[c.Text] = th
		}
		if preemptions > 0 {
			return th.check(preemptions)(c)
		}
		res := Result{Outcome: "as alone"}
		for first := 0; first < 2 && res.Bad == ""; first++ {
			if run := th.schedule(c.Aux[1:3], first, nil, &res); run.Points == 0 {
				res.NoModel = true
			}
		}
		return res
	}
}

func init() {
	register(&Prop{ID: "C17", Level: "model_checking", Instrumented: true, Processes: true, Spaces: func(t Tier) []explore.Space {
		th := &threads{texts: threadTexts, ops: threadOps(), alone: map[int]string{}, limit: 1 << 16}
		pairs := func(ids []int, residues int) func(func(Case) bool) {
			return func(y func(Case) bool) {
				for i, a := range ids {
					for _, b := range ids[i:] {
						for first := 0; first < 2; first++ {
							for r := 0; r < residues; r++ {
								if !y(Case{Text: "threads", Aux: []int{2, a, b, first, r, residues}}) {
									return
								}
							}
						}
					}
				}
			}
		}
		var ids []int
		for i := range th.ops {
			ids = append(ids, i)
		}
		sps := []explore.Space{
			{Name: "two-threads", Doc: fmt.Sprintf("every pair of %d calls on the same statements and dictionaries, from the initial state of the package variables: every schedule with one preemption (before any statement of the library), under the race detector", len(ids)), Serial: true, Enum: pairs(ids, 16), Check: th.check(1)},
			{Name: "three-threads", Doc: "three threads with one preemption", Serial: true, Check: th.check(1), Enum: func(y func(Case) bool) {
				const residues = 16
				for _, l := range [][]int{{1, 8, 13}, {0, 0, 0}, {8, 8, 8}, {13, 13, 15}, {2, 4, 6}, {3, 9, 12}, {8, 11, 13}, {10, 8, 1}, {7, 5, 14}} {
					for first := 0; first < 3; first++ {
						for r := 0; r < residues; r++ {
							if !y(Case{Text: "threads", Aux: append(append([]int{3}, l...), first, r, residues)}) {
								return
							}
						}
					}
				}
			}},
		}
		// texts that between them use every part of the library
		var conds []string
		for _, o := range gen.Operands {
			conds = append(conds, "when "+o)
		}
		for i, o := range gen.OpSpellings {
			l := [][2]string{{"si", "2.5"}, {"ss", `"x"`}, {"@v", "sb"}, {"li", "[1,2]"}, {"point[1,2]", "sf"}, {"sf", "1 .. 2"}}
			conds = append(conds, fmt.Sprintf("trigger set v = %s; when %s %s %s", gen.Operands[i%len(gen.Operands)], l[i%len(l)][0], o, l[i%len(l)][1]))
		}
		rules := append(append([]string{}, gen.Rules...), "when a ==", `when "x`, "when [1", "when (a", "when a{", "when point[1", "when date[2024-13-01]", "when /* c", "when \x00", "foo", "when 5 +", "trigger set a = 1; a = 2; when b")
		sps = append(sps,
			explore.Space{Name: "each-part", Doc: fmt.Sprintf("two threads that parse, format, check and walk the same text, or use the same statement, for %d texts with every operand and operator: every schedule with one preemption", len(conds)), Serial: true, Check: checkTexts(1), Enum: func(y func(Case) bool) {
				for _, text := range conds {
					for _, l := range [][2]int{{0, 0}, {1, 2}} {
						if !y(Case{Text: text, Aux: []int{2, l[0], l[1], 0, 0, 1}}) {
							return
						}
					}
				}
			}},
			explore.Space{Name: "unordered", Doc: fmt.Sprintf("every pair of %d rules and erroneous texts, parsed, formatted, checked and walked by two threads that nothing orders, one after the other (the race detector judges their accesses as if they overlapped)", len(rules)), Serial: true, Check: checkTexts(0), Enum: func(y func(Case) bool) {
				for i, a := range rules {
					if !y(Case{Text: a, Aux: []int{2, 0, 0}}) {
						return
					}
					for _, b := range rules[i:] {
						if !y(Case{Text: a + fieldSep + b, Aux: []int{2, 1, 2}}) {
							return
						}
					}
				}
			}},
			explore.Space{Name: "unordered-seeds", Doc: "every operand in every context by two threads that nothing orders", Serial: true, Check: checkTexts(0), Enum: func(y func(Case) bool) {
				gen.Texts(gen.Seeds())(func(c Case) bool {
					return y(Case{Text: c.Text, Aux: []int{2, 0, 0}}) && y(Case{Text: c.Text, Aux: []int{2, 1, 2}})
				})
			}})
		sps = append(sps, explore.Space{Name: "unordered-long", Doc: "rules with operands and clauses of many parts, right, mistyped and broken, and mistyped and erroneous rules with every operand, by two threads that nothing orders", Serial: true, Check: checkTexts(0), Enum: func(y func(Case) bool) {
			l := gen.All(gen.In(gen.Texts(gen.Operands), []string{"when %s + true", "when a == %s == ", "when (%s", "when true - (%s)", "when undeclared + %s and b"}))
			for _, n := range [][]int{{9, 70, 300, 1100}, {3, 5, 9, 17, 33, 65, 70, 101, 129, 257, 300, 513, 1025, 2049, 5000}}[t.pick(0, 1)] {
				l = append(l, gen.LongRules(n)...)
			}
			for i, a := range l {
				if !y(Case{Text: a, Aux: []int{2, 0, 0}}) || !y(Case{Text: a + fieldSep + l[(i+7)%len(l)], Aux: []int{2, 1, 2}}) {
					return
				}
			}
		}})
		sps = append(sps, explore.Space{Name: "unordered-edits", Doc: "every pair of tokens of the whole vocabulary as a condition and after an operand, and all 1-token edits of some rules, parsed, formatted, checked and walked by two threads that nothing orders", Serial: true, Check: checkTexts(0), Enum: func(y func(Case) bool) {
			seen := map[string]bool{}
			each := func(c Case) bool {
				if seen[c.Text] {
					return true
				}
				seen[c.Text] = true
				return y(Case{Text: c.Text, Aux: []int{2, 1, 2}})
			}
			gen.Chain(gen.In(gen.Product(" ", gen.Vocab, gen.Vocab), []string{"when %s", "when a %s", "when a not %s", "trigger set %s"}),
				gen.Edits(append([]string{"when a not in [1, 2]", "trigger set v = 5s; when @v repeat 3 every 10s reset after 1h", "when a{*, \"x\"}:1km, 2 == point[1, 2]:5km", "when date[2024-01-02 .. 2025-01-02] or time[9:05:01PM, 10:00]", "when multiline[line[[1, 2], [3, -4]]:2km] nearby collection[point[1, 2]]"}, gen.Rules[:t.pick(6, len(gen.Rules))]...), gen.Vocab, 1))(each)
		}})
		// rules deep and long: what one call may use is not shared with others
		deepTexts := func(n int) []string {
			return []string{"when " + strings.Repeat("(", n) + "a" + strings.Repeat(")", n), "when a" + strings.Repeat(":a", n), "when a" + strings.Repeat(" == (b", n) + strings.Repeat(")", n)}
		}
		deepest := 1 << 8
		for _, err := geo.Parse(deepTexts(deepest)[0]); err == nil && deepest < 1<<14; _, err = geo.Parse(deepTexts(deepest)[0]) {
			deepest *= 2
		}
		deepest /= 2 // accepted; twice as deep may not be
		deepCalls := &threads{alone: map[int]string{}, limit: 1 << 22}
		for _, text := range append(deepTexts(deepest), deepTexts(deepest*3/4)...) {
			deepCalls.ops = append(deepCalls.ops, op{name: fmt.Sprintf("parsing %.20q... of %d bytes", text, len(text)), stmt: -1, dict: -1, run: func(w *world) string {
				stmt, err := geo.Parse(text)
				return fmt.Sprint(stmt == nil, err)
			}})
		}
		sps = append(sps, explore.Space{Name: "deep", Doc: "deeply nested rules parsed by two threads, with one preemption at each of many steps", Serial: true, Check: deepCalls.check(1), Enum: func(y func(Case) bool) {
			for a := range deepCalls.ops {
				for b := a; b < len(deepCalls.ops); b += 3 {
					for r := 0; r < t.pick(1, 8); r++ {
						if !y(Case{Text: "deep", Aux: []int{2, a, b, 0, r * 37501, 300007}}) {
							return
						}
					}
				}
			}
		}})
		// one call, interrupted while another thread makes many
		many := &threads{texts: threadTexts, alone: map[int]string{}, limit: 1 << 22}
		repeated := func(o op, n int) op {
			return op{name: fmt.Sprintf("%d times %s", n, o.name), stmt: o.stmt, dict: o.dict, run: func(w *world) string {
				var out string
				for i := 0; i < n; i++ {
					if s := o.run(w); i > 0 && s != out {
						return fmt.Sprintf("%s\nand at repetition %d\n%s", out, i, s)
					} else {
						out = s
					}
				}
				return out
			}}
		}
		single := []op{wholeOp("when 1 + true"), wholeOp("when a == "), wholeOp(`when ss{"x"}:1`), wholeOp(`when @v`), wholeOp("when x"), formatOp(0), formatFailOp(1, 3), walkOp(0, 0), checkOp(0, 0), checkOp(1, 0), parseOp("when -5C"), parseOp(`when "a`), parseOp("when time[9:05PM]"), parseOp("when point[1,2]:5m"), parseOp("trigger set v = 5h; when (@v)"), parseOp("when date[2024-01-02] repeat 3 every 5s"), parseOp("when [1 .. 2, a]"), parseOp("trigger set v = 1; v = 2; when b")}
		for _, o := range single {
			many.ops = append(many.ops, o, repeated(o, t.pick(36, 300)))
		}
		sps = append(sps, explore.Space{Name: "many", Doc: fmt.Sprintf("%d calls, each interrupted once, at every step, while another thread makes the same call dozens of times", len(single)), Serial: true, Check: many.check(1), Enum: func(y func(Case) bool) {
			for i := range single {
				for r := 0; r < 8; r++ {
					if !y(Case{Text: "many", Aux: []int{2, 2 * i, 2*i + 1, 0, r, 8}}) {
						return
					}
				}
			}
		}})
		if t.Thorough {
			sps = append(sps,
				explore.Space{Name: "two-preemptions", Doc: "pairs of short calls: every schedule with up to two preemptions", Serial: true, Check: th.check(2), Enum: pairs([]int{9, 10, 11, 12, 13, 14, 15, 2}, 256)},
				explore.Space{Name: "three-threads-two-preemptions", Doc: "three threads of the shortest calls: every schedule with up to two preemptions", Serial: true, Check: th.check(2), Enum: func(y func(Case) bool) {
					const residues = 64
					for _, l := range [][]int{{11, 12, 13}, {12, 12, 12}, {13, 14, 15}, {12, 13, 15}} {
						for first := 0; first < 3; first++ {
							for r := 0; r < residues; r++ {
								if !y(Case{Text: "threads", Aux: append(append([]int{3}, l...), first, r, residues)}) {
									return
								}
							}
						}
					}
				}})
		}
		return sps
	}})
}
