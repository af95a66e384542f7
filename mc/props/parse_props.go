package props

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"

	"verifmc/explore"
	"verifmc/gen"
)

// Tier selects the depth.
type Tier struct {
	Level    int // 0: reused by another property's quick tier, 1: quick, 2: thorough
	Thorough bool
}

// at picks the size for the spaces of another property that are reused (in the
// quick tier), for the quick tier, and for the thorough tier.
func (t Tier) at(reused, quick, thorough int) int {
	return [...]int{reused, quick, thorough}[min(t.Level, 2)]
}

func (t Tier) pick(quick, thorough int) int {
	if t.Thorough {
		return thorough
	}
	return quick
}

// Prop is the check of one property.
type Prop struct {
	ID     string
	Level  string
	Spaces func(t Tier) []explore.Space
	Assume []string
	// Instrumented: the check needs the build whose map orders or schedules it decides.
	Instrumented bool
	// Processes: the cases share state within a process; shards of them run in
	// processes of their own.
	Processes bool
}

// All properties that this binary decides.
var All = map[string]*Prop{}

func register(p *Prop) { All[p.ID] = p }

func parseSpace(name, doc string, e gen.Enum) explore.Space {
	return explore.Space{Name: name, Doc: doc, Enum: e, Check: CheckParse}
}

func sizes(max int, f func(n int) []string) gen.Enum {
	return func(y gen.Yield) {
		for n := 1; n <= max; n++ {
			for _, s := range f(n) {
				if !y(Case{Text: s}) {
					return
				}
			}
		}
	}
}

func rep(n int, sep string, f func(i int) string) string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, f(i))
	}
	return strings.Join(l, sep)
}

// steps are the lengths of a sweep: every one up to dense, then those next to
// powers of two and round decimal numbers.
func steps(dense, max int) []int {
	var out []int
	for n := 1; n <= dense && n <= max; n++ {
		out = append(out, n)
	}
	seen := map[int]bool{}
	near := func(p, by int) {
		for d := -by; d <= by; d++ {
			if n := p + d; n > dense && n <= max && !seen[n] {
				seen[n] = true
				out = append(out, n)
			}
		}
	}
	for p := 1; p <= max; p *= 2 {
		near(p, 2)
	}
	for p := 10; p <= max; p *= 10 {
		for _, k := range []int{1, 2, 3, 5} {
			near(k*p, 1)
		}
	}
	return out
}

func sweep(ns []int, f func(n int) []string) gen.Enum {
	return func(y gen.Yield) {
		for _, n := range ns {
			for _, s := range f(n) {
				if !y(Case{Text: s}) {
					return
				}
			}
		}
	}
}

// filterSeeds returns the seeds containing one of the words.
func filterSeeds(words ...string) []string {
	var out []string
	for _, s := range gen.Seeds() {
		for _, w := range words {
			if strings.Contains(s, w) {
				out = append(out, s)
				break
			}
		}
	}
	return out
}

// trees enumerates all parenthesisations of n operands: every binary tree,
// every inner node either parenthesised or not.
func trees(n, budget int) []string {
	memo := map[[2]int][]string{}
	var rec func(n, b int) []string
	rec = func(n, b int) []string {
		if n == 1 {
			out := []string{"X"}
			if b > 0 {
				out = append(out, "( X )")
			}
			return out
		}
		if l, ok := memo[[2]int{n, b}]; ok {
			return l
		}
		set := map[string]bool{}
		var out []string
		add := func(s string) {
			if !set[s] {
				set[s] = true
				out = append(out, s)
			}
		}
		for k := 1; k < n; k++ {
			for bl := 0; bl <= b; bl++ {
				for _, l := range rec(k, bl) {
					for _, r := range rec(n-k, b-bl) {
						add(l + " O " + r)
						if b-bl > 0 {
							add("( " + l + " O " + r + " )")
						}
					}
				}
			}
		}
		memo[[2]int{n, b}] = out
		return out
	}
	return rec(n, budget)
}

// fillTrees puts all operator combinations into the tree patterns.
func fillTrees(pats []string, ops []string, pre string) gen.Enum {
	return func(y gen.Yield) {
		for _, p := range pats {
			parts := strings.Split(p, "O")
			n := len(parts) - 1
			idx := make([]int, n)
			for {
				var b strings.Builder
				b.WriteString(pre)
				x := 0
				for i, part := range parts {
					for _, r := range part {
						if r == 'X' {
							b.WriteByte(byte('a' + x%26))
							x++
						} else {
							b.WriteRune(r)
						}
					}
					if i < n {
						b.WriteString(ops[idx[i]])
					}
				}
				if !y(Case{Text: b.String()}) {
					return
				}
				i := n - 1
				for ; i >= 0; i-- {
					idx[i]++
					if idx[i] < len(ops) {
						break
					}
					idx[i] = 0
				}
				if i < 0 {
					break
				}
			}
		}
	}
}

func init() {
	register(&Prop{ID: "C01", Level: "model_checking", Spaces: func(t Tier) []explore.Space {
		ops := gen.OpSpellings
		var spelled []string
		for _, o := range ops {
			if o[0] >= 'a' && o[0] <= 'z' {
				if t.Level >= 1 || len(o) <= 10 {
					spelled = append(spelled, gen.Cases(o)...)
				} else {
					for _, n := range []string{"not", "NOT", "Not", "nOT"} {
						spelled = append(spelled, gen.All(gen.Product(" ", []string{n}, gen.Cases(strings.Fields(o)[1])))...)
					}
				}
			} else {
				spelled = append(spelled, o)
			}
		}
		exprTok := []string{"a", "1", "(", ")", "or", "and", "==", "not", "in", "+", "-", "*", "/"}
		operands := []string{"a", "1", "-1", "2.5", `"s"`, "true", "@v", "(b)", "5km", "-5C", "1 .. 2", "[1,2]", "a:1", `a{"x"}`, "point[1,2]", "time[9:05]", "*", "5h"}
		ss := []explore.Space{
			parseSpace("ops2", "X op Y op Z, all pairs of operator spellings", gen.Wrap(gen.Product(" ", []string{"a"}, ops, []string{"b"}, ops, []string{"c"}), "when ", "")),
			parseSpace("ops3", "all triples of operator spellings", gen.Wrap(gen.Product(" ", []string{"a"}, ops, []string{"b"}, ops, []string{"c"}, ops, []string{"d"}), "when ", "")),
			parseSpace("spellings", "all letter cases of every operator, between operators of every level", gen.Wrap(gen.Product(" ", []string{"a == b", "a * b", "a"}, spelled, []string{"c", "c and d", "c * d"}), "when ", "")),
			parseSpace("operands", "every operand type around every operator and pair of levels", gen.Wrap(gen.Product(" ", operands, ops, operands, gen.OpLevels, []string{"z", "-1", "5C"}), "when ", "")),
			parseSpace("parens4", "all trees of up to 4 operands with up to 3 parentheses, all operator levels (and - / for associativity)",
				gen.Chain(fillTrees(trees(2, 3), ops, "when "), fillTrees(trees(3, 3), []string{"or", "and", "==", "in", "+", "-", "*", "/"}, "when "), fillTrees(trees(4, 3), gen.OpLevels, "when "))),
			parseSpace("strings", fmt.Sprintf("all token strings of an expression vocabulary, up to %d tokens", t.at(5, 6, 7)),
				gen.Wrap(gen.Strings(exprTok, 1, t.at(5, 6, 7), " "), "when ", "")),
			explore.Space{Name: "levels", Doc: "the precedences of every pair of tokens", Enum: tokenIDs(2), Check: checkLevel},
			parseSpace("chains", "long chains of each operator and of alternating levels, nesting depth sweep",
				sweep(steps(t.at(40, 140, 140), t.at(300, 3000, 3000)), func(n int) []string {
					var out []string
					for _, o := range ops {
						out = append(out, "when "+rep(n+1, " "+o+" ", func(i int) string { return "x" + strconv.Itoa(i) }))
					}
					for _, o := range gen.OpLevels {
						for _, q := range gen.OpLevels {
							out = append(out, "when "+rep(n+1, " ", func(i int) string {
								op := o
								if i%2 == 1 {
									op = q
								}
								if i == n {
									return "x"
								}
								return "x" + strconv.Itoa(i) + " " + op
							}))
						}
						out = append(out, "when "+strings.Repeat("(", n)+"a "+o+" b"+strings.Repeat(") "+o+" c", n))
						out = append(out, "when "+strings.Repeat("a "+o+" (", n)+"b"+strings.Repeat(")", n)+" "+o+" c")
					}
					return out
				})),
			hugeSpace(t, "operators"),
			foldSpace(ops, []string{"when a %s b", "when a * b %s c == d"}),
			explore.Space{Name: "deep", Doc: "what may nest, nested hundreds to thousands of levels deep (which may be refused)", Check: checkDeep, Enum: sweep([][]int{{1030, 4200, 9000}, {300, 700, 1030, 2050, 4100, 4500, 8200, 9990}, {300, 520, 700, 1025, 1030, 2049, 3000, 4095, 4096, 4097, 4098, 5000, 6001, 7000, 8191, 8192, 8193, 8194, 9000, 9990, 12000, 20000, 70000}}[min(t.Level, 2)], gen.Deep)},
			parseSpace("patterns", "chains of equal and different operands under all operator levels", gen.Chain(
				patterns(t.at(4, 5, 6), []string{"a or", "b or", "a and", "b and", "a ==", "b ==", "a -", "1 -", "a *", "b /"}, "when | |a", "when x in | |1", "when (a) * | |(a)"),
				patterns(t.at(6, 8, 10), []string{"a", "b", "(a)"}, "when | or |", "when | and |", "when | == |", "when | - |", "when | * |", "when (| or |) and a"))),
			parseSpace("set", "conditions inside parentheses of assigned values and selector properties",
				gen.In(fillTrees(trees(3, 2), []string{"or", "and", "==", "-", "*"}, ""), []string{"trigger set v = (%s); when a", "when s:(%s),1 == (%s)"})),
			parseSpace("edits", "all single-token edits of condition seeds",
				gen.Edits([]string{
					"when a or b and c == d + e * f", "when a * (b + c) >= 10 and x", "when a - b - c", "when (a or b) and (c or d)",
					"when a not in 1 .. 10 or b not eq c", "when a + b * c - d / e rem f", "when ((a)) == ((b + 1))", "when -1 + 2 - -3 * +4",
					"when a not nearby b and not_c not intersects d",
				}, gen.Vocab, 1)),
		}
		if t.Level >= 1 {
			ss = append(ss,
				parseSpace("ops4", "all quadruples of operator spellings", gen.Wrap(gen.Product(" ", []string{"a"}, ops, []string{"b"}, ops, []string{"c"}, ops, []string{"d"}, ops, []string{"e"}), "when ", "")),
				parseSpace("parens5", "all trees of 5 operands with up to 4 parentheses, all operator levels", fillTrees(trees(5, 4), gen.OpLevels, "when ")),
				parseSpace("viable", fmt.Sprintf("tree of viable prefixes to depth %d", t.at(7, 8, 9)), gen.Viable("when", exprTok, t.at(7, 8, 9), " ", []string{""})),
			)
		}
		return ss
	}})

	register(&Prop{ID: "C02", Level: "model_checking", Spaces: func(t Tier) []explore.Space {
		seeds := gen.Rules
		short := []string{
			"when a", "when a == 1", "when a{\"x\"}:1", "when [1, 2]", "when (a)", "when 1 .. 2", "when @v", "when -1", "when *",
			"trigger set a = 1; when b", "when a repeat 3 every 10s reset after 1h", "when point[1,2]:5km", "when line[[1,2]]",
			"when polygon[[[1,2]]]", "when multipoint[point[1,2]]", "when collection[point[1,2]]", "when date[2024-01-02]",
			"when time[9:05:06am]", "when weekday[mon, tue]", "when month[jan .. feb]", "when \"s\"", "when true", "when 5km",
		}
		ss := []explore.Space{
			parseSpace("when3", fmt.Sprintf("all token strings of the whole vocabulary after WHEN, up to %d tokens", t.at(3, 3, 4)), gen.Wrap(gen.Strings(gen.Vocab, 0, t.at(3, 3, 4), " "), "when ", "")),
			parseSpace("top3", "all token strings of the whole vocabulary, up to 3 tokens", gen.Strings(gen.Vocab, 0, 3, " ")),
			parseSpace("after-a", "all token strings after a complete rule, up to 2 tokens", gen.Chain(
				gen.Wrap(gen.Strings(gen.Vocab, 1, 2, " "), "when a ", ""),
				gen.Wrap(gen.Strings(gen.Vocab, 1, 2, " "), "when a repeat 3 every 10s reset after 1h ", ""),
				gen.Wrap(gen.Strings(gen.Vocab, 1, 2, " "), "when [1,2] == ", " "),
				gen.Wrap(gen.Strings(gen.Vocab, 1, 2, " "), "when a == 1\n", ""),
				gen.Wrap(gen.Strings(gen.Vocab, 1, 2, "\n"), "when a\n\n", "\n"),
				gen.Wrap(gen.Strings(gen.Vocab, 1, 2, "\n\n"), "trigger\nset a = 1\nwhen a repeat 3 every 5s\n\n", ""),
				gen.Wrap(gen.Strings(gen.Vocab, 1, 2, " // c\n"), "when (a)\n// c\n", " /* c */"),
				gen.Wrap(gen.Strings(gen.Vocab, 1, 2, " "), "trigger set v = ", " when a"),
			)),
			parseSpace("small-strings", fmt.Sprintf("all strings of a vocabulary with one token per syntactic class, up to %d tokens", t.at(4, 5, 5)), gen.Wrap(gen.Strings(gen.SmallVocab, 1, t.at(3, 4, 5), " "), "when ", "")),
			parseSpace("viable", "tree of viable prefixes over the small vocabulary with every first dead end", gen.Viable("when", gen.SmallVocab, t.at(5, 6, 7), " ", []string{""})),
			parseSpace("edits", "all single-token edits of whole rules", gen.Edits(seeds, gen.Vocab, 1)),
			parseSpace("operand-edits", "all operands in all contexts", gen.Texts(gen.Seeds())),
			parseSpace("contexts2", "all operands in all contexts within contexts", gen.Texts(gen.Nested(t.at(1, 1, 2)))),
			parseSpace("byte-edits", "all truncations and single-byte edits of whole rules", gen.ByteEdits(seeds, gen.Garbage)),
			parseSpace("wide", "every operand many times side by side: in one condition, as assigned values, as list elements and as properties of a selector",
				sweep(t.wideSteps(), func(n int) []string {
					var out []string
					for _, o := range gen.Operands {
						f := func(int) string { return o }
						out = append(out, "when "+rep(n, " or ", f))
						// what follows a comma is a property of the last selector with
						// properties: those nest, and depth has a limit
						if n < 9000 || !strings.HasPrefix(o, "a") || !strings.Contains(o, ":") {
							out = append(out, "when b:"+rep(n, ",", f), "when ["+rep(n, ", ", f)+"]")
						}
						if n <= 2000 { // assigned names are searched one by one
							out = append(out, "trigger set "+rep(n, "; ", func(i int) string { return "v" + strconv.Itoa(i) + " = " + o })+" when a")
						}
					}
					return out
				})),
			parseSpace("long", "every kind of operand and clause with many parts, in contexts right, mistyped and broken", sweep(steps(t.at(12, 70, 300), t.at(300, 2100, 5000)), gen.LongRules)),
			parseSpace("odd-ones", "one part unlike the others, of every kind, at the ends and in the middle of long operands", sweep(append(steps(t.at(3, 9, 140), t.at(18, 140, 1100)), t.pick(101, 10001)), func(n int) []string {
				return gen.All(gen.In(gen.Texts(gen.OddOnes(n, gen.Parts)), []string{"when %s", "trigger set v = %s; when a == 1", "when %s + true"}[:t.at(2, 3, 3)]))
			})),
			parseSpace("long-edits", "all single-token edits at the ends and in the middle of long operands", gen.LongEdits([][]int{{6, 70}, {5, 9, 17, 33, 65, 101, 129, 257}, {4, 5, 6, 7, 8, 9, 10, 11, 12, 17, 33, 51, 65, 101, 129, 200, 257, 301, 513, 1025}}[min(t.Level, 2)], t.vocab())),
			parseSpace("pairs", "every pair of operands in one rule: each operand after what any other leaves behind", func(y gen.Yield) {
				for _, c := range []string{"when %1 or %2", "when x == %1 and y == %2 + 1", "trigger set v = %1; w = %2; when %1", "when [%1, 1] == %2", "when b:%1 == %2", "when (%1) == -%2"}[:t.at(3, 6, 6)] {
					for _, a := range gen.Operands {
						for _, b := range gen.Operands {
							if !y(Case{Text: strings.NewReplacer("%1", a, "%2", b).Replace(c)}) {
								return
							}
						}
					}
				}
			}),
			parseSpace("edits2", "all double-token edits of short rules, small vocabulary", gen.Edits(short[:[]int{9, len(short)}[min(t.Level, 1)]], gen.SmallVocab, 2)),
		}
		if t.Level >= 1 {
			ss = append(ss,
				parseSpace("seed-edits", "all single-token edits of every operand in every context", gen.Edits(gen.Seeds(), gen.Vocab, 1)),
				parseSpace("triples", "every three operands in one rule, and every two with every clause", func(y gen.Yield) {
					fill := func(c string, third []string) bool {
						for _, a := range gen.Operands {
							for _, b := range gen.Operands {
								for _, d := range third {
									if !y(Case{Text: strings.NewReplacer("%1", a, "%2", b, "%3", d).Replace(c)}) {
										return false
									}
								}
							}
						}
						return true
					}
					clauses := []string{"repeat", "repeat 3", "repeat 3 every 10s", "repeat 1 every 5h3m2s", "repeat 2 every 5m", "reset after 1h", "reset after 1.5m", "repeat reset after 9s", "repeat 3 reset after 5m", "repeat 3 every 10s reset after 24h", "repeat -3", "repeat 3 every 10km", "reset after 5km", "reset 1h", "repeat 3 every 5C"}
					_ = fill("trigger set v = %1; when %2 %3", clauses) && fill("when %1 and %2 %3", clauses) &&
						fill("when %1 or %2 == %3", gen.Operands) && fill("trigger set v = %1; w = %2 when %3", gen.Operands)
				}),
			)
		}
		if t.Level >= 2 {
			ss = append(ss, parseSpace("edits2-full", "all double-token edits of short rules, whole vocabulary", gen.Edits(short, gen.Vocab, 2)))
		}
		return ss
	}})

	register(&Prop{ID: "C03", Level: "model_checking", Spaces: func(t Tier) []explore.Space {
		words := []string{"bar", "psi", "rm", "rkm", "m", "km", "kph", "mph", "f", "c", "pct", "h", "s", "ms", "us", "ns", "h3m", "h3m45s", "m5s", "met", "si"}
		units := []string{"", "%", "µs", "x", "hx", "mod", "e5", "k", "hours", "m5", "s5s", "h-3m", "not", "h3.5s"}
		for _, w := range words {
			if len(w) <= 4 {
				units = append(units, gen.Cases(w)...)
			} else {
				units = append(units, gen.FewCases(w)...)
			}
		}
		signs := []string{"", "-", "+", "- ", "+ ", "--", "-+", "+-"}
		contexts := append([]string{}, gen.Contexts...)
		contexts = append(contexts,
			"when a repeat %s", "when a repeat 1 every %s", "when a reset after %s", "when point[1,2]:%s", "when line[[1,2]]:%s",
			"when %s - 1", "when %s -1", "when %s mod 2", "when 1 - %s", "when -%s", "when a in [%s .. %s, %s .. %s]",
			"when -5C == %s", "when %s == -5C", "when point[-1,-2] == %s", "when a{*}:%s, -2 == %s", "when (%s + -1) * %s",
			"when -1 .. %s", "when %s .. %s", "when @v == %s", "when %s or %s", "trigger set a = -1 .. %s; b = %s; when a",
			"when weekday[mon] == %s", "when \"s\" == %s",
		)
		mid := []string{"1", "2.5", "0", "12"}
		ss := []explore.Space{
			parseSpace("units", "numbers x signs x all letter cases of every unit (and of non-units), with and without space, alone and before another token",
				gen.Chain(
					gen.Wrap(gen.Product("", signs, gen.Numbers, []string{"", " "}, units), "when ", ""),
					gen.Wrap(gen.Product("", []string{"", "-", "+"}, mid, []string{"", " ", "\n"}, units, []string{" == 1", " + -1", " .. 5", ")", ",", " a", " and b"}), "when ", ""))),
			hugeSpace(t, "quantities"),
			foldSpace(words, []string{"when 5%s", "when a > -2.5 %s", "when [1%s, 2]", "when point[1,2]:5%s", "when a reset after 1%s"}),
			parseSpace("contexts", "signs x numbers x units in every context",
				gen.In(gen.Product("", []string{"", "-", "+", "--"}, mid, []string{"", "%", "Bar", "psi", "km", "M", "m", "kph", "C", "f", "h", "5", "x", " km", "ms", "h30m", "s"}), contexts)),
			parseSpace("sign-before", "a sign in front of every operand", gen.In(gen.Product("", []string{"-", "+", "- ", "-+", "--"}, gen.Operands), gen.Contexts[:12])),
			parseSpace("digits", "all digit strings up to 3 digits and decimals, as each kind of quantity",
				gen.Wrap(gen.Product("", []string{"", "-"}, digitStrings(t.at(2, 3, 4)), []string{"", ".", ".0", ".5", ".05", ".125", "._5", "_"}, []string{"", "%", "km", "C", "s", "bar", "kph"}), "when a == ", "")),
			parseSpace("integers", "every integer and many decimals up to a limit, alone and with every unit", func(y gen.Yield) {
				for n := 0; n <= t.at(300, 12000, 200000); n++ {
					for _, s := range []string{"when %d", "when -%d", "when a == %d.5", "when a == -0.%d", "when %d.%d", "when [%d, -%d] == %d", "when 1 .. %d"} {
						if !y(Case{Text: strings.ReplaceAll(s, "%d", strconv.Itoa(n))}) {
							return
						}
					}
					if n > t.at(100, 4000, 40000) {
						continue
					}
					for _, u := range []string{"%", "Bar", "Psi", "C", "F", "Km", "M", "Kph", "Mph", "h", "m30s", "s", "ms", "ns"} {
						for _, s := range []string{"when %d", "when -%d", "when %d.75"} {
							if !y(Case{Text: strings.ReplaceAll(s, "%d", strconv.Itoa(n)) + u}) {
								return
							}
						}
					}
				}
			}),
			parseSpace("big", "numbers around the limits of the number types", gen.Wrap(gen.Product("", []string{"", "-", "+"}, bigNumbers(), []string{"", "%", "km", "C", "h", "ms", "ns", "bar", "kph", " .. 1"}), "when a == ", "")),
			parseSpace("durations", "all strings of duration parts", gen.Wrap(gen.Product("", []string{"1", "1.5", "0", "100", "07"}, durationTails(t.at(3, 4, 5))), "when ", " or a")),
			parseSpace("signs-strings", fmt.Sprintf("all strings of signs, numbers, units and operators, up to %d tokens", t.at(5, 6, 7)),
				gen.Wrap(gen.Strings([]string{"-", "+", "1", "2.5", "km", "C", "..", "a", "(", ")", "*"}, 1, t.at(5, 6, 7), " "), "when ", "")),
			parseSpace("list-pairs", "all ordered pairs and triples of signed quantities in lists, ranges, sums and assignments",
				gen.Chain(pairs([]string{"when [%1, %2]", "when %1 .. %2", "when %1 + %2", "when %1 - %2", "trigger set a = %1 b = %2 when a", "when a:%1,%2", "when [%1 .. %2]"}),
					gen.Map(gen.Product(",", q3, q3, q3), func(s string) string { return "when [" + s + "]" }))),
			parseSpace("sequences", "every quantity after every other, where each place gives units their own meaning (a radius, a factor of a selector, a list, a range, an assigned value, a clause, a condition)", func(y gen.Yield) {
				us := []string{"", "m", "M", "km", "C", "F", "s", "h", "ms", "h30m", "%", "bar", "kph", "m30s"}
				var qs []string
				for _, n := range []string{"5", "2.5", "-5", "-2.5", "+1"} {
					for _, u := range us {
						qs = append(qs, n+u)
					}
				}
				for _, c := range []string{
					"when a intersects point[1,2]:%1 and b > %2", "when b > %1 and a intersects point[1,2]:%2", "when a intersects line[[1,2]]:%1 and b in [%2]", "when a:%1 > %2", "when a:%1,%2", "when [%1] == %2",
					"when %1 .. %2", "trigger set v = %1; w = %2; when a", "trigger set v = point[1,2]:%1; w = %2; when a", "when a > %1 repeat 3 every %2", "when a > %1 reset after %2", "when point[1,2]:%1 repeat 3 every %2",
					"when a repeat 3 every %1 reset after %2", "when collection[point[1,2]:%1, point[3,4]:%2]", "when multipoint[point[1,2]:%1] == a:%2", "when (%1) + %2", "when point[%1, %2]", "when time[9:05] > %1 and weekday[mon] > %2",
				}[:t.at(8, 18, 18)] {
					for _, a := range qs {
						for _, b := range qs {
							if !y(Case{Text: strings.NewReplacer("%1", a, "%2", b).Replace(c)}) {
								return
							}
						}
					}
				}
			}),
			parseSpace("edits", "all single-token edits of quantity seeds", gen.Edits([]string{
				"when a > 5C and b < -2.5bar", "when -1 + 2 - -3 * +4", "when a in -5C .. +10C", "when a in [1km, 2.5M]", "when a == 5% or b == 10kph",
				"trigger set t = +40C; u = -3; when t > 1h30m", "when [ -1, 2, -3 ] == x", "when x:-1,2km",
			}, gen.Vocab, t.at(1, 1, 1))),
		}
		if t.Level >= 1 {
			ss = append(ss,
				parseSpace("all-contexts", "everything: signs x numbers x units x contexts", gen.In(gen.Product("", signs, gen.Numbers, []string{"", " "}, units), contexts)),
				parseSpace("edits2", "double edits", gen.Edits([]string{"when a > -5C", "when -1 .. +2km", "when [-1, 2.5]"}, gen.Vocab, 2)))
		}
		return ss
	}})

	register(&Prop{ID: "C04", Level: "model_checking", Spaces: calendarSpaces})
	register(&Prop{ID: "C05", Level: "model_checking", Spaces: geometrySpaces})
	register(&Prop{ID: "C06", Level: "model_checking", Spaces: selectorSpaces})
	register(&Prop{ID: "C07", Level: "model_checking", Spaces: clauseSpaces})
	register(&Prop{ID: "C19", Level: "model_checking", Spaces: listSpaces})
}

// hugeSpace has rules with more parts than 16 bits count.
func hugeSpace(t Tier, kind string) explore.Space {
	ns := [][]int{{65800}, {65535, 65536, 65537, 70001}, {32769, 65534, 65535, 65536, 65537, 65538, 70001, 131073, 262149}}[min(t.Level, 2)]
	return parseSpace("huge", "rules with more parts ("+kind+") than 16 bits count", sweep(ns, func(n int) []string { return gen.Huge(kind, n) }))
}

func named(name string, sp explore.Space) explore.Space {
	sp.Name = name
	return sp
}

// foldSpace has words with letters that only fold to theirs, or look like
// them, one at a time.
func foldSpace(words, contexts []string) explore.Space {
	like := map[rune]string{'s': "ſѕｓ", 'k': "Kκ", 'a': "ａа", 'e': "е", 'i': "ıİ", 'o': "оο", 'p': "р", 'c': "с", 'm': "ｍµ", 'h': "һ", 'f': "ｆ", 't': "т", 'n': "ո", 'r': "г", 'b': "Ь", 'u': "υ", 'x': "х", 'y': "у", 'd': "ԁ", 'j': "ј", 'l': "ⅼ", 'g': "ɡ", 'v': "ѵ", 'w': "ԝ"}
	return parseSpace("folds", "every word with each of its letters replaced by ones of other alphabets that fold to it or look like it", func(y gen.Yield) {
		for _, w := range words {
			for i, r := range w {
				for _, l := range like[unicode.ToLower(r)] + string(r) + "́‍" {
					for _, t := range []string{w[:i] + string(l) + w[i+len(string(r)):], w[:i+len(string(r))] + string(l) + w[i+len(string(r)):]} {
						for _, v := range []string{t, strings.ToUpper(t), strings.ToUpper(t[:1]) + t[1:]} {
							for _, c := range contexts {
								if !y(Case{Text: strings.ReplaceAll(c, "%s", v)}) {
									return
								}
							}
						}
					}
				}
			}
		}
	})
}

// wideSteps are the numbers of like parts side by side.
func (t Tier) wideSteps() []int {
	return [][]int{{40, 300}, {1, 2, 3, 17, 33, 65, 129, 257, 300, 1025, 10001}, {1, 2, 3, 5, 9, 17, 33, 65, 129, 257, 300, 513, 1025, 2049, 4097, 10001, 20002, 65537}}[min(t.Level, 2)]
}

// patterns fills templates of the form "text|sep|text" with every sequence of
// up to n of the items, so that equal, ascending and descending neighbours,
// first and last ones, etc. all occur.
func patterns(n int, items []string, templates ...string) gen.Enum {
	return func(y gen.Yield) {
		for _, t := range templates {
			f := strings.Split(t, "|")
			ok := true
			gen.Strings(items, 1, n, f[1])(func(c Case) bool {
				ok = y(Case{Text: f[0] + c.Text + f[2]})
				return ok
			})
			if !ok {
				return
			}
		}
	}
}

func digitStrings(n int) []string {
	return gen.All(gen.Strings([]string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}, 1, n, ""))
}

func bigNumbers() []string {
	out := []string{"9223372036854775807", "9223372036854775808", "9223372036854775806", "9223372036854775809", "18446744073709551615", "18446744073709551616",
		"9007199254740991", "9007199254740992", "9007199254740993", "2147483647", "2147483648", "4294967296",
		"100000000000000000000", "1" + strings.Repeat("0", 308), "1" + strings.Repeat("0", 308) + ".0", "1" + strings.Repeat("0", 309) + ".0",
		"0." + strings.Repeat("0", 300) + "1", "0." + strings.Repeat("0", 400) + "1", "0.1", "0.30000000000000004", "1.7976931348623157", "3.141592653589793238462643383279",
		"2562047.5", "2562048", "2562047", "9223372036.854775807", "9223372036.854775808", "0.000000001", "0.0000000001", "00000000000000000000001"}
	for n := 1; n <= 40; n++ {
		out = append(out, strings.Repeat("9", n), "1"+strings.Repeat("0", n), "0."+strings.Repeat("0", n)+"5", strings.Repeat("7", n)+".25")
	}
	return out
}

func durationTails(n int) []string {
	return gen.All(gen.Strings([]string{"h", "m", "s", "ms", "us", "3", "45", "0", "x", "_"}, 1, n, ""))
}

var q3 = []string{"1", "-1", "+2.5", "5C", "-5C", "1km", "-1km", "2bar", "-2bar", "3h", "7%", "a", "-a"}

// pairs fills templates with all ordered pairs of signed quantities.
func pairs(templates []string) gen.Enum {
	var qs []string
	for _, s := range []string{"", "-", "+"} {
		for _, q := range []string{"1", "2.5", "5%", "1km", "2M", "3kph", "4C", "5F", "6bar", "7psi", "8h", "9ms", "a", "@v", `"s"`, "(1)", "[1]", "true"} {
			qs = append(qs, s+q)
		}
	}
	return func(y gen.Yield) {
		for _, t := range templates {
			for _, a := range qs {
				for _, b := range qs {
					if !y(Case{Text: strings.NewReplacer("%1", a, "%2", b).Replace(t)}) {
						return
					}
				}
			}
		}
	}
}

// elements are list elements of every type, and things that are none.
var elements = []string{
	"1", "-2", "2.5", `"s"`, "a", `a{"x"}`, "@v", "5%", "1km", "2M", "3kph", "4C", "-5F", "6bar", "8h", "1 .. 2", "1km .. 2km", "a .. b",
	"true", "*", "(1)", "[1]", "point[1,2]", "date[2024-01-02]", "time[9:05]", "weekday[mon]", "month[jan .. feb]", "",
}

func listSpaces(t Tier) []explore.Space {
	contexts := []string{"when %s", "when a in %s and b", "trigger set v = %s; when a", "trigger set v = %s w = 1 when a", "when (%s)", "when a:%s,1 == b", "when %s == %s"}
	var lists2, lists3, mixed []string
	for _, a := range elements {
		lists2 = append(lists2, "["+a+"]")
		for _, b := range elements {
			for _, sep := range []string{",", ", ", " ", ":", ";", ",,"} {
				lists2 = append(lists2, "["+a+sep+b+"]")
			}
			for _, c := range elements {
				lists3 = append(lists3, "["+a+","+b+","+c+"]")
			}
		}
	}
	bounds := append([]string{}, elements...)
	bounds = append(bounds, "date[2024-01-02 .. 2024-01-03]", "[1,2]", "a:1", "a + b", "-1", "+3", "@w", "5h")
	var ranges []string
	for _, a := range bounds {
		for _, b := range bounds {
			for _, op := range []string{" .. ", " range ", " . . ", " . ", " ... ", " RANGE "} {
				ranges = append(ranges, a+op+b)
			}
			ranges = append(ranges, a+" .. "+b+" .. "+a)
		}
	}
	_ = mixed
	ss := []explore.Space{
		hugeSpace(t, "lists"),
		parseSpace("lists2", "all lists of up to 2 elements of any type, all separators, all contexts", gen.In(gen.Texts(lists2), contexts)),
		parseSpace("lists3", "all lists of 3 elements of any type", gen.In(gen.Texts(lists3), []string{"when %s", "trigger set v = %s when a"})),
		parseSpace("ranges", "all pairs of bounds of any type", gen.In(gen.Texts(ranges), []string{"when %s", "when a in %s and b", "when [%s]", "when [%s, %s]", "trigger set v = %s; when a"})),
		parseSpace("patterns", "equal, ascending and descending elements in every order", func(y gen.Yield) {
			for _, items := range [][]string{{"1", "2", "-1"}, {"1.5", "2.5", "-1.5"}, {"0", "1", "00"}, {"1.0", "2.0", "1.00"}, {`"a"`, `"b"`, `"A"`}, {"a", "b", "A"}, {"@a", "@b", "@A"}, {"1 .. 2", "2 .. 1", "1 .. 1"}, {"1km", "1M", "2km"}, {"1h", "60m", "1s"}, {"1C", "-1C", "1F"}, {"1%", "2%", "1PCT"}, {"1bar", "-1bar", "1psi"}, {"1kph", "1mph", "2kph"}, {`a{"x"}`, `a{"y"}`, "a{*}"}} {
				ok := true
				patterns(t.at(5, 7, 9), items, "when [|,|]", "when a in [|, |] and b", "trigger set v = [|,|] w = 1; when a")(func(c Case) bool {
					ok = y(c)
					return ok
				})
				if !ok {
					return
				}
			}
		}),
		parseSpace("lengths", "lists of each element type of every length", sweep(steps(t.at(40, 300, 300), t.at(2000, 20000, 20000)), func(n int) []string {
			var out []string
			for _, e := range elements[:18] {
				out = append(out, "when a in ["+rep(n, ", ", func(int) string { return e })+"]")
			}
			out = append(out, "when ["+rep(n, ",", strconv.Itoa)+"]",
				"when a in ["+rep(n, ",", func(i int) string { return "x" + strconv.Itoa(i) })+"]",
				"when a in ["+rep(n, ",", func(i int) string { return strconv.Itoa(i) + " .. " + strconv.Itoa(i+1) })+"]",
				"when a in ["+rep(n, ",", func(i int) string { return `"` + strings.Repeat("q", i%7) + strconv.Itoa(i) + `"` })+"]",
				"trigger set v = ["+rep(n, ",", func(i int) string { return "-" + strconv.Itoa(i) })+"] w = 2; when a",
				"when a in ["+rep(n, ",", func(i int) string { return strconv.Itoa(i) + ".5" })+", x]",
				"when a in ["+rep(n, ",", func(i int) string { return "1" })+", 2.5]",
				"when a in ["+rep(n, ",", func(i int) string { return "1" })+",]")
			return out
		})),
		parseSpace("strings", fmt.Sprintf("all token strings inside brackets, up to %d tokens", t.at(4, 5, 6)),
			gen.Wrap(gen.Strings([]string{"1", "2.5", "a", "@", "-", ",", "..", "[", "]", ":", ";", "\"s\"", "C", "("}, 0, t.at(4, 5, 6), " "), "when [", "]")),
		parseSpace("edits", "all single-token edits of list and range seeds", gen.Edits([]string{
			"when a in [1, 2, 3] and b", `when ["a", "b"] == s`, "when [1 .. 2, 3 .. 4]", "when [@v, @w]", "when 1 .. 2 == a", "trigger set l = [1km, 2M]; r = -1 .. 1; when a",
			"when [a, b{*}, c:1, 2]", "when [1C, -2F]", "when 1.5 .. -2.5", "when [[1]]", "when a .. b in [1h]",
		}, gen.Vocab, 1)),
	}
	if t.Level >= 1 {
		var lists4 []string
		el := elements[:18]
		for _, a := range el {
			for _, b := range el {
				for _, c := range el {
					for _, d := range el {
						lists4 = append(lists4, "["+a+","+b+","+c+","+d+"]")
					}
				}
			}
		}
		ss = append(ss, parseSpace("lists4", "all lists of 4 elements of any list type", gen.Wrap(gen.Texts(lists4), "when ", "")),
			parseSpace("edits2", "double edits", gen.Edits([]string{"when [1, 2]", "when 1 .. 2", "when [a .. b]"}, gen.Vocab, 2)))
	}
	return ss
}

func clauseSpaces(t Tier) []explore.Space {
	names := []string{"a", "A", "abc", "v_1", "x9", "Ünï", "every", "after", "km", "mon", "h", "time", "true", "1", "@a", "not", strings.Repeat("n", 70)}
	values := append([]string{}, gen.Operands...)
	values = append(values, "[@v]", "@v", "(@v)", "[@v, 1]", "-a", "", "=", "1 2", "1;2")
	clause := []string{"trigger", "set", "when", "repeat", "reset", "every", "after", "a", "b", "=", ";", "1", "3", "10s", "1.5h", "1h", "2.5", "and", "foo"}
	kw := func(w string) []string { return gen.FewCases(w) }
	counts := []string{"", "0", "1", "3", "007", "2147483648", "9223372036854775807", "9223372036854775808", "-3", "+3", "3.0", "3h", "3km", "a", `"3"`, "@v", "(3)", "[3]", "not 3"}
	delays := []string{"", "10s", "1h", "0s", "1.5h", "7h3m45s", "100ms", "10 s", "10S", "10", "1.5", "-10s", "10km", "10C", "a", `"10s"`, "10s10", "10h5", "9999999h", "2562047h", "not 10", "(10s)", "10m", "10ns", "10us", "0s1ns", "1s1500ns", "1ms1ns", "1h1us", "1h0.000001s", "2s999999999ns", "0.1ms", "0s0ms0us0ns", "1h1m1s1ms1us1ns", "0s7µs"}
	return []explore.Space{
		hugeSpace(t, "clauses"),
		foldSpace([]string{"trigger", "set", "when", "repeat", "reset", "every", "after"}, []string{"%s a", "%s when a", "%s set v = 1; when a", "%s v = 1; when a", "trigger %s v = 1; when a", "trigger set v = 1; %s a", "when a %s 3", "when a %s after 1h", "when a repeat 3 %s 5s", "when a reset %s 5s", "when %s"}),
		parseSpace("clauses", fmt.Sprintf("all strings of clause words after a condition, up to %d", t.at(4, 5, 6)), gen.Wrap(gen.Strings(clause, 0, t.at(4, 5, 6), " "), "when a ", "")),
		parseSpace("set-strings", "all strings of clause words after SET", gen.Wrap(gen.Strings(clause, 0, t.at(3, 4, 5), " "), "trigger set ", " when a")),
		parseSpace("set-viable", "viable prefixes of a SET clause", gen.Viable("trigger set", []string{"a", "b", "A", "=", ";", "1", "@", "[", "]", ",", "-", "when", "..", "(", ")"}, t.at(7, 9, 10), " ", []string{"", " when x"})),
		parseSpace("values", "every operand as value, alone and between other assignments, with and without semicolons",
			gen.In(gen.Texts(values), []string{"trigger set a = %s when b", "trigger set a = %s; when b", "trigger set a = 1; b = %s; c = 2; when b", "trigger set a = 1 b = %s c = 2 when b", "trigger set a = %s;; when b", "set a = %s; when b", "trigger set a = %s b = %s; when c", "trigger set a = %s; a = 1; when b"})),
		parseSpace("names", "names, pairs of names and names of different case", gen.Wrap(gen.Product("", names, []string{" = 1; "}, names, []string{" = 2; "}, []string{"", "a = 3;", "A = 3 ;", "v_1 = 3"}), "trigger set ", " when @a == 1")),
		parseSpace("three", "three assignments with all name combinations", gen.Map(gen.Product(" ", []string{"a", "b", "A"}, []string{"a", "b", "B"}, []string{"a", "b", "c", "C"}), func(s string) string {
			f := strings.Fields(s)
			return "trigger set " + f[0] + " = 1; " + f[1] + " = 2; " + f[2] + " = 3; when x"
		})),
		parseSpace("repeat", "counts x intervals x delays", gen.Map(gen.Product("|", counts, delays, []string{"", "1h", "1.5h", "10", "x"}), func(s string) string {
			f := strings.Split(s, "|")
			out := "when a repeat " + f[0]
			if f[1] != "" {
				out += " every " + f[1]
			}
			if f[2] != "" {
				out += " reset after " + f[2]
			}
			return out
		})),
		parseSpace("reset", "delays and connecting words", gen.Chain(
			gen.Wrap(gen.Product(" ", kw("reset"), append(kw("after"), "every", "", "in", "a", "1", "afte", "afters", "after after"), delays), "when a ", ""),
			gen.Wrap(gen.Product(" ", append(kw("repeat"), "repeats"), []string{"3", ""}, append(kw("every"), "after", "", "in", "a", "1", "ever", "everyy", "every every"), delays), "when a ", ""),
			gen.Wrap(gen.Product(" ", append(kw("trigger"), ""), append(kw("set"), ""), []string{"a = 1", "a = 1;", ""}, append(kw("when"), ""), []string{"b"}), "", ""))),
		parseSpace("conditions", "clauses after every kind of condition", gen.In(gen.Texts(gen.Operands), []string{"when %s repeat 2", "when %s reset after 5s", "when %s repeat 2 every 3s reset after 5s", "trigger set a = 1 when %s repeat", "when x == %s repeat 3"})),
		parseSpace("numbers", "every small count, interval and delay", func(y gen.Yield) {
			for n := 0; n <= t.at(400, 3000, 20000); n++ {
				for _, s := range []string{"when a repeat %d", "when a repeat %d every %ds", "when a repeat %d every %dh reset after %dm", "when a reset after %ds", "when a reset after %dms", "trigger set v = %d; when a repeat %d reset after %d.5h", "when a repeat 2 every 1h%dm", "when a repeat 2 every %dh%ds"} {
					if !y(Case{Text: strings.ReplaceAll(s, "%d", strconv.Itoa(n))}) {
						return
					}
				}
			}
		}),
		parseSpace("patterns", "equal and different values of assignments in every order", func(y gen.Yield) {
			gen.Strings([]string{"1", "2", "[1]", "s:1", "1h"}, 1, t.at(4, 6, 7), " ")(func(c Case) bool {
				v := strings.Fields(c.Text)
				a := "trigger set " + rep(len(v), "; ", func(i int) string { return string(rune('a'+i)) + " = " + v[i] })
				b := "trigger set " + rep(len(v), " ", func(i int) string { return string(rune('z'-i)) + " = " + v[i] })
				return y(Case{Text: a + " when x"}) && y(Case{Text: b + "; when @z"})
			})
		}),
		parseSpace("counts", "numbers of assignments", sweep(steps(t.at(60, 300, 300), t.at(1100, 5000, 5000)), func(n int) []string {
			return []string{
				"trigger set " + rep(n, " ", func(i int) string { return fmt.Sprintf("v%d = %d;", i, i) }) + " when a",
				"trigger set " + rep(n, "\n", func(i int) string { return fmt.Sprintf("V%d = \"s%d\"", i, i) }) + " when @V0",
				"trigger set " + rep(n, " ", func(i int) string { return fmt.Sprintf("v%d = %d;", i, i) }) + fmt.Sprintf(" v%d = 1; when a", n/2),
				"trigger set " + rep(n, " ", func(i int) string { return fmt.Sprintf("v%d = [%d, 2]", i, i) }) + fmt.Sprintf(" V%d = 1; when a", n/2),
			}
		})),
		parseSpace("long-names", "assigned and used names of every length that differ at one place, or of which one extends the other", func(y gen.Yield) {
			for _, n := range steps(t.at(3, 70, 300), t.at(140, 2100, 66000)) {
				base := strings.Repeat("n", n)
				for _, v := range []string{base + "x", "x" + base, base[:n/2] + "x" + base[n/2:], base[:n-1] + "x", base[:n-1] + "N", "N" + base[1:], base, base + base, base[:n/2+1], base + "é"} {
					for _, c := range []string{"trigger set $ = 1; # = 2; when @$ == @#", "trigger set $ = # # = $ when @#", "trigger set # = @$; $ = @#; #$ = 3; when # repeat 3", "trigger set a = 1; $ = 2; b = 3; # = 4; when b reset after 1h"} {
						if !y(Case{Text: strings.NewReplacer("$", base, "#", v).Replace(c)}) || !y(Case{Text: strings.NewReplacer("$", v, "#", base).Replace(c)}) {
							return
						}
					}
				}
			}
		}),
		parseSpace("long-values", "assignments of values with many parts, right, mistyped and broken, before and after others", sweep(steps(t.at(2, 20, 70), t.at(70, 1100, 5000)), func(n int) []string {
			return gen.All(gen.In(gen.Texts(gen.Long(n)), []string{"trigger set v = %s when a", "trigger set v = %s; w = %s when a repeat 3 every 10s", "trigger set u = 1 v = %s w = 2; when @v reset after 1h", "trigger set v = %s, w = 1; when a", "trigger set v = %s; v = 1; when b"}))
		})),
		parseSpace("edits", "all single-token edits of clause seeds", gen.Edits([]string{
			`trigger set a = [1,2]; b = "x"; C = point[1,2]; when @a == @C repeat 3 every 10s reset after 24h`,
			"trigger set a = 1 b = 2 when @a > @b", "trigger set a = 1; when b repeat", "when a repeat 3", "when a repeat 3 every 10s", "when a reset after 1.5h",
			"when a repeat reset after 1h", "trigger when a reset after 1s", "trigger set when a repeat 1", "trigger set s = sel:1,2; r = 1 .. 2; when s",
		}, gen.Vocab, 1)),
		parseSpace("edits2", "all double-token edits of short clause seeds", gen.Edits([]string{"when a repeat 3 every 10s", "trigger set a = 1; when b", "when a reset after 1h"}[:t.at(2, 3, 3)], t.vocab(), 2)),
	}
}

func (t Tier) vocab() []string {
	if t.Level >= 1 {
		return gen.Vocab
	}
	return gen.SmallVocab
}

func selectorSpaces(t Tier) []explore.Space {
	names := []string{"a", "A", "aB_9", "_", "_x", "Ünï", "ДОМ", "日本", "x" + strings.Repeat("y", 63), strings.Repeat("Z", 64), strings.Repeat("n", 65), "every", "after", "am", "Mon", "km", "h", "notx", "not_", "in_", "times", "point1", "SET1"}
	braces := []string{`"x"`, `"y"`, `""`, "*", ",", "}", "{", "1", "a", `"*"`, ":"}
	// string contents: all strings over an alphabet of troublesome characters
	content := []string{`\"`, `\\`, `\n`, `\x41`, `\u00e9`, `\'`, "'", " ", "a", "*", ",", "}", "//", "/*", "é", "\t", `\0`, `"`, `\`, "\n", "`", "{", "@"}
	strs := gen.Map(gen.Strings(content, 0, t.at(3, 4, 5), ""), func(s string) string { return `"` + s + `"` })
	props := []string{"1", "-1", "2.5", "1km", "2M", "b", "b:2", `"s"`, "@v", "1 .. 2", "[1,2]", "(1)", "true", "*", "5%", "time[9:05]", "point[1,2]", "3h", "-2C", "x{*}", ""}
	contexts := []string{"when %s", "when %s == 1", "when 1 == %s", "when [%s, b]", "when (%s) and c", "trigger set v = %s; when a", "trigger set v = %s w = 1 when a", "when %s .. %s", "when a:%s", "when %s repeat 2", "when %s and %s"}
	ss := []explore.Space{
		hugeSpace(t, "selectors"),
		parseSpace("names", "names in every context, every single-letter case flip", gen.In(gen.Texts(append(gen.FewCases("tracker_point9"), names...)), contexts)),
		parseSpace("letters", "all identifiers of up to 3 characters over a mixed alphabet", gen.Wrap(gen.Strings([]string{"a", "Z", "m", "_", "0", "9", "é", "İ", "ß", "٣", "-", ".", "$"}, 1, 3, ""), "when ", " == 1")),
		parseSpace("braces", fmt.Sprintf("all token strings inside braces, up to %d", t.at(4, 5, 6)), gen.In(gen.Strings(braces, 0, t.at(4, 5, 6), " "), []string{"when s{%s}", "when s{%s} == 1", "when s{%s}:1 == a"})),
		parseSpace("braces-set", "all sequences of ids and wildcards, all contexts", gen.In(gen.Map(gen.Strings([]string{`"x"`, `"y"`, "*", `"X"`}, 0, t.at(3, 4, 5), ","), func(s string) string { return "s{" + s + "}" }), contexts)),
		parseSpace("contents", "all string contents up to 3 pieces, as literal and as device id", gen.In(strs, []string{"when s == %s", "when s{%s} == 1", `when s{%s, "z", *}:2`, "trigger set v = %s; w = [%s, \"q\"]; when a"})),
		parseSpace("characters", "every character up to a limit (and those around the limits of every encoded length and of the classes of white space, signs and surrogates), and every single byte, in and around string contents, ids, names and numbers", func(y gen.Yield) {
			forms := []string{`when s == "$"`, `when s == "a$" and b`, `when s == "$a"`, `when s{"$", "a$b"}:1`, `when s{"$x"} == ["x$", "$"]`, `trigger set v = "$ $"; when a`, "when $", "when x$ == 1", "when $x == 1", "trigger set x$y = 1; when @x$y", "when 1$ == 2", "when a ==$1"}
			each := func(c string) bool {
				for _, f := range forms {
					if !y(Case{Text: strings.ReplaceAll(f, "$", c)}) {
						return false
					}
				}
				return true
			}
			for b := 0x80; b < 0x100; b++ {
				if !each(string([]byte{byte(b)})) || !each(string([]byte{byte(b), 0x80})) {
					return
				}
			}
			limit := rune(t.at(0x250, 0x3400, 0x20000))
			for r := rune(0); r < limit; r++ {
				if !each(string(r)) {
					return
				}
			}
			for _, r := range []rune{0x7ff, 0x800, 0x1680, 0x180e, 0x2000, 0x2007, 0x200b, 0x200d, 0x2018, 0x201c, 0x2028, 0x2029, 0x202f, 0x205f, 0x2060, 0x2126, 0x212a, 0x212b, 0x2212, 0x2260, 0x3000, 0x4e00, 0xa000, 0xac00, 0xd7ff, 0xe000, 0xf8ff, 0xfb00, 0xfdd0, 0xfe0f, 0xfeff, 0xff02, 0xff10, 0xff21, 0xff41, 0xfff9, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10400, 0x1d400, 0x1d7ce, 0x1f600, 0x20000, 0x2fffe, 0xe0001, 0xe0100, 0xf0000, 0x10fffd, 0x10ffff} {
				if r >= limit && !each(string(r)) {
					return
				}
			}
		}),
		parseSpace("long-contents", "a troublesome piece at the start, in the middle and at the end of string contents of every length, as literal, device id and list element", func(y gen.Yield) {
			for _, n := range steps(t.at(2, 20, 70), t.at(1100, 4200, 66000)) {
				for _, p := range append([]string{"  ", " \t ", "   a  ", "世", "\U0001F600", "\r", "\r\n", "%s", "%", "é  é", "A", "0"}, content...) {
					for _, text := range []string{p + strings.Repeat("s", n), strings.Repeat("s", n/2) + p + strings.Repeat("s", n-n/2), strings.Repeat("s", n) + p, strings.Repeat("s s", n/3) + p + strings.Repeat(" s ", n/3)} {
						for _, c := range []string{`when s == "$" or b`, `when s{"$"}:1 == "$x"`, `trigger set v = ["a", "$", "b"]; w = "$"; when s{"x", "$"} == @v`} {
							if !y(Case{Text: strings.ReplaceAll(c, "$", text)}) {
								return
							}
						}
					}
				}
			}
		}),
		parseSpace("long-names", "names and device ids of every length that differ at one place, or of which one extends the other", func(y gen.Yield) {
			for _, n := range steps(t.at(3, 30, 140), t.at(300, 2100, 66000)) {
				base := strings.Repeat("n", n)
				for _, v := range []string{base + "x", "x" + base, base[:n/2] + "x" + base[n/2:], base[:n-1] + "x", base[:n-1] + "N", "N" + base[1:], base, base + base, base[:n/2+1], base + "é"} {
					for _, c := range []string{`when s{"$", "#"} == 1`, `when s{"$", *, "#"}:$ == #`, "when $ == # or #:$ > [$, #]", `when ["$", "#"] == "$"`, "trigger set $ = 1; # = 2; when @$ == @#", "trigger set $ = # # = $ when @#"} {
						if !y(Case{Text: strings.NewReplacer("$", base, "#", v).Replace(c)}) || !y(Case{Text: strings.NewReplacer("$", v, "#", base).Replace(c)}) {
							return
						}
					}
				}
			}
		}),
		parseSpace("huge-tokens", "names, variables, strings, device ids and numbers as long as any counter of their length may be wide", func(y gen.Yield) {
			for _, n := range []int{32767, 65533, 65534, 65535, 65536, 65537, 131072, 1 << 20}[:t.at(5, 8, 8)] {
				r := func(s string) string { return strings.Repeat(s, n/len(s)) }
				for _, text := range []string{
					`when a == "` + r("s") + `" and b`, `when a in ["x", "` + r("é") + `", "y"]`, `when s{"` + r("i") + `", "j", *}:1 > 2`, `trigger set v = "` + r("x y ") + `"; w = s:"` + r("z") + `", 1 when @v`,
					"when " + r("n") + " == b", "when (a and " + r("世") + ") or b", "when s:" + r("p") + ", 2 == 1", "trigger set " + r("v") + " = 1 w = 2; when a + @" + r("v") + " > @w",
					"when a == " + r("0") + "5 and b", "when a == 5." + r("0") + "25km", "when [1, " + r("0") + "7, 3] == b", "when point[" + r("0") + "1, -2." + r("0") + "]:" + r("0") + "5m == b", "when a repeat " + r("0") + "3 every " + r("0") + "10s reset after 1." + r("0") + "5h",
					"when a /*" + r("c") + "*/ and b // " + r("d"),
				} {
					if !y(Case{Text: text}) {
						return
					}
				}
			}
		}),
		parseSpace("props", "all sequences of properties", gen.Chain(
			gen.In(gen.Product(",", props, props), []string{"when s:%s", "when s{*}:%s == 1", `when s{"x"}: %s and b`, "trigger set v = s:%s; when a"}),
			gen.In(gen.Texts(props), func() (out []string) {
				for _, c := range contexts {
					out = append(out, strings.ReplaceAll(c, "%s", "s:%s"))
				}
				return
			}()),
			gen.Wrap(gen.Product(",", props, props, props), "when s:", ""))),
		parseSpace("patterns", "equal and different ids, wildcards and properties in every order", gen.Chain(
			patterns(t.at(5, 8, 9), []string{"1", "2", "a"}, "when s:|,|", "when s{*}:|,| == 1", `when s{"x"}:|, |`, "trigger set v = s:|,|; when a"),
			patterns(t.at(4, 6, 7), []string{"1km", "1M", "1.0", `"1"`, "-1"}, "when s:|,|", `when s{"x", *}:|,| in a`),
			patterns(t.at(5, 8, 9), []string{`"x"`, `"y"`, "*"}, "when s{|,|}", "when s{|, |}:1", "when s{| |} == a"),
			patterns(t.at(4, 6, 7), []string{`"x"`, `"X"`, `"x "`, `" x"`, `""`}, "when s{|,|}", "when [|,|]", "when a == | or b == |"))),
		parseSpace("lengths", "numbers of ids and properties, lengths of names and ids", sweep(steps(t.at(70, 300, 300), t.at(2100, 9000, 9000)), func(n int) []string {
			return []string{
				"when s{" + rep(n, ",", func(i int) string { return fmt.Sprintf(`"id%d"`, i) }) + "}",
				"when s{" + rep(n, " ", func(i int) string { return fmt.Sprintf(`"id%d"`, i%7) }) + ",*}:1",
				"when s:" + rep(n, ",", strconv.Itoa) + " == 1",
				"when s:" + rep(n, ",", func(i int) string { return fmt.Sprintf("%d.5km", i) }),
				"when s" + strings.Repeat("X", n) + " == 1",
				`when s{"` + strings.Repeat("i", n) + `"}`,
				`when s == "` + strings.Repeat("é", n) + `" and "` + strings.Repeat(`\"`, n) + `" == t`,
			}
		})),
		parseSpace("edits", "all single-token edits of selector seeds", gen.Edits([]string{
			`when s{"id1", "id2", *}:1km,6km,12km in 1kph .. 40kph`, `when s{*} == "x y" and t{"z"} != ""`, "when a:-1,2 .. 3 == b:c", `when s{"x"}`, "when s:1", "when s{}",
			`when [a{"x"}, b:1, c]`, `trigger set v = s{"x","y"}:1; when v`,
		}, gen.Vocab, 1)),
		parseSpace("byte-edits", "all single-byte edits of selector and string seeds", gen.ByteEdits([]string{`when s{"id1", *}:1km == "a\"b"`, `when S_1{"x"} == "\u00e9\x41\101"`, `trigger set v = "it's // not /* a comment"; when s`}, gen.Garbage)),
	}
	if t.Level >= 1 {
		ss = append(ss, parseSpace("edits2", "double edits", gen.Edits([]string{`when s{"x", *}:1`, `when s{"x"}`, "when s:1,2"}, gen.Vocab, 2)))
	}
	return ss
}

func calendarSpaces(t Tier) []explore.Space {
	contexts := []string{"when %s", "when a in %s and b", "trigger set v = %s; when a", "trigger set v = %s w = 1 when a", "when (%s)", "when %s == %s", "when a:%s,1", "when %s .. 1"}
	rng := func(lo, hi int, f string) (out []string) {
		for i := lo; i <= hi; i++ {
			out = append(out, fmt.Sprintf(f, i))
		}
		return
	}
	years := append(rng(2020, 2024, "%d"), "0", "1", "999", "2199", "2200", "2201", "2202", "02022", "20220", "22", "2.5", "x", "-2022", "99999999999999999999")
	monthsN := append(append(rng(0, 13, "%d"), rng(0, 13, "%02d")...), "99", "x", "1.5", "")
	daysN := append(append(rng(0, 33, "%d"), rng(0, 9, "%02d")...), "99", "x", "1.5", "")
	hours := append(append(rng(0, 26, "%d"), rng(0, 9, "%02d")...), "99", "x", "")
	mins := append(append(rng(0, 61, "%d"), rng(0, 9, "%02d")...), "99", "100", "x", "")
	var dn, mn []string
	for _, d := range []string{"sun", "mon", "tue", "wed", "thu", "fri", "sat"} {
		dn = append(dn, gen.Cases(d)...)
	}
	for _, m := range []string{"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"} {
		mn = append(mn, gen.Cases(m)...)
	}
	wrong := []string{"mom", "sunday", "s", "january", "ja", "1", "", "*", "@a", `"mon"`, "true", "in", "not mon", "set"}
	days := append([]string{"sun", "Mon", "TUE", "wed", "thu", "fri", "sat"}, wrong...)
	mons := append([]string{"jan", "Feb", "MAR", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"}, wrong...)
	units := []string{"", "AM", "pm", "Am", "pM", " AM", "A", "x", "h", "am am", "km"}
	seps := []string{",", " .. ", ", ", " ", " . ", " range ", ";", "-", ":", "", " ... ", ",,"}
	dates := []string{"2024-01-02", "2022-1-1", "2200-12-31", "2024-13-01", "2024-01", "2024"}
	times := []string{"9:05", "10:06:07", "11:08AM", "1:2:3pm", "25:00", "9", "9:05:06:07", "9:60"}
	seq := func(items []string, n int) []string {
		var out []string
		for k := 2; k <= n; k++ {
			lists := [][]string{items}
			for i := 1; i < k; i++ {
				lists = append(lists, seps, items)
			}
			if k == 3 {
				for i := range lists {
					if i%2 == 0 && len(lists[i]) > 4 {
						lists[i] = lists[i][:4]
					}
				}
			}
			out = append(out, gen.All(gen.Product("", lists...))...)
		}
		return out
	}
	wr := func(kw string, l []string) gen.Enum { return gen.Wrap(gen.Texts(l), kw+"[", "]") }
	inTok := []string{"2024", "01", "9", "05", "-", ":", ",", "..", ".", "mon", "jan", "am", "[", "]", "not", "x", "1.5"}
	ss := []explore.Space{
		hugeSpace(t, "times"),
		foldSpace([]string{"sun", "mon", "tue", "wed", "thu", "fri", "sat", "jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec", "sunday", "tuesday", "june"}, []string{"when weekday[%s]", "when month[%s]", "when weekday[mon, %s]", "when month[jan .. %s]"}),
		named("folds-kinds", foldSpace([]string{"weekday", "month", "date", "time"}, []string{"when %s[mon]", "when %s[jan]", "when %s[2024-01-02]", "when %s[9:05]"})),
		named("folds-noon", foldSpace([]string{"am", "pm"}, []string{"when time[9:05%s]", "when time[9:05:06 %s]"})),
		parseSpace("dates", "years x months x days in and out of range", gen.Wrap(gen.Product("-", years, monthsN, daysN), "when date[", "]")),
		parseSpace("all-dates", "every date of every year", func(y gen.Yield) {
			for yr := 2022; yr <= 2200; yr += t.at(11, 1, 1) {
				for m := 1; m <= 12; m++ {
					for d := 1; d <= 31; d++ {
						if !y(Case{Text: fmt.Sprintf("when date[%d-%02d-%02d]", yr, m, d)}) {
							return
						}
					}
				}
			}
		}),
		parseSpace("all-years", "every year", func(y gen.Yield) {
			for yr := 1990; yr <= 2230; yr++ {
				for _, s := range []string{"when date[%d-01-31]", "when date[%d-12-01 .. %d-1-2]", "when date[2024-01-02, %d-5-6]"} {
					if !y(Case{Text: strings.ReplaceAll(s, "%d", strconv.Itoa(yr))}) {
						return
					}
				}
			}
		}),
		parseSpace("times", "hours x minutes in and out of range, with units", gen.Wrap(gen.Product("", hours, []string{":"}, mins, []string{"", "AM", "pm", "x"}), "when time[", "]")),
		parseSpace("seconds", "hours x minutes x seconds", gen.Wrap(gen.Product("", []string{"0", "9", "12", "23", "24", "25"}, []string{":"}, []string{"0", "05", "59", "60"}, []string{":"}, mins, units), "when time[", "]")),
		parseSpace("all-times", "every time of day", func(y gen.Yield) {
			for h := 0; h <= 24; h++ {
				for m := 0; m < 60; m++ {
					for s := 0; s < 60; s += t.at(7, 1, 1) {
						if !y(Case{Text: fmt.Sprintf("when time[%d:%02d:%d]", h, m, s)}) {
							return
						}
					}
				}
			}
		}),
		parseSpace("names", "all letter cases of all day and month names, all contexts for the common ones", gen.Chain(
			gen.Wrap(gen.Texts(append(append([]string{}, dn...), mn...)), "when weekday[", "]"), gen.Wrap(gen.Texts(append(append([]string{}, dn...), mn...)), "when month[", "]"),
			gen.Wrap(gen.Strings([]string{"m", "o", "n", "j", "a", "u", "s", "f", "r", "i", "d", "e", "c"}, 1, t.at(3, 4, 5), ""), "when weekday[", "]"),
			gen.Wrap(gen.Strings([]string{"m", "o", "n", "j", "a", "u", "s", "p", "r", "l", "d", "e", "c"}, 1, t.at(3, 4, 5), ""), "when month[", "]"))),
		parseSpace("pairs", "all pairs of elements and separators", gen.In(gen.Chain(wr("date", seq(dates, 2)), wr("time", seq(times, 2)), wr("weekday", seq(days, 2)), wr("month", seq(mons, 2))), contexts[:4])),
		parseSpace("triples", "triples of elements and separators", gen.In(gen.Chain(wr("date", seq(dates, 3)), wr("time", seq(times, 3)), wr("weekday", seq(days, 3)), wr("month", seq(mons, 3))), contexts[:1])),
		parseSpace("contexts", "every calendar operand in every context", gen.In(gen.Texts([]string{"date[2024-02-29]", "date[2024-01-02 .. 2024-03-04]", "date[2024-01-02, 2024-03-04]", "time[9:05]", "time[23:59:58]", "time[9:05AM]", "time[9:05:06pm]", "time[9:05 .. 10:06]", "time[9:05AM, 10:06:07, 11:08PM]", "weekday[mon]", "weekday[Sun .. Sat]", "weekday[tue, Wed, THU]", "month[jan]", "month[Feb .. Dec]", "month[mar, Apr]", "date[]", "time[", "weekday", "month]"}), append(append([]string{}, contexts...), gen.Contexts...))),
		parseSpace("strings", fmt.Sprintf("all token strings inside each calendar literal, up to %d tokens", t.at(4, 5, 6)),
			gen.In(gen.Strings(inTok, 0, t.at(4, 5, 6), " "), []string{"when date[%s]", "when time[%s]", "when weekday[%s]", "when month[%s]"})),
		parseSpace("viable", "viable prefixes inside date and time", gen.Chain(
			gen.Viable("when date[", inTok, t.at(8, 9, 11), " ", []string{"", "]"}), gen.Viable("when time[", inTok, t.at(8, 9, 11), " ", []string{"", "]"}),
			gen.Viable("when weekday[", inTok, 6, " ", []string{"", "]"}), gen.Viable("when month[", inTok, 6, " ", []string{"", "]"}))),
		parseSpace("patterns", "lists of equal, ascending and descending elements", gen.Chain(
			patterns(t.at(4, 6, 8), []string{"2024-01-02", "2024-01-03", "2023-12-02", "2024-1-2"}, "when date[|,|]", "when date[| .. |]"),
			patterns(t.at(4, 6, 8), []string{"9:05", "10:05", "9:05:01", "9:05AM", "9:05PM"}, "when time[|,|]", "when time[| .. |]"),
			patterns(t.at(4, 6, 8), []string{"mon", "Mon", "tue", "sun"}, "when weekday[|,|]", "when weekday[| .. |]"),
			patterns(t.at(4, 6, 8), []string{"jan", "JAN", "feb", "dec"}, "when month[|,|]", "when month[| .. |]"),
			func(y gen.Yield) { // all pairs of days, months, hours and minutes
				d := []string{"sun", "mon", "tue", "wed", "thu", "fri", "sat"}
				m := []string{"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"}
				for _, sep := range []string{" .. ", ", "} {
					for i := 0; i < 12; i++ {
						for j := 0; j < 12; j++ {
							if !y(Case{Text: "when month[" + m[i] + sep + m[j] + "]"}) || !y(Case{Text: "when weekday[" + d[i%7] + sep + d[j%7] + "]"}) {
								return
							}
						}
					}
					for i := 0; i <= 24; i++ {
						for j := 0; j <= 24; j++ {
							for _, u := range []string{"", "AM", "PM"} {
								for _, v := range []string{"", "AM", "PM"} {
									if !y(Case{Text: fmt.Sprintf("when time[%d:05%s%s%d:07%s]", i, u, sep, j, v)}) || !y(Case{Text: fmt.Sprintf("when time[9:%02d%s%s9:%02d%s]", i, u, sep, j, v)}) {
										return
									}
								}
							}
						}
					}
				}
			})),
		parseSpace("lengths", "lists of every length", sweep(steps(t.at(60, 200, 200), t.at(1100, 4000, 4000)), func(n int) []string {
			return []string{
				"when date[" + rep(n, ",", func(i int) string { return fmt.Sprintf("%d-%d-%d", 2022+i%179, 1+i%12, 1+i%31) }) + "]",
				"when time[" + rep(n, ",", func(i int) string { return fmt.Sprintf("%d:%d:%d", i%25, i%60, (i/3)%60) }) + "]",
				"when time[" + rep(n, ", ", func(i int) string { return fmt.Sprintf("%d:%02dAM", i%13, i%60) }) + "]",
				"when weekday[" + rep(n, ",", func(i int) string { return dn[(i*8+i)%len(dn)] }) + "]",
				"when month[" + rep(n, ",", func(i int) string { return mn[(i*8+i)%len(mn)] }) + "]",
			}
		})),
		parseSpace("edits", "all single-token edits of calendar seeds", gen.Edits([]string{
			"when x in time[9:01AM .. 12:12PM] or x in time[11:11:11, 12:00]", "when x in weekday[mon .. fri] and y in month[jan, feb] and z in date[2024-01-02]",
			"when date[2024-01-02 .. 2024-03-04]", "when date[2024-01-02, 2024-03-04]", "when time[1:02:03 .. 4:05:06PM]", "when month[jan .. dec]", "when weekday[sun, mon, tue]",
			"trigger set t = time[9:00AM .. 5:00PM]; w = weekday[mon, tue]; when x in @t", "when time[9:05]", "when date[2024-02-29] .. 5",
		}, gen.Vocab, 1)),
		parseSpace("edits2", "double edits of short calendar seeds", gen.Edits([]string{"when time[9:05]", "when weekday[mon]", "when date[2024-01-02]"}[:t.at(1, 3, 3)], append(inTok, gen.SmallVocab...), 2)),
	}
	return ss
}

func geometrySpaces(t Tier) []explore.Space {
	nums := []string{"1", "-1", "2.5", "-2.5", "0", "- 3", "1.", "114.60937499999999", "007", "9007199254740993"}
	pts := gen.All(gen.Product("", []string{"["}, nums[:6], []string{",", ", ", " ", ",,", ""}, nums[:4], []string{"]", ",]"}))
	tok := []string{"[", "]", "1", "2.5", ",", "-", "a", "+", ":"}
	contexts := []string{"when %s", "when a intersects %s and b", "trigger set v = %s; when a", "trigger set v = %s w = -1 when a", "when (%s)", "when %s == %s", "when a:%s,1", "when a in multipoint[%s,point[5,6]]", "when a in collection[%s]", "when collection[line[[1,2]], %s, point[7,8]]", "when -1 == %s", "when %s .. 1", "when multiline[%s]", "when multipolygon[%s, polygon[[[1,2]]]]", "when [%s]", "when a repeat 1 every %s"}
	dist := []string{"", ":5km", ":2.5Km", ":500m", ":500M", ":1Rkm", ":5", ":5C", ":-5km", ": 5 km", ":+5km", ":5mi", ":5s", ":km", ":", ":a", ":5kmx", ":m", ":5mm", ":0M", ":[1]", ":5km:6km", ":5ms", ":2m5s", "::5km", ":5kM"}
	objs := []string{"point[1,2]", "point[3,4]:1km", "line[[1,2],[3,4]]", "line[[5,6]]:2M", "polygon[[[1,2],[3,4]]]", "polygon[[[1,2]],[[3,4]]]", "multipoint[point[1,2]]", "multiline[line[[1,2]]]", "multipolygon[polygon[[[1,2]]]]", "collection[point[1,2]]", "a", "1", "[1,2]", ""}
	shape := func(rings, points, members int) []string {
		p := func(i int) string { return fmt.Sprintf("[%d, -%d.5]", i, i+1) }
		k := 0
		next := func() string { k++; return p(k) }
		ring := func() string { return "[" + rep(points, ", ", func(int) string { return next() }) + "]" }
		poly := func() string { return "polygon[" + rep(rings, ",", func(int) string { return ring() }) + "]" }
		line := func() string { return "line" + ring() }
		pt := func() string { return "point" + next() }
		ms := func(n int, kind string, f func() string) string {
			return kind + "[" + rep(n, ", ", func(int) string { return f() }) + "]"
		}
		m := func(kind string, f func() string) string { return ms(members, kind, f) }
		return []string{
			"when a in " + poly(), "when a in " + line() + ":5km", m("when multipolygon", poly), m("when multiline", line), m("when multipoint", pt),
			m("when collection", poly), m("when collection", func() string { return ms(min(members, 12), "multiline", line) }),
			"trigger set v = " + m("collection", func() string { return pt() + ":3M, " + line() + "," + poly() }) + "; when a",
		}
	}
	ss := []explore.Space{
		hugeSpace(t, "geometry"),
		foldSpace([]string{"point", "line", "polygon", "multipoint", "multiline", "multipolygon", "collection"}, []string{"when %s[1,2]", "when %s[[1,2]]", "when %s[[[1,2]]]", "when %s[point[1,2]]", "when %s[line[[1,2]]]", "when %s[polygon[[[1,2]]]]", "when multipoint[%s[1,2]]", "when collection[%s[[1,2]]]"}),
		parseSpace("positions", "all written forms of a position, in each geometry", gen.In(gen.Texts(pts), []string{"when point%s", "when line[%s]", "when line[[7,8],%s]", "when polygon[[%s]]", "when polygon[[[7,8]],[%s,[9,9]]]", "when point%s:5km"})),
		parseSpace("numbers", "coordinates in all forms", gen.In(gen.Product(",", append(nums, bigNumbers()[:24]...), nums), []string{"when point[%s]", "when line[[%s],[1,2]]", "when polygon[[[%s]]]"})),
		parseSpace("strings", fmt.Sprintf("all token strings inside each geometry, up to %d tokens", t.at(5, 6, 7)), gen.In(gen.Strings(tok, 0, t.at(5, 6, 7), ""), []string{"when point[%s", "when line[%s", "when polygon[%s"})),
		parseSpace("brackets", "all bracket structures over complete positions", gen.In(gen.Strings([]string{"[", "]", "[1,2]", ",", "3"}, 0, t.at(7, 8, 9), ""), []string{"when line%s", "when polygon%s", "when line[[1,2]%s"})),
		parseSpace("point-viable", "viable prefixes of a point, line and polygon", gen.Chain(
			gen.Viable("when point", tok, t.at(9, 11, 12), " ", []string{""}), gen.Viable("when line[", tok, t.at(9, 11, 12), " ", []string{"", "]"}), gen.Viable("when polygon[[", tok, t.at(9, 11, 12), " ", []string{"", "]]"}))),
		parseSpace("members", "all sequences of up to 3 members in each collection", gen.In(gen.Chain(gen.Texts(objs), gen.Product("", objs, []string{",", ", ", " ", ",,", ";"}, objs), gen.Product(",", objs, objs, objs)),
			[]string{"when multipoint[%s]", "when multiline[%s]", "when multipolygon[%s]", "when collection[%s]", "when collection[multipoint[point[1,2]],%s]"})),
		parseSpace("unclosed", "collections with missing or extra brackets", gen.In(gen.Texts(objs), []string{"when multipoint[%s", "when multiline[%s", "when multipolygon[%s", "when collection[%s", "when multipoint %s", "when collection[%s,", "when collection[%s]]", "when collection[[%s]]", "when collection[%s == a", "when collection[%s] == a"})),
		parseSpace("radius", "radius and margin in all forms", gen.In(gen.Texts(dist), []string{"when point[1,2]%s", "when line[[1,2],[3,4]]%s", "when polygon[[[1,2]]]%s", "when point[1,2]%s == a", "when multipoint[point[1,2]%s,point[3,4]%s]", "when collection[line[[1,2]]%s]", "when collection[point[1,2]]%s", "trigger set v = point[1,2]%s w = 5 when a", "when line[[1,2]]%s and b", "when a:point[1,2]%s, 5"})),
		parseSpace("contexts", "every geometry in every context", gen.In(gen.Texts(append(objs, "point[-1.5, 2.5]:5km", "line[[-1,-2],[3,4]]:4M")), contexts)),
		parseSpace("shapes", "members x rings x points", func(y gen.Yield) {
			max := t.at(5, 9, 11)
			for m := 1; m <= max; m++ {
				for r := 1; r <= max; r++ {
					for p := 1; p <= max+1; p++ {
						for _, s := range shape(r, p, m) {
							if !y(Case{Text: s}) {
								return
							}
						}
					}
				}
			}
		}),
		parseSpace("rings", "all lists of rings and of member lines of different lengths, in WHEN and in TRIGGER SET", func(y gen.Yield) {
			sizes := []int{1, 2, 4, 5, 6, 9, 11}[:t.at(5, 7, 7)]
			max := t.at(4, 5, 5)
			seq := make([]int, 0, max)
			var rec func() bool
			rec = func() bool {
				if len(seq) > 0 {
					k := 0
					rings := rep(len(seq), ", ", func(i int) string {
						return "[" + rep(seq[i], ", ", func(int) string { k++; return fmt.Sprintf("[%d, -%d.5]", k, k+1) }) + "]"
					})
					lines := "line" + strings.ReplaceAll(rings, "]], [[", "]]:5M, line[[")
					for _, s := range []string{"when a in polygon[" + rings + "]", "trigger set p = polygon[" + rings + "]; when a", "trigger set p = multipolygon[polygon[" + rings + "], polygon[[[1,2]]]] q = 1 when a",
						"when a in multiline[" + lines + "]", "trigger set p = multiline[" + lines + "]; when a", "trigger set p = collection[" + lines + ", point[1,2]:3M] when a"} {
						if !y(Case{Text: s}) {
							return false
						}
					}
				}
				if len(seq) == max {
					return true
				}
				for _, n := range sizes {
					seq = append(seq, n)
					if !rec() {
						return false
					}
					seq = seq[:len(seq)-1]
				}
				return true
			}
			rec()
		}),
		parseSpace("patterns", "equal and different positions, rings, members, radii and margins in every order", gen.Chain(
			patterns(t.at(5, 8, 9), []string{"[1,2]", "[2,1]", "[1,-2]"}, "when line[|,|]", "when line[|, |]:5km", "when polygon[[|,|]]", "when polygon[[[9,9]],[|,|]]", "when multiline[line[[1,2]],line[|,|]]"),
			patterns(t.at(4, 6, 7), []string{"[[1,2]]", "[[1,2],[1,2]]", "[[2,1]]", "[[1,2],[3,4],[1,2]]"}, "when polygon[|,|]", "when multipolygon[polygon[[[1,2]]],polygon[|,|]]"),
			patterns(t.at(4, 6, 7), []string{"point[1,2]", "point[1,2]:1km", "point[2,1]", "point[1,2]:2m"}, "when multipoint[|,|]", "when collection[|, |]", "when point[1,2]:1km == multipoint[|,|]"),
			patterns(t.at(4, 6, 7), []string{"line[[1,2]]", "line[[1,2]]:1km", "line[[1,2],[1,2]]", "line[[1,2]]:2M"}, "when multiline[|,|]", "when collection[|, |]"),
			patterns(t.at(4, 5, 6), []string{"point[1,2]", "line[[1,2]]:1km", "polygon[[[1,2]]]", "multipoint[point[1,2]]", "multipoint[point[1,2]:1km]", "multiline[line[[1,2]]]", "multipolygon[polygon[[[1,2]]]]"}, "when collection[|, |]"))),
		parseSpace("lengths", "one dimension at a time", sweep(steps(t.at(40, 130, 130), t.at(280, 2100, 2100)), func(n int) []string {
			out := shape(1, n, 1)
			out = append(out, shape(n, 2, 1)...)
			return append(out, shape(1, 2, n)...)
		})),
		parseSpace("edits", "all single-token edits of geometry seeds", gen.Edits([]string{
			"when g intersects polygon[[[1,2],[3,4]],[[5,6],[7,8]]]", "when g intersects multipoint[point[1,2]:1km, point[3,4]]", "when g nearby multiline[line[[1,2],[3,4]]:5M, line[[5,6]]] and a",
			"when g in collection[point[1,2], line[[1,2],[3,4]], multipolygon[polygon[[[1,2]]]]]", "when point[-1.5, 2.5]:5km", "when line[[1,-2],[3,4]]:4M == a", "trigger set p = point[1,2]:500m; q = polygon[[[1,2]]]; when a",
		}, gen.Vocab, 1)),
		parseSpace("edits2", "double edits of short geometry seeds", gen.Edits([]string{"when point[1,2]", "when line[[1,2]]", "when multipoint[point[1,2]]", "when polygon[[[1,2]]]"}[:t.at(2, 4, 4)], append(tok, "point", "line", "5km", "when", "==", "\"s\"", ")", "}"), 2)),
	}
	return ss
}
