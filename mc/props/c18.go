package props

import (
	"fmt"
	"strings"

	geo "github.com/mmadfox/go-geoql-parser"

	"verifmc/adapt"
	"verifmc/explore"
	"verifmc/gen"
	"verifmc/ref"
)

// located are the nodes whose positions are checked: expressions, assignments
// and the assigned names.
func located(n *ref.Node) bool {
	switch n.Tag {
	case ref.TTrigger, ref.TVars, ref.TArgs, ref.TProps:
		return false
	}
	return true
}

// positionsDiffer compares the positions a tree reports (got) with where its
// nodes stand in the text (want).
func positionsDiffer(src string, want, got *ref.Node, parent *ref.Node) string {
	if want == nil || got == nil {
		return ""
	}
	name := func(n *ref.Node) string { return clip(ref.Dump(n)) }
	if located(want) {
		next := "the end of the text"
		if want.Next < len(src) {
			next = fmt.Sprintf("%.10q", src[want.Next:])
		}
		switch {
		case got.Off != want.Off:
			return fmt.Sprintf("%s is said to start at %d but starts at %d", name(want), got.Off, want.Off)
		case got.Last < want.Last:
			return fmt.Sprintf("%s is said to end at %d but its last character is at %d", name(want), got.Last, want.Last)
		case got.Last >= want.Next:
			return fmt.Sprintf("%s is said to end at %d but at %d what follows it, %s, has begun", name(want), got.Last, want.Next, next)
		case want.OpOff >= 0 && got.OpOff != want.OpOff:
			return fmt.Sprintf("the operator of %s is said to be at %d but is at %d", name(want), got.OpOff, want.OpOff)
		case parent != nil && (got.Off < parent.Off || got.Last > parent.Last):
			return fmt.Sprintf("%s, said to span %d to %d, is a part of something said to span %d to %d only", name(want), got.Off, got.Last, parent.Off, parent.Last)
		}
		parent = got
	}
	for i, k := range want.Kids {
		if msg := positionsDiffer(src, k, got.Kids[i], parent); msg != "" {
			return msg
		}
	}
	return ""
}

// checkPositions judges the last of the texts of a case.
func checkPositions(c Case) Result {
	src := c.Text[strings.LastIndex(c.Text, pairSep)+1:]
	stmt, err := geo.Parse(src)
	want, ok, steps := ref.ParseSteps(src)
	if err != nil || !ok {
		return Result{Outcome: "not a rule", Calls: 1, NoModel: true}
	}
	got := adapt.Spans(stmt)
	if ref.Dump(got) != ref.Dump(want) {
		// some other property is broken, so there are no positions to compare
		return Result{Outcome: "other meaning", Calls: 1, NoModel: true}
	}
	if msg := positionsDiffer(src, want, got, nil); msg != "" {
		res := bad("differs", "in %q %s", clip(src), msg)
		res.Steps = steps
		return res
	}
	return Result{Outcome: "as written", Calls: 1, Steps: steps}
}

func init() {
	register(&Prop{ID: "C18", Level: "model_checking", Spaces: func(t Tier) []explore.Space {
		sp := func(name, doc string, e gen.Enum) explore.Space {
			return explore.Space{Name: name, Doc: doc, Enum: e, Check: checkPositions}
		}
		signs := gen.In(gen.Product("", []string{"-", "+", "- ", "+\n", "-/*c*/", "+ // c\n", ""}, []string{"1", "2.5", "0", "007", "12345.75"}, []string{"", " ", "\t \n", "/* m */"}, []string{"", "%", "pct", "Pct", "PCT", "bar", "Psi", "km", "rkm", "Rkm", "M", "rm", "kph", "MPH", "c", "F", "h", "ms", "m30s", "h2m1.5s"}),
			[]string{"when %s", "when a == %s and b", "when [%s, %s ]", "when 1 .. %s", "when %s .. 2", "when a:%s,%s", "trigger set a = %s; b = %s when (%s)", "when point[1,2]:%s", "when a reset after %s", "when a repeat 3 every %s"})
		ops := append([]string{"NOT  EQ", "not/* c */in", "Not\nIntersects", "! =", "= =", "< =", "> /**/ ="}, gen.OpSpellings...)
		few := []string{"a", "-1", `s{"x"}:1`, "(b)", "1 .. 2", "[1]", "point[1,2]:5km", "weekday[mon, tue]", "@v", "true", "1 h"}
		ss := []explore.Space{
			sp("layouts", "every separator (white space, line break, comment, nothing) in every single gap, and in all gaps, of every rule and of every operand in every context", layouts(gen.Seeds(), false)),
			sp("layouts2", "every pair of separators in every pair of gaps of every operand on its own", layouts(gen.All(gen.In(gen.Texts(gen.Operands), []string{"when %s == b", "trigger set a = %s; when b"}[:t.pick(1, 2)])), true)),
			sp("signs", "numbers of all units with and without signs and space between sign, number and unit, everywhere", signs),
			sp("operators", "every operator, in every spelling, between operands of all kinds, with and without space and comments", gen.Wrap(gen.Product("", few, []string{" ", "/* c */ "}, ops, []string{" ", "\n// c\n\t"}, few, []string{"", " and c", " * c", "*c-d"}), "when ", "")),
			sp("operand-pairs", "every pair of operands as list elements, properties, bounds, neighbouring assignments and members", pairsOf(gen.Operands, []string{
				"when [%1, %2]", "when a:%1 , %2", "when a:%1,%2 == c", "when %1 .. %2", "when [%1 .. %2 : %2]", "trigger set a = %1 b = %2; when a", "when collection[%1, %2]", "when [a:%1, %2]", "when (%1 == %2 )", "when ( (%1) or %2)"})),
			sp("trees", "all trees of operators and parentheses", gen.Chain(fillTrees(trees(2, 3), ops, "when "), fillTrees(trees(3, 3), []string{"or", "and", "==", "-", "*", "/"}, "when "), fillTrees(trees(4, 3), gen.OpLevels, "when "))),
			sp("calendar", "all calendar literals, lists and ranges of a few items with space and comments around every mark", func(y gen.Yield) {
				items := map[string][]string{"date": {"2024-1-2", "2024 - 01-/* c */02"}, "time": {"9:05", "23:59:58", "9 : 05 AM", "9:05:06PM"}, "weekday": {"mon", "Fri"}, "month": {"jan", "DEC"}}
				for _, kind := range []string{"date", "time", "weekday", "month"} {
					for _, in := range []string{"when %s", "when %s == a", "when a in %s and b", "when (%s)", "trigger set v = %s; when a", "trigger set v = %s b = 1 when a"} {
						for _, gap := range []string{"", " ", "\n/* c */"} {
							for _, sep := range []string{"", ",", "..", " , ", " range "} {
								for _, a := range items[kind] {
									for _, b := range items[kind] {
										body := a + gap
										if sep != "" {
											body += sep + gap + b + gap
											if strings.Contains(sep, ",") {
												body += sep + a
											}
										} else if b != items[kind][0] {
											continue
										}
										if !y(Case{Text: strings.ReplaceAll(in, "%s", kind+gap+"["+gap+body+gap+"]"+gap)}) {
											return
										}
									}
								}
							}
						}
					}
				}
			}),
			sp("lengths", "texts of every length up to several scanner buffers before, inside and after each kind of operand", func(y gen.Yield) {
				for _, o := range gen.Operands {
					for _, n := range steps(t.pick(3, 40), t.pick(1100, 5000)) {
						for _, f := range []string{" ", "\n", "é"} {
							pad := strings.Repeat(f, n)
							if f == "é" {
								pad = "/*" + pad + "*/"
							}
							if !y(Case{Text: "when " + pad + o + " == b"}) || !y(Case{Text: "when (" + o + pad + ") == b"}) || !y(Case{Text: "trigger set v = " + o + pad + ";" + pad + " w = " + o + pad + " when x"}) {
								return
							}
						}
					}
				}
			}),
			sp("huge", "every rule and operand far from the start of the text and with far gaps inside", func(y gen.Yield) {
				for _, n := range hugeOffsets(t) {
					for _, pad := range hugePads(n) {
						for _, s := range gen.Rules {
							if !y(Case{Text: pad + s}) {
								return
							}
						}
						for _, o := range gen.Operands {
							if !y(Case{Text: "when a ==" + pad + o + " and b"}) {
								return
							}
						}
					}
				}
			}),
			sp("straddles", "white space and comments of every length around the scanner's buffer size in every gap", straddles(gen.Rules[:t.pick(8, len(gen.Rules))], 1000, 1040)),
			sp("strings", "names and strings of all contents over an alphabet", gen.Chain(
				gen.In(gen.Strings([]string{"a", " ", "\\\"", "\\n", "é", "世", "'", "/*", "\t"}, 0, 4, ""), []string{"when \"%s\" == a", "when a{\"%s\"} == b:\"%s\"", "trigger set v = \"%s\"; when [\"%s\" , \"b\" ]"}),
				gen.In(gen.Strings([]string{"a", "_", "1", "é", "世"}, 1, 4, ""), []string{"when %s == b", "trigger set %s = 1; when @%s and %s{*}"}))),
			sp("runes", "letters and characters of every encoded length, up to some in a row, in every name, id, string and comment", func(y gen.Yield) {
				for _, chars := range [][]string{{"a", "é", "世", "𝒳"}, {"x", "߿", "\uFFDC", "𐐀", "\U000323AF"}} { // letters of one to four bytes
					ok := true
					gen.Strings(chars, 1, t.pick(4, 6), "")(func(c Case) bool {
						for _, f := range []string{
							"when $ == b", "when a == $", "when ($) and $:1 > 2", "when [$, b, $]", "when a:$,1 == $", "when $ .. $", "when a + $ * -1", "trigger set $ = 1; when @$ == 2", "trigger set a = [@$, @$]; $ = @a when $", "when ${*} == 1 or $:$ < 2",
							`when "$" == b`, `when a == "$" and b`, `when ["$", "b", "$"] == $`, `when s{"$", *, "$"}:1 == 2`, `when "$" .. "$"`, `when /*$*/ a == 1`, "when a //$\n == 1", "when a:-1/*$*/,2", `when ("$") == -/*$*/1`, "when point[1,2] == $ or $ == line[[1,2]]", "when $ repeat 3", "when $ reset after 1h", "when $ not eq $",
						} {
							if ok = y(Case{Text: strings.ReplaceAll(f, "$", c.Text)}); !ok {
								return false
							}
						}
						return true
					})
					if !ok {
						return
					}
				}
			}),
			sp("edits", "all single-token edits of every rule", gen.Edits(gen.Rules, gen.Vocab, 1)),
			sp("seed-edits", "all single-token edits of every operand in a context", gen.Edits(gen.All(gen.In(gen.Texts(gen.Operands), []string{"when a == %s", "trigger set a = %s; when b"}[:t.pick(1, 2)])), gen.Vocab, 1)),
		}
		skip := []string{"C01/deep", "C01/huge", "C03/huge", "C06/huge", "C07/huge", "C02/top3", "C02/byte-edits", "C02/edits", "C02/operand-edits", "C04/strings", "C05/strings", "C05/brackets", "C06/byte-edits"}
		if !t.Thorough {
			skip = append(skip, "C04/viable", "C05/point-viable", "C01/strings", "C02/viable", "C05/edits2", "C03/units", "C04/all-times", "C05/lengths", "C05/shapes")
		}
		return append(ss, reuse(t, checkPositions, "positions", skip, "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C19")...)
	}})
}
