package props

import (
	"fmt"
	"strconv"
	"strings"

	geo "github.com/mmadfox/go-geoql-parser"

	"verifmc/adapt"
	"verifmc/explore"
	"verifmc/gen"
)

// reuse takes over the cases of other properties' spaces.
func reuse(t Tier, check func(Case) Result, doc string, skip []string, ids ...string) []explore.Space {
	var out []explore.Space
	for _, id := range ids {
	next:
		for _, sp := range All[id].Spaces(Tier{Thorough: t.Thorough, Level: max(t.Level-1, 0)}) {
			for _, s := range skip {
				if sp.Name == s || id+"/"+sp.Name == s {
					continue next
				}
			}
			out = append(out, explore.Space{Name: id + "/" + sp.Name, Doc: doc + ": " + sp.Doc, Enum: sp.Enum, Check: check})
		}
	}
	return out
}

// format renders a statement.
func format(stmt geo.Statement) (string, error) {
	var b strings.Builder
	err := geo.Format(&b, stmt)
	return b.String(), err
}

// checkRoundTrip: format, parse again, compare, format again.
func checkRoundTrip(c Case) Result {
	src := c.Text
	stmt, err := geo.Parse(src)
	if err != nil {
		return Result{Outcome: "not a rule", Calls: 1, NoModel: true}
	}
	want := adapt.Dump(stmt)
	text, err := format(stmt)
	if err != nil {
		return bad("differs", "Format fails on the statement of %q: %v", clip(src), err)
	}
	again, err := geo.Parse(text)
	if err != nil {
		return bad("differs", "%q is formatted as\n%s\nwhich does not parse: %s", clip(src), clip(text), clip(strings.ReplaceAll(err.Error(), "\n", "\\n")))
	}
	if got := adapt.Dump(again); got != want {
		return bad("differs", "%q means\n  %s\nbut is formatted as\n%s\nwhich means\n  %s", clip(src), clip(want), clip(text), clip(got))
	}
	text2, err := format(again)
	if err != nil || text2 != text {
		return bad("differs", "%q is formatted as\n%s\nand that as\n%s (error %v)", clip(src), clip(text), clip(text2), err)
	}
	return Result{Outcome: "same", Calls: 4, Steps: 4}
}

// durationTexts are durations of every combination of parts.
func durationTexts() gen.Enum {
	return gen.Chain(
		gen.Product("", []string{"0", "1", "59", "60", "61", "100", "1.5", "0.001", "2.25", "999999", "0.1"}, []string{"h", "m", "s", "ms", "us", "ns", "µs", "μs"}),
		gen.Product("", []string{"0", "1", "25"}, []string{"h0", "h59", "h1.5", "h"}, []string{"m0", "m7", "m61.25", "m"}, []string{"s", "s5ms", "s0.5ms", "ns", "us1ns"}))
}

func init() {
	register(&Prop{ID: "C12", Level: "model_checking", Spaces: func(t Tier) []explore.Space {
		sp := func(name, doc string, e gen.Enum) explore.Space {
			return explore.Space{Name: name, Doc: doc, Enum: e, Check: checkRoundTrip}
		}
		ops := []string{"or", "and", "<", "==", "in", "not in", "not intersects", "+", "-", "*", "/", "rem", "mod", "eq", "not eq", "!="}
		ss := []explore.Space{
			sp("seeds", "every rule and every operand in every context", gen.Texts(gen.Seeds())),
			sp("operand-pairs", "every pair of operands around every operator", gen.Wrap(gen.Product(" ", gen.Operands, ops, gen.Operands), "when ", "")),
			sp("element-pairs", "every pair of operands as list elements, properties, bounds, neighbouring assignments, collection members and around repeat and reset", pairsOf(gen.Operands, []string{
				"when [%1, %2]", "when [%1 : %2]", "when a:%1,%2", "when a:%1,%2 == c", "when %1 .. %2", "when [%1 .. %2]", "when [%1 .. %2 : %2]", "trigger set a = %1 b = %2; when a", "trigger set a = %1 when %2 repeat 3 every 5s",
				"when collection[%1, %2]", "when [a:%1, %2]", "when (%1 == %2)", "when ((%1) or %2)", "when a{\"x\"}:%1,b:%2", "trigger set a = [%1, %2, %1]; when a",
			})),
			sp("op-operand", "every operand around every pair of operators", gen.Wrap(gen.Product(" ", []string{"a"}, ops, gen.Operands, ops, []string{"b", "-1", "(c or d)"}), "when ", "")),
			sp("trees", "all trees of operators and parentheses", gen.Chain(fillTrees(trees(2, 3), ops, "when "), fillTrees(trees(3, 3), []string{"or", "and", "==", "-", "*", "/"}, "when "), fillTrees(trees(4, 3), gen.OpLevels, "when "))),
			sp("durations", "durations of every combination of parts, everywhere a duration may stand", gen.In(durationTexts(), []string{"when %s", "when [%s, %s]", "when a reset after %s", "when a repeat 1 every %s", "when 1h .. %s", "trigger set a = %s; when b"})),
			sp("numbers", "numbers around the limits of the number types with every unit", gen.Wrap(gen.Product("", []string{"", "-", "+"}, append(bigNumbers(), gen.Numbers...), []string{"", "%", "km", "M", "C", "F", "bar", "Psi", "kph", "mph", " .. 1"}), "when a == ", "")),
			sp("coordinates", "coordinates around the limits of the number types", gen.In(gen.Product(",", append(bigNumbers(), "-1", "-0.0", "- 2.5", "0.1", "1e"), []string{"1", "-2.5"}), []string{"when point[%s]", "when line[[%s]]", "when polygon[[[%s]]]"})),
			sp("strings", "all string contents over an alphabet", gen.In(gen.Strings([]string{"a", " ", "\\\"", "\\n", "é", "'", "`", "/*", "//", "*", "\\\\", "\\u00e9", "\t", "%", "@v", "and", ","}, 0, t.pick(3, 4), ""), []string{"when \"%s\"", "when a{\"%s\"}", "when [\"%s\", \"b\"]"})),
			sp("lengths", "every construct at every length of a sweep", sweep(steps(t.pick(80, 300), t.pick(600, 5000)), func(n int) []string {
				f := func(s string) func(int) string {
					return func(i int) string { return strings.ReplaceAll(s, "#", strconv.Itoa(i)) }
				}
				return []string{
					"when [" + rep(n, ",", f("#")) + "]", "when [" + rep(n, ",", f("\"s#\"")) + "]", "when s{" + rep(n, ",", f("\"id#\"")) + "}:1", "when s{*," + rep(n, ",", f("\"id#\"")) + "}", "when s:" + rep(n, ",", f("#.5km")), "when [" + rep(n, ",", f("@v#")) + "]", "when [" + rep(n, ":", f("s#:1,2")) + "]",
					"when line[" + rep(n, ",", f("[#,-#.25]")) + "]:5km", "when polygon[[" + rep(n, ",", f("[#,1]")) + "]]", "when polygon[" + rep(n, ",", f("[[#,1],[2,3]]")) + "]", "when multipoint[" + rep(n, ",", f("point[#,1]:#km")) + "]", "when collection[" + rep(n, ",", f("line[[#,1],[2,3]]")) + "]",
					"trigger set l = line[" + rep(n, ",", f("[#,-#.25]")) + "]:5km; when a", "trigger set p = polygon[[[1,2]],[" + rep(n, ",", f("[#,1]")) + "],[[3,4]]]; when a", "trigger set p = multipolygon[polygon[[" + rep(n, ",", f("[#,1]")) + "]], polygon[[[1,2]]]]; when a", "trigger set m = multiline[" + rep(n, ",", f("line[[#,1],[2,3],[4,5],[6,7],[8,9]]:1km")) + "]; when a",
					"trigger set s = s{" + rep(n, ",", f("\"id#\"")) + "}; t = s{*,\"" + strings.Repeat("x", n) + "\"}:1; when a", "trigger set c = collection[" + rep(n, ",", f("point[#,1]:#km")) + "]; when a", "trigger set " + rep(n, "; ", f("v# = #")) + "; when a",
					"when time[" + rep(n, ",", f("9:05")) + "]", "when weekday[" + rep(n, ",", f("mon")) + "]", "when " + rep(n, " and ", f("a# == #")), "when " + rep(n, " - ", f("a#")), "when " + strings.Repeat("(", n) + "a" + strings.Repeat(")", n), "when " + strings.Repeat("(a or ", n) + "a" + strings.Repeat(")", n),
					"when \"" + strings.Repeat("s", n) + "\"", "when " + strings.Repeat("x", n), "when [" + rep(n, ",", f("1 .. #")) + "]", "when (" + strings.Repeat("a:", n) + "1)",
				}
			})),
			sp("deep", "every construct nested hundreds to thousands of levels deep", sweep([][]int{{700, 1030, 2050}, {700, 1030, 2050, 3000, 4100}}[t.pick(0, 1)], gen.Deep)),
			sp("edits", "all single-token edits of every rule", gen.Edits(gen.Rules, gen.Vocab, 1)),
			sp("seed-edits", "all single-token edits of every operand in three contexts", gen.Edits(gen.All(gen.In(gen.Texts(gen.Operands), []string{"when a == %s", "trigger set a = %s; when b", "when [%s, %s]"}[:t.pick(2, 3)])), gen.Vocab, 1)),
		}
		skip := []string{"C01/deep", "C02/top3", "C02/byte-edits", "C02/edits", "C02/operand-edits", "C04/strings", "C05/strings", "C05/brackets", "C06/byte-edits"}
		if !t.Thorough {
			skip = append(skip, "C04/viable", "C05/point-viable", "C01/strings", "C02/viable", "C05/edits2", "C03/units", "C04/all-times", "C05/lengths", "C05/shapes")
		}
		return append(ss, reuse(t, checkRoundTrip, "formatted and parsed again", skip, "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C19")...)
	}})
}

// pairsOf fills %1 and %2 with every pair.
func pairsOf(l []string, contexts []string) gen.Enum {
	return func(y gen.Yield) {
		for _, c := range contexts {
			for _, a := range l {
				for _, b := range l {
					if !y(Case{Text: strings.ReplaceAll(strings.ReplaceAll(c, "%1", a), "%2", b)}) {
						return
					}
				}
			}
		}
	}
}

var _ = fmt.Sprint
