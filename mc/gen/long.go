package gen

import (
	"verifmc/explore"

	"strconv"
	"strings"
)

func joined(n int, sep string, f func(i int) string) string {
	l := make([]string, n)
	for i := range l {
		l[i] = f(i)
	}
	return strings.Join(l, sep)
}

// Long has every kind of operand that may have many parts, with n of them.
func Long(n int) []string {
	f := func(s string) func(int) string {
		return func(i int) string { return strings.ReplaceAll(s, "#", strconv.Itoa(i)) }
	}
	l := func(s string) string { return joined(n, ", ", f(s)) }
	day := func(i int) string { return []string{"mon", "tue", "wed", "thu", "fri", "sat", "sun"}[i%7] }
	mon := func(i int) string { return []string{"jan", "feb", "mar", "apr", "may"}[i%5] }
	return []string{
		"[" + l("#") + "]", "[" + l("-#.5") + "]", "[" + l(`"s#"`) + "]", "[" + l("a#") + "]", "[" + l("@v") + "]", "[" + l("#km") + "]", "[" + l("#h") + "]", "[" + l("#%") + "]", "[" + l("# .. 5") + "]", "[" + l("-#C") + "]",
		"[" + joined(n, ":", f("#")) + "]",
		"a{" + l(`"id#"`) + "}", "a:" + l("#km"), `a{"x"}:` + l("-#"), "a:" + joined(n, ":", f("b#")),
		"line[" + l("[#, -2.5]") + "]", "polygon[[" + l("[#,1]") + "]]", "polygon[" + l("[[#,1],[2,3]]") + "]", "multipoint[" + l("point[#,1]:#km") + "]", "multiline[" + l("line[[#,1],[2,3]]:#m") + "]",
		"multipolygon[" + l("polygon[[[#,1]]]") + "]", "collection[" + l("point[#,1]") + "]", "collection[" + l("multipoint[point[1,2]]") + "]",
		"date[" + l("2024-01-02") + "]", "time[" + l("9:05AM") + "]", "time[" + l("9:05:06") + "]", "weekday[" + joined(n, ",", day) + "]", "month[" + joined(n, ",", mon) + "]",
		"(" + joined(n, " + ", f("#")) + ")", "(" + joined(n, " and ", f("a#")) + ")", "(" + joined(n, " - ", f("-#.5")) + ")", strings.Repeat("(", n) + "a" + strings.Repeat(")", n), strings.Repeat("[", n) + "1" + strings.Repeat("]", n), strings.Repeat("(1 + ", n) + "2" + strings.Repeat(")", n),
		`"` + strings.Repeat("s", n) + `"`, strings.Repeat("n", n), "@" + strings.Repeat("v", n), `a{"` + strings.Repeat("i", n) + `"}`, strings.Repeat("7", n), "0." + strings.Repeat("7", n), joined(n, "", f("1h")) + " == 1",
	}
}

// LongRules are the operands with n parts in contexts, right, mistyped and
// broken, and the clauses with n parts.
func LongRules(n int) []string {
	var out []string
	for _, o := range Long(n) {
		for _, c := range []string{"when %s", "when %s + true", "when a in %s and b", "trigger set v = %s; when @v == 1", "when a == %s == ", "when [%s"} {
			out = append(out, strings.ReplaceAll(c, "%s", o))
		}
	}
	sets := func(sep string) string {
		return "trigger set " + joined(n, sep, func(i int) string { return "v" + strconv.Itoa(i) + " = " + strconv.Itoa(i) })
	}
	return append(out, sets("; ")+" when a", sets(" ")+"; when @v0 == 1", sets("; ")+"; v0 = 1; when a", "when "+joined(n, " or ", func(i int) string { return "a" + strconv.Itoa(i) + " == " + strconv.Itoa(i) }),
		"when a"+strings.Repeat(" ", n)+"== 1", "when a"+strings.Repeat("/**/", n)+"== 1", "when a"+strings.Repeat("// c\n", n)+"== 1", strings.Repeat("\n", n)+"when a ==", strings.Repeat("#", n), "when "+strings.Repeat("-", n)+"1", "when a "+strings.Repeat(")", n))
}

// OddOnes has one part unlike the others in long operands: each of the parts
// at the first, second, middle, last but one and last place of n.
func OddOnes(n int, odd []string) []string {
	var out []string
	forms := [][3]string{
		{"[", "1", "]"}, {"[", `"s"`, "]"}, {"[", "a", "]"}, {"[", "@v", "]"}, {"[", "1km", "]"}, {"[", "1 .. 2", "]"}, {"a:", "1", ""}, {"a:", "b", ""}, {"a{", `"x"`, "}"},
		{"line[", "[1,2]", "]"}, {"polygon[[", "[1,2]", "]]"}, {"polygon[", "[[1,2]]", "]"}, {"multipoint[", "point[1,2]", "]"}, {"multiline[", "line[[1,2]]", "]"}, {"multipolygon[", "polygon[[[1,2]]]", "]"}, {"collection[", "point[1,2]", "]"}, {"collection[", "multiline[line[[1,2]]]", "]"},
		{"date[", "2024-01-02", "]"}, {"time[", "9:05", "]"}, {"time[", "9:05PM", "]"}, {"weekday[", "mon", "]"}, {"month[", "jan", "]"},
	}
	for _, f := range forms {
		for _, o := range odd {
			last := -1
			for _, at := range []int{0, 1, n / 2, n - 2, n - 1} {
				if at <= last {
					continue
				}
				last = at
				out = append(out, f[0]+joined(n, ",", func(i int) string {
					if i == at {
						return o
					}
					return f[1]
				})+f[2])
			}
		}
	}
	return out
}

// Parts may stand in an operand, where they belong or not.
var Parts = []string{
	"", "1", "-2.5", `"q"`, "b", "@w", "5km", "5s", "1 .. 2", "*", "true", "(1)", "[1]", "[3,4]", "[3]", "[[3,4]]", "[1,2,3]", "b:1", `b{"x"}`, "point[3,4]", "point[3,4]:1km", "line[[3,4]]", "line[[1,2]]:2m", "polygon[[[3,4]]]", "multipoint[point[3,4]]", "multiline[line[[3,4]]]", "collection[point[3,4]]",
	"2024-02-30", "2024-13-01", "9:60", "9:06AM", "25:00", "fri", "jan", "dec", "x", "weekday[mon]", "1,", ",", "1 2", "]", "[", ")", "}", "1:2", "1 ..", "..", "not", "and", "=", ";", "5C",
}

// LongEdits are all single-token edits at the ends and in the middle of long
// constructs.
func LongEdits(ns []int, vocab []string) Enum {
	return func(y Yield) {
		for _, n := range ns {
			for _, o := range Long(n) {
				for _, c := range []string{"when %s", "trigger set v = %s; when a"} {
					toks := Split(strings.ReplaceAll(c, "%s", o))
					k := len(toks)
					if k > 4*n+40 { // one token per letter or the like would be the same again
						continue
					}
					seen := map[int]bool{}
					for _, at := range []int{2, 3, 4, 5, k / 2, k/2 + 1, k/2 + 2, k - 8, k - 7, k - 6, k - 5, k - 4, k - 3, k - 2, k - 1} {
						if at < 1 || at >= k || seen[at] {
							continue
						}
						seen[at] = true
						if !y(explore.Case{Text: join(splice(toks, at, at+1))}) || !y(explore.Case{Text: join(splice(toks, at, at+1, toks[at], toks[at]))}) || !y(explore.Case{Text: join(toks[:at])}) {
							return
						}
						for _, w := range vocab {
							if !y(explore.Case{Text: join(splice(toks, at, at+1, w))}) || !y(explore.Case{Text: join(splice(toks, at, at, w))}) {
								return
							}
						}
					}
				}
			}
		}
	}
}

// Huge has rules of one kind with n parts, more than counters of 16 bits hold.
func Huge(kind string, n int) []string {
	f := func(s string) func(int) string {
		return func(i int) string { return strings.ReplaceAll(s, "#", strconv.Itoa(i)) }
	}
	l := func(s string) string { return joined(n, ",", f(s)) }
	var out []string
	switch kind {
	case "operators":
		for _, o := range []string{"or", "and", "<", "in", "-", "*"} {
			out = append(out, "when "+joined(n+1, " "+o+" ", f("a")))
		}
		out = append(out, "when "+joined(n/2+1, " ", f("a + b *"))+" c", "when "+joined(n/2+1, " ", f("a and b or"))+" c", "when "+joined(n+1, " - ", f("(b)")))
	case "quantities":
		out = append(out, "when ["+l("-#")+"]", "when ["+l("-#.5km")+"]", "when [5"+strings.Repeat(", -5", n)+"]", "when "+joined(n, " - ", f("-1"))+" < -2C", "trigger set v = ["+l("5m")+"]; w = 5m; when a")
	case "times":
		out = append(out, "when date["+l("2024-01-02")+"]", "when time["+l("9:05:06")+"]", "when time["+l("9:05PM")+"]", "when month["+l("jan")+"]", "when weekday["+l("mon")+",tue]")
	case "geometry":
		out = append(out, "when line["+l("[#,-2.5]")+"]:5km", "when polygon[["+l("[#,1]")+"]]", "when polygon["+l("[[#,1]]")+"]", "when multipoint["+l("point[#,1]:5m")+"]", "when multiline["+l("line[[#,1],[2,3]]:5m")+"]", "when multipolygon["+l("polygon[[[#,1]]]")+"]", "when collection["+l("point[#,1]")+"]")
	case "selectors":
		out = append(out, "when a{"+l(`"#"`)+"}", "when a:"+l("#")+" == 1", "when a{"+l(`"x"`)+"}:2", "when a:"+l("5km"), "when a:"+l(`"#"`)+" or b", "when "+joined(n, " or ", f(`a{"#"}:1`)))
	case "clauses":
		out = append(out, "when "+joined(n, " or ", f("@v"))+" repeat 3 every 5s reset after 1h", "trigger set v = ["+l("1")+"]; when "+joined(n, " or ", f("@v")), strings.Repeat("\n", n)+"trigger set v = 1; when @v repeat "+strings.Repeat("\n", n)+"3", "trigger set v = 1; "+strings.Repeat("/**/", n)+"w = 2; when @v == 2")
	case "lists":
		for _, e := range []string{"#", "#.5", `"s#"`, "a", "@v", "#h", "1 .. #", "#km"} {
			out = append(out, "when a in ["+l(e)+"]")
		}
		out = append(out, "when a in ["+joined(n, ":", f("#"))+"]", "when a in ["+l("1")+", 2.5]", "trigger set v = ["+l("#")+"]; w = 1; when a")
	}
	return out
}

// Deep has what may nest, n levels deep.
func Deep(n int) []string {
	var out []string
	for _, p := range [][3]string{{"(", "a", ")"}, {"(a or ", "b", ")"}, {"(", "a", " and b)"}, {"(1 + ", "2", ")"}, {"a:(", "1", ")"}, {"a:", "1", ""}, {`a{"x"}:`, "b", ""}, {"(1 .. (", "2", "))"}, {"a * (", "b", ")"}, {"[a:", "1", "]"}, {"[(", "1", ")]"}, {"-(", "1", ")"}, {"a:(1 - ", "b:2", ")"}} {
		text := strings.Repeat(p[0], n) + p[1] + strings.Repeat(p[2], n)
		out = append(out, "when "+text, "trigger set v = "+text+"; when @v", "when b == "+text+" and c")
	}
	return out
}
