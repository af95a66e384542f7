package props

import (
	"fmt"
	"strings"

	geo "github.com/mmadfox/go-geoql-parser"

	"verifmc/explore"
	"verifmc/gen"
)

// checkTotal checks the contract of Parse on one text.
func checkTotal(c Case) Result { return total(c.Text) }

func total(src string) Result {
	stmt, err := geo.Parse(src)
	if msg := contract(src, stmt, err); msg != "" {
		return bad("broken", "Parse(%q): %s", clip(src), msg)
	}
	res := Result{Outcome: "accepted", Calls: 1, Steps: 1}
	if err != nil {
		res.Outcome = "rejected"
	}
	return res
}

const fieldSep = "\x1f"

// nested expands pre + open*n + mid + close*m + post, n and m in Aux.
func nested(c Case) string {
	f := strings.Split(c.Text, fieldSep)
	return f[0] + strings.Repeat(f[1], c.Aux[0]) + f[2] + strings.Repeat(f[3], c.Aux[1]) + f[4]
}

func checkNested(c Case) Result {
	res := total(nested(c))
	if res.Bad != "" {
		res.Bad = fmt.Sprintf("pattern %q x %v: %s", c.Text, c.Aux, res.Bad)
	}
	return res
}

// brackets are all ways to nest or chain a construct in itself.
func nestings() []string {
	p := func(pre, open, mid, cl, post string) string {
		return strings.Join([]string{pre, open, mid, cl, post}, fieldSep)
	}
	var out []string
	for _, o := range gen.OpSpellings {
		out = append(out, p("when ", "a "+o+" ", "a", "", ""), p("when ", "(a "+o+" ", "a", ")", ""), p("when ", "(", "a", ") "+o+" b", ""), p("when a "+o+" ", "[", "1", "]", ""))
	}
	for _, k := range []string{"(", "[", "{", "point[", "line[", "polygon[", "multipoint[", "multiline[", "multipolygon[", "collection[", "collection[collection[point[1,2]],", "date[", "time[", "weekday[", "month[",
		"a:", "a:1,", "a{", "a:(", "a:[", "[a:", "1 .. ", "(1 .. ", "[1 .. ", "1,", "[1,", "-", "+", "- ", "-(", "@", "@a ", "not ", "not in ", "a ", "* ", "\"s\" ", "\"", "'", "`", "\\", "/", "/*", "//", "/**/", "//\n", " ", "\n", ".", "..", ". ", "=", "!", ";", ":", ",", "}", "]", ")",
		"1", "1.", "9", "1 ", "1h", "1 h", "h", "1km ", "5%", "%", "a", "é", "\x00", "\xff", "\ufeff", "when ", "trigger ", "set ", "repeat ", "reset ", "trigger set a = ", "weekday[mon] .. ", "true ", "== "} {
		for _, cl := range []string{"", ")", "]"} {
			out = append(out, p("when ", k, "a", cl, ""), p("when ", k, "1", cl, " and b"))
		}
		out = append(out, p("", k, "", "", ""), p("when a ", k, "", "", ""), p("trigger set v = ", k, "1", "]", "; when a"), p("when a{", k, "", "", "}"), p("when a repeat ", k, "", "", ""), p("when a reset after ", k, "1s", "", ""),
			p("when point[", k, "1,2", "]", ""), p("when line[", k, "[1,2]", "]", ""), p("when polygon[", k, "[1,2]", "]", ""), p("when collection[", k, "point[1,2]", "]", "]"), p("when time[", k, "9:05", "]", "]"), p("when date[", k, "2024-01-01", "]", "]"))
	}
	return out
}

func allBytes() []string {
	out := make([]string, 256)
	for i := range out {
		out[i] = string([]byte{byte(i)})
	}
	return out
}

// afterEverything are prefixes that bring the parser into each of its states.
var afterEverything = []string{
	"when ", "when a", "when a ", "when 1", "when 1.", "when -", "when -1 ", "when \"", "when '", "when `", "when a == ", "when a{", "when a{\"", "when a{\"x\"", "when a:", "when a:1", "when a:1,",
	"when [", "when [1", "when [1,", "when 1 .. ", "when 1.", "when 1..", "when (", "when (a", "when (a)", "when @", "when @v", "when not", "when a not ", "when /", "when a /*", "when a //",
	"when point[", "when point[1", "when point[1,", "when point[1,2", "when point[1,2]", "when point[1,2]:", "when point[1,2]:5", "when line[", "when line[[1,2", "when line[[1,2]", "when line[[1,2]]:", "when polygon[", "when polygon[[", "when polygon[[[1,2]", "when polygon[[[1,2]]",
	"when multipoint[", "when multipoint[point[1,2]", "when multiline[", "when multipolygon[", "when collection[", "when collection[point[1,2]", "when collection[point[1,2],",
	"when date[", "when date[2024", "when date[2024-", "when date[2024-01-", "when date[2024-01-01", "when date[2024-01-01,", "when date[2024-01-01 .. ", "when time[", "when time[9", "when time[9:", "when time[9:05", "when time[9:05:", "when time[9:05:06", "when time[9:05AM",
	"when weekday", "when weekday[", "when weekday[mon", "when weekday[mon,", "when weekday[mon .. ", "when month[", "when month[jan", "when month[jan .. ",
	"trigger", "trigger ", "trigger set", "trigger set ", "trigger set a", "trigger set a ", "trigger set a =", "trigger set a = 1", "trigger set a = 1;", "trigger set a = 1; b", "trigger set a = @", "trigger set a = [",
	"when a repeat", "when a repeat ", "when a repeat 3", "when a repeat 3 every", "when a repeat 3 every ", "when a repeat 3 every 5", "when a repeat 3 every 5s", "when a reset", "when a reset after", "when a reset after ", "when a reset after 1", "when a reset after 1h",
	"when 5km", "when 5%", "when 1h3", "when \"s\"", "when true", "when *", "when a{*", "when a{\"x\",", "\ufeff", "", " ",
}

func init() {
	register(&Prop{ID: "C08", Level: "model_checking", Spaces: func(t Tier) []explore.Space {
		sp := func(name, doc string, e gen.Enum) explore.Space {
			return explore.Space{Name: name, Doc: doc, Enum: e, Check: checkTotal}
		}
		all := allBytes()
		lex := []string{" ", "\n", "a", "é", "1", ".", "-", "\"", "'", "`", "\\", "/", "*", "(", ")", "[", "]", "{", "}", ",", ":", ";", "@", "=", "!", "<", "%", "\x00", "\xff", "\xe4"}
		bad := []string{"\"", "'", "'a'", "'ab'", "`", "/*", "//", "\x00", "\xff", "\xe4\xb8", "\"\\q\"", "\"\\x1\"", "\"\\u12\"", "\"\n\"", "\"\x00\"", "\"\xff\"", "/* \xff */", "// \x00\n", ".5", "1..2", "é", "日", "\ufeff", "\\", "?", "99999999999999999999", "1h3", "5x", "not", "set", "when", "_", "10000000h"}
		spaces := []explore.Space{
			sp("bytes", fmt.Sprintf("all byte strings of up to %d bytes, alone and as a condition", t.pick(2, 3)), gen.In(gen.Strings(all, 0, t.pick(2, 3), ""), []string{"%s", "when %s"})),
			sp("after", "all strings of up to 1 byte (2 characters of the lexical classes) in every state of the parser, with and without a continuation",
				gen.Chain(
					func(y gen.Yield) {
						for _, p := range afterEverything {
							ok := true
							gen.Chain(gen.Strings(all, 0, 1, ""), gen.Strings(lex, 2, t.pick(2, 3), ""))(func(c Case) bool {
								ok = y(Case{Text: p + c.Text}) && y(Case{Text: p + c.Text + " 1]"})
								return ok
							})
							if !ok {
								return
							}
						}
					})),
			sp("tokens-after", "all token strings of up to 2 tokens of the whole vocabulary in every state of the parser", func(y gen.Yield) {
				for _, p := range afterEverything {
					ok := true
					gen.Chain(gen.Strings(gen.Vocab, 1, 2, " "), gen.Strings(gen.Vocab, 2, 2, ""))(func(c Case) bool {
						ok = y(Case{Text: p + c.Text})
						return ok
					})
					if !ok {
						return
					}
				}
			}),
			sp("tokens", "all token strings of the whole vocabulary, up to 3 tokens", gen.Chain(gen.Strings(gen.Vocab, 0, 3, " "), gen.Wrap(gen.Strings(gen.Vocab, 1, t.pick(2, 3), ""), "when ", ""))),
			sp("lexical", "every lexical error or oddity in every gap of every rule and operand", func(y gen.Yield) {
				for _, s := range gen.Seeds() {
					tk := gen.Split(s)
					for i := 0; i <= len(tk); i++ {
						for _, b := range bad {
							for _, sep := range []string{" ", ""} {
								if !y(Case{Text: strings.Join(tk[:i], " ") + sep + b + sep + strings.Join(tk[i:], " ")}) {
									return
								}
							}
						}
					}
				}
			}),
			sp("truncations", "every rule and operand cut at every byte, from both ends", func(y gen.Yield) {
				for _, s := range gen.Seeds() {
					for i := 0; i <= len(s); i++ {
						if !y(Case{Text: s[:i]}) || !y(Case{Text: s[i:]}) {
							return
						}
					}
				}
			}),
			sp("byte-edits", "every byte value inserted and substituted at every position of every rule", gen.ByteEdits(gen.Rules, all)),
			sp("token-edits", "all single-token edits of every rule", gen.Edits(gen.Rules, gen.Vocab, 1)),
			{Name: "nesting", Doc: "every construct repeated or nested in itself, to every depth of a sweep", Check: checkNested, Enum: func(y gen.Yield) {
				for _, n := range steps(t.pick(12, 40), t.pick(5000, 40000)) {
					for _, p := range nestings() {
						for _, m := range []int{n, n - 1} {
							if !y(Case{Text: p, Aux: []int{n, m}}) {
								return
							}
							if strings.Split(p, fieldSep)[3] == "" {
								break
							}
						}
					}
				}
			}},
			{Name: "nesting-deep", Doc: "every construct nested in itself a very large number of times", Check: checkNested, Enum: func(y gen.Yield) {
				for _, n := range []int{9998, 9999, 10000, 10001, 10002, 65536, t.pick(1<<17, 5<<20)} {
					for _, p := range nestings() {
						if !y(Case{Text: p, Aux: []int{n, n}}) {
							return
						}
					}
				}
			}},
			{Name: "stack", Doc: "the nestings deepest on the stack, several million levels", Check: checkNested, Enum: func(y gen.Yield) {
				for _, n := range []int{3 << 20, t.pick(4<<20, 20<<20)} {
					for _, k := range []string{"(", "[", "a:", "1 .. ", "-(", "collection[", "(1 .. ", "[1,", "point[", "not ", "1 + ", "a or (", "("} {
						if !y(Case{Text: strings.Join([]string{"when ", k, "1", "", ""}, fieldSep), Aux: []int{n, 0}}) {
							return
						}
					}
				}
			}},
			sp("lengths", "long tokens, around every multiple of the scanner's buffer", sweep(steps(t.pick(50, 300), t.pick(9000, 100000)), func(n int) []string {
				r := strings.Repeat
				return []string{
					"when " + r("x", n), "when " + r("9", n), "when 1." + r("9", n), "when \"" + r("s", n), "when \"" + r("s", n) + "\"", "when /*" + r("*", n), "when a" + r(" ", n) + "?", "when a" + r("\n", n) + "é",
					"when " + r("é", n), "when " + r("\xff", n), "when a //" + r("c", n), "when a //" + r("é", n) + "\x00", "when \"" + r("é", n) + "\" \"", "when @" + r("v", n), "when 5" + r("h", n), "when 5h" + r("1h", n), "when " + r("9", n) + "h", "when weekday[" + r("m", n) + "]",
					"when time[" + r("1", n) + ":05]", "when 1" + r("_", n), "when a" + r(" ", n) + "== ]", "when \"\\" + r("7", n) + "\"", "when `" + r("`", n),
				}
			})),
		}
		spaces = append(spaces, sp("seed-edits", "all single-token edits of every operand in every context", gen.Edits(gen.Seeds(), gen.Vocab, 1)))
		if t.Thorough {
			spaces = append(spaces,
				sp("tokens4", "all token strings of 4 tokens of the vocabulary as a condition", gen.Wrap(gen.Strings(gen.Vocab, 4, 4, " "), "when ", "")),
				sp("edits2", "all double edits of short rules", gen.Edits([]string{"when a{\"x\"}:1", "when [1, 2]", "when (a)", "when time[9:05]", "when point[1,2]:5km", "trigger set a = 1; when b", "when a repeat 3 every 10s reset after 1h"}, gen.Vocab, 2)))
		}
		return spaces
	}})
}
