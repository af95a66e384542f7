package props

import (
	"fmt"
	"strings"

	geo "github.com/mmadfox/go-geoql-parser"

	"verifmc/adapt"
	"verifmc/explore"
	"verifmc/gen"
	"verifmc/ref"
)

const pairSep = "\x1e"

// outcome is the meaning of a text to the implementation: its tree, or failure.
func outcome(src string) string {
	stmt, err := geo.Parse(src)
	if err != nil {
		return "error"
	}
	return adapt.Dump(stmt)
}

// checkSame: two texts that differ in layout only mean the same.
func checkSame(c Case) Result {
	base, variant, _ := strings.Cut(c.Text, pairSep)
	w, g := outcome(base), outcome(variant)
	if w != g {
		return bad("differs", "%q means\n  %s\nbut %q, which has the same tokens, means\n  %s", clip(base), clip(w), clip(variant), clip(g))
	}
	res := Result{Outcome: "same", Calls: 2, Steps: 2}
	if w == "error" {
		res.Outcome = "both rejected"
	}
	return res
}

// sameRaws tells whether two texts consist of the same raw tokens.
func sameRaws(a, b []ref.Raw) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].K != b[i].K || a[i].Text != b[i].Text {
			return false
		}
	}
	return true
}

var separators = []string{
	" ", "", "\n", "\t", "\r\n", "  \t ", "/*c*/", "/**/", "/***/", "/* a == 1\n and */", "//\n", " // c \"\n", "\n\n\n", " /* é\U0001F600 */ ", "/*/*/", "// \xc3\xa9 /*\n", " /* // */ ", "/* \" */",
	"/*" + strings.Repeat("x", 1100) + "*/", strings.Repeat(" ", 1025), "//" + strings.Repeat("é", 1030) + "\n",
	"\r", "// c\rd\n", "/* c\rd */", "//\r\n",
}

// noLayout is layout in other languages.
var noLayout = []string{"\\\n", "\\\r\n", "\\", "\\ ", "#\n", "# c\n", "-- c\n", "--\n", ";\n", "; ", "%\n", "'\n", "\f", "\v", "\x00", "\x85", "\u0085", "\u00a0", "\u1680", "\u2003", "\u2028", "\u2029", "\u3000", "\u200b", "\u200d", "\u2060", "\ufeff", "\x1a", "\x04", "\x08", "\x7f", "\x1b", "_", "_\n", "...", "\u2026", "/ * c */", "/* c * /", "(* c *)", "<!-- c -->", "{- c -}", "{}", "()", "\"\"", "``", "$", "&", "|", "^", "~", "?"}

// layouts yields base+variant for every variant with up to two non-standard
// gaps, and with all gaps alike.
func layouts(bases []string, two bool) gen.Enum {
	return func(y gen.Yield) {
		for _, base := range bases {
			l := ref.LexRaw(base)
			if l.ErrOff >= 0 {
				continue
			}
			raws := l.Raws[:len(l.Raws)-1]
			n := len(raws)
			build := func(gap func(i int) string) string {
				var b strings.Builder
				for i, r := range raws {
					b.WriteString(gap(i))
					b.WriteString(r.Text)
				}
				b.WriteString(gap(n))
				return b.String()
			}
			orig := func(i int) string {
				switch i {
				case 0:
					return base[:raws[0].Off]
				case n:
					return base[raws[n-1].End:]
				}
				return base[raws[i-1].End:raws[i].Off]
			}
			emit := func(v string) bool {
				lv := ref.LexRaw(v)
				if lv.ErrOff >= 0 || !sameRaws(l.Raws, lv.Raws) {
					return true // not a variant: the tokens merged
				}
				return y(Case{Text: base + pairSep + v})
			}
			for _, s := range append([]string{"\n// last line"}, separators...) {
				s := s
				// all gaps alike; all removable ones removed otherwise
				if !emit(build(func(int) string { return s })) || !emit(build(func(i int) string {
					if i == 0 || i == n {
						return s
					}
					return orig(i)
				})) {
					return
				}
				for g := 0; g <= n; g++ {
					g := g
					if !emit(build(func(i int) string {
						if i == g {
							return s
						}
						return orig(i)
					})) {
						return
					}
					// the same gap in an otherwise widely spaced text
					if !emit(build(func(i int) string {
						if i == g {
							return s
						}
						return " "
					})) {
						return
					}
				}
			}
			// as compact as possible: every gap removed that can be
			tight := make([]string, n+1)
			for i := range tight {
				tight[i] = orig(i)
				if tight[i] == "" {
					continue
				}
				keep := tight[i]
				tight[i] = ""
				v := build(func(j int) string {
					if j <= i {
						return tight[j]
					}
					return orig(j)
				})
				if lv := ref.LexRaw(v); lv.ErrOff >= 0 || !sameRaws(l.Raws, lv.Raws) {
					tight[i] = keep
				}
			}
			if !emit(build(func(i int) string { return tight[i] })) {
				return
			}
			if !two {
				continue
			}
			few := separators[:12]
			for g := 0; g <= n; g++ {
				for h := g + 1; h <= n; h++ {
					for _, s := range few {
						for _, q := range few {
							if !emit(build(func(i int) string {
								switch i {
								case g:
									return s
								case h:
									return q
								}
								return orig(i)
							})) {
								return
							}
						}
					}
				}
			}
		}
	}
}

// straddles puts white space or a comment of every length around the buffer
// sizes into every gap.
func straddles(bases []string, lo, hi int) gen.Enum {
	return func(y gen.Yield) {
		for _, base := range bases {
			raws := ref.LexRaw(base).Raws
			for _, r := range raws {
				for n := lo; n <= hi; n++ {
					for _, f := range []string{" ", "\n"} {
						if !y(Case{Text: base + pairSep + base[:r.Off] + strings.Repeat(f, n) + base[r.Off:]}) {
							return
						}
					}
					if n < 4 {
						continue
					}
					if !y(Case{Text: base + pairSep + base[:r.Off] + "/*" + strings.Repeat("*", n-4) + "*/" + base[r.Off:]}) ||
						!y(Case{Text: base + pairSep + base[:r.Off] + "//" + strings.Repeat("/", n-3) + "\n" + base[r.Off:]}) {
						return
					}
				}
			}
		}
	}
}

// cases yields the text with each word (or all words) in other letter cases.
func cases(bases []string, full bool) gen.Enum {
	return func(y gen.Yield) {
		for _, base := range bases {
			l := ref.LexRaw(base)
			if l.ErrOff >= 0 {
				continue
			}
			for _, r := range l.Raws {
				if r.K != ref.RIdent {
					continue
				}
				forms := gen.FewCases(r.Text)
				if full && len(r.Text) <= 8 {
					forms = gen.Cases(r.Text)
				}
				for _, f := range forms {
					if !y(Case{Text: base[:r.Off] + f + base[r.End:]}) {
						return
					}
				}
			}
			all := func(f func(i int, s string) string) bool {
				var b strings.Builder
				at := 0
				for i, r := range l.Raws {
					b.WriteString(base[at:r.Off])
					t := r.Text
					if r.K == ref.RIdent {
						t = f(i, t)
					}
					b.WriteString(t)
					at = r.End
				}
				b.WriteString(base[at:])
				return y(Case{Text: b.String()})
			}
			if !all(func(_ int, s string) string { return strings.ToUpper(s) }) ||
				!all(func(_ int, s string) string { return strings.ToLower(s) }) ||
				!all(func(_ int, s string) string { return title(s) }) ||
				!all(func(i int, s string) string {
					if i%2 == 0 {
						return strings.ToUpper(s)
					}
					return s
				}) {
				return
			}
		}
	}
}

func init() {
	register(&Prop{ID: "C09", Level: "model_checking", Spaces: func(t Tier) []explore.Space {
		lay := func(name, doc string, e gen.Enum) explore.Space {
			return explore.Space{Name: name, Doc: doc, Enum: e, Check: checkSame}
		}
		short := []string{}
		for _, r := range gen.Rules {
			if len(ref.LexRaw(r).Raws) <= t.pick(20, 40) {
				short = append(short, r)
			}
		}
		ill := []string{"when", "when a ==", "when (a", "when [1,2", "when 1 ..", "trigger set a = ; when b", "when a b", "when a repeat 3 every", "when point[1]", "when time[9]", "when date[2024-01]", "when weekday[mon .. ]", "set a = 1", "when -a", "when @", "when a not b", "when 5 5", "when a{1}", "when a ! = ! b", "when . 5"}
		var words []string
		words = append(words, gen.Rules...)
		words = append(words, "when a rem b mod c", "when Abc == dEf:1 and GHI{\"Jkl\"} != @Mno", "when a in [Abc, dEf] or b == up or c == down", "trigger set Abc = 1 abc = 2; ABC = 3 when @aBc", "when x range y", "when a == 5Km or b == 5rM or c == 5M or d == 5km or e == 5h or f == 5Ms or g == 5kPh or h == 5BAR or i == 5Bar or j == 5PCT or k == 5pct",
			"when été == Été and ДОМ{\"x\"}:1 in [Дом, İi, ıI, ß, ẞ, ΣΑΣ, σας] or ǅ == ａＡ", "trigger set Été = Дом:1 when @Été == Ünï_9 and K == Å",
			"when a == 5m or b == 5m30s", "when point[1,2]:5m and line[[1,2]]:5M", "trigger set up1 = UP; when down2 == DOWN")
		for _, o := range gen.Operands {
			words = append(words, "when "+o+" == A", "trigger set V = "+o+" when x")
		}
		ss := []explore.Space{
			lay("layouts", "every separator (white space, line break, comment, nothing) in every single gap, and in all gaps, of every rule and of every operand in every context", layouts(gen.Seeds(), false)),
			lay("ill-formed", "the same for ill-formed texts", layouts(ill, true)),
			lay("layouts2", "every pair of separators in every pair of gaps of the shorter rules", layouts(short, true)),
			lay("straddles", "white space and comments of every length around the scanner's buffer size in every gap", straddles(gen.Rules, t.pick(1000, 980), t.pick(1040, 1060))),
			lay("straddles2", "and around twice its size", straddles([]string{"when a == 1 and b != 2.5 or not_c > -3", `when s{"id1", "id2", *}:1km,6km in 1kph .. 40kph`, "trigger set t = time[9:00AM .. 5:00PM]; when a not in [1, 2] repeat 3 every 10s"}, 1990, 2100)),
			{Name: "no-layout", Doc: "everything that is layout in other languages but not in this one, in every gap of every rule and of every operand in every context", Check: CheckParse, Enum: func(y gen.Yield) {
				for _, base := range gen.Seeds() {
					l := ref.LexRaw(base)
					if l.ErrOff >= 0 {
						continue
					}
					for i, r := range l.Raws {
						for _, s := range noLayout {
							before, after := base[:r.Off], base[r.Off:]
							if !y(Case{Text: before + s + after}) || i > 0 && s[0] != ' ' && !y(Case{Text: before + " " + s + " " + after}) {
								return
							}
						}
					}
				}
			}},
			{Name: "cases", Doc: fmt.Sprintf("every word of every rule and operand in every letter case, one at a time (words of more than %d letters: each letter flipped) and all at once", 8), Enum: cases(words, true), Check: CheckParse},
			{Name: "cases-seeds", Doc: "the usual letter cases of every word of every operand in every context", Enum: cases(gen.Seeds(), false), Check: CheckParse},
		}
		ss = append(ss, lay("layouts2-all", "every pair of separators in every pair of gaps of every operand in some contexts", layouts(gen.All(gen.In(gen.Texts(gen.Operands), []string{"when %s", "when a == %s and b", "trigger set a = %s b = 1 when c"}[:t.pick(2, 3)])), true)),
			lay("comment-contents", "every character up to U+00FF and the first and last of every encoded length and plane, once and twice, in every place of line and block comments", func(y gen.Yield) {
				var runes []string
				for r := rune(1); r < 0x100; r++ {
					runes = append(runes, string(r))
				}
				for _, r := range []rune{0x100, 0x7ff, 0x800, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfdd0, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x1ffff, 0x20000, 0x10fffe, 0x10ffff} {
					runes = append(runes, string(r))
				}
				for _, r := range runes {
					for _, c := range []string{"//%s\n", "//%s%s\n", "//x%sx\n", "//%s == 2\n", "// %s\n\n", "//\n%s", "/*%s*/", "/*%s%s*/", "/*x%sx*/", "/**%s*/", "/*%s**/", "/*\n%s\n*/", "//*%s\n", "/*%s//*/", "//%s*/\n"} {
						v := strings.ReplaceAll(c, "%s", r)
						for _, base := range []string{"when a|== 1", "when a == [1,|2]", "when a and b|", "|when a", "when 5|km", "trigger set a = 1|; b = 2 when c"} {
							pre, post, _ := strings.Cut(base, "|")
							lb, lv := ref.LexRaw(pre+" "+post), ref.LexRaw(pre+v+post)
							if lv.ErrOff >= 0 || !sameRaws(lb.Raws, lv.Raws) {
								continue
							}
							if !y(Case{Text: pre + " " + post + pairSep + pre + v + post}) {
								return
							}
						}
					}
				}
			}),
			lay("repeated", "every separator as many times as each number of a sweep, in each gap of short rules and in the middle and at the ends of every operand in a condition", func(y gen.Yield) {
				bases := []string{"when a == 1", "when [ 1 , -2 ] or b", "trigger set a = 5 km ; when b reset after 1h"}
				for _, o := range gen.Operands {
					bases = append(bases, "when x or "+o)
				}
				for k, base := range bases {
					l := ref.LexRaw(base)
					for i, n := range steps(t.pick(9, 300), t.pick(1100, 5000)) {
						for _, s := range []string{" ", "\n", "\t", "\r\n", "/**/", "/* c */", "// c\n", "//\n", "/***/ ", "\n//é\n"} {
							for j, r := range l.Raws {
								if k >= 3 && (i+j)%t.pick(6, 2) != 0 {
									continue
								}
								v := base[:r.Off] + strings.Repeat(s, n) + base[r.Off:]
								if lv := ref.LexRaw(v); lv.ErrOff < 0 && sameRaws(l.Raws, lv.Raws) && !y(Case{Text: base + pairSep + v}) {
									return
								}
							}
							if v := base + strings.Repeat(s, n); !y(Case{Text: base + pairSep + v}) {
								return
							}
						}
					}
				}
				for _, n := range []int{10001, t.pick(20002, 70000)} {
					for _, s := range []string{" ", "\n", "/**/", "// c\n"} {
						for _, f := range []string{"#when a == 1", "when#a == 1", "when a#== 1", "when a == [1#, 2]", "when a == 1#", "when 5#km"} {
							if !y(Case{Text: strings.ReplaceAll(f, "#", " ") + pairSep + strings.ReplaceAll(f, "#", " "+strings.Repeat(s, n))}) {
								return
							}
						}
					}
				}
			}),
			lay("gap-strings", fmt.Sprintf("every string of up to %d pieces of a layout alphabet in each gap of short rules", t.pick(5, 6)), func(y gen.Yield) {
				for _, r := range []string{"when\x1ea\x1e==\x1e1", "when\x1e[\x1e1,2]", "when\x1e-\x1e5C", "when a{\x1e\"x\"}\x1e:1", "when 5\x1ekm\x1e"} {
					gaps := strings.Split(r, "\x1e")
					base := strings.Join(gaps, " ")
					lb := ref.LexRaw(base)
					for g := 1; g < len(gaps); g++ {
						ok := true
						gen.Strings([]string{" ", "\n", "/", "*", "/*", "*/", "//", "\t", "\r", "x", "\""}, 0, t.pick(5, 6), "")(func(c Case) bool {
							v := strings.Join(gaps[:g], " ") + c.Text + strings.Join(gaps[g:], " ")
							if lv := ref.LexRaw(v); lv.ErrOff < 0 && sameRaws(lb.Raws, lv.Raws) {
								ok = y(Case{Text: base + pairSep + v})
							}
							return ok
						})
						if !ok {
							return
						}
					}
				}
			}))
		if t.Thorough {
			ss = append(ss,
				lay("straddles-all", "comments and white space of every length up to three buffers in every gap", straddles([]string{"when a == 1", "when s{\"x\"}:-1km >= 2.5"}, 1, 3200)))
		}
		return ss
	}})
}

func title(s string) string {
	r := []rune(s)
	return strings.ToUpper(string(r[:1])) + strings.ToLower(string(r[1:]))
}
