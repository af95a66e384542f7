// Package gen enumerates finite sets of texts.
package gen

import (
	"strings"
	"unicode"

	"verifmc/explore"
	"verifmc/ref"
)

// Yield receives texts; false means stop.
type Yield = func(explore.Case) bool

// Enum is an enumerator of cases.
type Enum = func(Yield)

// Texts enumerates a list.
func Texts(l []string) Enum {
	return func(y Yield) {
		for _, s := range l {
			if !y(explore.Case{Text: s}) {
				return
			}
		}
	}
}

// Chain enumerates several sets after one another.
func Chain(es ...Enum) Enum {
	return func(y Yield) {
		ok := true
		for _, e := range es {
			e(func(c explore.Case) bool {
				ok = y(c)
				return ok
			})
			if !ok {
				return
			}
		}
	}
}

// Map rewrites every text of a set.
func Map(e Enum, f func(string) string) Enum {
	return func(y Yield) {
		e(func(c explore.Case) bool {
			c.Text = f(c.Text)
			return y(c)
		})
	}
}

// Wrap puts every text between a prefix and a suffix.
func Wrap(e Enum, pre, post string) Enum {
	return Map(e, func(s string) string { return pre + s + post })
}

// In puts every text of a set into every context; a context is a text with
// one or more %s.
func In(e Enum, contexts []string) Enum {
	var es []Enum
	for _, c := range contexts {
		c := c
		es = append(es, Map(e, func(s string) string { return strings.ReplaceAll(c, "%s", s) }))
	}
	return Chain(es...)
}

// Strings enumerates all strings of exactly lo..hi tokens of the alphabet,
// joined by sep, shortest first.
func Strings(alpha []string, lo, hi int, sep string) Enum {
	return func(y Yield) {
		for n := lo; n <= hi; n++ {
			idx := make([]int, n)
			for {
				var b strings.Builder
				for i, k := range idx {
					if i > 0 {
						b.WriteString(sep)
					}
					b.WriteString(alpha[k])
				}
				if !y(explore.Case{Text: b.String()}) {
					return
				}
				i := n - 1
				for ; i >= 0; i-- {
					idx[i]++
					if idx[i] < len(alpha) {
						break
					}
					idx[i] = 0
				}
				if i < 0 {
					break
				}
			}
		}
	}
}

// Product enumerates the concatenations of one element of each list.
func Product(sep string, lists ...[]string) Enum {
	return func(y Yield) {
		idx := make([]int, len(lists))
		for _, l := range lists {
			if len(l) == 0 {
				return
			}
		}
		for {
			var b strings.Builder
			for i, k := range idx {
				if i > 0 {
					b.WriteString(sep)
				}
				b.WriteString(lists[i][k])
			}
			if !y(explore.Case{Text: b.String()}) {
				return
			}
			i := len(lists) - 1
			for ; i >= 0; i-- {
				idx[i]++
				if idx[i] < len(lists[i]) {
					break
				}
				idx[i] = 0
			}
			if i < 0 {
				return
			}
		}
	}
}

// All collects an enumeration (for small sets).
func All(e Enum) (out []string) {
	e(func(c explore.Case) bool {
		out = append(out, c.Text)
		return true
	})
	return
}

// Split cuts a text into the source texts of its language tokens.
func Split(text string) []string {
	toks, ok := ref.Lex(text)
	if !ok {
		panic("gen.Split: not lexable: " + text)
	}
	var out []string
	for _, t := range toks {
		if t.K != ref.EOF {
			out = append(out, text[t.Off:t.End])
		}
	}
	return out
}

func join(l []string) string { return strings.Join(l, " ") }

// splice returns l with l[i:j] replaced by mid.
func splice(l []string, i, j int, mid ...string) []string {
	out := make([]string, 0, len(l)+len(mid))
	out = append(out, l[:i]...)
	out = append(out, mid...)
	return append(out, l[j:]...)
}

// edits1 yields every text one token edit away from toks (and toks itself).
func edits1(toks, alpha []string, f func([]string) bool) bool {
	if !f(toks) {
		return false
	}
	n := len(toks)
	for i := 0; i < n; i++ {
		if !f(splice(toks, i, i+1)) { // deletion
			return false
		}
		if !f(splice(toks, i, i, toks[i])) { // duplication
			return false
		}
		if i+1 < n && !f(splice(toks, i, i+2, toks[i+1], toks[i])) { // transposition
			return false
		}
		if !f(toks[:i]) { // truncation
			return false
		}
		if !f(toks[i:]) { // beheading
			return false
		}
		for _, a := range alpha {
			if !f(splice(toks, i, i+1, a)) { // substitution
				return false
			}
		}
	}
	for i := 0; i <= n; i++ {
		for _, a := range alpha {
			if !f(splice(toks, i, i, a)) { // insertion
				return false
			}
		}
	}
	return true
}

// Edits enumerates the complete neighbourhood of k token edits of every seed.
func Edits(seeds, alpha []string, k int) Enum {
	return func(y Yield) {
		for _, s := range seeds {
			var rec func(toks []string, k int) bool
			rec = func(toks []string, k int) bool {
				if k == 0 {
					return y(explore.Case{Text: join(toks)})
				}
				return edits1(toks, alpha, func(t []string) bool { return rec(t, k-1) })
			}
			if !rec(Split(s), k) {
				return
			}
		}
	}
}

// ByteEdits enumerates, for every seed, all truncations, all deletions,
// duplications and transpositions of one byte, and all substitutions and
// insertions of one of the given bytes.
func ByteEdits(seeds []string, bytes []string) Enum {
	return func(y Yield) {
		t := func(s string) bool { return y(explore.Case{Text: s}) }
		for _, s := range seeds {
			for i := 0; i <= len(s); i++ {
				if !t(s[:i]) || !t(s[i:]) {
					return
				}
				if i < len(s) {
					if !t(s[:i]+s[i+1:]) || !t(s[:i+1]+s[i:]) {
						return
					}
				}
				if i+1 < len(s) && !t(s[:i]+s[i+1:i+2]+s[i:i+1]+s[i+2:]) {
					return
				}
				for _, b := range bytes {
					if !t(s[:i] + b + s[i:]) {
						return
					}
					if i < len(s) && !t(s[:i]+b+s[i+1:]) {
						return
					}
				}
			}
		}
	}
}

// merges tells whether a token text may combine with what follows it, so that
// a text that ends with it cannot be judged yet.
func merges(s string) bool {
	switch strings.ToLower(s) {
	case ".", "=", "!", "<", ">", "not", "/", "-", "+":
		return true
	}
	return false
}

// Viable enumerates every text prefix+t1+...+tn+suffix (n <= depth), tokens
// separated by sep, for which the text up to t(n-1) can still be continued to
// a rule: the tree of viable prefixes plus every first dead end.  suffixes are
// put after each.
func Viable(prefix string, alpha []string, depth int, sep string, suffixes []string) Enum {
	return func(y Yield) {
		level := []string{prefix}
		for d := 0; d < depth; d++ {
			var next []string
			for _, p := range level {
				for _, a := range alpha {
					s := p + sep + a
					if p == "" {
						s = a
					}
					for _, suf := range suffixes {
						if !y(explore.Case{Text: s + suf}) {
							return
						}
					}
					if d+1 < depth && (merges(a) || ref.Extendable(s)) {
						next = append(next, s)
					}
				}
			}
			level = next
		}
	}
}

// Cases enumerates every combination of letter cases of a word.
func Cases(word string) []string {
	out := []string{""}
	for _, r := range word {
		lo, up := unicode.ToLower(r), unicode.ToUpper(r)
		var next []string
		for _, p := range out {
			next = append(next, p+string(lo))
			if lo != up {
				next = append(next, p+string(up))
			}
		}
		out = next
	}
	return out
}

// FewCases are the usual spellings of a word: lower, upper, title, and every
// single letter flipped.
func FewCases(word string) []string {
	set := map[string]bool{}
	var out []string
	add := func(s string) {
		if !set[s] {
			set[s] = true
			out = append(out, s)
		}
	}
	lo, up := strings.ToLower(word), strings.ToUpper(word)
	add(lo)
	add(up)
	l, u := []rune(lo), []rune(up)
	for i := range l {
		if len(u) != len(l) {
			break
		}
		add(string(l[:i]) + string(u[i]) + string(l[i+1:]))
		add(string(u[:i]) + string(l[i]) + string(u[i+1:]))
	}
	return out
}
