package props

import (
	"fmt"
	"strings"
	"sync"

	geo "github.com/mmadfox/go-geoql-parser"

	"verifmc/adapt"
	"verifmc/explore"
	"verifmc/gen"
	"verifmc/mcrt"
	"verifmc/ref"
)

// types is a set of types an operand can be used as.
type types uint16

const (
	tInt types = 1 << iota
	tFloat
	tString
	tBool
	tGeom
	tInts
	tFloats
	tStrings
	tIntRange
	tFloatRange
)

const (
	tNum     = tInt | tFloat
	tNums    = tInts | tFloats
	tNumRng  = tIntRange | tFloatRange
	tScalars = tInt | tFloat | tString | tBool
)

// permitted lists the operand types each operator may combine.
var permitted = func() map[string][][2]types {
	m := map[string][][2]types{}
	add := func(ops string, pairs ...[2]types) {
		for _, o := range strings.Split(ops, "|") {
			m[o] = append(m[o], pairs...)
		}
	}
	add("or|and", [2]types{tBool, tBool})
	add("eq|==|not eq|!=|<|<=|>|>=|+|-|*|/|rem", [2]types{tNum, tNum})
	add("eq|==|not eq|!=", [2]types{tBool, tBool}, [2]types{tStrings, tStrings}, [2]types{tNums | tGeom, tNums | tGeom})
	add("eq|==|not eq|!=|+", [2]types{tString, tString})
	add("in|not in", [2]types{tNum, tNumRng | tGeom}, [2]types{tInt, tInts}, [2]types{tFloat, tFloats}, [2]types{tString, tStrings})
	add("in|not in|nearby|not nearby|intersects|not intersects", [2]types{tGeom, tGeom})
	add("nearby|not nearby|intersects|not intersects", [2]types{tNum, tGeom})
	return m
}()

var arithmetic = map[string]bool{"+": true, "-": true, "*": true, "/": true, "rem": true}

// typer is the reference type model over reference trees.
type typer struct {
	vars  map[string]*ref.Node
	dict  geo.Dictionary
	steps int
}

func (t *typer) selector(n *ref.Node) types {
	name := strings.Trim(n.Val, `"`)
	switch t.dict[name] {
	case geo.Int, geo.ArrayInt:
		return tInt | tInts
	case geo.Float, geo.ArrayFloat:
		return tFloat | tFloats
	case geo.String, geo.ArrayString:
		return tString | tStrings
	case geo.Boolean:
		return tBool
	}
	return 0
}

// literal is the type of a literal, selector or variable; vars tells whether
// variables may be followed.
func (t *typer) literal(n *ref.Node, vars bool) types {
	switch n.Tag {
	case ref.TInt:
		return tInt
	case ref.TFloat, ref.TPercent, ref.TPress, ref.TDist, ref.TSpeed, ref.TTemp:
		return tFloat
	case ref.TString:
		return tString
	case ref.TBool:
		return tBool
	case ref.TPoint, ref.TLine, ref.TPolygon, ref.TMulti, ref.TCollect:
		return tGeom
	case ref.TSel:
		return t.selector(n)
	case ref.TRef:
		if v := t.vars[n.Val]; vars && v != nil {
			return t.literal(v, false)
		}
	case ref.TArray:
		all := tScalars
		for _, k := range n.Kids {
			if k.Tag == ref.TRef {
				all &= t.scalar(k)
			} else {
				all &= t.literal(k, false)
			}
		}
		var s types
		if all&tInt != 0 {
			s |= tInts
		}
		if all&tFloat != 0 {
			s |= tFloats
		}
		if all&tString != 0 {
			s |= tStrings
		}
		return s
	case ref.TRange:
		return rangeOf(t.scalar(n.Kids[0]), t.scalar(n.Kids[1]))
	}
	return 0
}

// scalar is the type of a bound or element, which may be a variable holding a
// scalar literal or a selector.
func (t *typer) scalar(n *ref.Node) types {
	if n.Tag == ref.TRef {
		v := t.vars[n.Val]
		if v == nil || v.Tag == ref.TArray || v.Tag == ref.TRange || v.Tag == ref.TRef {
			return 0
		}
		n = v
	}
	if n.Tag == ref.TArray || n.Tag == ref.TRange {
		return 0
	}
	return t.literal(n, false) & tScalars
}

func rangeOf(low, high types) types {
	switch {
	case high&tNum == 0:
		return 0
	case low&tInt != 0:
		return tIntRange
	case low&tFloat != 0:
		return tFloatRange
	}
	return 0
}

// check types an expression and tells whether all applications in it are
// permitted.
func (t *typer) check(n *ref.Node) (types, bool) {
	switch n.Tag {
	case ref.TParen:
		return t.check(n.Kids[0])
	case ref.TBin:
		l, ok1 := t.check(n.Kids[0])
		r, ok2 := t.check(n.Kids[1])
		if !ok1 || !ok2 {
			return 0, false
		}
		t.steps++
		for _, p := range permitted[n.Val] {
			if l&p[0] == 0 || r&p[1] == 0 {
				continue
			}
			if !arithmetic[n.Val] {
				return tBool, true
			}
			switch {
			case p[0] == tString:
				return tString, true
			case l&tFloat != 0 || r&tFloat != 0:
				return tFloat, true
			}
			return tInt, true
		}
		return 0, false
	case ref.TRange:
		l, ok1 := t.check(n.Kids[0])
		r, ok2 := t.check(n.Kids[1])
		if n.Kids[0].Tag == ref.TRef {
			l = t.scalar(n.Kids[0])
		}
		if n.Kids[1].Tag == ref.TRef {
			r = t.scalar(n.Kids[1])
		}
		return rangeOf(l, r), ok1 && ok2
	case ref.TArray:
		for _, k := range n.Kids {
			if _, ok := t.check(k); !ok {
				return 0, false
			}
		}
		return t.literal(n, true), true
	case ref.TSel:
		if props := n.Kids[1]; props != nil {
			for _, k := range props.Kids {
				if _, ok := t.check(k); !ok {
					return 0, false
				}
			}
		}
		return t.selector(n), true
	}
	return t.literal(n, true), true
}

func newTyper(tree *ref.Node, dict geo.Dictionary) *typer {
	t := &typer{vars: map[string]*ref.Node{}, dict: dict}
	for _, v := range tree.Kids[0].Kids {
		if name := v.Kids[0].Val; t.vars[name] == nil {
			t.vars[name] = v.Kids[1]
		}
	}
	return t
}

// typeDict declares a selector of every type.
func typeDict() geo.Dictionary {
	d := geo.Dict()
	for name, typ := range map[string]geo.SelectorType{
		"si": geo.Int, "sf": geo.Float, "ss": geo.String, "sb": geo.Boolean, "li": geo.ArrayInt, "lf": geo.ArrayFloat, "ls": geo.ArrayString,
		"a": geo.Int, "b": geo.Float, "c": geo.String, "d": geo.Boolean, "g": geo.ArrayFloat, "s": geo.String, "t": geo.Float, "x": geo.Int, "SU": geo.Int, "zero": 0, "neg": -1, "eight": 8,
	} {
		d[name] = typ
	}
	return d
}

const typeVars = `trigger set vi = 1; vf = 2.5; vs = "x"; vb = true; vk = 5km; vg = point[1,2]; vli = [1,2]; vlf = [1.5,2.5]; vls = ["a","b"]; vri = 1 .. 2; vrf = 1.5 .. 2.5; vrt = -5C .. +5C; vsi = si; vsf = sf; vss = ss; vsb = sb; vlsi = li; vlsel = [si, si]; vmix = [si, ss]; vd = 5s; vc = weekday[mon]; vw = *; vpar = (1); vund = undeclared; vrs = "a" .. "b"; vrsel = si .. sf; vpoly = polygon[[[1,2]]]; vmulti = multipoint[point[1,2]]; vcoll = collection[point[1,2]]; vline = line[[1,2]]; vlk = [1km,2km]; when `

var typeAssigns = strings.Split(strings.TrimSuffix(strings.TrimPrefix(typeVars, "trigger set "), "; when "), "; ")

// withVars makes a condition a rule that assigns the variables it mentions.
func withVars(cond string) string {
	if !strings.Contains(cond, "@v") {
		return "when " + cond
	}
	b := "trigger set "
	for _, a := range typeAssigns {
		if strings.Contains(cond, "@"+strings.Fields(a)[0]) {
			b += a + "; "
		}
	}
	return b + "when " + cond
}

// typeOperands has one operand or more of every type and way to have it.
func typeOperands() []string {
	l := []string{
		"1", "-1", "2.5", "5%", "1bar", "-2psi", "10km", "20kph", "-30F", "19C", `"s"`, "true", "down", "5s", "*",
		"si", "sf", "ss", "sb", "li", "lf", "ls", "undeclared", "su", "zero", "neg", "eight", `si{"x"}:1,2`, "ss:undeclared", "sb{*}", "SI",
		"[1,2]", "[1.5,2.5]", `["a","b"]`, "[5km]", "[si, si]", "[sf, lf]", "[ss, ls]", "[si, sf]", "[si, ss]", "[ss, si]", "[sb, sb]", "[undeclared, si]", "[si, undeclared]", "[1h]", "[1 .. 2]", "[@vi, @vi]", "[@vi, @vf]", "[@vf, @vk]", "[@vs, @vss]", "[@vi, @nope]", "[@vli, @vli]", "[5%]", "[1C]", "[1bar]",
		"1 .. 2", "1 .. 2.5", "1.5 .. 2", "1.5 .. 2.5", "-5C .. 5C", "1km .. 2km", "si .. 2", "1 .. sf", "sf .. si", `"a" .. "b"`, `1 .. "b"`, `"a" .. 1`, "1h .. 2h", "@vi .. @vf", "@vf .. 1", "@vs .. 1", "1 .. @vs", "@vli .. 2", "@vri .. 1", "undeclared .. 1", "1 .. undeclared", "1 .. true", "(1) .. 2", "(1 + 1) .. (2.5)", "1 .. (1 == 1)", "(\"a\" + 1) .. 2",
		"point[1,2]", "line[[1,2],[3,4]]", "polygon[[[1,2]]]", "multipoint[point[1,2]]", "multiline[line[[1,2]]]", "multipolygon[polygon[[[1,2]]]]", "collection[point[1,2]]",
		"weekday[mon]", "time[9:05]", "date[2024-01-02]", "month[jan]",
		"(1)", "(1 + 2.5)", `("a" + "b")`, "(1 == 2)", "(sb and true)", "((si * 2))", "(1 in 1 .. 2)", "(1 + true)", "(undeclared == 1)", "([1,2])", "(1 .. 2)", "(@vi)", "((point[1,2]))", "(si - sf)", "(2 rem 3)",
		"si:(1 + \"x\")", "si:(1 + 2)", "[si:(1 + \"x\")]", "@nope", "@VI", "@si",
	}
	for _, v := range strings.Fields("vi vf vs vb vk vg vli vlf vls vri vrf vrt vsi vsf vss vsb vlsi vlsel vmix vd vc vw vpar vund vrs vrsel vpoly vmulti vcoll vline vlk") {
		l = append(l, "@"+v)
	}
	return l
}

// verdict checks the types with given choices for the map iterations.
func verdict(stmt geo.Statement, dict geo.Dictionary, want []int) (ok bool, took []int) {
	took = mcrt.With(want, func() { ok = geo.CheckType(stmt, dict) == nil })
	return
}

// orders runs f under the default iteration orders, with every single
// deviation from them (of more than 64 iterations only the first and last dozen
// and some between deviate, and of maps of more than 650 entries only a few orders are taken) and, up to the limit, with every pair; f tells what is
// wrong.
func orders(limit int, f func(want []int) (took []int, wrong string)) (runs int, wrong string) {
	took, wrong := f(nil)
	runs = 1
	if wrong != "" {
		return
	}
	try := func(want []int) bool {
		runs++
		_, w := f(want)
		if w != "" {
			wrong = fmt.Sprintf("with map iteration orders %v: %s", want, w)
		}
		return w == ""
	}
	pairs := 0
	for i, n := range took {
		if k := len(took); k > 64 && i > 12 && i < k-12 && i%(k/16) != 0 || k > 2000 && i > 2 && i < k-2 && i%(k/4) != 0 {
			continue
		}
		for c := 1; c < n; c++ {
			if n > 1300 && c > 2 && c < n-2 && c != n/2 && c != n/2+1 && c != n/4 {
				continue
			}
			want := make([]int, i+1)
			want[i] = c
			runs++
			t2, w := f(want)
			if w != "" {
				wrong = fmt.Sprintf("with map iteration orders %v: %s", want, w)
				return
			}
			for j := i + 1; j < len(t2); j++ {
				for d := 1; d < t2[j]; d++ {
					if pairs++; pairs > limit {
						break
					}
					w2 := make([]int, j+1)
					w2[i], w2[j] = c, d
					if !try(w2) {
						return
					}
				}
			}
		}
	}
	return
}

// checkTypes compares CheckType with the type model under all map orders.
func checkTypes(text string, dict geo.Dictionary, pairs int) Result {
	stmt, err := geo.Parse(text)
	if err != nil {
		return Result{Outcome: "not a rule", Calls: 1, NoModel: true}
	}
	tree := adapt.Tree(stmt)
	if tree.Tag != ref.TTrigger || tree.Kids[1] == nil {
		return Result{Outcome: "no condition", Calls: 1, NoModel: true}
	}
	t := newTyper(tree, dict)
	_, want := t.check(tree.Kids[1])
	res := Result{Outcome: "mistyped", Calls: 1, Steps: t.steps}
	if want {
		res.Outcome = "well typed"
	}
	runs, wrong := orders(pairs, func(w []int) ([]int, string) {
		ok, took := verdict(stmt, dict, w)
		if ok == want {
			return took, ""
		}
		return took, fmt.Sprintf("CheckType(%q, %v) accepts: %v, permitted: %v", clip(text), dict, ok, want)
	})
	res.Calls += runs
	if wrong != "" {
		return bad("differs", "%s", wrong)
	}
	return res
}

var sharedDict = sync.OnceValue(typeDict)

func checkTyped(c Case) Result { return checkTypes(c.Text, sharedDict(), 0) }

// checkTypedPairs also tries pairs of deviating map orders.
func checkTypedPairs(c Case) Result { return checkTypes(c.Text, sharedDict(), 400) }

// checkDict takes the declared types of selectors p and q from Aux.
func checkDict(c Case) Result {
	d := geo.Dict()
	for i, n := range []string{"p", "q", "P"} {
		if c.Aux[i] > -2 {
			d[n] = geo.SelectorType(c.Aux[i])
		}
	}
	if c.Aux[0] == -2 && c.Aux[1] == -2 && c.Aux[2] == -2 {
		d = nil
	}
	return checkTypes(c.Text, d, 0)
}

func init() {
	register(&Prop{ID: "C14", Level: "model_checking", Instrumented: true, Spaces: func(t Tier) []explore.Space {
		sp := func(name, doc string, e gen.Enum) explore.Space {
			return explore.Space{Name: name, Doc: doc + "; each under all iteration orders of each map iteration", Enum: e, Check: checkTyped}
		}
		ops := gen.OpSpellings
		operands := typeOperands()
		few := []string{"1", "2.5", `"s"`, "true", "sb", "si", "lf", "[1,2]", "1 .. 2", "point[1,2]", "@vi", "@vls", "undeclared"}
		op5 := []string{"and", "==", "<", "in", "nearby", "+", "*"}
		w := func(e gen.Enum) gen.Enum { return gen.Map(e, withVars) }
		all3 := few
		if t.Thorough {
			all3 = append(append([]string{}, few...), "sf", "ls", `["a"]`, "1.5 .. 2", "@vb", "@vg", "@vri", "5km", "5s", "*", "[si, ss]", "weekday[mon]")
		}
		spaces := []explore.Space{
			sp("alone", "every operand alone, negated context and in parentheses", w(gen.In(gen.Texts(operands), []string{"%s", "(%s)", "((%s))", "%s reset after 1h"}))),
			sp("pairs", "every operator between every pair of operands", w(gen.Product(" ", operands, ops, operands))),
			{Name: "pairs-orders", Doc: "operators in both operands, each under all pairs of deviating map iteration orders", Enum: w(gen.Product(" ", gen.All(gen.Product(" ", few[:7], op5, few[:4])), op5, few)), Check: checkTypedPairs},
			sp("triples", "all triples of typical operands with all operator pairs, grouped both ways by parentheses and by precedence", w(gen.In(gen.Product("", all3, spaced(ops), all3, spaced([]string{"and", "==", "!=", "in", "not intersects", "+", "-", "<", "rem"}), all3), []string{"%s"}))),
			sp("groups", "typical operands in parenthesised pairs", w(gen.Chain(
				gen.Product("", []string{"("}, few, spaced(op5), few, []string{")"}, spaced(ops), few),
				gen.Product("", few, spaced(ops), []string{"("}, few, spaced(op5), few, []string{")"}),
				gen.Product("", []string{"("}, few[:t.pick(4, 7)], spaced(op5), few[:t.pick(4, 7)], []string{")"}, spaced(ops), []string{"(("}, few[:t.pick(3, 5)], spaced(op5), few[:t.pick(4, 7)], []string{"))"})))),
			sp("lists", "lists of up to three elements of every type on the right and left of every operator that takes lists", w(gen.In(listsOf([]string{"1", "2.5", `"s"`, "5km", "si", "sf", "ss", "li", "sb", "undeclared", "@vi", "@vf", "@vs", "@vb", "@vli", "@nope", "@vsi", "1 .. 2"}, 3), []string{"1 in %s", "2.5 not in %s", `"s" in %s`, "%s == [1]", `["a"] != %s`, "%s in point[1,2]", "%s == point[1,2]", "sf in %s", "%s eq [1.5]", "true in %s"}))),
			sp("list-positions", "an odd element at every position of lists of every length", w(func(y gen.Yield) {
				for n := 1; n <= t.pick(40, 130); n++ {
					for i := 0; i < n; i++ {
						for _, e := range [][3]string{{"si", "ss", "1"}, {"ss", "si", `"s"`}, {"sf", "si", "2.5"}, {"@vi", "@vs", "1"}, {"@vs", "@nope", `"s"`}, {"si", "undeclared", "1"}} {
							l := strings.Split(strings.Repeat(e[0]+" ", n-1)+e[0], " ")
							l[i] = e[1]
							if !y(Case{Text: e[2] + " in [" + strings.Join(l, ",") + "]"}) || !y(Case{Text: e[2] + " in [" + strings.TrimSuffix(strings.Repeat(e[0]+",", n), ",") + "]"}) {
								return
							}
						}
					}
				}
			})),
			sp("bounds", "ranges with all pairs of bounds, as operand and as variable", func(y gen.Yield) {
				gen.Product("", operands, []string{" .. "}, operands)(func(c Case) bool {
					for _, l := range []string{"1", "sf", "true"} {
						if !y(Case{Text: typeVars + l + " in " + c.Text}) || !y(Case{Text: strings.Replace(typeVars, "when ", "r = "+c.Text+"; when ", 1) + l + " in @r"}) {
							return false
						}
					}
					return true
				})
			}),
			sp("variables", "every operand assigned to a variable, used with every operator on both sides and in lists and ranges", func(y gen.Yield) {
				for _, o := range operands {
					pre := strings.Replace(typeVars, "when ", "v = "+o+"; when ", 1)
					ok := true
					gen.Chain(gen.Product(" ", []string{"@v"}, ops, few), gen.Product(" ", few, ops, []string{"@v"}), gen.Texts([]string{"@v", "@v == @v", "@v and @v", "1 in [@v]", "2.5 in [1.5, @v]", `"s" in [@v, @v]`, "1 in 1 .. @v", "2.5 in @v .. 1", "(@v) == 1", "@V == 1"}))(func(c Case) bool {
						ok = y(Case{Text: pre + c.Text})
						return ok
					})
					if !ok {
						return
					}
				}
			}),
			sp("variable-places", "a variable at every position among others, whose names extend or differ in case from it", func(y gen.Yield) {
				for n := 1; n <= t.pick(30, 80); n++ {
					for i := 0; i < n; i++ {
						for _, v := range [][2]string{{"1", "true"}, {"true", "1"}, {`"s"`, "2.5"}} {
							var b strings.Builder
							b.WriteString("trigger set V = 1.5; ")
							for k := 0; k < n; k++ {
								val := v[0]
								if k == i {
									val = v[1]
								}
								fmt.Fprintf(&b, "v%s = %s; ", strings.Repeat("x", k), val)
							}
							fmt.Fprintf(&b, "when @v%s ", strings.Repeat("x", i))
							for _, r := range []string{"== true", "+ 1", `== "s"`, "< 3"} {
								if !y(Case{Text: b.String() + r}) {
									return
								}
							}
						}
					}
				}
			}),
			sp("names", "two variables, named like selectors and each other's values, that hold every kind of value", func(y gen.Yield) {
				names := []string{"si", "ss", "li", "v"}
				values := []string{"1", "2.5", `"s"`, "true", "[1]", `["s"]`, "1 .. 2", "point[1,2]", "5s", "si", "ss", "sb", "sf", "li", "v", `si{"x"}:2`, "[si, si]", "si .. sf", "(si)", "(1 + ss)"}
				uses := []string{"@# == 1", "2.5 > @#", `@# + "s" == ss`, "@# and sb", "sb or not_ or @#", "1 in @#", `@# in ["s"]`, "@# in [1]", "@# in 1 .. 2", "@# nearby point[1,2]", "# == 1", `# == "s"`, "@# == @$", "@# == $", "1 in [@#, @$]", "si in @# .. @$", "si{\"x\"}:@#, # * 2 == 1"}
				for _, a := range names {
					for _, b := range names {
						if a == b {
							continue
						}
						for i, va := range values {
							for j, vb := range values {
								if !t.Thorough && i < 8 && j < 8 && (i+j)%3 != 0 {
									continue
								}
								for _, u := range uses {
									if !y(Case{Text: "trigger set " + a + " = " + va + "; " + b + " = " + vb + "; when " + strings.NewReplacer("#", a, "$", b).Replace(u)}) {
										return
									}
								}
							}
						}
					}
				}
			}),
			sp("long-names", "variables and selectors whose names share all but one letter at every place of names of every length", func(y gen.Yield) {
				for _, n := range steps(t.pick(20, 140), t.pick(600, 5000)) {
					base := strings.Repeat("n", n)
					for _, v := range []string{base + "x", "x" + base, base[:n-1] + "x", base[:n-1] + "N", "N" + base[1:], base[:n/2+1], base + base} {
						if v == base {
							continue
						}
						for _, p := range [][2]string{{base, v}, {v, base}} {
							for _, u := range []string{"@" + p[0] + " == 1", "@" + p[1] + " == true", "@" + p[0] + " + 1", "@" + p[1] + " and @" + p[0], "@" + p[0] + " and true"} {
								if !y(Case{Text: "trigger set " + p[0] + " = true; " + p[1] + " = 1; when " + u}) || !y(Case{Text: "trigger set " + p[1] + " = 1; when " + u}) {
									return
								}
							}
						}
					}
				}
			}),
			sp("long", "every kind of operand and clause with many parts", sweep(steps(t.pick(6, 70), t.pick(140, 1100)), gen.LongRules)),
			sp("odd-parts", "one part of another type at the ends and in the middle of long operands", sweep(steps(t.pick(6, 40), t.pick(70, 300)), func(n int) []string {
				return gen.All(w(gen.In(gen.Texts(gen.OddOnes(n, []string{"1", "2.5", `"q"`, "@vi", "@vs", "@nope", "si", "ss", "ls", "undeclared", "5km", "5s", "1 .. 2", `1 .. "s"`, "@vs .. 1", `si:(1 + "x")`, "(1 + true)", "[1, true]", "true", "*", "point[3,4]"})), []string{"%s == 1", "1 in %s", "%s", "si in %s and %s != li"})))
			})),
			sp("depth", "a well or ill typed application at every depth of long chains and deep nestings", w(func(y gen.Yield) {
				for _, n := range steps(t.pick(24, 120), t.pick(200, 700)) {
					for _, core := range []string{"1", "sb", "true", "undeclared", `"s"`, "@nope", `(1 + "x")`, "(1 and sb)", `("s" - 1)`, "(undeclared + 1)", "[si, (1 == sb)]", "si:(1 + true)", "@vund"} {
						for _, p := range [][3]string{{"[", "", "]"}, {"[si:(", "", ")]"}, {"si:1,(", "", ")"}, {"si:[", "", "]"}, {"1 .. (", "", ")"}, {"(", "", ") .. 2"}, {"si:", "", ""}, {"[1, ", "", "]"}, {"sb:(1 == ", "", ")"}, {"[si:(si:", "", "), 1]"}, {"(", "", ")"}, {"(1 + ", "", ")"}, {"(", "", " + 1)"}, {"true and ", "", ""}, {"", "", " or true"}, {"(true or ", "", ")"}, {"", " == 1", " and sb"}, {"1 + ", " < 3", ""}, {"", " + 2", " - 2.5"}, {"\"x\" + ", "", ""}, {"si:(", "", ")"}, {"(1 == ", "", ")"}} {
							text := strings.Repeat(p[0], n) + core + p[1] + strings.Repeat(p[2], n)
							if !y(Case{Text: text}) || !y(Case{Text: text + " == 1"}) {
								return
							}
						}
					}
				}
			})),
			sp("deep", "a well or ill typed application below thousands of operators, of one or of alternating kinds, and thousands of levels deep", w(func(y gen.Yield) {
				for _, n := range [][]int{{1030, 5000, 9000}, {520, 1030, 2050, 4100, 5001, 7000, 8200, 9990, 20001, 33000, 66000}}[t.pick(0, 1)] {
					for _, core := range []string{"1", "true", `(1 + "x")`, "(undeclared + 1)", "@vund", "[si, (1 == sb)]"} {
						for _, p := range [][3]string{{"", " + 1", ""}, {"", " == 1", " and sb"}, {"", " * 2 + si", ""}, {"", " or true", ""}, {"", " and sb or sb", ""}, {"(", "", ")"}, {"(1 + ", "", ")"}, {"(sb and ", "", ")"}, {"si:", "", ""}, {"[si:(", "", ")]"}} {
							text := strings.Repeat(p[0], n) + core + strings.Repeat(p[1], n) + strings.Repeat(p[2], n)
							if p[1] == " == 1" {
								text = core + strings.Repeat(" == 1", 1) + strings.Repeat(p[2], n)
							}
							if !y(Case{Text: text}) || !y(Case{Text: "sb and (" + text + ") == 1"}) {
								return
							}
						}
					}
				}
			})),
			sp("seeds", "every rule and every operand in every context", gen.Texts(gen.Seeds())),
			{Name: "dictionaries", Doc: "two selectors (and one differing in case) with every declared type, undeclared or of unknown type, with every operator and typical operands", Check: checkDict, Enum: func(y gen.Yield) {
				vals := []int{-2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8}
				for _, a := range vals {
					for _, b := range vals {
						for _, cs := range []int{-2, 1, 4, 7} {
							for _, o := range ops {
								for _, l := range [][2]string{{"p", "q"}, {"P", `q{"x"}:1`}, {"(p + q)", "q"}, {"[p, q]", "q"}, {"p", "p .. q"}, {"p", "[q, p]"}} {
									if !y(Case{Text: "when " + l[0] + " " + o + " " + l[1], Aux: []int{a, b, cs}}) {
										return
									}
								}
							}
						}
					}
				}
			}},
		}
		if t.Thorough {
			spaces = append(spaces, sp("quads", "all operator trees over four typical operands", w(gen.Chain(
				gen.Product("", few[:8], spaced(op5), few[:8], spaced(op5), few[:8], spaced(op5), few[:8]),
				gen.Product("", []string{"("}, few[:8], spaced(op5), few[:8], []string{")"}, spaced(op5), few[:8], spaced(op5), few[:8]),
				gen.Product("", few[:8], spaced(op5), []string{"("}, few[:8], spaced(op5), few[:8], []string{")"}, spaced(op5), few[:8])))))
		}
		skip := []string{"C02/top3", "C02/byte-edits", "C04/strings", "C05/strings", "C05/brackets", "C06/byte-edits"}
		if !t.Thorough {
			return append(spaces, reuse(t, checkTyped, "type checked", append(skip, "C01/strings", "C02/edits", "C02/operand-edits", "C02/viable", "C02/long", "C02/odd-ones", "C02/long-edits"), "C01", "C02", "C19")...)
		}
		return append(spaces, reuse(t, checkTyped, "type checked", skip, "C01", "C02", "C06", "C07", "C19")...)
	}})
}

func spaced(l []string) []string {
	out := make([]string, len(l))
	for i, s := range l {
		out[i] = " " + s + " "
	}
	return out
}

// listsOf enumerates the bracketed lists of 1..n elements.
func listsOf(elems []string, n int) gen.Enum {
	return gen.Wrap(gen.Strings(elems, 1, n, ","), "[", "]")
}
