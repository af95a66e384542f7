package props

import (
	"fmt"
	"io"
	"reflect"
	"strconv"
	"strings"

	geo "github.com/mmadfox/go-geoql-parser"
	"github.com/mmadfox/go-geoql-parser/scanner"

	"verifmc/explore"
	"verifmc/gen"
	"verifmc/mcrt"
)

// worldOps are the calls that histories are made of.
func worldOps() []op {
	ops := []op{
		parseOp(worldTexts[0]), parseOp(worldTexts[1]),
		parseOp("when a"), parseOp("when -5C"), parseOp(`when s{"id"}:1km`), parseOp("when date[2024-01-02]"), parseOp("when weekday[Mon] == time[9:05PM]"),
		parseOp("when a == -"), parseOp("when -1 +"), parseOp(`when "unterminated`), parseOp("when a /* b"), parseOp("when ((a)"), parseOp("when point[1,2]:"), parseOp("when a repeat 3 every"), parseOp("\x00"), parseOp("when not"), parseOp("when 5m"), parseOp("when line[[1,2]]:5m"),
		scrambleOp(worldTexts[0]), scrambleOp(worldTexts[1]), scrambleOp(`when s{"id"}:1km`), scrambleOp("trigger set v = multiline[line[[1,2]]:3km]; when month[jan, feb] == 1 .. 2"), scrambleOp("when true and *"),
		tokenOp(`when a == -1.5km not in ("x"`), scanOp("a 'b' \"c"),
		formatOp(0), formatOp(1), formatFailOp(0, 3), formatFailOp(0, 40), formatFailOp(1, 9),
		walkOp(0, 0), walkOp(0, 4), walkOp(1, 0),
		checkOp(0, 0), checkOp(0, 1), checkOp(1, 0), checkOp(1, 1),
		changeStmtOp(0, 0), changeStmtOp(0, 1), changeStmtOp(1, 1), changeDictOp(0), changeDictOp(1),
	}
	return ops
}

// model is the reference: each result depends only on the arguments, whose
// state is the list of changes that the caller made to them.
type model struct {
	ops  []op
	memo map[string]string
}

// expected runs an op alone, in a fresh world, after the given changes.
func (m *model) expected(changes []int, i int) string {
	o := m.ops[i]
	var rel []int
	for _, c := range changes {
		k := m.ops[c]
		if k.stmt >= 0 && k.stmt == o.stmt || k.dict >= 0 && k.dict == o.dict {
			rel = append(rel, c)
		}
	}
	key := fmt.Sprint(rel, i)
	if s, ok := m.memo[key]; ok {
		return s
	}
	w := newWorld()
	for _, c := range rel {
		m.ops[c].run(w)
	}
	s := o.run(w)
	m.memo[key] = s
	return s
}

// history runs the ops one after another and checks each against the model,
// and that no call changed anything it should not.  Unless all is set, it checks
// the last only: the others are the last of shorter histories.
func (m *model) history(h []int, all bool) Result {
	// the answers of the calls alone are known before the history begins
	var changes []int
	want := make([]string, len(h))
	for i, k := range h {
		want[i] = m.expected(changes, k)
		if m.ops[k].changes {
			changes = append(changes, k)
		}
	}
	w := newWorld()
	res := Result{Outcome: "as alone"}
	said := func(i int) string {
		var l []string
		for _, k := range h[:i+1] {
			l = append(l, m.ops[k].name)
		}
		return strings.Join(l, ";\n  then ")
	}
	state := func() (l []string) {
		for _, s := range w.stmts {
			l = append(l, deep(s))
		}
		for _, d := range w.dicts {
			l = append(l, deep(d))
		}
		return
	}
	var before []string
	for i, k := range h {
		o := m.ops[k]
		checked := all || i == len(h)-1
		if checked && before == nil {
			before = state()
		}
		got := o.run(w)
		res.Calls++
		res.Steps++
		if !checked {
			continue
		}
		if got != want[i] {
			return bad("differs", "after %s\nthe last call gives\n%s\nand alone it gives\n%s", said(i), clip(got), clip(want[i]))
		}
		after := state()
		for j := range after {
			if after[j] == before[j] {
				continue
			}
			if o.changes && (j == o.stmt || j == o.dict+len(w.stmts)) {
				continue
			}
			return bad("differs", "%s changes argument %d from\n%s\nto\n%s", said(i), j, clip(before[j]), clip(after[j]))
		}
		before = after
		for _, k := range w.kept {
			if now := deep(k.x); now != k.was {
				return bad("differs", "%s changes %s from\n%s\nto\n%s", said(i), k.what, clip(k.was), clip(now))
			}
		}
	}
	return res
}

// histories enumerates all sequences of n op numbers.
func histories(n, lo, hi int) gen.Enum {
	return func(y gen.Yield) {
		for l := lo; l <= hi; l++ {
			idx := make([]int, l)
			for {
				if !y(Case{Text: "history", Aux: append([]int{}, idx...)}) {
					return
				}
				i := l - 1
				for ; i >= 0; i-- {
					idx[i]++
					if idx[i] < n {
						break
					}
					idx[i] = 0
				}
				if i < 0 {
					break
				}
			}
		}
	}
}

// twoTexts parses, formats and checks one text after another (Text holds both).
func twoTexts() func(Case) Result {
	memo := map[string]string{}
	all := func(text string) string {
		stmt, err := geo.Parse(text)
		if err != nil {
			return "error: " + err.Error()
		}
		s := deep(stmt)
		f, ferr := format(stmt)
		cerr := geo.CheckType(stmt, sharedDict())
		again := geo.CheckType(stmt, sharedDict())
		if fmt.Sprint(cerr) != fmt.Sprint(again) {
			return fmt.Sprint("checking twice gives ", cerr, " and ", again)
		}
		return fmt.Sprint(s, f, ferr, cerr)
	}
	return func(c Case) Result {
		t := strings.Split(c.Text, fieldSep)
		want, ok := memo[t[1]]
		if !ok {
			newWorld()
			want = all(t[1])
			if len(memo) < 1<<16 {
				memo[t[1]] = want
			}
		}
		newWorld()
		stmt, err := geo.Parse(t[0])
		was := ""
		if err == nil {
			was = deep(stmt)
			format(stmt)
			geo.CheckType(stmt, sharedDict())
			if now := deep(stmt); now != was {
				return bad("differs", "formatting or type checking the statement of %q changed it from\n%s\nto\n%s", clip(t[0]), clip(was), clip(now))
			}
		}
		if got := all(t[1]); got != want {
			return bad("differs", "after %q, parsing, formatting and checking %q gives\n%s\nand alone it gives\n%s", clip(t[0]), clip(t[1]), clip(got), clip(want))
		}
		if err == nil {
			if now := deep(stmt); now != was {
				return bad("differs", "parsing %q changed the statement of %q from\n%s\nto\n%s", clip(t[1]), clip(t[0]), clip(was), clip(now))
			}
			if other, err := geo.Parse(t[1]); err == nil {
				first := deep(other)
				grow(reflect.ValueOf(stmt), 1)
				mine := deep(stmt)
				if now := deep(other); now != first {
					return bad("differs", "appending to the lists of the statement of %q changed that of %q from\n%s\nto\n%s", clip(t[0]), clip(t[1]), clip(first), clip(now))
				}
				grow(reflect.ValueOf(other), 2)
				if now := deep(stmt); now != mine {
					return bad("differs", "appending to the lists of the statement of %q changed that of %q from\n%s\nto\n%s", clip(t[1]), clip(t[0]), clip(mine), clip(now))
				}
			}
			scramble(reflect.ValueOf(stmt))
			if got := all(t[1]); got != want {
				return bad("differs", "after overwriting the statement of %q, parsing, formatting and checking %q gives\n%s\nand alone it gives\n%s", clip(t[0]), clip(t[1]), clip(got), clip(want))
			}
		}
		return Result{Outcome: "as alone", Calls: 10, Steps: 3}
	}
}

// checkThenCheck type checks one statement, another, and the first again.
func checkThenCheck() func(Case) Result {
	memo := map[string]string{}
	parse := func(text string) geo.Statement {
		stmt, err := geo.Parse(text)
		if err != nil {
			return nil
		}
		return stmt
	}
	alone := func(text string) string {
		s, ok := memo[text]
		if !ok {
			newWorld()
			s = "not a rule"
			if stmt := parse(text); stmt != nil {
				s = fmt.Sprint(geo.CheckType(stmt, sharedDict()))
			}
			memo[text] = s
		}
		return s
	}
	return func(c Case) Result {
		t := strings.Split(c.Text, fieldSep)
		want := []string{alone(t[0]), alone(t[1])}
		newWorld()
		stmts := []geo.Statement{parse(t[0]), parse(t[1])}
		if stmts[0] == nil || stmts[1] == nil {
			return Result{Outcome: "not a rule", Calls: 2}
		}
		res := Result{Outcome: "as alone"}
		for n, i := range []int{0, 1, 1, 0} {
			if got := fmt.Sprint(geo.CheckType(stmts[i], sharedDict())); got != want[i] {
				return bad("differs", "check %d of %q and %q gives\n%s\nand alone it gives\n%s", n, clip(t[0]), clip(t[1]), clip(got), clip(want[i]))
			}
			res.Calls++
			res.Steps++
		}
		return res
	}
}

// families are texts numbered without end, that fill whatever is kept from one
// call to the next.
var families = []string{"when s#", "when s#:#", "when @v#", `when a == "t#"`, `when a{"i#"}`, "when a == #", "when a == -#.25", "when a == #km", "when a == #%", "when a reset after #s", "trigger set v# = #; when @v# == 1", "when point[#,1]:#m", "when line[[#,1],[2,3]]", "when [#, 1] == a", "when a == # +", "when (a + #", `when a == "#`, "when s# + #.5 == sb", "when time[9:#]", "when date[2024-01-#]", "when a in # .. 5", "when a repeat # every 1h", "when a and # or si + true"}

// many parses, formats and checks that many texts of a family (or of all
// families in turn), then one text of every family.  Aux: family, number.
func many(c Case) Result {
	fam, n := c.Aux[0], c.Aux[1]
	text := func(f, i int) string { return strings.ReplaceAll(families[f], "#", strconv.Itoa(i)) }
	all := func(s string) string {
		stmt, err := geo.Parse(s)
		if err != nil {
			return "error: " + err.Error()
		}
		f, ferr := format(stmt)
		return fmt.Sprint(deep(stmt), f, ferr, geo.CheckType(stmt, sharedDict()))
	}
	var probes []string
	for f := range families {
		for _, i := range []int{0, 1, n / 2, n - 1, n, n + 1} {
			probes = append(probes, text(f, i))
		}
	}
	want := make([]string, len(probes))
	for i, p := range probes {
		newWorld()
		want[i] = all(p)
	}
	newWorld()
	res := Result{Outcome: "as alone"}
	for i := 0; i < n; i++ {
		f := fam
		if fam == len(families) {
			f = i * 7 % len(families)
		}
		all(text(f, i))
		res.Calls++
		res.Steps++
	}
	for i, p := range probes {
		res.Calls++
		if got := all(p); got != want[i] {
			return bad("differs", "after %d texts like %q, parsing, formatting and checking %q gives\n%s\nand alone it gives\n%s", n, text(min(fam, len(families)-1), 0), p, clip(got), clip(want[i]))
		}
	}
	return res
}

// counter makes one call many times, then every call once.  Aux: call, number.
func (m *model) counter(c Case) Result {
	k, n := c.Aux[0], c.Aux[1]
	want := make([]string, len(m.ops))
	for i, o := range m.ops {
		if !o.changes {
			want[i] = m.expected(nil, i)
		}
	}
	w := newWorld()
	res := Result{Outcome: "as alone"}
	for i := 0; i < n; i++ {
		if got := m.ops[k].run(w); got != want[k] {
			return bad("differs", "call %d of %s gives\n%s\nand alone it gives\n%s", i+1, m.ops[k].name, clip(got), clip(want[k]))
		}
		res.Calls++
		res.Steps++
	}
	for i, o := range m.ops {
		if o.changes {
			continue
		}
		if got := o.run(w); got != want[i] {
			return bad("differs", "after %d calls of %s\n%s gives\n%s\nand alone it gives\n%s", n, m.ops[k].name, o.name, clip(got), clip(want[i]))
		}
		res.Calls++
		res.Steps++
	}
	return res
}

// An outer call runs code of the caller: a writer, a visitor, a reader, an error
// handler.  It calls hook each time.
type outer struct {
	name string
	run  func(w *world, hook func()) string
}

type hookWriter struct {
	b    strings.Builder
	hook func()
}

func (w *hookWriter) WriteString(s string) (int, error) {
	w.hook()
	return w.b.WriteString(s)
}

// hookReader delivers two bytes at a time.
type hookReader struct {
	text string
	hook func()
}

func (r *hookReader) Read(p []byte) (int, error) {
	r.hook()
	if r.text == "" {
		return 0, io.EOF
	}
	n := copy(p[:min(2, len(p))], r.text)
	r.text = r.text[n:]
	return n, nil
}

func outers() []outer {
	var l []outer
	for i := range worldTexts {
		l = append(l, outer{fmt.Sprintf("Format(statement %d)", i), func(w *world, hook func()) string {
			hw := &hookWriter{hook: hook}
			err := geo.Format(hw, w.stmts[i])
			return fmt.Sprint(hw.b.String(), err)
		}}, outer{fmt.Sprintf("Visit(statement %d)", i), func(w *world, hook func()) string {
			var b strings.Builder
			geo.Visit(w.stmts[i].(geo.Expr), func(e geo.Expr) bool {
				hook()
				fmt.Fprintf(&b, "%T;", e)
				return true
			})
			return b.String()
		}})
	}
	return append(l, outer{"tokenizing", func(w *world, hook func()) string {
		var b strings.Builder
		t := geo.NewTokenizer(&hookReader{`when speed{"x"} not in 1.5km .. 20km /* c */ and @é`, hook})
		for i := 0; i < 100; i++ {
			k, lit := t.Scan()
			fmt.Fprintf(&b, "%d %q %q %d;", k, lit, t.TokenText(), t.Offset())
		}
		return b.String()
	}}, outer{"scanning", func(w *world, hook func()) string {
		var b strings.Builder
		var s scanner.Scanner
		s.Init(&hookReader{"a 'bc' \"\\y \x00 /* é", hook})
		s.Error = func(_ *scanner.Scanner, msg string) {
			hook()
			fmt.Fprintf(&b, "!%s;", msg)
		}
		for i := 0; i < 100; i++ {
			k := s.Scan()
			fmt.Fprintf(&b, "%d %q %v;", k, s.TokenText(), s.Position)
		}
		return b.String()
	}})
}

// nested makes a call from inside another: from its writer, visitor, reader or
// error handler.  Both give what they give alone.  Or that code panics, and the
// calls that follow give what they give alone.  Aux: outer call, when, inner
// call, whether the code panics.
func (m *model) nested(c Case) Result {
	o, at, in, panics := outers()[c.Aux[0]], c.Aux[1], m.ops[c.Aux[2]], c.Aux[3] > 0
	wantIn := m.expected(nil, c.Aux[2])
	n := 0
	wantOut := o.run(newWorld(), func() { n++ })
	if at >= n {
		return Result{Outcome: "fewer calls", Calls: 1, NoModel: true}
	}
	w := newWorld()
	var before []string
	for _, s := range w.stmts {
		before = append(before, deep(s))
	}
	n = 0
	gotIn := wantIn
	gotOut := func() (s string) {
		defer func() {
			if r := recover(); r != nil && panics {
				s = ""
			} else if r != nil {
				panic(r)
			}
		}()
		return o.run(w, func() {
			if n++; n-1 == at {
				if panics {
					panic(fmt.Sprint("the caller's code fails"))
				}
				gotIn = in.run(w)
			}
		})
	}()
	if panics {
		gotOut, gotIn = o.run(w, func() {}), in.run(w)
	}
	how := "from inside"
	if panics {
		how = "after a panic inside"
	}
	if gotIn != wantIn {
		return bad("differs", "%s %s (callback %d), %s gives\n%s\nand alone it gives\n%s", how, o.name, at, in.name, clip(gotIn), clip(wantIn))
	}
	if gotOut != wantOut {
		return bad("differs", "%s with %s %s (callback %d) gives\n%s\nand alone it gives\n%s", o.name, in.name, how, at, clip(gotOut), clip(wantOut))
	}
	for i, s := range w.stmts {
		if now := deep(s); now != before[i] {
			return bad("differs", "%s with %s %s changes statement %d from\n%s\nto\n%s", o.name, in.name, how, i, clip(before[i]), clip(now))
		}
	}
	return Result{Outcome: "as alone", Calls: 4, Steps: 2}
}

// neighbours of a text: it differs in one place.
func neighbours(s string) []string {
	var out []string
	for i := 0; i < len(s); i++ {
		out = append(out, s[:i]+s[i+1:], s[:i]+s[i:i+1]+s[i:], s[:i], s[i:])
		switch c := s[i]; {
		case c >= '0' && c < '9':
			out = append(out, s[:i]+string(rune(c+1))+s[i+1:])
		case c >= 'a' && c <= 'z':
			out = append(out, s[:i]+strings.ToUpper(s[i:i+1])+s[i+1:], s[:i]+"x"+s[i+1:])
		case c == ' ':
			out = append(out, s[:i]+"\n"+s[i+1:])
		}
	}
	return out
}

// argDicts are dictionaries of every kind: none, empty, each type for every
// name, some of the names, and with values that are no type.
func argDicts() []geo.Dictionary {
	names := []string{"a", "b", "c", "s", "x", "si", "sf", "ss", "sb", "li", "lf", "ls"}
	l := []geo.Dictionary{nil, {}, sharedDict(), {"a": geo.Int}, {"b": geo.Float, "si": geo.Int}}
	for k := geo.SelectorType(-1); k <= geo.ArrayString+1; k++ {
		d := geo.Dictionary{}
		for _, n := range names {
			d[n] = k
		}
		l = append(l, d)
	}
	return l
}

// checkArguments formats, walks and checks one statement with every pair of
// dictionaries: each answer is that for a new statement and dictionary, and the
// statement and all dictionaries stay what they were.
// checkUnchanged: formatting, walking and type checking leave a statement as it is.
func checkUnchanged(c Case) Result {
	stmt, err := geo.Parse(c.Text)
	if err != nil {
		return Result{Outcome: "not a rule", Calls: 1, NoModel: true}
	}
	was := deep(stmt)
	for i, said := range []string{"formatting", "walking", "type checking", "type checking without a dictionary"} {
		observed(stmt, []int{useFormat, useWalk, useCheck, useCheckNil}[i])
		if now := deep(stmt); now != was {
			return bad("differs", "%s changes the statement of %q from\n%s\nto\n%s", said, clip(c.Text), clip(was), clip(now))
		}
	}
	return Result{Outcome: "unchanged", Calls: 5, Steps: 4, NoModel: true}
}

func checkArguments(c Case) Result {
	stmt, err := geo.Parse(c.Text)
	if err != nil {
		return Result{Outcome: "not a rule", Calls: 1}
	}
	was := deep(stmt)
	text, _ := format(stmt)
	want := make([]string, len(argDicts()))
	for i := range want {
		mcrt.Reset()
		fresh, _ := geo.Parse(c.Text)
		want[i] = fmt.Sprint(geo.CheckType(fresh, argDicts()[i]))
	}
	mcrt.Reset()
	stmt, _ = geo.Parse(c.Text)
	dicts := argDicts()
	kinds := make([]string, len(dicts))
	for i, d := range dicts {
		kinds[i] = deep(d)
	}
	res := Result{Outcome: "unchanged", Calls: 3}
	same := func(said string) *Result {
		res.Steps++
		if now := deep(stmt); now != was {
			r := bad("differs", "%s changes the statement of %q from\n%s\nto\n%s", said, clip(c.Text), clip(was), clip(now))
			return &r
		}
		for i, d := range dicts {
			if now := deep(d); now != kinds[i] {
				r := bad("differs", "%s (statement of %q) changes a dictionary from\n%s\nto\n%s", said, clip(c.Text), clip(kinds[i]), clip(now))
				return &r
			}
		}
		return nil
	}
	for _, at := range []int{0, 1, 2, 5, 9, 1 << 30} {
		w := &failing{at: at, err: fmt.Errorf("write failed")}
		geo.Format(w, stmt)
		res.Calls++
	}
	if r := same("formatting"); r != nil {
		return *r
	}
	for skip := 0; skip < 4; skip++ {
		n := 0
		geo.Visit(stmt.(geo.Expr), func(geo.Expr) bool { n++; return skip == 0 || n%skip != 0 })
		res.Calls++
	}
	if r := same("walking"); r != nil {
		return *r
	}
	for i := range dicts {
		for j := range dicts {
			for _, k := range []int{i, j} {
				res.Calls++
				if got := fmt.Sprint(geo.CheckType(stmt, dicts[k])); got != want[k] {
					return bad("differs", "checking the statement of %q with %v after checking it with %v gives\n%s\nand alone it gives\n%s", clip(c.Text), dicts[k], dicts[i], clip(got), clip(want[k]))
				}
			}
		}
		if r := same("type checking"); r != nil {
			return *r
		}
	}
	if now, _ := format(stmt); now != text {
		return bad("differs", "after type checking, formatting the statement of %q gives\n%s\nand before it gave\n%s", clip(c.Text), clip(now), clip(text))
	}
	if strings.Contains(strings.Join(want, ";"), "<nil>") {
		res.Outcome = "unchanged, accepted by some dictionary"
	}
	return res
}

func init() {
	register(&Prop{ID: "C16", Level: "model_checking", Instrumented: true, Processes: true, Spaces: func(t Tier) []explore.Space {
		m := &model{ops: worldOps(), memo: map[string]string{}}
		check := func(c Case) Result { return m.history(c.Aux, false) }
		checkAll := func(c Case) Result { return m.history(c.Aux, true) }
		two := twoTexts()
		operands := gen.Operands
		short := gen.All(gen.In(gen.Texts(operands), []string{"when %s", "trigger set v = %s; when a == -1"}))
		broken := []string{"when", "when a ==", "when -", `when "x`, "when [1", "when (a", "when a{", `when a{"x"`, "when point[1", "when date[2024-13-01]", "when time[9:", "when 1 .. 2 .. 3", "when @", "when a:", "when 5 +", "trigger set a = 1", "trigger set a = 1; a = 2; when b", "when a reset after", "when a repeat 3 every 5", "when weekday[xyz]", "when month[jan .. feb .. mar]", "when /* c", "when \x00", "when 'x", "", "foo", "when [1, 2.5]", "when -5km", "when line[[1,2]]:", "when a not b", "when ((((((((((a"}
		texts := append(append(append([]string{}, gen.Rules...), short...), broken...)
		firsts := append(append([]string{}, gen.Rules...), broken...)
		firsts = append(firsts, short[:len(operands)]...)
		ss := []explore.Space{
			{Name: "histories", Doc: fmt.Sprintf("all sequences of up to %d of %d calls (parsing, also of erroneous texts, formatting, also with failing writes, walking, type checking, tokenizing) and changes made by the caller, from the initial state of the package variables; every result is that of the call alone and nothing else changes", t.pick(3, 4), len(m.ops)), Serial: true, Enum: histories(len(m.ops), 1, t.pick(3, 4)), Check: check},
			{Name: "repeated", Doc: "every call repeated many times, then every other call", Serial: true, Check: checkAll, Enum: func(y gen.Yield) {
				for i, o := range m.ops {
					if o.changes {
						continue
					}
					for j, p := range m.ops {
						if p.changes || i != j && (i+j)%t.pick(2, 1) != 0 {
							continue
						}
						h := make([]int, 0, 210)
						for n := 0; n < t.pick(40, 300); n++ {
							h = append(h, i)
						}
						if !y(Case{Text: "history", Aux: append(h, j, i)}) {
							return
						}
					}
				}
			}},
			{Name: "counters", Doc: "every call repeated as many times as counters and limits might allow, then once more and a rule of another kind", Serial: true, Check: m.counter, Enum: func(y gen.Yield) {
				for i, o := range m.ops {
					if o.changes {
						continue
					}
					for _, n := range []int{256, t.pick(10001, 66000)} {
						if !y(Case{Text: "counter", Aux: []int{i, n}}) {
							return
						}
					}
				}
			}},
			{Name: "nested", Doc: "every call made from inside another (from each call of its writer, visitor, reader or error handler): both give what they give alone; and when that code panics instead, the calls that follow do", Serial: true, Check: m.nested, Enum: func(y gen.Yield) {
				for o := range outers() {
					for at := 0; at < t.pick(60, 300); at++ {
						for i, k := range m.ops {
							for p := 0; p < 2 && !k.changes; p++ {
								if !y(Case{Text: "nested", Aux: []int{o, at, i, p}}) {
									return
								}
							}
						}
					}
				}
			}},
			{Name: "pairs", Doc: "every pair of texts, valid or not: what the first leaves behind, also when its statement is overwritten, does not change parsing, formatting and checking of the second", Serial: true, Check: two, Enum: func(y gen.Yield) {
				for _, b := range texts {
					for _, a := range firsts {
						if !y(Case{Text: a + fieldSep + b}) {
							return
						}
					}
				}
			}},
			{Name: "checks", Doc: "every pair of conditions, most of them mistyped: checking one, the other twice and the first again gives the verdicts and messages of the checks alone", Serial: true, Check: checkThenCheck(), Enum: func(y gen.Yield) {
				var l []string
				for _, o := range typeOperands() {
					l = append(l, withVars(o+" + true"), withVars("5s == "+o), withVars("("+o+" + 1) and sb"))
					if t.Thorough {
						l = append(l, withVars("(1 - "+o+") and true"), withVars(o+" in "+o))
					}
				}
				for _, a := range l {
					for _, b := range l {
						if !y(Case{Text: a + fieldSep + b}) {
							return
						}
					}
				}
			}},
			{Name: "arguments", Doc: fmt.Sprintf("every rule and operand in every context, and the operands of type checking in pairs, formatted, walked and checked with every pair of %d dictionaries: each answer is that of the call alone, and statement and dictionaries stay unchanged", len(argDicts())), Serial: true, Check: checkArguments, Enum: func(y gen.Yield) {
				l := gen.Seeds()
				seeds := len(l)
				for _, a := range typeOperands() {
					for _, f := range []string{"%s == 1", "undeclared + %s", "%s and undeclared", "si in %s", "(%s) * 2.5", "[%s, a] == b"} {
						l = append(l, withVars(strings.ReplaceAll(f, "%s", a)))
					}
				}
				for i, s := range l {
					if (i < len(gen.Rules) || t.Thorough || i%4 == 0 || i >= seeds) && !y(Case{Text: s}) {
						return
					}
				}
			}},
			{Name: "long", Doc: "rules with operands and clauses of many parts, right, mistyped and broken: after themselves, after and before texts that differ from them at one place, and after and before short ones", Serial: true, Check: two, Enum: func(y gen.Yield) {
				for _, n := range [][]int{{9, 70, 300, 1100}, {3, 5, 9, 17, 33, 65, 70, 101, 129, 257, 300, 513, 1025, 2049, 5000}}[t.pick(0, 1)] {
					l := gen.LongRules(n)
					for i, a := range l {
						pairs := []string{a, l[(i+1)%len(l)], l[(i+7)%len(l)], gen.Rules[i%len(gen.Rules)]}
						for _, k := range []int{len(a) / 4, len(a) / 2, len(a) * 3 / 4, len(a) - 2} {
							if n > 2000 {
								break
							}
							pairs = append(pairs, a[:k]+"9"+a[k+1:], a[:k]+a[k+1:])
						}
						for j, b := range pairs {
							if !y(Case{Text: a + fieldSep + b}) || j > 0 && !y(Case{Text: b + fieldSep + a}) {
								return
							}
						}
					}
				}
			}},
			{Name: "long-checks", Doc: "mistyped conditions with operands of many parts, checked one after another", Serial: true, Check: checkThenCheck(), Enum: func(y gen.Yield) {
				var l []string
				for _, n := range []int{9, 70, t.pick(300, 1100)} {
					for _, o := range gen.Long(n) {
						l = append(l, "when "+o+" + true", "when true == (1 - "+o+")")
					}
				}
				for i, a := range l {
					for j, b := range l {
						if (i+j)%t.pick(5, 1) == 0 || i == j {
							if !y(Case{Text: a + fieldSep + b}) {
								return
							}
						}
					}
				}
			}},
			{Name: "many", Doc: fmt.Sprintf("as many different texts of each of %d kinds, or of all kinds in turn, as each number of a sweep, then one of every kind, also of the first seen", len(families)), Serial: true, Check: many, Enum: func(y gen.Yield) {
				for _, n := range append(steps(t.pick(12, 70), t.pick(2100, 20000)), t.pick(4097, 66000)) {
					for f := 0; f <= len(families); f++ {
						if !y(Case{Text: "many", Aux: []int{f, n}}) {
							return
						}
					}
				}
			}},
			{Name: "neighbours", Doc: "every rule and every operand after each text that differs from it in one place, and the other way around", Serial: true, Check: two, Enum: func(y gen.Yield) {
				l := append([]string{}, short[:len(operands)]...)
				l = append(l, gen.Rules[:t.pick(24, len(gen.Rules))]...)
				for _, s := range l {
					for _, n := range neighbours(s) {
						if !y(Case{Text: n + fieldSep + s}) || !y(Case{Text: s + fieldSep + n}) {
							return
						}
					}
				}
			}},
		}
		unchanged := func(name, doc string, e gen.Enum) explore.Space {
			return explore.Space{Name: name, Doc: doc + ": formatted, walked and type checked without changing", Enum: e, Check: checkUnchanged}
		}
		ss = append(ss,
			unchanged("unchanged-seeds", "every rule and every operand in every context", gen.Texts(gen.Seeds())),
			unchanged("unchanged-pairs", "every pair of operands around every operator", gen.Wrap(gen.Product(" ", gen.Operands, gen.OpSpellings, gen.Operands), "when ", "")),
			unchanged("unchanged-props", "every pair of operands as properties of a selector, and in a range", gen.Chain(gen.Wrap(gen.Product(", ", gen.Operands, gen.Operands), "when s{\"x\"}:", ""), gen.Wrap(gen.Product(" .. ", gen.Operands, gen.Operands), "trigger set v = ", "; when [@v] in @v"))),
			unchanged("unchanged-trees", "all trees of operators and parentheses", gen.Chain(fillTrees(trees(2, 3), gen.OpSpellings, "when "), fillTrees(trees(3, 3), []string{"or", "and", "==", "-", "*", "/"}, "when "), fillTrees(trees(4, 3), gen.OpLevels, "when "))),
		)
		skip := []string{"C01/deep", "C04/strings", "C05/strings", "C05/brackets", "C06/byte-edits", "C01/viable", "C04/viable"}
		if !t.Thorough {
			skip = append(skip, "C05/point-viable", "C01/strings", "C05/edits2", "C03/units", "C04/all-times", "C01/spellings")
		}
		return append(ss, reuse(t, checkUnchanged, "formatted, walked and type checked without changing", skip, "C01", "C03", "C04", "C05", "C06", "C07", "C19")...)
	}})
}
