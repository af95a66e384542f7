package props

import (
	"fmt"
	"strconv"
	"strings"

	geo "github.com/mmadfox/go-geoql-parser"

	"verifmc/adapt"
	"verifmc/explore"
	"verifmc/gen"
)

// An event of a walk: the visitor that was called (the number of the node
// whose visit returned it, -1 for the first), and the node (-1 for nil).
type event struct{ by, node int }

// outline is the tree of a walk: nodes numbered in the order of visits.
type outline struct {
	nodes []any
	kids  [][]int
	index map[any]int
}

func outlineOf(root any) *outline {
	o := &outline{index: map[any]int{}}
	var rec func(x any) int
	rec = func(x any) int {
		i := len(o.nodes)
		o.nodes = append(o.nodes, x)
		o.kids = append(o.kids, nil)
		o.index[x] = i
		for _, k := range adapt.Kids(x) {
			j := rec(k)
			o.kids[i] = append(o.kids[i], j)
		}
		return i
	}
	rec(root)
	return o
}

// want is the reference walk with the given nodes pruned.
func (o *outline) want(pruned func(int) bool, buf []event) []event {
	var rec func(by, n int)
	rec = func(by, n int) {
		buf = append(buf, event{by, n})
		if pruned(n) {
			return
		}
		for _, k := range o.kids[n] {
			rec(n, k)
		}
		buf = append(buf, event{n, -1})
	}
	rec(-1, 0)
	return buf
}

type recorder struct {
	o      *outline
	pruned func(int) bool
	events []event
}

type levelVisitor struct {
	r  *recorder
	by int
}

const foreign = -2 // a node that is not part of the tree

func (r *recorder) number(e geo.Expr) int {
	if e == nil {
		return -1
	}
	if i, ok := r.o.index[e]; ok {
		return i
	}
	return foreign
}

func (v *levelVisitor) Visit(e geo.Expr) geo.Visitor {
	n := v.r.number(e)
	v.r.events = append(v.r.events, event{v.by, n})
	if n == -1 || n == foreign || v.r.pruned(n) {
		return nil
	}
	return &levelVisitor{v.r, n}
}

func (o *outline) describe(ev []event, i int) string {
	if i >= len(ev) {
		return "the end"
	}
	name := func(n int) string {
		switch n {
		case -1:
			return "nil"
		case foreign:
			return "a node that is not in the tree"
		}
		return fmt.Sprintf("node %d = %s", n, clip(adapt.Dump(o.nodes[n])))
	}
	if ev[i].by == foreign {
		return "Visit of " + name(ev[i].node)
	}
	return fmt.Sprintf("visit of %s by the visitor of node %d", name(ev[i].node), ev[i].by)
}

func (o *outline) compare(what string, got, want []event, pruned func(int) bool) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		if i < len(got) && i < len(want) && got[i] == want[i] {
			continue
		}
		var p []string
		for n := range o.nodes {
			if pruned(n) {
				p = append(p, strconv.Itoa(n))
			}
		}
		return fmt.Sprintf("%s, pruned nodes [%s]: event %d is %s; it should be %s", what, strings.Join(p, " "), i, o.describe(got, i), o.describe(want, i))
	}
	return ""
}

// pruneSets enumerates sets of nodes: all subsets up to 2^full, else none,
// all, every one (of trees of up to 64 nodes, else the first and last dozen and
// some between) and every pair (of at most 40 nodes).
func pruneSets(n, full int, f func(pruned func(int) bool) bool) {
	if n <= full {
		for set := 0; set < 1<<n; set++ {
			if !f(func(i int) bool { return set>>i&1 == 1 }) {
				return
			}
		}
		return
	}
	if !f(func(int) bool { return false }) || !f(func(int) bool { return true }) {
		return
	}
	for a := 0; a < n; a++ {
		if n > 64 && a > 12 && a < n-12 && a%(n/16) != 0 {
			continue
		}
		if !f(func(i int) bool { return i == a }) {
			return
		}
		for b := a + 1; b < n && n <= 40; b++ {
			if !f(func(i int) bool { return i == a || i == b }) {
				return
			}
		}
	}
}

// checkWalk walks the statement and every node of it on its own.
func checkWalk(full int) func(Case) Result {
	return func(c Case) Result {
		stmt, err := geo.Parse(c.Text)
		if err != nil {
			return Result{Outcome: "not a rule", Calls: 1, NoModel: true}
		}
		root, ok := stmt.(geo.Expr)
		if !ok {
			return bad("differs", "Parse(%q): the statement (%T) cannot be walked", clip(c.Text), stmt)
		}
		res := walkTree(root, full)
		if res.Bad != "" {
			res.Bad = fmt.Sprintf("statement of %q: %s", clip(c.Text), res.Bad)
			return res
		}
		before := adapt.Dump(stmt)
		o := outlineOf(root)
		for i := 1; i < len(o.nodes) && len(o.nodes) < 60; i++ {
			sub := walkTree(o.nodes[i].(geo.Expr), min(full, 4))
			res.Calls += sub.Calls
			res.Steps += sub.Steps
			if sub.Bad != "" {
				sub.Bad = fmt.Sprintf("node %d of the statement of %q: %s", i, clip(c.Text), sub.Bad)
				return sub
			}
		}
		if after := adapt.Dump(stmt); after != before {
			return bad("differs", "walking the statement of %q changed it from\n%s\nto\n%s", clip(c.Text), clip(before), clip(after))
		}
		return res
	}
}

func walkTree(root geo.Expr, full int) Result {
	o := outlineOf(root)
	res := Result{Outcome: "nodes " + size(len(o.nodes))}
	r := &recorder{o: o}
	var want []event
	pruneSets(len(o.nodes), full, func(pruned func(int) bool) bool {
		want = o.want(pruned, want[:0])
		r.pruned, r.events = pruned, r.events[:0]
		geo.Walk(&levelVisitor{r, -1}, root)
		res.Calls++
		res.Steps += len(r.events)
		if res.Bad = o.compare("Walk", r.events, want, pruned); res.Bad != "" {
			return false
		}
		// Visit: one function for all levels, whose answer to nil means nothing.
		for _, nilAnswer := range []bool{true, false} {
			r.events = r.events[:0]
			geo.Visit(root, func(e geo.Expr) bool {
				n := r.number(e)
				r.events = append(r.events, event{foreign, n})
				if n < 0 {
					return nilAnswer
				}
				return !pruned(n)
			})
			res.Calls++
			for i := range want {
				want[i].by = foreign
			}
			if res.Bad = o.compare("Visit", r.events, want, pruned); res.Bad != "" {
				return false
			}
		}
		return true
	})
	return res
}

func size(n int) string {
	switch {
	case n <= 4:
		return "1-4"
	case n <= 16:
		return "5-16"
	case n <= 64:
		return "17-64"
	}
	return "65+"
}

// parts are optional parts of a hand-made statement.
func checkParts(c Case) Result {
	k := c.Aux[0]
	has := func(i int) bool { return k>>i&1 == 1 }
	num := func(v int) geo.Expr { return &geo.IntTyp{Val: v} }
	tr := &geo.Trigger{}
	if has(0) {
		tr.When = num(1)
	}
	if has(1) {
		tr.RepeatCount = num(2)
	}
	if has(2) {
		tr.RepeatInterval = num(3)
	}
	if has(3) {
		tr.ResetAfter = num(4)
	}
	if has(4) {
		tr.Vars = []*geo.Assign{}
	}
	if has(5) {
		tr.Vars = append(tr.Vars, &geo.Assign{Left: &geo.Ident{Val: "a"}, Right: num(5)})
	}
	if has(6) {
		p := &geo.GeometryPointTyp{}
		l := &geo.GeometryLineTyp{}
		if has(7) {
			p.Radius = &geo.DistanceTyp{}
		}
		if has(8) {
			l.Margin = &geo.DistanceTyp{}
		}
		tr.Vars = append(tr.Vars, &geo.Assign{Left: &geo.Ident{Val: "b"}, Right: &geo.GeometryCollectionTyp{Objects: []geo.Expr{p, l, &geo.GeometryPolygonTyp{}, &geo.GeometryMultiObjectTyp{}}}},
			&geo.Assign{Left: &geo.Ident{Val: "c"}, Right: &geo.Selector{Wildcard: true}},
			&geo.Assign{Left: &geo.Ident{Val: "d"}, Right: &geo.ArrayTyp{}})
	}
	res := walkTree(tr, 10)
	if res.Bad != "" {
		res.Bad = fmt.Sprintf("hand-made statement %s: %s", adapt.Dump(tr), res.Bad)
	}
	return res
}

func init() {
	register(&Prop{ID: "C15", Level: "model_checking", Spaces: func(t Tier) []explore.Space {
		full := t.pick(9, 12)
		sp := func(name, doc string, full int, e gen.Enum) explore.Space {
			return explore.Space{Name: name, Doc: fmt.Sprintf("%s; trees of up to %d nodes with every set of pruned nodes, others with none, all, each one and each pair pruned", doc, full), Enum: e, Check: checkWalk(full)}
		}
		ops := gen.OpLevels
		skip := []string{"C02/top3", "C02/byte-edits", "C04/strings", "C05/strings", "C05/brackets", "C06/byte-edits", "C02/edits", "C02/operand-edits"}
		if !t.Thorough {
			skip = append(skip, "C01/strings", "C02/viable", "C02/edits2", "C02/when3", "C01/spellings", "C04/viable", "C05/point-viable", "C05/edits2", "C03/units", "C04/all-times")
		}
		return append([]explore.Space{
			sp("seeds", "every rule and every operand in every context", full+3, gen.Texts(gen.Seeds())),
			sp("operands", "every operand in many places", full+1, gen.In(gen.Texts(gen.Operands), []string{"when %s", "when (%s)", "when %s == %s", "when a:%s", "when a:%s,%s", "when [%s]", "when [%s, %s]", "when %s .. 1", "when 1 .. %s", "trigger set a = %s; when b", "trigger set a = %s; b = %s; when (%s)", "when %s repeat 2 every 5s reset after 1h", "trigger set a = 1 when %s repeat 2", "when collection[%s, point[1,2]:1km, %s]", "when collection[multipoint[%s], %s]", "when -1 + %s and (b or %s)"})),
			sp("operand-pairs", "every pair of operands around an operator of each precedence", full, gen.Wrap(gen.Product(" ", gen.Operands, []string{"or", "==", "-"}, gen.Operands), "when ", "")),
			sp("element-pairs", "every pair of operands as elements, properties, bounds, neighbouring assignments and collection members", full, pairsOf(gen.Operands, []string{"when [%1, %2]", "when a:%1,%2", "when %1 .. %2", "trigger set a = %1 b = %2; when a", "when collection[%1, %2]"})),
			sp("trees", "all trees of operators and parentheses", full+2, gen.Chain(fillTrees(trees(2, 3), ops, "when "), fillTrees(trees(3, 3), ops, "when "), fillTrees(trees(4, 2), []string{"or", "+"}, "when "))),
			sp("clauses", "all combinations of clauses", full+2, gen.Product(" ", []string{"trigger", "trigger set", "trigger set a = 1", "trigger set a = 1; b = [1,2]"}, []string{"when a", "when a:1 == [1,2]", "when point[1,2]:5km"}, []string{"", "repeat", "repeat 3", "repeat 3 every 5s"}, []string{"", "reset after 1h", "reset after 1.5h"})),
			sp("lengths", "every list at every length of a sweep", full, sweep(steps(t.pick(40, 130), t.pick(300, 1100)), func(n int) []string {
				f := func(s string) func(int) string {
					return func(i int) string { return strings.ReplaceAll(s, "#", strconv.Itoa(i)) }
				}
				return []string{"when [" + rep(n, ",", f("#")) + "]", "when a:" + rep(n, ",", f("#km")), "when multipoint[" + rep(n, ",", f("point[1,2]:#km")) + "]", "when multiline[" + rep(n, ",", f("line[[1,2]]:#km")) + "]", "when collection[" + rep(n, ",", f("point[#,2]")) + "]", "when polygon[[" + rep(n, ",", f("[#,2]")) + "]]", "trigger set " + rep(n, "; ", f("v# = #")) + "; when a", "when " + rep(n, " + ", f("a#")), "when " + strings.Repeat("(", n) + "a" + strings.Repeat(")", n), "when [" + rep(n, ",", f("1 .. #")) + "]", "when " + strings.Repeat("(a or ", n) + "a" + strings.Repeat(")", n)}
			})),
			{Name: "parts", Doc: "hand-made statements with every set of optional parts absent", Check: checkParts, Enum: func(y gen.Yield) {
				for k := 0; k < 1<<9; k++ {
					if !y(Case{Text: "hand-made", Aux: []int{k}}) {
						return
					}
				}
			}},
		}, reuse(t, checkWalk(t.pick(6, 9)), "walked", skip, "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C19")...)
	}})
}
