package props

import (
	"fmt"
	"reflect"
	"slices"
	"sort"
	"strings"

	geo "github.com/mmadfox/go-geoql-parser"

	"verifmc/adapt"
	"verifmc/explore"
	"verifmc/gen"
)

// rebuild makes a value anew from its exported fields (positions, which are no
// content, left out), sharing what is shared, with what is empty made empty in
// the given way.
func rebuild(v reflect.Value, memo map[any]reflect.Value, empty emptiness) reflect.Value {
	switch v.Kind() {
	case reflect.Interface:
		out := reflect.New(v.Type()).Elem()
		if !v.IsNil() {
			out.Set(rebuild(v.Elem(), memo, empty))
		}
		return out
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		if m, ok := memo[v.Interface()]; ok {
			return m
		}
		out := reflect.New(v.Type().Elem())
		memo[v.Interface()] = out
		out.Elem().Set(rebuild(v.Elem(), memo, empty))
		return out
	case reflect.Struct:
		out := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() && v.Field(i).Type() != reflect.TypeOf(geo.Pos(0)) {
				out.Field(i).Set(rebuild(v.Field(i), memo, empty))
			}
		}
		return out
	case reflect.Slice:
		if v.Len() == 0 && empty.makesNil(v) {
			return reflect.Zero(v.Type())
		}
		out := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(rebuild(v.Index(i), memo, empty))
		}
		return out
	case reflect.Map:
		if v.Len() == 0 && empty.makesNil(v) {
			return reflect.Zero(v.Type())
		}
		out := reflect.MakeMap(v.Type())
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() > keys[j].String() })
		for _, k := range keys {
			out.SetMapIndex(k, v.MapIndex(k))
		}
		return out
	}
	return v
}

// emptiness tells what lists and maps without elements are made.
type emptiness int

const (
	asBefore emptiness = iota
	allNil
	noneNil
)

func (e emptiness) makesNil(v reflect.Value) bool {
	return e == allNil || e == asBefore && v.IsNil()
}

// merge makes equal nodes, lists and maps within a value one and the same, and
// counts in merged.
func merge(v reflect.Value, seen map[string]reflect.Value, merged *int) string {
	one := func(key string) string {
		key = v.Type().String() + " " + key
		if m, ok := seen[key]; !ok {
			seen[key] = reflect.ValueOf(v.Interface())
		} else if v.CanSet() {
			v.Set(m)
			*merged++
		}
		return key
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		in := reflect.New(v.Elem().Type()).Elem()
		in.Set(v.Elem())
		key := merge(in, seen, merged)
		v.Set(in)
		return key
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return one(merge(v.Elem(), seen, merged))
	case reflect.Struct:
		key := "{"
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				key += merge(v.Field(i), seen, merged) + ","
			}
		}
		return key + "}"
	case reflect.Slice:
		key := "["
		for i := 0; i < v.Len(); i++ {
			key += merge(v.Index(i), seen, merged) + ","
		}
		return one(key + "]")
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		return one(fmt.Sprintf("%q", keys))
	}
	return fmt.Sprintf("%q", fmt.Sprint(v.Interface()))
}

func rebuilt(stmt geo.Statement, empty emptiness) geo.Statement {
	return rebuild(reflect.ValueOf(stmt), map[any]reflect.Value{}, empty).Interface().(geo.Statement)
}

// uses are the ways to look at a statement, and all of them in a row.
const (
	useFormat = 1 << iota
	useCheck
	useCheckNil
	useWalk
	useAll = useFormat | useCheck | useCheckNil | useWalk
)

var uses = []int{useAll, useFormat, useCheck, useCheckNil, useWalk}

// observed tells how a statement is formatted, checked and walked.
func observed(stmt geo.Statement, use int) (out string) {
	var b strings.Builder
	try := func(which int, f func()) {
		if use&which == 0 {
			return
		}
		defer func() {
			if r := recover(); r != nil {
				b.WriteString("(panic)\n")
			}
		}()
		f()
	}
	try(useFormat, func() {
		s, err := format(stmt)
		b.WriteString(s)
		if err != nil {
			b.WriteString("(formatting fails)\n")
		}
	})
	try(useCheck, func() { fmt.Fprintf(&b, "accepted: %v\n", geo.CheckType(stmt, sharedDict()) == nil) })
	try(useCheckNil, func() { fmt.Fprintf(&b, "accepted without a dictionary: %v\n", geo.CheckType(stmt, nil) == nil) })
	try(useWalk, func() {
		geo.Visit(stmt.(geo.Expr), func(e geo.Expr) bool {
			switch e := e.(type) {
			case nil:
				b.WriteByte('.')
			case *geo.BinaryExpr:
				fmt.Fprint(&b, "binary", e.Op, " ")
			case *geo.ArrayTyp:
				fmt.Fprint(&b, "array", e.Kind, " ")
			case *geo.Trigger, *geo.ParenExpr, *geo.Assign, *geo.Range, *geo.GeometryCollectionTyp, *geo.GeometryMultiObjectTyp:
				fmt.Fprintf(&b, "%T ", e)
			case *geo.Selector:
				fmt.Fprintf(&b, "selector %s %v %d ", e.Ident, e.Wildcard, len(e.Args))
			default:
				b.WriteString(adapt.Dump(e))
				b.WriteByte(' ')
			}
			return true
		})
	})
	return b.String()
}

// grow appends an element to every slice of a statement, and a device id to
// every selector, as a program that adds to it would.
func grow(v reflect.Value, mark int) {
	name := fmt.Sprint("mark", mark)
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			grow(v.Elem(), mark)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				grow(v.Field(i), mark)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			grow(v.Index(i), mark)
		}
		var x any
		switch v.Interface().(type) {
		case []geo.Expr:
			x = &geo.StringTyp{Val: name}
		case []*geo.Assign:
			x = &geo.Assign{Left: &geo.Ident{Val: name}, Right: &geo.IntTyp{Val: mark}}
		case [][2]float64:
			x = [2]float64{float64(mark), 0.5}
		case [][][2]float64:
			x = [][2]float64{{float64(mark), 0.5}}
		}
		if x != nil {
			v.Set(reflect.Append(v, reflect.ValueOf(x)))
		}
	case reflect.Map:
		if m, ok := v.Interface().(map[string]struct{}); ok {
			if m == nil {
				m = map[string]struct{}{}
				v.Set(reflect.ValueOf(m))
			}
			m[name] = struct{}{}
		}
	}
}

// checkGrown: what is appended to one part of a statement shows in no other.
func checkGrown(c Case) Result {
	stmt, err := geo.Parse(c.Text)
	if err != nil {
		return Result{Outcome: "not a rule", Calls: 1, NoModel: true}
	}
	copied := rebuilt(stmt, asBefore)
	for mark := 1; mark < 4; mark++ {
		grow(reflect.ValueOf(stmt), mark)
		grow(reflect.ValueOf(copied), mark)
		if got, want := adapt.Dump(stmt), adapt.Dump(copied); got != want {
			return bad("differs", "with %d elements appended to every list the statement of %q means\n%s\nbut should mean\n%s", mark, clip(c.Text), clip(got), clip(want))
		}
	}
	if got, want := observed(stmt, useAll), observed(copied, useAll); got != want {
		return bad("differs", "with elements appended to every list the statement of %q is formatted, checked and walked as\n%s\nbut one with the same content as\n%s", clip(c.Text), clip(got), clip(want))
	}
	return Result{Outcome: "like a new one", Calls: 9, Steps: 3}
}

// badPolygon tells of a polygon whose HasHoles is not what its rings say.
func badPolygon(stmt geo.Statement) (wrong string) {
	slots(reflect.ValueOf(stmt), func(v reflect.Value) {
		if p, ok := v.Interface().(*geo.GeometryPolygonTyp); ok && p.HasHoles() != (len(p.Val) > 1) {
			wrong = fmt.Sprintf("HasHoles of %s is %v", clip(adapt.Dump(p)), p.HasHoles())
		}
	})
	return wrong
}

// checkRebuilt: a statement made anew from the exported fields of a parsed one
// is formatted, checked and walked like it.
func checkRebuilt(c Case) Result {
	stmt, err := geo.Parse(c.Text)
	if err != nil {
		return Result{Outcome: "not a rule", Calls: 1, NoModel: true}
	}
	if wrong := badPolygon(stmt); wrong != "" {
		return bad("holes", "%s in the statement of %q", wrong, clip(c.Text))
	}
	want := observed(stmt, useAll)
	for _, empty := range []emptiness{asBefore, allNil, noneNil} {
		copied := rebuilt(stmt, empty)
		if got := observed(copied, useAll); got != want {
			return bad("differs", "the statement of %q is formatted, checked and walked as\n%s\nbut one assembled with the same content as\n%s", clip(c.Text), clip(want), clip(got))
		}
		if got := adapt.Dump(copied); got != adapt.Dump(stmt) {
			return bad("differs", "formatting, checking and walking changed the statement %s assembled like that of %q", clip(got), clip(c.Text))
		}
	}
	if len(c.Text) < 600 { // equal parts may be one and the same
		copied := rebuilt(stmt, asBefore)
		merged := 0
		merge(reflect.ValueOf(copied), map[string]reflect.Value{}, &merged)
		if merged == 0 {
			return Result{Outcome: "same", Calls: 17, Steps: 12}
		}
		if got := observed(copied, useAll); got != want {
			return bad("differs", "the statement of %q is formatted, checked and walked as\n%s\nbut one with the same content whose equal parts are one as\n%s", clip(c.Text), clip(want), clip(got))
		}
		if got := adapt.Dump(copied); got != adapt.Dump(stmt) {
			return bad("differs", "formatting, checking and walking changed the statement %s assembled like that of %q from equal parts that are one", clip(got), clip(c.Text))
		}
	}
	return Result{Outcome: "same", Calls: 21, Steps: 16}
}

// checkFields changes every exported field of a statement in turn, after the
// statement was used, and back.
func checkFields(limit int) func(Case) Result {
	return func(c Case) Result {
		res := Result{Outcome: "same"}
		for _, use := range uses {
			r := fieldChanges(c, limit, use)
			r.Calls, r.Steps = r.Calls+res.Calls, r.Steps+res.Steps
			if res = r; res.Bad != "" {
				break
			}
		}
		return res
	}
}

// fieldChanges makes the changes, and looks at the statement in one way
// before and after each.
func fieldChanges(c Case, limit, use int) Result {
	stmt, err := geo.Parse(c.Text)
	if err != nil {
		return Result{Outcome: "not a rule", Calls: 1, NoModel: true}
	}
	before := observed(stmt, use)
	res := Result{Outcome: "same", Calls: 5}
	n := 0
	// a change: set the field, compare, set it back
	change := func(v reflect.Value, what string, to reflect.Value) bool {
		if n++; n > limit {
			return false
		}
		was := reflect.New(v.Type()).Elem()
		was.Set(v)
		v.Set(to)
		want, got := observed(rebuilt(stmt, asBefore), use), observed(stmt, use)
		res.Calls += 8
		res.Steps++
		if wrong := badPolygon(stmt); wrong != "" {
			res = bad("holes", "%s after changing %s in the statement of %q", wrong, what, clip(c.Text))
			return false
		}
		if got != want {
			res = bad("differs", "after changing %s in the statement of %q it is formatted, checked and walked as\n%s\nbut a new one with the same content as\n%s", what, clip(c.Text), clip(got), clip(want))
			return false
		}
		v.Set(was)
		if got := observed(stmt, use); got != before {
			res = bad("differs", "after changing %s in the statement of %q and back it is formatted, checked and walked as\n%s\nand before as\n%s", what, clip(c.Text), clip(got), clip(before))
			return false
		}
		return true
	}
	var each func(v reflect.Value, what string) bool
	each = func(v reflect.Value, what string) bool {
		set := func(x any) bool { return change(v, what, reflect.ValueOf(x).Convert(v.Type())) }
		switch v.Kind() {
		case reflect.Interface:
			if !set(geo.Expr(&geo.IntTyp{Val: 7})) || !set(geo.Expr(&geo.Selector{Ident: "zz"})) || !set(geo.Expr(&geo.StringTyp{Val: "new"})) {
				return false
			}
			return v.IsNil() || each(v.Elem(), what)
		case reflect.Ptr:
			if v.CanSet() && v.Type() == reflect.TypeOf((*geo.DistanceTyp)(nil)) {
				if !v.IsNil() && !change(v, what, reflect.Zero(v.Type())) || !set(&geo.DistanceTyp{Val: 77, U: geo.Meter}) {
					return false
				}
			}
			return v.IsNil() || each(v.Elem(), what)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f := v.Type().Field(i)
				if f.IsExported() && !strings.HasSuffix(f.Name, "Pos") && !each(v.Field(i), v.Type().Name()+"."+f.Name) {
					return false
				}
			}
		case reflect.Slice:
			if k := v.Len(); k > 0 && v.CanSet() {
				out := reflect.MakeSlice(v.Type(), 0, 2*k)
				all := reflect.AppendSlice(reflect.AppendSlice(out, v), v.Slice(0, 1))
				if !change(v, what, all) || k > 1 && (!change(v, what, v.Slice(0, k-1)) || !change(v, what, v.Slice(1, k))) {
					return false
				}
				for i := 0; i < k; i++ {
					if !each(v.Index(i), what) {
						return false
					}
				}
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				if !each(v.Index(i), what) {
					return false
				}
			}
		case reflect.Map:
			m := map[string]struct{}{"new": {}}
			if !set(m) {
				return false
			}
			for _, k := range v.MapKeys() {
				m = map[string]struct{}{"other": {}}
				for _, q := range v.MapKeys() {
					if q.String() != k.String() {
						m[q.String()] = struct{}{}
					}
				}
				if !set(m) {
					return false
				}
			}
		case reflect.String:
			return set(v.String()+"x") && set("y")
		case reflect.Bool:
			return set(!v.Bool())
		case reflect.Float64:
			return set(v.Float()+0.5) && set(-v.Float()) && set(1e20)
		case reflect.Int:
			if v.Type() == reflect.TypeOf(geo.AND) {
				for _, op := range []geo.Token{geo.OR, geo.AND, geo.ADD, geo.SUB, geo.LEQL, geo.NOT_EQ, geo.IN, geo.NOT_NEARBY, geo.INT, geo.FLOAT, geo.SELECTOR, geo.STRING} {
					if geo.Token(v.Int()) != op && !set(op) {
						return false
					}
				}
				return true
			}
			return set(v.Int()+1) && set(v.Int()+1000)
		case reflect.Int64:
			return set(v.Int()+1) && set(v.Int()*3600)
		case reflect.Uint8:
			return set(v.Uint() + 1)
		}
		return true
	}
	each(reflect.ValueOf(stmt), "")
	return res
}

// slots are the expressions of a statement that may be replaced.
func slots(v reflect.Value, f func(v reflect.Value)) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			f(v)
			slots(v.Elem(), f)
		}
	case reflect.Ptr:
		if !v.IsNil() {
			slots(v.Elem(), f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				slots(v.Field(i), f)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			slots(v.Index(i), f)
		}
	}
}

// checkGraft puts an expression parsed elsewhere in every place where a rule
// has the selector "hole": Text holds the rule, the other rule, from which the
// expression is taken, and the text that has the expression in place.
func checkGraft(c Case) Result {
	t := strings.Split(c.Text, fieldSep)
	stmt, err := geo.Parse(t[0])
	donor, err2 := geo.Parse(t[1])
	if err != nil || err2 != nil {
		return Result{Outcome: "not a rule", Calls: 2, NoModel: true}
	}
	part := donor.(*geo.Trigger).When
	if donor := donor.(*geo.Trigger); len(donor.Vars) > 0 {
		part = donor.Vars[0].Right
	}
	observed(stmt, useAll)
	observed(donor, useAll)
	var holes []reflect.Value
	slots(reflect.ValueOf(stmt), func(v reflect.Value) {
		if s, ok := v.Interface().(*geo.Selector); ok && s.Ident == "hole" && s.Props == nil {
			holes = append(holes, v)
		}
	})
	for _, h := range holes {
		h.Set(reflect.ValueOf(part))
	}
	res := Result{Outcome: "like a new one", Calls: 12, Steps: 2}
	got := observed(stmt, useAll)
	if want := observed(rebuilt(stmt, asBefore), useAll); got != want {
		return bad("differs", "%q with the expression of %q in the place of hole is formatted, checked and walked as\n%s\nbut a new statement with the same content as\n%s", clip(t[0]), clip(t[1]), clip(got), clip(want))
	}
	if parsed, err := geo.Parse(t[2]); err == nil && adapt.Dump(parsed) == adapt.Dump(stmt) {
		res.Outcome = "like the parsed one"
		if want := observed(parsed, useAll); got != want {
			return bad("differs", "%q with the expression of %q in the place of hole is formatted, checked and walked as\n%s\nbut %q as\n%s", clip(t[0]), clip(t[1]), clip(got), clip(t[2]), clip(want))
		}
	}
	return res
}

// rule is the content of the statement that a history of edits works on.
type rule struct {
	vars             [][2]string
	ids              []string
	wildcard         bool
	props, list      []string
	parens           int
	count, interval  string
	reset            string
	radius, margin   string
	objects          []string
	ring, tail, neck bool
}

const sharedList = "\x00list"

func (r *rule) listText() string { return "[" + strings.Join(r.list, ", ") + "]" }

func (r *rule) text() string {
	var b strings.Builder
	b.WriteString("trigger set ")
	for _, v := range r.vars {
		val := v[1]
		switch val {
		case sharedList:
			val = r.listText()
		case "geometry":
			val = "collection[point[1, 2]"
			if r.radius != "" {
				val += ":" + r.radius
			}
			val += ", line[[1, 2], [3, 4]]"
			if r.margin != "" {
				val += ":" + r.margin
			}
			val += ", polygon[[[1, 2]]"
			if r.ring {
				val += ", [[3, 4], [5, 6], [7, 8], [9, 10], [11, 12]]"
			}
			val += "]"
			for _, o := range r.objects {
				val += ", " + o
			}
			val += "]"
		}
		fmt.Fprintf(&b, "%s = %s; ", v[0], val)
	}
	b.WriteString("when ")
	if r.neck {
		b.WriteString("true and (")
	}
	b.WriteString(strings.Repeat("(", r.parens))
	b.WriteString("s")
	if len(r.ids) > 0 {
		var l []string
		for _, s := range r.ids {
			l = append(l, `"`+s+`"`)
		}
		if r.wildcard {
			l = append(l, "*")
		}
		b.WriteString("{" + strings.Join(l, ", ") + "}")
	}
	if len(r.props) > 0 {
		b.WriteString(":" + strings.Join(r.props, ","))
	}
	b.WriteString(" in " + r.listText())
	b.WriteString(strings.Repeat(")", r.parens))
	if r.neck {
		b.WriteString(")")
	}
	if r.tail {
		b.WriteString(" or @a == 1")
	}
	if r.count != "" {
		b.WriteString(" repeat " + r.count)
		if r.interval != "" {
			b.WriteString(" every " + r.interval)
		}
	}
	if r.reset != "" {
		b.WriteString(" reset after " + r.reset)
	}
	return b.String()
}

func start() (*rule, *editing) {
	r := &rule{vars: [][2]string{{"a", "1"}, {"g", "geometry"}}, ids: []string{"x"}, props: []string{"1km"}, list: []string{`"p"`, `"q"`}}
	stmt, err := geo.Parse(r.text())
	if err != nil {
		return nil, nil
	}
	e := &editing{Trigger: stmt.(*geo.Trigger)}
	in := e.When.(*geo.BinaryExpr)
	e.sel, e.list, e.coll = in.Left.(*geo.Selector), in.Right.(*geo.ArrayTyp), e.Vars[1].Right.(*geo.GeometryCollectionTyp)
	return r, e
}

// editing is the statement with the nodes that edits change.
type editing struct {
	*geo.Trigger
	sel  *geo.Selector
	list *geo.ArrayTyp
	coll *geo.GeometryCollectionTyp
	neck bool
}

// value parses an expression on its own.
func value(text string) geo.Expr {
	stmt, err := geo.Parse("trigger set v = " + text + "; when a")
	if err != nil {
		return &geo.StringTyp{Val: text}
	}
	return stmt.(*geo.Trigger).Vars[0].Right
}

type edit struct {
	name string
	do   func(r *rule, e *editing) string // what is wrong
}

func edits() []edit {
	setVar := func(name, text string) edit {
		return edit{"SetVar " + name + " = " + text, func(r *rule, e *editing) string {
			taken := false
			for _, v := range r.vars {
				taken = taken || v[0] == name
			}
			val := geo.Expr(e.list)
			if text != sharedList {
				val = value(text)
			}
			err := e.SetVar(&geo.Assign{Left: &geo.Ident{Val: name}, Right: val})
			if (err != nil) != taken {
				return fmt.Sprintf("SetVar of %s returns %v, and the name is taken: %v", name, err, taken)
			}
			if !taken {
				r.vars = append(r.vars, [2]string{name, text})
			}
			return ""
		}}
	}
	// act is an edit that always succeeds
	act := func(name string, do func(r *rule, e *editing)) edit {
		return edit{name, func(r *rule, e *editing) string { do(r, e); return "" }}
	}
	wrap := func(e *editing, f func(in geo.Expr) geo.Expr) {
		// the condition proper lies inside "or" and "and"
		at := &e.When
		if b, ok := (*at).(*geo.BinaryExpr); ok && b.Op == geo.OR {
			at = &b.Left
		}
		if b, ok := (*at).(*geo.BinaryExpr); ok && b.Op == geo.AND {
			at = &b.Right.(*geo.ParenExpr).Expr
		}
		*at = f(*at)
	}
	return []edit{
		setVar("b", "2.5"), setVar("A", `"x y"`), setVar("a", "[1, 2]"), setVar("l", sharedList),
		act("drop the first assignment", func(r *rule, e *editing) {
			if len(r.vars) > 1 {
				r.vars, e.Vars = r.vars[1:], e.Vars[1:]
			}
		}),
		act("drop the assignments", func(r *rule, e *editing) { r.vars, e.Vars = r.vars[:0], e.Vars[:0] }),
		act("reverse the assignments", func(r *rule, e *editing) {
			for i, j := 0, len(r.vars)-1; i < j; i, j = i+1, j-1 {
				r.vars[i], r.vars[j] = r.vars[j], r.vars[i]
				e.Vars[i], e.Vars[j] = e.Vars[j], e.Vars[i]
			}
		}),
		act("assign a selector", func(r *rule, e *editing) {
			k := len(r.vars) - 1
			if k < 0 {
				return
			}
			r.vars[k][1] = `t{"i"}:5km`
			e.Vars[k].Right = value(`t{"i"}:5km`)
		}),
		act("rename the last variable", func(r *rule, e *editing) {
			for _, v := range r.vars {
				if v[0] == "renamed" {
					return
				}
			}
			k := len(r.vars) - 1
			if k < 0 {
				return
			}
			r.vars[k][0] = "renamed"
			e.Vars[k].Left.Val = "renamed"
		}),
		act("add a device id", func(r *rule, e *editing) {
			s, n := "", len(r.ids)
			for s == "" || slices.Contains(r.ids, s) {
				s, n = strings.Repeat("long", 15)+fmt.Sprint(n), n+1
			}
			r.ids = append(r.ids, s)
			if e.sel.Args == nil {
				e.sel.Args = map[string]struct{}{}
			}
			e.sel.Args[s] = struct{}{}
		}),
		act("drop a device id", func(r *rule, e *editing) {
			if len(r.ids) > 0 {
				delete(e.sel.Args, r.ids[0])
				r.ids = r.ids[1:]
				if len(r.ids) == 0 { // any device
					r.wildcard, e.sel.Wildcard = true, true
				}
			}
		}),
		act("switch the wildcard", func(r *rule, e *editing) {
			if len(r.ids) > 0 {
				r.wildcard, e.sel.Wildcard = !r.wildcard, !e.sel.Wildcard
			}
		}),
		act("add a property", func(r *rule, e *editing) {
			r.props, e.sel.Props = append(r.props, "2"), append(e.sel.Props, value("2"))
		}),
		act("drop the properties", func(r *rule, e *editing) { r.props, e.sel.Props = r.props[:0], e.sel.Props[:0] }),
		act("add an element", func(r *rule, e *editing) {
			r.list, e.list.List = append(r.list, `"new"`), append(e.list.List, &geo.StringTyp{Val: "new"})
		}),
		act("change the list to numbers", func(r *rule, e *editing) {
			r.list = []string{"1", "2"}
			e.list.Kind, e.list.List = geo.INT, []geo.Expr{&geo.IntTyp{Val: 1}, &geo.IntTyp{Val: 2}}
		}),
		act("drop an element", func(r *rule, e *editing) {
			if len(r.list) > 1 {
				r.list, e.list.List = r.list[1:], e.list.List[1:]
			}
		}),
		act("put in parentheses", func(r *rule, e *editing) {
			if r.parens < 3 {
				r.parens++
				wrap(e, func(in geo.Expr) geo.Expr { return &geo.ParenExpr{Expr: in} })
			}
		}),
		act("require more", func(r *rule, e *editing) {
			if !r.neck && !r.tail {
				r.neck = true
				e.When = &geo.BinaryExpr{Op: geo.AND, Left: &geo.BooleanTyp{Val: true}, Right: &geo.ParenExpr{Expr: e.When}}
			}
		}),
		act("require less", func(r *rule, e *editing) {
			if !r.tail {
				r.tail = true
				e.When = &geo.BinaryExpr{Op: geo.OR, Left: e.When, Right: &geo.BinaryExpr{Op: geo.LEQL, Left: &geo.Ref{ID: "a"}, Right: &geo.IntTyp{Val: 1}}}
			}
		}),
		act("repeat", func(r *rule, e *editing) { r.count, e.RepeatCount = "3", value("3") }),
		act("repeat every", func(r *rule, e *editing) {
			if r.count != "" {
				r.interval, e.RepeatInterval = "10s", value("10s")
			}
		}),
		act("do not repeat", func(r *rule, e *editing) {
			r.count, r.interval, e.RepeatCount, e.RepeatInterval = "", "", nil, nil
		}),
		act("reset", func(r *rule, e *editing) { r.reset, e.ResetAfter = "1h", value("1h") }),
		act("do not reset", func(r *rule, e *editing) { r.reset, e.ResetAfter = "", nil }),
		act("give the point a radius", func(r *rule, e *editing) {
			r.radius = "5Km"
			e.coll.Objects[0].(*geo.GeometryPointTyp).Radius = &geo.DistanceTyp{Val: 5, U: geo.Kilometer}
		}),
		act("take the radius away", func(r *rule, e *editing) {
			r.radius = ""
			e.coll.Objects[0].(*geo.GeometryPointTyp).Radius = nil
		}),
		act("give the line a margin", func(r *rule, e *editing) {
			r.margin = "7M"
			e.coll.Objects[1].(*geo.GeometryLineTyp).Margin = &geo.DistanceTyp{Val: 7, U: geo.Meter}
		}),
		edit{"give the polygon a hole", func(r *rule, e *editing) string {
			p := e.coll.Objects[2].(*geo.GeometryPolygonTyp)
			if p.HasHoles() != r.ring {
				return fmt.Sprintf("HasHoles of %s is %v", adapt.Dump(p), p.HasHoles())
			}
			if !r.ring {
				r.ring = true
				p.Val = append(p.Val, [][2]float64{{3, 4}, {5, 6}, {7, 8}, {9, 10}, {11, 12}})
			}
			if !p.HasHoles() {
				return fmt.Sprintf("HasHoles of %s is false", adapt.Dump(p))
			}
			return ""
		}},
		act("add a member", func(r *rule, e *editing) {
			r.objects = append(r.objects, "multipoint[point[1, 2]]")
			e.coll.Objects = append(e.coll.Objects, &geo.GeometryMultiObjectTyp{Kind: geo.GEOMETRY_MULTIPOINT, Val: []geo.Expr{&geo.GeometryPointTyp{Val: [2]float64{1, 2}}}})
		}),
	}
}

// checkEdits makes the edits of a history, looking at the statement after each
// (or only after the last).
func checkEdits(ops []edit) func(Case) Result {
	return func(c Case) Result {
		res := Result{Outcome: "like the parsed one"}
		for k := 0; k <= len(uses); k++ { // after each edit in one of the ways, or after the last only
			each, use := k < len(uses), useAll
			if each {
				use = uses[k]
			}
			r, e := start()
			if r == nil {
				return Result{Outcome: "not a rule", Calls: 1, NoModel: true}
			}
			said := "nothing"
			for i, k := range c.Aux {
				if i == 0 {
					said = ops[k].name
				} else {
					said += ", " + ops[k].name
				}
				if wrong := ops[k].do(r, e); wrong != "" {
					return bad("differs", "after the edits %s: %s", said, wrong)
				}
				res.Steps++
				if i+1 < len(c.Aux) && !each {
					continue
				}
				parsed, err := geo.Parse(r.text())
				if err != nil {
					return Result{Outcome: "not a rule", Calls: 1, NoModel: true}
				}
				res.Calls += 7
				if a, b := adapt.Dump(e.Trigger), adapt.Dump(parsed); a != b {
					return bad("differs", "after the edits %s the statement means\n%s\nbut should mean\n%s", said, clip(a), clip(b))
				}
				if got, want := observed(e.Trigger, use), observed(parsed, use); got != want {
					return bad("differs", "after the edits %s the statement is formatted, checked and walked as\n%s\nbut that of %q as\n%s", said, clip(got), clip(r.text()), clip(want))
				}
			}
		}
		return res
	}
}

// checkSetVar adds assignments to statements of several kinds.  Aux: the kind
// of statement, and the names.
func checkSetVar(c Case) Result {
	names := []string{"a", "A", "b", "ab", "é", "a1"}
	var stmt *geo.Trigger
	parse := func(s string) {
		if st, err := geo.Parse(s); err == nil {
			stmt = st.(*geo.Trigger)
		} else {
			stmt = &geo.Trigger{When: &geo.Selector{Ident: "x", Wildcard: true}}
		}
	}
	switch c.Aux[0] {
	case 0:
		stmt = &geo.Trigger{When: &geo.Selector{Ident: "x", Wildcard: true}}
	case 1:
		parse("when x")
	case 2:
		parse("trigger set a = 1; when x")
	case 3:
		parse("trigger set b = 1; A = 2; c = 3 when x")
	}
	var want []*geo.Assign
	want = append(want, stmt.Vars...)
	res := Result{Outcome: "as modelled"}
	for i, k := range c.Aux[1:] {
		v := &geo.Assign{Left: &geo.Ident{Val: names[k]}, Right: &geo.IntTyp{Val: i}}
		taken := false
		for _, w := range want {
			taken = taken || w.Left.Val == names[k]
		}
		err := stmt.SetVar(v)
		res.Calls++
		res.Steps++
		if (err != nil) != taken {
			return bad("differs", "SetVar of %s to a statement with %s: error %v, name taken: %v", names[k], clip(adapt.Dump(stmt)), err, taken)
		}
		if !taken {
			want = append(want, v)
		}
		if len(stmt.Vars) != len(want) {
			return bad("differs", "after SetVar of %s there are %d assignments, not %d", names[k], len(stmt.Vars), len(want))
		}
		for j := range want {
			if stmt.Vars[j] != want[j] || stmt.Vars[j].Left.Val == "" {
				return bad("differs", "after SetVar of %s assignment %d is %s", names[k], j, adapt.Dump(stmt.Vars[j]))
			}
		}
	}
	if again, err := format(stmt); err == nil {
		if parsed, err := geo.Parse(again); err != nil || adapt.Dump(parsed) != adapt.Dump(stmt) {
			return bad("differs", "a statement with added assignments means %s but is formatted as\n%s", clip(adapt.Dump(stmt)), clip(again))
		}
	}
	return res
}

func init() {
	register(&Prop{ID: "C20", Level: "model_checking", Spaces: func(t Tier) []explore.Space {
		sp := func(name, doc string, e gen.Enum) explore.Space {
			return explore.Space{Name: name, Doc: doc + ": assembled anew from the exported fields", Enum: e, Check: checkRebuilt}
		}
		ops := edits()
		sequences := func(n, hi int, pre ...int) gen.Enum {
			return func(y gen.Yield) {
				histories(n, 1, hi)(func(c Case) bool {
					return y(Case{Text: "calls", Aux: append(append([]int{}, pre...), c.Aux...)})
				})
			}
		}
		ss := []explore.Space{
			{Name: "edits", Doc: fmt.Sprintf("all sequences of up to %d of %d edits of a parsed statement (assignments, device ids, properties, elements, members, clauses, parentheses), compared after each and after the last with the parsed statement of the resulting text", t.pick(3, 4), len(ops)), Enum: sequences(len(ops), t.pick(3, 4)), Check: checkEdits(ops)},
			{Name: "setvar", Doc: fmt.Sprintf("all sequences of up to %d assignments of six names added to statements of four kinds", t.pick(5, 7)), Enum: gen.Chain(sequences(6, t.pick(5, 7), 0), sequences(6, t.pick(5, 7), 1), sequences(6, t.pick(5, 7), 2), sequences(6, t.pick(5, 7), 3)), Check: checkSetVar},
			{Name: "fields", Doc: "every exported field of every rule and of every operand in every context changed after use, and back: like a new statement with that content", Enum: gen.Texts(gen.Seeds()), Check: checkFields(t.pick(150, 4000))},
			{Name: "fields-long", Doc: "the same for operands and clauses of many parts", Enum: sweep(steps(t.pick(5, 9), t.pick(18, 70)), gen.LongRules), Check: checkFields(t.pick(100, 300))},
			{Name: "grown", Doc: "elements appended to every list, ring and clause of every rule and of every operand in every context", Enum: gen.Texts(gen.Seeds()), Check: checkGrown},
			{Name: "grown-long", Doc: "the same for operands and clauses of many parts", Enum: sweep(steps(t.pick(70, 300), t.pick(300, 2000)), gen.LongRules), Check: checkGrown},
			{Name: "grown-wide", Doc: "the same for several operands of all kinds in one rule", Enum: gen.Wrap(gen.Product(" and ", gen.Operands, gen.Operands), "when ", ""), Check: checkGrown},
			{Name: "grafts", Doc: "every operand, parsed elsewhere, in the places of another in every context", Check: checkGraft, Enum: func(y gen.Yield) {
				in := append([]string{}, gen.Contexts...)
				for _, i := range gen.Inner {
					in = append(in, strings.ReplaceAll("when a == %s", "%s", i), strings.ReplaceAll("trigger set v = %s; when a", "%s", i))
				}
				for _, c := range in {
					for _, o := range gen.Operands {
						for _, d := range []string{"when %s", "trigger set v = %s; when b", "when x == 1 and    (\n%s\n)"}[:t.pick(2, 3)] {
							for _, own := range []string{o, "(" + o + ")"} {
								if !y(Case{Text: strings.ReplaceAll(c, "%s", "hole") + fieldSep + strings.ReplaceAll(d, "%s", own) + fieldSep + strings.ReplaceAll(c, "%s", own)}) {
									return
								}
							}
						}
					}
				}
			}},
			{Name: "grafts-long", Doc: "operands of many parts, parsed elsewhere, in some contexts", Check: checkGraft, Enum: func(y gen.Yield) {
				for _, n := range steps(t.pick(9, 40), t.pick(300, 1100)) {
					for _, o := range gen.Long(n) {
						for _, c := range []string{"when a == %s", "trigger set v = %s; when a", "when [%s, b]", "when collection[%s, point[1,2]]", "when (%s) and b"} {
							if !y(Case{Text: strings.ReplaceAll(c, "%s", "hole") + fieldSep + "trigger set v = " + o + "; when b" + fieldSep + strings.ReplaceAll(c, "%s", o)}) {
								return
							}
						}
					}
				}
			}},
			sp("seeds", "every rule and every operand in every context", gen.Texts(gen.Seeds())),
			sp("operand-pairs", "every pair of operands around every operator", gen.Wrap(gen.Product(" ", gen.Operands, gen.OpSpellings, gen.Operands), "when ", "")),
			sp("trees", "all trees of operators and parentheses", gen.Chain(fillTrees(trees(2, 3), gen.OpSpellings, "when "), fillTrees(trees(3, 3), []string{"or", "and", "==", "-", "*", "/"}, "when "), fillTrees(trees(4, 3), gen.OpLevels, "when "))),
		}
		skip := []string{"C01/deep", "C02/top3", "C02/byte-edits", "C02/edits", "C02/operand-edits", "C04/strings", "C05/strings", "C05/brackets", "C06/byte-edits"}
		if !t.Thorough {
			skip = append(skip, "C04/viable", "C05/point-viable", "C01/strings", "C02/viable", "C05/edits2", "C03/units", "C04/all-times", "C02/when3", "C02/edits2", "C01/spellings")
		}
		return append(ss, reuse(t, checkRebuilt, "assembled anew", skip, "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C19")...)
	}})
}
