package props

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	geo "github.com/mmadfox/go-geoql-parser"
	"github.com/mmadfox/go-geoql-parser/scanner"

	"verifmc/mcrt"
)

// deep renders everything that the exported fields and Pos and End show of a
// value, telling nil from empty.
func deep(x any) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(x))
	return b.String()
}

func dump(b *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		b.WriteString("none")
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("none")
			return
		}
		dump(b, v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			fmt.Fprintf(b, "nil %s", v.Type())
			return
		}
		if p, ok := v.Interface().(interface {
			Pos() geo.Pos
			End() geo.Pos
		}); ok && v.Type() != reflect.TypeOf(&geo.BinaryExpr{}) && v.Type() != reflect.TypeOf(&geo.ParenExpr{}) && v.Type() != reflect.TypeOf(&geo.Assign{}) {
			fmt.Fprintf(b, "%d-%d", p.Pos(), p.End())
		}
		dump(b, v.Elem())
	case reflect.Struct:
		b.WriteString(v.Type().Name())
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				dump(b, v.Field(i))
				b.WriteByte(' ')
			}
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("nil")
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i))
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Map:
		if v.IsNil() {
			b.WriteString("nil")
		}
		var l []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			fmt.Fprintf(&e, "%q:", k)
			dump(&e, v.MapIndex(k))
			l = append(l, e.String())
		}
		sort.Strings(l)
		fmt.Fprintf(b, "map%v", l)
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		fmt.Fprint(b, v)
	}
}

// scramble overwrites everything reachable through exported fields.
func scramble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			scramble(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scramble(v.Field(i))
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
		}
		if v.Kind() == reflect.Slice {
			// write into spare capacity too, then lose the last element
			full := v.Slice(0, v.Cap())
			for i := v.Len(); i < v.Cap() && v.Len() > 0; i++ {
				full.Index(i).Set(v.Index(0))
			}
			if v.CanSet() && v.Len() > 0 {
				for i, j := 0, v.Len()-1; i < j; i, j = i+1, j-1 {
					x := reflect.New(v.Index(i).Type()).Elem()
					x.Set(v.Index(i))
					v.Index(i).Set(v.Index(j))
					v.Index(j).Set(x)
				}
				v.SetLen(v.Len() - 1)
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.Value{})
		}
		v.SetMapIndex(reflect.ValueOf("scrambled"), reflect.Zero(v.Type().Elem()))
	case reflect.String:
		if v.CanSet() {
			v.SetString("scrambled")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() + 7)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() + 1)
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(v.Float() + 0.5)
		}
	}
}

// A world is what calls work on: statements and dictionaries, which some calls
// change, and the answers that were kept.
type world struct {
	stmts []geo.Statement
	dicts []geo.Dictionary
	kept  []kept

	forget bool // keep nothing (the calls run concurrently)
}

type kept struct {
	what string
	x    any
	was  string
}

// worldTexts are the rules whose statements a world holds.
var worldTexts = []string{
	`trigger set a = 1; b = [si, sf]; p = point[1,2]:5km; when si{"x","y"}:1,2 + @a > -2.5 and (ss == "t" or sf in 1 .. 2.5) repeat 3 every 10s reset after 24h`,
	`when ss{"y",*,"x"} == "s" and collection[line[[1,2],[3,4]]:4M, multipoint[point[1,2]]] intersects @p or [1km,2km] == 5`,
}

func worldDicts() []geo.Dictionary {
	return []geo.Dictionary{
		{"si": geo.Int, "sf": geo.Float, "ss": geo.String, "sb": geo.Boolean},
		{"si": geo.String, "sf": geo.Boolean, "ss": geo.Int},
	}
}

// newWorld starts from the state in which the program started.
func newWorld() *world { return worldOf(worldTexts) }

func worldOf(texts []string) *world {
	mcrt.Reset()
	w := &world{dicts: worldDicts()}
	for _, t := range texts {
		s, err := geo.Parse(t)
		if err != nil {
			panic("world: " + err.Error())
		}
		w.stmts = append(w.stmts, s)
	}
	return w
}

// An op is a call (or a change of an argument by the caller).
type op struct {
	name string
	run  func(w *world) string
	// what it depends on: -1 for nothing
	stmt, dict int
	changes    bool // it changes its argument
}

func (w *world) keep(what string, x any) {
	if w.forget {
		return
	}
	w.kept = append(w.kept, kept{what, x, deep(x)})
}

func parseOp(text string) op {
	return op{name: fmt.Sprintf("Parse(%.60q)", text), stmt: -1, dict: -1, run: func(w *world) string {
		stmt, err := geo.Parse(text)
		if err != nil {
			return "error: " + err.Error()
		}
		w.keep(fmt.Sprintf("the statement of Parse(%.60q)", text), stmt)
		return deep(stmt)
	}}
}

func scrambleOp(text string) op {
	return op{name: fmt.Sprintf("Parse(%.60q), then overwriting all of the statement", text), stmt: -1, dict: -1, run: func(w *world) string {
		stmt, err := geo.Parse(text)
		if err != nil {
			return "error: " + err.Error()
		}
		s := deep(stmt)
		scramble(reflect.ValueOf(stmt))
		return s
	}}
}

func tokenOp(text string) op {
	return op{name: fmt.Sprintf("tokenizing %.60q", text), stmt: -1, dict: -1, run: func(w *world) string {
		var b strings.Builder
		t := geo.NewTokenizer(strings.NewReader(text))
		for i := 0; i < 200; i++ {
			k, l := t.Scan()
			fmt.Fprintf(&b, "%d %q %d;", k, l, t.Offset())
			if k == geo.EOF {
				break
			}
			if i%3 == 2 {
				t.Unwind()
			}
		}
		fmt.Fprint(&b, t.Err())
		return b.String()
	}}
}

func scanOp(text string) op {
	return op{name: fmt.Sprintf("scanning %.60q", text), stmt: -1, dict: -1, run: func(w *world) string {
		var b strings.Builder
		var s scanner.Scanner
		s.Init(strings.NewReader(text))
		s.Error = func(_ *scanner.Scanner, msg string) { fmt.Fprintf(&b, "!%s;", msg) }
		for i := 0; i < 200; i++ {
			k := s.Scan()
			fmt.Fprintf(&b, "%d %q %v;", k, s.TokenText(), s.Position)
			if k == scanner.EOF {
				break
			}
		}
		return b.String()
	}}
}

func formatOp(i int) op {
	return op{name: fmt.Sprintf("Format(statement %d)", i), stmt: i, dict: -1, run: func(w *world) string {
		s, err := format(w.stmts[i])
		return fmt.Sprintf("%s %v", s, err)
	}}
}

func formatFailOp(i, at int) op {
	return op{name: fmt.Sprintf("Format(statement %d) whose write %d fails", i, at), stmt: i, dict: -1, run: func(w *world) string {
		f := &failing{at: at, err: fmt.Errorf("write failed")}
		err := geo.Format(f, w.stmts[i])
		return fmt.Sprintf("%s|%s %v", f.got.String(), f.last, err)
	}}
}

func walkOp(i int, skip int) op {
	return op{name: fmt.Sprintf("Visit(statement %d) answering false to every %d-th node", i, skip), stmt: i, dict: -1, run: func(w *world) string {
		var b strings.Builder
		n := 0
		geo.Visit(w.stmts[i].(geo.Expr), func(e geo.Expr) bool {
			if e == nil {
				b.WriteString("nil;")
				return true
			}
			n++
			fmt.Fprintf(&b, "%T;", e)
			return skip == 0 || n%skip != 0
		})
		return b.String()
	}}
}

func checkOp(i, d int) op {
	return op{name: fmt.Sprintf("CheckType(statement %d, dictionary %d)", i, d), stmt: i, dict: d, run: func(w *world) string {
		if err := geo.CheckType(w.stmts[i], w.dicts[d]); err != nil {
			return "error: " + err.Error()
		}
		return "ok"
	}}
}

func changeStmtOp(i, how int) op {
	return op{name: fmt.Sprintf("change %d of statement %d", how, i), stmt: i, dict: -1, changes: true, run: func(w *world) string {
		t := w.stmts[i].(*geo.Trigger)
		switch how {
		case 0:
			t.When = &geo.ParenExpr{Expr: &geo.BinaryExpr{Left: t.When, Op: geo.OR, Right: &geo.BooleanTyp{Val: true}}}
		case 1:
			geo.Visit(t, func(e geo.Expr) bool {
				switch n := e.(type) {
				case *geo.Selector:
					if n.Args == nil {
						n.Args = map[string]struct{}{}
					}
					n.Args[fmt.Sprintf("new%d", len(n.Args))] = struct{}{}
				case *geo.StringTyp:
					n.Val += "!"
				case *geo.IntTyp:
					n.Val++
				case *geo.Ref:
					n.ID += "x"
				}
				return true
			})
		}
		return ""
	}}
}

func changeDictOp(d int) op {
	return op{name: fmt.Sprintf("changing dictionary %d", d), stmt: -1, dict: d, changes: true, run: func(w *world) string {
		for _, n := range []string{"si", "sf", "ss"} {
			w.dicts[d][n] = w.dicts[d][n]%7 + 1
		}
		return ""
	}}
}
