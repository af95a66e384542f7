// Package adapt renders the library's syntax trees as reference trees, through
// the exported fields and the Pos/End methods only.
package adapt

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	geo "github.com/mmadfox/go-geoql-parser"

	"verifmc/ref"
)

var opKinds = map[geo.Token]string{
	geo.OR: "or", geo.AND: "and", geo.LSS: "<", geo.LEQ: "<=", geo.GTR: ">", geo.GEQ: ">=",
	geo.EQL: "eq", geo.LEQL: "==", geo.NOT_EQ: "not eq", geo.LNEQ: "!=", geo.IN: "in",
	geo.NOT_IN: "not in", geo.INTERSECTS: "intersects", geo.NOT_INTERSECTS: "not intersects",
	geo.NEARBY: "nearby", geo.NOT_NEARBY: "not nearby", geo.ADD: "+", geo.SUB: "-",
	geo.MUL: "*", geo.QUO: "/", geo.REM: "rem",
}

var arrayKinds = map[geo.Token]string{
	geo.SELECTOR: ref.TSel, geo.DURATION: ref.TDur, geo.SPEED: ref.TSpeed, geo.PRESSURE: ref.TPress,
	geo.TEMPERATURE: ref.TTemp, geo.DISTANCE: ref.TDist, geo.PERCENT: ref.TPercent, geo.INT: ref.TInt,
	geo.FLOAT: ref.TFloat, geo.STRING: ref.TString, geo.IDENT: ref.TRef, geo.RANGE: ref.TRange,
	geo.DATE: ref.TDate, geo.TIME: ref.TTime, geo.WEEKDAY: ref.TWeekday, geo.MONTH: ref.TMonth,
}

var multiKinds = map[geo.Token]string{
	geo.GEOMETRY_MULTIPOINT: "points", geo.GEOMETRY_MULTILINE: "lines", geo.GEOMETRY_MULTIPOLYGON: "polygons",
}

var units = map[geo.Unit]string{
	geo.Kph: "Kph", geo.Mph: "Mph", geo.Celsius: "C", geo.Fahrenheit: "F", geo.Kilometer: "Km",
	geo.Meter: "M", geo.Bar: "Bar", geo.Psi: "Psi", geo.AM: "AM", geo.PM: "PM",
}

func unit(u geo.Unit) string {
	if s, ok := units[u]; ok {
		return s
	}
	return fmt.Sprintf("unit(%d)", u)
}

// IsNil also recognises typed nil pointers.
func IsNil(e any) bool {
	if e == nil {
		return true
	}
	v := reflect.ValueOf(e)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

// A Walker converts trees; Pos selects whether positions are read too.
type conv struct{ pos bool }

// Tree converts a statement or expression without positions.
func Tree(x any) *ref.Node { return conv{}.node(x) }

// Spans converts with positions: Off is Pos(), Last is End().
func Spans(x any) *ref.Node { return conv{pos: true}.node(x) }

// Dump is the canonical text of a statement or expression.
func Dump(x any) string { return ref.Dump(Tree(x)) }

type positioned interface {
	Pos() geo.Pos
	End() geo.Pos
}

func (c conv) node(x any) *ref.Node {
	if IsNil(x) {
		return nil
	}
	n := c.shape(x)
	n.OpOff = -1
	if c.pos {
		if p, ok := x.(positioned); ok {
			n.Off, n.Last = int(p.Pos()), int(p.End())
		}
		switch t := x.(type) {
		case *geo.BinaryExpr:
			n.OpOff = int(t.OpPos)
		case *geo.Assign:
			n.OpOff = int(t.TokPos)
		}
	}
	return n
}

func (c conv) kids(l []geo.Expr) []*ref.Node {
	var out []*ref.Node
	for _, e := range l {
		out = append(out, c.node(e))
	}
	return out
}

func position(p [2]float64) string { return ref.Num(p[0]) + " " + ref.Num(p[1]) }

func positions(l [][2]float64) string {
	var out []string
	for _, p := range l {
		out = append(out, position(p))
	}
	return "[" + strings.Join(out, ",") + "]"
}

func (c conv) shape(x any) *ref.Node {
	type N = ref.Node
	switch t := x.(type) {
	case *geo.Trigger:
		vars := &N{Tag: ref.TVars, OpOff: -1}
		for _, v := range t.Vars {
			vars.Kids = append(vars.Kids, c.node(v))
		}
		return &N{Tag: ref.TTrigger, Kids: []*N{vars, c.node(t.When), c.node(t.RepeatCount), c.node(t.RepeatInterval), c.node(t.ResetAfter)}}
	case *geo.Assign:
		return &N{Tag: ref.TAssign, Kids: []*N{c.node(t.Left), c.node(t.Right)}}
	case *geo.Ident:
		return &N{Tag: ref.TIdent, Val: t.Val}
	case *geo.BinaryExpr:
		op, ok := opKinds[t.Op]
		if !ok {
			op = fmt.Sprintf("op(%d)", t.Op)
		}
		return &N{Tag: ref.TBin, Val: op, Kids: []*N{c.node(t.Left), c.node(t.Right)}}
	case *geo.ParenExpr:
		return &N{Tag: ref.TParen, Kids: []*N{c.node(t.Expr)}}
	case *geo.Selector:
		return &N{Tag: ref.TSel, Val: strconv.Quote(t.Ident), Kids: []*N{
			{Tag: ref.TArgs, Val: ref.ArgsVal(t.Args, t.Wildcard), OpOff: -1},
			{Tag: ref.TProps, Kids: c.kids(t.Props), OpOff: -1}}}
	case *geo.WildcardTyp:
		return &N{Tag: ref.TWild}
	case *geo.Ref:
		return &N{Tag: ref.TRef, Val: t.ID}
	case *geo.BooleanTyp:
		return &N{Tag: ref.TBool, Val: strconv.FormatBool(t.Val)}
	case *geo.IntTyp:
		return &N{Tag: ref.TInt, Val: strconv.Itoa(t.Val)}
	case *geo.FloatTyp:
		return &N{Tag: ref.TFloat, Val: ref.Num(t.Val)}
	case *geo.StringTyp:
		return &N{Tag: ref.TString, Val: strconv.Quote(t.Val)}
	case *geo.PercentTyp:
		return &N{Tag: ref.TPercent, Val: ref.Num(t.Val)}
	case *geo.SpeedTyp:
		return &N{Tag: ref.TSpeed, Val: ref.Num(t.Val) + " " + unit(t.U)}
	case *geo.DistanceTyp:
		return &N{Tag: ref.TDist, Val: ref.Num(t.Val) + " " + unit(t.U)}
	case *geo.PressureTyp:
		return &N{Tag: ref.TPress, Val: ref.Num(t.Val) + " " + unit(t.U)}
	case *geo.TemperatureTyp:
		s := fmt.Sprintf("sign(%d)", t.Vec)
		switch t.Vec {
		case 0:
			s = ""
		case geo.Plus:
			s = "+"
		case geo.Minus:
			s = "-"
		}
		return &N{Tag: ref.TTemp, Val: s + " " + ref.Num(t.Val) + " " + unit(t.U)}
	case *geo.DurationTyp:
		return &N{Tag: ref.TDur, Val: strconv.FormatInt(int64(t.Val), 10)}
	case *geo.DateTyp:
		return &N{Tag: ref.TDate, Val: ref.DateVal(t.Year, t.Month, t.Day)}
	case *geo.TimeTyp:
		u := ""
		if t.U != geo.Unknown {
			u = unit(t.U)
		}
		return &N{Tag: ref.TTime, Val: ref.TimeVal(t.Hours, t.Minutes, t.Seconds, u)}
	case *geo.WeekdayTyp:
		return &N{Tag: ref.TWeekday, Val: strconv.Itoa(t.Val)}
	case *geo.MonthTyp:
		return &N{Tag: ref.TMonth, Val: strconv.Itoa(t.Val)}
	case *geo.ArrayTyp:
		k, ok := arrayKinds[t.Kind]
		if !ok {
			k = fmt.Sprintf("kind(%d)", t.Kind)
		}
		return &N{Tag: ref.TArray, Val: k, Kids: c.kids(t.List)}
	case *geo.Range:
		return &N{Tag: ref.TRange, Kids: []*N{c.node(t.Low), c.node(t.High)}}
	case *geo.GeometryPointTyp:
		return &N{Tag: ref.TPoint, Val: position(t.Val), Kids: []*N{c.node(t.Radius)}}
	case *geo.GeometryLineTyp:
		return &N{Tag: ref.TLine, Val: positions(t.Val), Kids: []*N{c.node(t.Margin)}}
	case *geo.GeometryPolygonTyp:
		var rings []string
		for _, r := range t.Val {
			rings = append(rings, positions(r))
		}
		return &N{Tag: ref.TPolygon, Val: "[" + strings.Join(rings, ",") + "]"}
	case *geo.GeometryMultiObjectTyp:
		k, ok := multiKinds[t.Kind]
		if !ok {
			k = fmt.Sprintf("kind(%d)", t.Kind)
		}
		return &N{Tag: ref.TMulti, Val: k, Kids: c.kids(t.Val)}
	case *geo.GeometryCollectionTyp:
		return &N{Tag: ref.TCollect, Kids: c.kids(t.Objects)}
	}
	return &ref.Node{Tag: ref.TBadShape, Val: fmt.Sprintf("%T", x)}
}

// Kids are the nodes a node directly contains, in written order.
func Kids(x any) (out []any) {
	add := func(l ...any) {
		for _, k := range l {
			if !IsNil(k) {
				out = append(out, k)
			}
		}
	}
	exprs := func(l []geo.Expr) {
		for _, k := range l {
			add(k)
		}
	}
	switch t := x.(type) {
	case *geo.Trigger:
		for _, v := range t.Vars {
			add(v)
		}
		add(t.When, t.RepeatCount, t.RepeatInterval, t.ResetAfter)
	case *geo.Assign:
		add(t.Left, t.Right)
	case *geo.BinaryExpr:
		add(t.Left, t.Right)
	case *geo.ParenExpr:
		add(t.Expr)
	case *geo.Selector:
		exprs(t.Props)
	case *geo.Range:
		add(t.Low, t.High)
	case *geo.ArrayTyp:
		exprs(t.List)
	case *geo.GeometryPointTyp:
		add(t.Radius)
	case *geo.GeometryLineTyp:
		add(t.Margin)
	case *geo.GeometryMultiObjectTyp:
		exprs(t.Val)
	case *geo.GeometryCollectionTyp:
		exprs(t.Objects)
	}
	return
}
