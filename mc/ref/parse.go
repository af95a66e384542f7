package ref

import (
	"sort"
	"strconv"
	"strings"
	"time"
)

// Node is a node of the reference tree.  Tag and Val (and the kids) are the
// node's meaning; the rest is where it stands in the text.
type Node struct {
	Tag  string
	Val  string
	Kids []*Node // nil entries are absent parts

	Off   int // offset of its first byte
	Last  int // offset of its last byte
	Next  int // offset of the token after it
	OpOff int // operator / '=' offset (Binary, Assign), else -1
}

// Tags.
const (
	TTrigger  = "trigger" // kids: vars, when, count, interval, reset
	TVars     = "vars"
	TAssign   = "assign" // kids: ident, value
	TIdent    = "ident"
	TBin      = "bin" // Val: operator
	TParen    = "paren"
	TSel      = "sel"   // Val: name; kids: args, props
	TArgs     = "args"  // Val: sorted quoted ids and wildcard flag
	TProps    = "props" // kids
	TWild     = "wild"
	TRef      = "ref"
	TBool     = "bool"
	TInt      = "int"
	TFloat    = "float"
	TString   = "string"
	TPercent  = "percent"
	TSpeed    = "speed"
	TDist     = "dist"
	TPress    = "press"
	TTemp     = "temp"
	TDur      = "dur"
	TDate     = "date"
	TTime     = "time"
	TWeekday  = "weekday"
	TMonth    = "month"
	TArray    = "array" // Val: element kind
	TRange    = "range"
	TPoint    = "point" // kids: radius
	TLine     = "line"  // kids: margin
	TPolygon  = "polygon"
	TMulti    = "multi" // Val: kind
	TCollect  = "collection"
	TBadShape = "?" // used by the adapter for something that is no known node
)

// OpNames are the canonical operator names.
var OpNames = map[Kind]string{
	OR: "or", AND: "and", LSS: "<", LEQ: "<=", GTR: ">", GEQ: ">=", EQL: "eq", LEQL: "==",
	NOT_EQ: "not eq", LNEQ: "!=", IN: "in", NOT_IN: "not in", INTERSECTS: "intersects",
	NOT_INTERSECTS: "not intersects", NEARBY: "nearby", NOT_NEARBY: "not nearby",
	ADD: "+", SUB: "-", MUL: "*", QUO: "/", REM: "rem",
}

// Prec is the README operator table.
var Prec = map[Kind]int{
	OR: 1, AND: 2,
	LSS: 3, LEQ: 3, GTR: 3, GEQ: 3, EQL: 3, LEQL: 3, NOT_EQ: 3, LNEQ: 3, IN: 3, NOT_IN: 3,
	INTERSECTS: 3, NOT_INTERSECTS: 3, NEARBY: 3, NOT_NEARBY: 3,
	ADD: 4, SUB: 4, MUL: 5, QUO: 5, REM: 5,
}

// Num renders a number canonically (there is no negative zero in the language).
func Num(v float64) string {
	if v == 0 {
		return "0"
	}
	return strconv.FormatFloat(v, 'g', -1, 64)
}

func write(b *strings.Builder, n *Node) {
	if n == nil {
		b.WriteString("_")
		return
	}
	b.WriteByte('(')
	b.WriteString(n.Tag)
	if n.Val != "" {
		b.WriteByte(' ')
		b.WriteString(n.Val)
	}
	for _, k := range n.Kids {
		b.WriteByte(' ')
		write(b, k)
	}
	b.WriteByte(')')
}

// Dump renders the meaning of a tree.
func Dump(n *Node) string {
	var b strings.Builder
	write(&b, n)
	return b.String()
}

type bad struct{}

type parser struct {
	toks []Tok
	i    int
}

// Parse decides whether src is a rule, and what it means.
func Parse(src string) (*Node, bool) {
	n, ok, _ := ParseSteps(src)
	return n, ok
}

// ParseSteps is Parse that also counts the transitions of the model: the tokens
// it took before accepting or rejecting.
func ParseSteps(src string) (n *Node, ok bool, steps int) {
	toks, ok := Lex(src)
	if !ok {
		return nil, false, len(toks)
	}
	return parseTokens(toks)
}

// ParseTokens is Parse for a token list that ends with EOF.
func ParseTokens(toks []Tok) (*Node, bool) {
	n, ok, _ := parseTokens(toks)
	return n, ok
}

func parseTokens(toks []Tok) (n *Node, ok bool, steps int) {
	p := &parser{toks: toks}
	defer func() {
		steps = p.i + 1
		if r := recover(); r != nil {
			if _, isBad := r.(bad); !isBad {
				panic(r)
			}
			n, ok = nil, false
		}
	}()
	return p.statement(), true, 0
}

func (p *parser) tok() *Tok { return &p.toks[p.i] }
func (p *parser) is(k Kind) bool {
	return p.toks[p.i].K == k
}
func (p *parser) adv() {
	if p.i+1 < len(p.toks) {
		p.i++
	}
}
func (p *parser) fail() { panic(bad{}) }
func (p *parser) want(k Kind) *Tok {
	if !p.is(k) {
		p.fail()
	}
	t := p.tok()
	p.adv()
	return t
}
func (p *parser) word(w string) {
	if !p.is(SELECTOR) || p.tok().Lit != w {
		p.fail()
	}
	p.adv()
}

// done completes a node whose text starts at off and ends with the token before
// the current one.
func (p *parser) done(n *Node, off int) *Node {
	n.Off = off
	n.Last = p.toks[p.i-1].End - 1
	n.Next = p.tok().Off
	if n.OpOff == 0 {
		n.OpOff = -1
	}
	return n
}

func (p *parser) statement() *Node {
	n := &Node{Tag: TTrigger}
	vars := &Node{Tag: TVars, OpOff: -1}
	if p.is(TRIGGER) {
		p.adv()
		if p.is(SET) {
			p.adv()
			p.assignments(vars)
		}
	}
	p.want(WHEN)
	n.Kids = []*Node{vars, p.binary(1), nil, nil, nil}
	if p.is(REPEAT) {
		p.adv()
		if !p.is(EOF) && !p.is(RESET) {
			n.Kids[2] = p.number(INT, false, TInt)
			if !p.is(EOF) && !p.is(RESET) {
				p.word("every")
				n.Kids[3] = p.number(INT, false, TDur)
			}
		}
	}
	if p.is(RESET) {
		p.adv()
		p.word("after")
		if p.is(FLOAT) {
			n.Kids[4] = p.number(FLOAT, false, TDur)
		} else {
			n.Kids[4] = p.number(INT, false, TDur)
		}
	}
	if !p.is(EOF) {
		p.fail()
	}
	n.OpOff = -1
	n.Off = p.toks[0].Off
	n.Next = p.tok().Off
	n.Last = p.toks[p.i-1].End - 1
	return n
}

// number parses a number token of the given kind that must be of the given type.
func (p *parser) number(k Kind, meters bool, tag string) *Node {
	if !p.is(k) {
		p.fail()
	}
	n := p.quantity(0, p.tok().Off, meters)
	if n.Tag != tag {
		p.fail()
	}
	return n
}

func (p *parser) assignments(vars *Node) {
	seen := map[string]bool{}
	for !p.is(WHEN) {
		off := p.tok().Off
		name := p.want(SELECTOR)
		if seen[name.Raw] {
			p.fail()
		}
		seen[name.Raw] = true
		id := p.done(&Node{Tag: TIdent, Val: name.Raw}, off)
		op := p.want(ASSIGN)
		val := p.unary()
		if val.Tag == TRef || val.Tag == TArray && val.Val == TRef {
			p.fail()
		}
		vars.Kids = append(vars.Kids, p.done(&Node{Tag: TAssign, Kids: []*Node{id, val}, OpOff: op.Off}, off))
		if p.is(SEMICOLON) {
			p.adv()
		}
	}
}

// binary parses a condition of operators of precedence min and up.  It is
// written as one loop per precedence level.
func (p *parser) binary(min int) *Node {
	if min > 5 {
		return p.unary()
	}
	off := p.tok().Off
	left := p.binary(min + 1)
	for Prec[p.tok().K] == min {
		op := p.tok()
		p.adv()
		right := p.binary(min + 1)
		left = p.done(&Node{Tag: TBin, Val: OpNames[op.K], Kids: []*Node{left, right}, OpOff: op.Off}, off)
	}
	return left
}

func (p *parser) unary() *Node {
	off := p.tok().Off
	low := p.primary()
	if !p.is(RANGE) {
		return low
	}
	p.adv()
	high := p.unary()
	if low.Tag == TRange || high.Tag == TRange {
		p.fail()
	}
	return p.done(&Node{Tag: TRange, Kids: []*Node{low, high}}, off)
}

func (p *parser) primary() *Node {
	t := p.tok()
	off := t.Off
	switch t.K {
	case ADD, SUB:
		p.adv()
		if !p.is(INT) && !p.is(FLOAT) {
			p.fail()
		}
		sign := 1
		if t.K == SUB {
			sign = -1
		}
		return p.quantity(sign, off, false)
	case INT, FLOAT:
		return p.quantity(0, off, false)
	case STRING:
		p.adv()
		return p.done(&Node{Tag: TString, Val: quote(t.Raw[1 : len(t.Raw)-1])}, off)
	case BOOLEAN:
		p.adv()
		v := "true"
		if t.Lit == "false" || t.Lit == "down" {
			v = "false"
		}
		return p.done(&Node{Tag: TBool, Val: v}, off)
	case MUL:
		p.adv()
		return p.done(&Node{Tag: TWild}, off)
	case AT:
		p.adv()
		name := p.want(SELECTOR)
		return p.done(&Node{Tag: TRef, Val: name.Raw}, off)
	case LPAREN:
		p.adv()
		e := p.binary(1)
		p.want(RPAREN)
		return p.done(&Node{Tag: TParen, Kids: []*Node{e}}, off)
	case LBRACK:
		return p.array()
	case SELECTOR:
		return p.selector()
	case DATE, TIME, WEEKDAY, MONTH:
		return p.calendar()
	case POINT, LINE, POLYGON:
		return p.geometry()
	case MULTIPOINT, MULTILINE, MULTIPOLYGON:
		return p.multi()
	case COLLECTION:
		return p.collection()
	}
	p.fail()
	return nil
}

func quote(s string) string { return strconv.Quote(s) }

var (
	pressureUnits = map[string]string{"bar": "Bar", "Bar": "Bar", "BAR": "Bar", "psi": "Psi", "Psi": "Psi", "PSI": "Psi"}
	distanceUnits = map[string]string{
		"rm": "M", "rM": "M", "Rm": "M", "M": "M",
		"rkm": "Km", "rKM": "Km", "Rkm": "Km", "Km": "Km", "km": "Km",
	}
	speedUnits = map[string]string{"kph": "Kph", "KPH": "Kph", "Kph": "Kph", "mph": "Mph", "Mph": "Mph", "MPH": "Mph"}
	tempUnits  = map[string]string{"f": "F", "F": "F", "c": "C", "C": "C"}
	percents   = map[string]bool{"%": true, "PCT": true, "Pct": true}
)

// quantity parses a number with its unit.  The current token is the number;
// sign is that of the sign token before it (0 if none).
func (p *parser) quantity(sign, off int, meters bool) *Node {
	num := p.tok()
	var v float64
	var iv int
	if num.K == INT {
		n, err := strconv.ParseInt(num.Raw, 10, 64)
		if err != nil {
			p.fail()
		}
		iv = int(n)
		v = float64(n)
	} else {
		n, err := strconv.ParseFloat(num.Raw, 64)
		if err != nil {
			p.fail()
		}
		v = n
	}
	p.adv()
	signed := v
	if sign < 0 {
		signed = -v
		iv = -iv
	}
	u := p.tok()
	unit := ""
	if u.Single && (u.K == SELECTOR || u.K == ILLEGAL) {
		unit = u.Raw
	}
	take := func(tag, val string, mayBeNegative bool) *Node {
		if sign < 0 && !mayBeNegative {
			p.fail()
		}
		p.adv()
		return p.done(&Node{Tag: tag, Val: val}, off)
	}
	switch {
	case percents[unit]:
		return take(TPercent, Num(v), false)
	case pressureUnits[unit] != "":
		return take(TPress, Num(signed)+" "+pressureUnits[unit], true)
	case distanceUnits[unit] != "":
		return take(TDist, Num(v)+" "+distanceUnits[unit], false)
	case meters && unit == "m":
		return take(TDist, Num(v)+" M", false)
	case speedUnits[unit] != "":
		return take(TSpeed, Num(v)+" "+speedUnits[unit], false)
	case tempUnits[unit] != "":
		s := [...]string{"-", "", "+"}[sign+1]
		return take(TTemp, s+" "+Num(v)+" "+tempUnits[unit], true)
	case u.K == SELECTOR && strings.ContainsRune("hms", rune(u.Lit[0])):
		d, err := time.ParseDuration(num.Raw + u.Lit)
		if err != nil {
			p.fail()
		}
		return take(TDur, strconv.FormatInt(int64(d), 10), false)
	}
	if num.K == INT {
		return p.done(&Node{Tag: TInt, Val: strconv.Itoa(iv)}, off)
	}
	return p.done(&Node{Tag: TFloat, Val: Num(signed)}, off)
}

// ElemTags are the types a list may hold.
var ElemTags = map[string]bool{
	TSel: true, TDur: true, TSpeed: true, TPress: true, TTemp: true, TDist: true, TPercent: true,
	TInt: true, TFloat: true, TString: true, TRef: true, TRange: true,
}

func (p *parser) array() *Node {
	off := p.want(LBRACK).Off
	n := &Node{Tag: TArray}
	for {
		e := p.unary()
		if !ElemTags[e.Tag] || n.Val != "" && n.Val != e.Tag {
			p.fail()
		}
		n.Val = e.Tag
		n.Kids = append(n.Kids, e)
		if p.is(RBRACK) {
			p.adv()
			return p.done(n, off)
		}
		if !p.is(COMMA) && !p.is(COLON) {
			p.fail()
		}
		p.adv()
	}
}

// ArgsVal renders a selector's braces.
func ArgsVal(ids map[string]struct{}, wildcard bool) string {
	l := make([]string, 0, len(ids))
	for id := range ids {
		l = append(l, quote(id))
	}
	sort.Strings(l)
	s := strings.Join(l, ",")
	if wildcard {
		return "*" + s
	}
	return s
}

func (p *parser) selector() *Node {
	off := p.tok().Off
	n := &Node{Tag: TSel, Val: quote(p.tok().Lit)}
	p.adv()
	ids := map[string]struct{}{}
	wildcard := false
	if p.is(LBRACE) {
		p.adv()
		for !p.is(RBRACE) {
			switch {
			case p.is(COMMA):
			case p.is(MUL):
				wildcard = true
			case p.is(STRING):
				s := p.tok().Raw
				ids[s[1:len(s)-1]] = struct{}{}
			default:
				p.fail()
			}
			p.adv()
		}
		p.adv()
	}
	if len(ids) == 0 {
		wildcard = true
	}
	props := &Node{Tag: TProps, OpOff: -1}
	if p.is(COLON) {
		for first := true; first || p.is(COMMA); first = false {
			p.adv()
			props.Kids = append(props.Kids, p.unary())
		}
	}
	n.Kids = []*Node{{Tag: TArgs, Val: ArgsVal(ids, wildcard), OpOff: -1}, props}
	return p.done(n, off)
}

var (
	days   = []string{"sun", "mon", "tue", "wed", "thu", "fri", "sat"}
	months = []string{"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"}
)

func (p *parser) component(lo, hi int) int {
	v, err := strconv.Atoi(p.want(INT).Raw)
	if err != nil || v < lo || v > hi {
		p.fail()
	}
	return v
}

func (p *parser) name(names []string) int {
	w := p.want(SELECTOR).Lit
	for i, n := range names {
		if n == w {
			return i
		}
	}
	p.fail()
	return 0
}

// DateVal, TimeVal render calendar values.
func DateVal(y, m, d int) string { return ints(y, m, d) }
func TimeVal(h, m, s int, unit string) string {
	return ints(h, m, s) + " " + unit
}
func ints(v ...int) string {
	var l []string
	for _, i := range v {
		l = append(l, strconv.Itoa(i))
	}
	return strings.Join(l, " ")
}

func (p *parser) calendarItem(kind Kind) *Node {
	off := p.tok().Off
	n := &Node{}
	switch kind {
	case DATE:
		y := p.component(2022, 2200)
		p.want(SUB)
		m := p.component(1, 12)
		p.want(SUB)
		d := p.component(1, 31)
		n.Tag, n.Val = TDate, DateVal(y, m, d)
	case TIME:
		h := p.component(0, 24)
		p.want(COLON)
		m := p.component(0, 59)
		s := 0
		if p.is(COLON) {
			p.adv()
			s = p.component(0, 59)
		}
		u := ""
		if p.is(SELECTOR) {
			switch p.tok().Lit {
			case "am":
				u = "AM"
			case "pm":
				u = "PM"
			default:
				p.fail()
			}
			p.adv()
		}
		n.Tag, n.Val = TTime, TimeVal(h, m, s, u)
	case WEEKDAY:
		n.Tag, n.Val = TWeekday, strconv.Itoa(p.name(days))
	case MONTH:
		n.Tag, n.Val = TMonth, strconv.Itoa(p.name(months)+1)
	}
	return p.done(n, off)
}

func (p *parser) calendar() *Node {
	kind := p.tok().K
	off := p.tok().Off
	p.adv()
	p.want(LBRACK)
	first := p.calendarItem(kind)
	switch {
	case p.is(RBRACK):
		p.adv()
		return p.done(first, off)
	case p.is(RANGE):
		p.adv()
		n := &Node{Tag: TRange, Kids: []*Node{first, p.calendarItem(kind)}}
		p.want(RBRACK)
		return p.done(n, off)
	}
	n := &Node{Tag: TArray, Val: first.Tag, Kids: []*Node{first}}
	for p.is(COMMA) {
		p.adv()
		n.Kids = append(n.Kids, p.calendarItem(kind))
	}
	p.want(RBRACK)
	return p.done(n, off)
}

// coordinate parses [-] number.
func (p *parser) coordinate() string {
	neg := false
	if p.is(SUB) {
		neg = true
		p.adv()
	}
	var v float64
	var err error
	switch {
	case p.is(INT):
		var n int
		n, err = strconv.Atoi(p.tok().Raw)
		v = float64(n)
	case p.is(FLOAT):
		v, err = strconv.ParseFloat(p.tok().Raw, 64)
	default:
		p.fail()
	}
	if err != nil {
		p.fail()
	}
	p.adv()
	if neg {
		v = -v
	}
	return Num(v)
}

func (p *parser) commas() (n int) {
	for p.is(COMMA) {
		n++
		p.adv()
	}
	return
}

// position parses '[' x ',' y ']'.
func (p *parser) position() string {
	p.want(LBRACK)
	x := p.coordinate()
	if p.commas() == 0 {
		p.fail()
	}
	y := p.coordinate()
	p.commas()
	p.want(RBRACK)
	return x + " " + y
}

// group parses '[' item { [','] item } ']'.
func (p *parser) group(item func() string) string {
	p.want(LBRACK)
	var l []string
	for len(l) == 0 || !p.is(RBRACK) {
		l = append(l, item())
		p.commas()
	}
	p.adv()
	return "[" + strings.Join(l, ",") + "]"
}

func (p *parser) geometry() *Node {
	kind, off := p.tok().K, p.tok().Off
	p.adv()
	n := &Node{}
	switch kind {
	case POINT:
		n.Tag, n.Val = TPoint, p.position()
	case LINE:
		n.Tag, n.Val = TLine, p.group(p.position)
	case POLYGON:
		n.Tag, n.Val = TPolygon, p.group(func() string { return p.group(p.position) })
		return p.done(n, off)
	}
	n.Kids = []*Node{nil}
	if p.is(COLON) {
		p.adv()
		if p.is(FLOAT) {
			n.Kids[0] = p.number(FLOAT, true, TDist)
		} else {
			n.Kids[0] = p.number(INT, true, TDist)
		}
	}
	return p.done(n, off)
}

func (p *parser) members(item func() *Node) []*Node {
	p.want(LBRACK)
	var l []*Node
	for {
		l = append(l, item())
		if p.is(RBRACK) {
			p.adv()
			return l
		}
		if p.is(COMMA) {
			p.adv()
		}
	}
}

func (p *parser) multi() *Node {
	kind, off := p.tok().K, p.tok().Off
	p.adv()
	member := map[Kind]Kind{MULTIPOINT: POINT, MULTILINE: LINE, MULTIPOLYGON: POLYGON}[kind]
	name := map[Kind]string{MULTIPOINT: "points", MULTILINE: "lines", MULTIPOLYGON: "polygons"}[kind]
	n := &Node{Tag: TMulti, Val: name}
	n.Kids = p.members(func() *Node {
		if !p.is(member) {
			p.fail()
		}
		return p.geometry()
	})
	return p.done(n, off)
}

func (p *parser) collection() *Node {
	off := p.tok().Off
	p.adv()
	n := &Node{Tag: TCollect}
	n.Kids = p.members(func() *Node {
		switch p.tok().K {
		case POINT, LINE, POLYGON:
			return p.geometry()
		case MULTIPOINT, MULTILINE, MULTIPOLYGON:
			return p.multi()
		}
		p.fail()
		return nil
	})
	return p.done(n, off)
}

// Extendable tells whether src, a text without lexical errors, might be the
// beginning of a rule: the reference parser does not fail before its end.
func Extendable(src string) bool {
	toks, ok := Lex(src)
	if !ok {
		return false
	}
	p := &parser{toks: toks}
	failed := true
	func() {
		defer func() { _ = recover() }()
		p.statement()
		failed = false
	}()
	return !failed || p.is(EOF) || p.i+1 < len(p.toks) && p.toks[p.i+1].K == EOF && p.toks[p.i].K == INT
}
