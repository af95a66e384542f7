// Package ref is the reference model: an independent, deliberately boring
// description of the GeoQL language (lexis, grammar, typing).  It imports
// nothing of the library under test.
package ref

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

// RawKind classifies raw scanner tokens.
type RawKind int

const (
	REOF RawKind = iota
	RIdent
	RInt
	RFloat
	RChar
	RString
	RRawString
	RRune   // any other single character
	RBadDot // a '.' directly followed by a digit: not the start of anything
)

// Raw is one raw token: src[Off:End], with its line and column (1-based,
// column counted in characters).
type Raw struct {
	K         RawKind
	R         rune
	Text      string
	Off, End  int
	Line, Col int
}

// Lexed is the result of scanning a source.  ErrOff is the offset at which the
// first lexical error was found, or -1.  Toks then holds the tokens that end at
// or before it and are unaffected by it; otherwise it ends with an EOF token.
type Lexed struct {
	Raws   []Raw
	ErrOff int
}

type lexer struct {
	src       string
	pos       int
	line, col int // position of the character at pos
	err       int
}

const eof = -1

// peek returns the character at pos without consuming it.
func (l *lexer) peek() (rune, int) {
	if l.pos >= len(l.src) {
		return eof, 0
	}
	c := l.src[l.pos]
	if c < utf8.RuneSelf {
		return rune(c), 1
	}
	return utf8.DecodeRuneInString(l.src[l.pos:])
}

func (l *lexer) fail(off int) {
	if l.err < 0 || off < l.err {
		l.err = off
	}
}

func (l *lexer) bump() rune {
	r, w := l.peek()
	if w == 0 {
		return eof
	}
	if r == 0 || (r == utf8.RuneError && w == 1) {
		l.fail(l.pos)
	}
	l.pos += w
	if r == '\n' {
		l.line++
		l.col = 1
	} else {
		l.col++
	}
	return r
}

func isLetter(r rune) bool { return r == '_' || unicode.IsLetter(r) }
func isDigit(r rune) bool  { return r >= '0' && r <= '9' }
func isHex(r rune) bool {
	return isDigit(r) || r >= 'a' && r <= 'f' || r >= 'A' && r <= 'F'
}

func (l *lexer) escape(quote rune) {
	at := l.pos
	r, _ := l.peek()
	digits := func(n int, ok func(rune) bool) {
		for i := 0; i < n; i++ {
			r, _ := l.peek()
			if !ok(r) {
				l.fail(at)
				return
			}
			l.bump()
		}
	}
	oct := func(r rune) bool { return r >= '0' && r <= '7' }
	switch {
	case r != eof && (strings.ContainsRune(`abfnrtv\`, r) || r == quote):
		l.bump()
	case oct(r):
		digits(3, oct)
	case r == 'x':
		l.bump()
		digits(2, isHex)
	case r == 'u':
		l.bump()
		digits(4, isHex)
	case r == 'U':
		l.bump()
		digits(8, isHex)
	default:
		l.fail(at)
	}
}

// quoted consumes up to and including the closing quote; n counts characters.
func (l *lexer) quoted(quote rune) (n int) {
	for {
		r, _ := l.peek()
		if r == eof || r == '\n' {
			l.fail(l.pos)
			return
		}
		l.bump()
		if r == quote {
			return
		}
		if r == '\\' {
			l.escape(quote)
		}
		n++
		if l.err >= 0 {
			return
		}
	}
}

// LexRaw scans a source into raw tokens.
func LexRaw(src string) Lexed {
	l := &lexer{src: src, line: 1, col: 1, err: -1}
	if strings.HasPrefix(src, "\ufeff") {
		l.pos = 3 // a leading byte order mark is not part of the text
		l.col = 2
	}
	var out []Raw
	for {
		r, _ := l.peek()
		// white space and comments
		if r == ' ' || r == '\t' || r == '\n' || r == '\r' {
			l.bump()
			continue
		}
		if r == '/' && l.pos+1 < len(src) && src[l.pos+1] == '/' {
			for {
				r, _ := l.peek()
				if r == eof || r == '\n' {
					break
				}
				l.bump()
			}
			if l.err >= 0 {
				return Lexed{out, l.err}
			}
			continue
		}
		if r == '/' && l.pos+1 < len(src) && src[l.pos+1] == '*' {
			l.bump()
			l.bump()
			end := strings.Index(src[l.pos:], "*/")
			stop := len(src)
			if end >= 0 {
				stop = l.pos + end + 2
			}
			for l.pos < stop {
				l.bump()
			}
			if end < 0 {
				l.fail(len(src))
			}
			if l.err >= 0 {
				return Lexed{out, l.err}
			}
			continue
		}
		t := Raw{Off: l.pos, Line: l.line, Col: l.col, R: r}
		switch {
		case r == eof:
			t.K = REOF
		case isLetter(r):
			t.K = RIdent
			for isLetter(r) || unicode.IsDigit(r) {
				l.bump()
				r, _ = l.peek()
			}
		case isDigit(r):
			t.K = RInt
			for isDigit(r) || r == '_' {
				l.bump()
				r, _ = l.peek()
			}
			if r == '.' {
				t.K = RFloat
				l.bump()
				r, _ = l.peek()
				for isDigit(r) || r == '_' {
					l.bump()
					r, _ = l.peek()
				}
			}
		case r == '"':
			t.K = RString
			l.bump()
			l.quoted('"')
		case r == '\'':
			t.K = RChar
			l.bump()
			if n := l.quoted('\''); n != 1 && l.err < 0 {
				l.fail(l.pos)
			}
		case r == '`':
			t.K = RRawString
			l.bump()
			for {
				r, _ := l.peek()
				if r == eof {
					l.fail(l.pos)
					break
				}
				l.bump()
				if r == '`' {
					break
				}
			}
		case r == '.' && l.pos+1 < len(src) && isDigit(rune(src[l.pos+1])):
			t.K = RBadDot
			l.bump()
		default:
			t.K = RRune
			l.bump()
		}
		if l.err >= 0 {
			return Lexed{out, l.err}
		}
		t.End = l.pos
		t.Text = src[t.Off:t.End]
		out = append(out, t)
		if t.K == REOF {
			return Lexed{out, -1}
		}
	}
}

// Kind is a language token kind.
type Kind int

const (
	ILLEGAL Kind = iota
	EOF
	TRIGGER
	WHEN
	SET
	REPEAT
	RESET
	INT
	FLOAT
	STRING
	TIME
	DATE
	WEEKDAY
	MONTH
	AT // @
	RANGE
	BOOLEAN
	SELECTOR
	POINT
	LINE
	POLYGON
	MULTILINE
	MULTIPOINT
	MULTIPOLYGON
	COLLECTION
	ASSIGN
	SEMICOLON
	COLON
	LPAREN
	RPAREN
	COMMA
	RBRACK
	LBRACK
	RBRACE
	LBRACE
	PERIOD
	QUO
	MUL
	SUB
	ADD
	REM
	GEQ
	LEQ
	GTR
	LSS
	AND
	OR
	IN
	NOT_IN
	EQL
	LEQL
	NEARBY
	INTERSECTS
	NOT_EQ
	NOT_NEARBY
	LNEQ
	NOT_INTERSECTS
	NKinds
)

var words = map[string]Kind{
	"trigger": TRIGGER, "when": WHEN, "set": SET, "repeat": REPEAT, "reset": RESET,
	"time": TIME, "date": DATE, "weekday": WEEKDAY, "month": MONTH,
	"true": BOOLEAN, "up": BOOLEAN, "false": BOOLEAN, "down": BOOLEAN,
	"point": POINT, "line": LINE, "polygon": POLYGON, "multiline": MULTILINE,
	"multipoint": MULTIPOINT, "multipolygon": MULTIPOLYGON, "collection": COLLECTION,
	"rem": REM, "mod": REM, "and": AND, "or": OR, "in": IN, "eq": EQL,
	"nearby": NEARBY, "intersects": INTERSECTS, "range": RANGE,
}

var notWords = map[string]Kind{
	"eq": NOT_EQ, "in": NOT_IN, "nearby": NOT_NEARBY, "intersects": NOT_INTERSECTS,
}

var marks = map[rune]Kind{
	'@': AT, ';': SEMICOLON, ',': COMMA, '(': LPAREN, ')': RPAREN, '[': LBRACK, ']': RBRACK,
	'{': LBRACE, '}': RBRACE, '/': QUO, '+': ADD, '-': SUB, '*': MUL, ':': COLON,
}

// Pairs of marks that form one token (white space may separate them), and what
// the first mark is on its own.
var pairs = map[rune]struct {
	second rune
	both   Kind
	alone  Kind
	lit    string
}{
	'.': {'.', RANGE, PERIOD, "range"},
	'=': {'=', LEQL, ASSIGN, "=="},
	'!': {'=', LNEQ, ILLEGAL, "!="},
	'>': {'=', GEQ, GTR, ">="},
	'<': {'=', LEQ, LSS, "<="},
}

// Tok is a language token.  Off is the offset of its first byte, End one past
// its last.  Unit is the raw text when the token is a single raw token, which is
// the only way it can be a unit.
type Tok struct {
	K        Kind
	Lit      string // lower-cased text
	Raw      string // text of its first raw token
	Off, End int
	Single   bool // consists of exactly one raw token and needed no look-ahead
}

// tokAt classifies the token that starts at raws[i] and returns how many raw
// tokens it consists of.  raws ends with an EOF token.
func tokAt(raws []Raw, i int) (Tok, int) {
	r := raws[i]
	t := Tok{Lit: strings.ToLower(r.Text), Raw: r.Text, Off: r.Off, End: r.End, Single: true}
	n := 1
	at := func(j int) Raw {
		if j < len(raws) {
			return raws[j]
		}
		return raws[len(raws)-1]
	}
	switch r.K {
	case REOF:
		t.K = EOF
	case RInt:
		t.K = INT
	case RFloat:
		t.K = FLOAT
	case RString:
		t.K = STRING
	case RIdent:
		if t.Lit == "not" {
			nx := at(i + 1)
			n = 2
			t.Single = false
			t.End = nx.End
			t.Lit = strings.ToLower(nx.Text)
			if k, ok := notWords[t.Lit]; ok && nx.K == RIdent {
				t.K = k
				t.Lit = "not " + t.Lit
			}
			break
		}
		k, ok := words[t.Lit]
		if !ok {
			k = SELECTOR
		}
		t.K = k
	case RRune:
		if p, ok := pairs[r.R]; ok {
			nx := at(i + 1)
			t.Single = false
			if nx.K == RRune && nx.R == p.second {
				t.K, t.Lit, t.End, n = p.both, p.lit, nx.End, 2
			} else {
				t.K = p.alone
			}
			break
		}
		t.K = marks[r.R]
	}
	return t, n
}

// Tokens groups raw tokens into language tokens, up to and including EOF.
func Tokens(raws []Raw) []Tok {
	out := make([]Tok, 0, len(raws))
	for i := 0; i < len(raws); {
		t, n := tokAt(raws, i)
		out = append(out, t)
		if t.K == EOF {
			break
		}
		i += n
	}
	if len(out) == 0 || out[len(out)-1].K != EOF {
		end := raws[len(raws)-1]
		out = append(out, Tok{K: EOF, Off: end.Off, End: end.End, Single: true})
	}
	return out
}

// TokAt is tokAt for callers that drive a put-back protocol.
func TokAt(raws []Raw, i int) (Tok, int) { return tokAt(raws, i) }

// Lex scans a source into language tokens.
func Lex(src string) ([]Tok, bool) {
	l := LexRaw(src)
	if l.ErrOff >= 0 {
		return nil, false
	}
	return Tokens(l.Raws), true
}
