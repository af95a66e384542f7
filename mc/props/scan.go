package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
	"syscall"
	"unicode"
	"unicode/utf8"

	geo "github.com/mmadfox/go-geoql-parser"
	"github.com/mmadfox/go-geoql-parser/scanner"

	"verifmc/explore"
	"verifmc/gen"
	"verifmc/ref"
)

// readErrs are the ways in which a reader fails: no error but io.EOF itself is
// an end of input.
var readErrs = []error{errors.New("the reader failed"), io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrDeadlineExceeded, io.ErrNoProgress, io.ErrShortBuffer, &os.PathError{Op: "read", Path: "f", Err: syscall.EINTR}, syscall.EAGAIN, context.Canceled, errors.New("EOF")}

func (p *plan) err() error { return readErrs[(p.fail+len(p.src)+len(p.sizes))%len(readErrs)] }

// plan is how a reader delivers its bytes.
type plan struct {
	src    string
	zeros  int   // empty reads before every other read
	joined bool  // the end (or failure) comes with the last bytes, not after them
	fail   int   // offset at which reading fails; -1: it does not
	sizes  []int // sizes of the first reads
	chunk  int   // size of the further reads; 0: as much as fits

	pos, idx, z int
	failed      int // how often it has failed
}

func (p *plan) end() int {
	if p.fail >= 0 && p.fail < len(p.src) {
		return p.fail
	}
	return len(p.src)
}

func (p *plan) stop() error {
	if p.fail >= 0 {
		p.failed++
		return p.err()
	}
	return io.EOF
}

// Read delivers the next bytes and uses the rest of the buffer as scratch
// space, as it may.
func (p *plan) Read(b []byte) (int, error) {
	n, err := p.read(b)
	for i := n; i < len(b) && i < n+8; i++ {
		b[i] = "Z\x80\xe9\"\n*/ "[(i+p.pos)&7]
	}
	if i := len(b) - 1; i >= n+8 {
		b[i] = "\x80q\n\xc3"[p.pos&3]
	}
	return n, err
}

// rich is a reader with more methods than it needs.
type rich struct{ *plan }

func (r rich) ReadByte() (byte, error) {
	for {
		var b [1]byte
		if n, err := r.Read(b[:]); n == 1 {
			return b[0], nil // plan repeats the end
		} else if err != nil {
			return 0, err
		}
	}
}

func (r rich) WriteTo(w io.Writer) (n int64, err error) {
	b := make([]byte, 100)
	for {
		k, err := r.Read(b)
		m, werr := w.Write(b[:k])
		n += int64(m)
		switch {
		case werr != nil:
			return n, werr
		case err == io.EOF:
			return n, nil
		case err != nil:
			return n, err
		}
	}
}

func (r rich) Len() int     { return r.end() - r.pos }
func (r rich) Close() error { return io.ErrClosedPipe }

func (p *plan) read(b []byte) (int, error) {
	if p.z < p.zeros {
		p.z++
		return 0, nil
	}
	p.z = 0
	if p.pos >= p.end() {
		return 0, p.stop()
	}
	n := p.chunk
	if p.idx < len(p.sizes) {
		n = p.sizes[p.idx]
		p.idx++
	}
	if n <= 0 || n > len(b) {
		n = len(b)
	}
	if n > p.end()-p.pos {
		n = p.end() - p.pos
	}
	copy(b, p.src[p.pos:p.pos+n])
	p.pos += n
	if p.joined && p.pos >= p.end() {
		return n, p.stop()
	}
	return n, nil
}

// The interfaces through which a source is read.
const (
	apiScan = iota
	apiComments
	apiNext
	apiTokenizer
	apiMixed
	nAPIs
)

type trace struct {
	toks   []string
	errs   []string // errors reported
	before int      // tokens returned before the first error was reported
	endOK  bool     // an end of input was returned
}

func (t *trace) err(msg string) {
	if len(t.errs) == 0 {
		t.before = len(t.toks)
	}
	t.errs = append(t.errs, msg)
}

// observe reads the whole source through an interface.
func observe(api int, r io.Reader, limit int) (t trace) {
	if api == apiTokenizer {
		z := geo.NewTokenizer(r)
		for i := 0; i < limit; i++ {
			k, lit := z.Scan()
			if z.ErrorCount() > len(t.errs) {
				for z.ErrorCount() > len(t.errs) {
					msg := "nil"
					if z.Err() != nil {
						msg = z.Err().Error()
					}
					t.err(msg)
				}
			}
			t.toks = append(t.toks, fmt.Sprint(int(k), " ", strconv.Quote(lit), " ", strconv.Quote(z.TokenText()), " ", z.Offset()))
			if k == geo.EOF {
				t.endOK = true
				break
			}
		}
		return
	}
	var s scanner.Scanner
	s.Init(r)
	if api == apiComments {
		s.Mode &^= scanner.SkipComments
	}
	s.Error = func(_ *scanner.Scanner, msg string) { t.err(msg) }
	for i := 0; i < limit; i++ {
		if api == apiNext || api == apiMixed && i%3 == 1 {
			p := s.Peek()
			c := s.Next()
			t.toks = append(t.toks, fmt.Sprint("next ", c, p, " ", posString(s.Pos())))
			if c == scanner.EOF {
				t.endOK = true
				break
			}
			continue
		}
		k := s.Scan()
		t.toks = append(t.toks, fmt.Sprint(k, " ", strconv.Quote(s.TokenText()), " ", posString(s.Position), " ", posString(s.Pos())))
		if k == scanner.EOF {
			t.endOK = true
			break
		}
	}
	if s.ErrorCount != len(t.errs) {
		t.errs = append(t.errs, fmt.Sprintf("ErrorCount is %d but %d errors were reported", s.ErrorCount, len(t.errs)))
	}
	return
}

func posString(p scanner.Position) string {
	return strconv.Itoa(p.Offset) + ":" + strconv.Itoa(p.Line) + ":" + strconv.Itoa(p.Column)
}

func firstDiff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(nothing)", "(nothing)"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("item %d is %s instead of %s", i, clip(y), clip(x))
		}
	}
	return ""
}

// checkDelivery compares a delivery plan with delivery in one piece.
// Aux: api, zeros, joined, fail, chunk, sizes...
func checkDelivery(c Case) Result {
	p := &plan{src: c.Text, zeros: c.Aux[1], joined: c.Aux[2] == 1, fail: c.Aux[3], chunk: c.Aux[4], sizes: c.Aux[5:]}
	api := c.Aux[0]
	limit := 2*len(c.Text) + 10
	var r io.Reader = p
	if len(p.src)%2 == 1 && p.zeros == 0 {
		r = rich{p}
	}
	got := observe(api, r, limit)
	src := c.Text[:p.end()]
	want := observe(api, strings.NewReader(src), limit)
	res := Result{Outcome: "same", Calls: len(got.toks) + len(want.toks), Steps: len(want.toks)}
	if !got.endOK {
		res.Bad = fmt.Sprintf("%q read by %v never ends", clip(c.Text), c.Aux)
		return res
	}
	if p.fail < 0 {
		if d := firstDiff(want.toks, got.toks); d != "" {
			res.Bad = fmt.Sprintf("%q read by %v: %s", clip(c.Text), c.Aux, d)
		} else if (len(want.errs) == 0) != (len(got.errs) == 0) {
			res.Bad = fmt.Sprintf("%q read by %v: errors %q instead of %q", clip(c.Text), c.Aux, got.errs, want.errs)
		}
		if len(want.errs) > 0 {
			res.Outcome = "same, with lexical errors"
		}
		return res
	}
	res.Outcome = "failure reported"
	if len(got.errs) == 0 {
		res.Bad = fmt.Sprintf("%q, failing at %d (%v): the failure is not reported, the input just ends", clip(c.Text), p.fail, c.Aux)
		return res
	}
	if p.failed == 0 {
		res.Bad = fmt.Sprintf("%q, failing at %d (%v): input ended although the reader had neither ended nor failed", clip(c.Text), p.fail, c.Aux)
		return res
	}
	w, g := want.toks, got.toks
	if len(want.errs) > 0 {
		// only what comes before the first lexical error is determined
		w = w[:want.before]
		if len(g) > len(w) {
			g = g[:len(w)]
		}
		res.Outcome = "failure reported, with lexical errors"
	} else {
		found := false
		for _, e := range got.errs {
			found = found || strings.Contains(e, p.err().Error())
		}
		if !found {
			res.Bad = fmt.Sprintf("%q, failing at %d (%v): the errors reported are %q", clip(c.Text), p.fail, c.Aux, got.errs)
			return res
		}
	}
	if d := firstDiff(w, g); d != "" {
		res.Bad = fmt.Sprintf("%q, failing at %d (%v): of what was delivered before, %s", clip(c.Text), p.fail, c.Aux, d)
	}
	return res
}

// faulty is a reader whose reads fail now and then, and that goes on after.
type faulty struct {
	src   string
	steps []int // size of the read times 3, plus 0: it works, 1: it fails and delivers, 2: it fails first
	made  []string
}

func (f *faulty) Read(b []byte) (int, error) {
	if len(f.steps) == 0 {
		return 0, io.EOF
	}
	n, kind := f.steps[0]/3, f.steps[0]%3
	fail := func() error {
		f.made = append(f.made, fmt.Sprintf("failure number %d", len(f.made)))
		return errors.New(f.made[len(f.made)-1])
	}
	if kind == 2 {
		f.steps[0] = 3 * n
		return 0, fail()
	}
	f.steps = f.steps[1:]
	n = copy(b, f.src[:n])
	f.src = f.src[n:]
	if kind == 1 {
		return n, fail()
	}
	return n, nil
}

// checkFaulty checks that every failure of a reader is reported.  Aux: the
// interface, and the steps of the reader.
func checkFaulty(c Case) Result {
	f := &faulty{src: c.Text, steps: append([]int{}, c.Aux[1:]...)}
	got := observe(c.Aux[0], f, 2*len(c.Text)+10)
	res := Result{Outcome: "no failure", Calls: len(got.toks), Steps: len(got.toks)}
	if len(f.made) > 0 {
		res.Outcome = fmt.Sprintf("%d failures reported", len(f.made))
	}
	if c.Aux[0] == apiTokenizer { // which keeps one of them only
		if len(got.errs) < len(f.made) {
			res.Bad = fmt.Sprintf("%q read by %v: the reader failed %d times, and %d errors are counted", c.Text, c.Aux, len(f.made), len(got.errs))
		}
		return res
	}
	for _, m := range f.made {
		found := false
		for _, e := range got.errs {
			found = found || strings.Contains(e, m)
		}
		if !found {
			res.Bad = fmt.Sprintf("%q read by %v: %s is not reported, the errors are %q", c.Text, c.Aux, m, got.errs)
		}
	}
	return res
}

// scanShort are short sources with every kind of token, in which every byte
// matters.
var scanShort = []string{
	"", "a", "ab", "é", "日本", "\U0001F600x", "a é 1", "1.5km", "12_3.4", "\"é\\n\"", "\"\\u00e9\"", "'日'", "`r\n`", "a//é\nb", "/*é*/a", "a/**/b", "==", "! =x", "not in", "a..b",
	"1. .2", "\ufeffa", "\ufeff", "x\ufeffy", "a\r\nb\n", "\n\né", "\xffa", "a\xe4\xb8", "\xf0\x9f\x98", "\"abc", "'ab'", "`x", "/*x", "a\x00b", "@v=1;", "{*}:%", "\"\\q\"", "\"a\nb", "héllo", ">=1<2", "point", "ÀÉÎ.5", "a /", "a *", "/", "//", "\\",
}

// compositions yields every way to cut n bytes into reads.
func compositions(n int, f func([]int) bool) bool {
	if n > 14 {
		panic("compositions: too long")
	}
	if n == 0 {
		return f(nil)
	}
	for m := 0; m < 1<<(n-1); m++ {
		var l []int
		k := 1
		for i := 0; i < n-1; i++ {
			if m&(1<<i) != 0 {
				l = append(l, k)
				k = 0
			}
			k++
		}
		if !f(append(l, k)) {
			return false
		}
	}
	return true
}

func aux(api, zeros, joined, fail, chunk int, sizes ...int) []int {
	return append([]int{api, zeros, joined, fail, chunk}, sizes...)
}

func apis(y func(api int) bool) bool {
	for a := 0; a < nAPIs; a++ {
		if !y(a) {
			return false
		}
	}
	return true
}

// padded are sources whose interesting part lies at a chosen offset.
func padded(n int) []string {
	r := strings.Repeat
	var out []string
	for _, tok := range []string{"abcdefgh", "1234.5678", "\"s é \\n t\"", "日本語日本語", "not  in", "== !=", "a.. b", "/* é */ x", "// é\nx", "`r\nr`", "\U0001F600\U0001F601", "\xff\xfe", "\xe4\xb8", "\n\n\n"} {
		out = append(out, r(" ", n)+tok+" z\nq", r("\n", n)+tok+" z", r("x", n)+" "+tok+" z")
	}
	out = append(out, r("x", n), r("é", n/2)+"x"+r("é", n/2), "\""+r("é", n/2)+"\" x", r("9", n)+"."+r("9", 30)+" y", "/*"+r("日", n/3)+"*/ x", "`"+r("\n", n)+"` x", r("a ", n/2)+"b")
	return out
}

// hugeOffsets are distances from the start of a source around the limits of
// narrow integers.
func hugeOffsets(t Tier) []int {
	l := []int{32767, 32768, 65530, 65535, 65536, 65537, 131072}
	if t.Thorough {
		l = append(l, 262144, 1<<20-1, 1<<20, 1<<20+1, 1<<24-1, 1<<24, 1<<24+1)
	}
	return l
}

// hugePads are n bytes or so that move what follows in each direction.
func hugePads(n int) []string {
	r := strings.Repeat
	if n > 1<<20+1 {
		return []string{r(" ", n), r("\n", n)}
	}
	return []string{r(" ", n), r("\n", n), r("/*é*/ ", n/6) + r(" ", n%6), r("//é\n", n/5) + r(" ", n%5), "/*" + r("*", n-4) + "*/", "/*" + r("\n", n-4) + "*/", r("\r\n", n/2) + r(" ", n%2)}
}

func init() {
	register(&Prop{ID: "C10", Level: "model_checking", Spaces: func(t Tier) []explore.Space {
		sp := func(name, doc string, e gen.Enum) explore.Space {
			return explore.Space{Name: name, Doc: doc, Enum: e, Check: checkDelivery}
		}
		long := append(append([]string{}, gen.Rules...), "when été == \"\u00e9\\u00e9日本\" // コメント\n and b /* комментарий */ != `x\ny` or 'c' == 日本", "\ufeffwhen a\r\n\r\n== \"x\x00y\" \xff 1.5", "a /* not closed", "a \"not closed", "a 'xy' \"\\z\" b")
		ss := []explore.Space{
			sp("compositions", "every way to cut short sources into reads, the end with or after the last bytes, with empty reads in between; all interfaces", func(y gen.Yield) {
				for _, s := range scanShort {
					ok := compositions(len(s), func(l []int) bool {
						return apis(func(a int) bool {
							for z := 0; z <= t.pick(2, 2); z++ {
								for j := 0; j <= 1; j++ {
									if !y(Case{Text: s, Aux: aux(a, z, j, -1, 0, l...)}) {
										return false
									}
								}
							}
							return true
						})
					})
					if !ok {
						return
					}
				}
			}),
			sp("all-strings", fmt.Sprintf("every source of up to %d characters of the lexical classes, one byte at a time and in every two reads", t.pick(4, 4)), func(y gen.Yield) {
				gen.Strings(scanChars, 0, t.pick(4, 4), "")(func(c Case) bool {
					for _, a := range []int{apiScan, apiTokenizer} {
						if !y(Case{Text: c.Text, Aux: aux(a, 0, 0, -1, 1)}) || !y(Case{Text: c.Text, Aux: aux(a, 1, 1, -1, 1)}) {
							return false
						}
						for k := 1; k < len(c.Text); k++ {
							if !y(Case{Text: c.Text, Aux: aux(a, 0, 1, -1, 0, k)}) {
								return false
							}
						}
					}
					return true
				})
			}),
			sp("empty-reads", "sources read a few bytes at a time with every number of empty reads of a sweep before each", func(y gen.Yield) {
				for _, z := range steps(t.pick(20, 130), t.pick(4100, 70000)) {
					for _, s := range []string{"a \"é\" 1.5km\n/*c*/ not in", "a", "", "日本 x"} {
						for a := 0; a < nAPIs; a++ {
							for _, chunk := range []int{0, 1, 3} {
								if !y(Case{Text: s, Aux: aux(a, z, z%2, -1, chunk)}) {
									return
								}
							}
						}
					}
				}
			}),
			sp("huge", "tokens far from the start of the source, and very long ones, read in chunks of several sizes, also with a failure near the end", func(y gen.Yield) {
				for _, n := range hugeOffsets(t) {
					for _, pad := range append(hugePads(n), strings.Repeat("x", n), strings.Repeat("a\n", min(n, 1<<20)/2), "`"+strings.Repeat("é\n", n/3)+"`") {
						s := pad + " when é == \"日\"\n and 1.5km // c"
						for _, a := range []int{apiScan, apiTokenizer} {
							for _, chunk := range []int{0, 7, 1000, 1023, 4096} {
								if !y(Case{Text: s, Aux: aux(a, 0, chunk%2, -1, chunk)}) || !y(Case{Text: s, Aux: aux(a, 0, chunk%2, len(s)-9, chunk)}) {
									return
								}
							}
						}
					}
				}
			}),
			sp("fail-kinds", "every kind of read error at every byte of short sources, with or after the bytes before it", func(y gen.Yield) {
				for _, s := range append(append([]string{}, scanShort...), "when a == 1.5\nand \"é\"") {
					for f := 0; f <= len(s); f++ {
						for k := range readErrs {
							for j := 0; j <= 1; j++ {
								for a := 0; a < nAPIs; a++ {
									// the number of sizes given decides the error
									if !y(Case{Text: s, Aux: aux(a, 0, j, f, 2, make([]int, k)...)}) {
										return
									}
								}
							}
						}
					}
				}
			}),
			sp("fail-short", "a failure at every byte of short sources, under every way to cut what comes before into reads", func(y gen.Yield) {
				for _, s := range scanShort {
					for k := 0; k <= len(s); k++ {
						ok := compositions(k, func(l []int) bool {
							return apis(func(a int) bool {
								for z := 0; z <= 1; z++ {
									for j := 0; j <= 1; j++ {
										if !y(Case{Text: s, Aux: aux(a, z, j, k, 0, l...)}) {
											return false
										}
									}
								}
								return true
							})
						})
						if !ok {
							return
						}
					}
				}
			}),
			sp("fail-strings", "a failure at every byte of every source of up to 3 characters of the lexical classes", func(y gen.Yield) {
				gen.Strings(scanChars, 0, 3, "")(func(c Case) bool {
					for _, a := range []int{apiScan, apiTokenizer} {
						for k := 0; k <= len(c.Text); k++ {
							if !y(Case{Text: c.Text, Aux: aux(a, 0, 0, k, 0)}) || !y(Case{Text: c.Text, Aux: aux(a, 0, 1, k, 0)}) {
								return false
							}
						}
					}
					return true
				})
			}),
			sp("splits", "every rule in chunks of every size, with every first read, and cut at every two places", func(y gen.Yield) {
				for i, s := range long {
					ok := apis(func(a int) bool {
						for k := 1; k <= len(s); k++ {
							for z := 0; z <= 1; z++ {
								for j := 0; j <= 1; j++ {
									if !y(Case{Text: s, Aux: aux(a, z, j, -1, k)}) || !y(Case{Text: s, Aux: aux(a, z, j, -1, 0, k)}) || !y(Case{Text: s, Aux: aux(a, z, j, -1, 1, k)}) {
										return false
									}
								}
							}
							if i%t.pick(1, 1) != 0 {
								continue
							}
							for m := 1; k+m <= len(s); m++ {
								if !y(Case{Text: s, Aux: aux(a, 0, 0, -1, 0, k, m)}) {
									return false
								}
							}
						}
						return true
					})
					if !ok {
						return
					}
				}
			}),
			sp("fails", "a failure at every byte of every rule, with or after the bytes before it, in whole, in chunks of 1, 2, 3 and 7", func(y gen.Yield) {
				for _, s := range long {
					ok := apis(func(a int) bool {
						for k := 0; k <= len(s); k++ {
							for _, ch := range []int{0, 1, 2, 3, 7} {
								for j := 0; j <= 1; j++ {
									if !y(Case{Text: s, Aux: aux(a, 0, j, k, ch)}) {
										return false
									}
								}
							}
						}
						return true
					})
					if !ok {
						return
					}
				}
			}),
			sp("seeds", "every operand in every context, byte by byte", func(y gen.Yield) {
				for _, s := range gen.Seeds() {
					for a := 0; a < nAPIs; a++ {
						if !y(Case{Text: s, Aux: aux(a, 0, 0, -1, 1)}) || !y(Case{Text: s, Aux: aux(a, 1, 1, -1, 1)}) || !y(Case{Text: s, Aux: aux(a, 0, 0, -1, 2)}) {
							return
						}
					}
				}
			}),
			sp("boundaries", "tokens at every offset around the buffer's size (and twice it), delivered in whole, in chunks around that size and byte by byte", func(y gen.Yield) {
				for _, r := range [][2]int{{1008, 1032}, {t.pick(2020, 2020), 2056}} {
					for n := r[0]; n <= r[1]; n++ {
						for _, s := range padded(n) {
							for _, a := range []int{apiScan, apiComments, apiNext, apiTokenizer} {
								for _, ch := range []int{1, 7, 512, 1023, 1024, 1025} {
									if !y(Case{Text: s, Aux: aux(a, 0, 0, -1, ch)}) {
										return
									}
								}
								if !y(Case{Text: s, Aux: aux(a, 0, 1, -1, 0)}) || !y(Case{Text: s, Aux: aux(a, 0, 0, -1, 0, n)}) || !y(Case{Text: s, Aux: aux(a, 0, 0, n, 0)}) || !y(Case{Text: s, Aux: aux(a, 0, 1, n+1, 0)}) {
									return
								}
							}
						}
					}
				}
			}),
			{Name: "recovering", Doc: "every way to cut short sources into reads of which any fail, before or with their bytes, though the reader goes on: each failure that was seen is reported", Check: checkFaulty, Enum: func(y gen.Yield) {
				for _, s := range scanShort {
					if len(s) > t.pick(6, 7) {
						continue
					}
					if !compositions(len(s), func(l []int) bool {
						steps := make([]int, len(l))
						for {
							for i, k := range steps {
								steps[i] = 3*l[i] + k%3
							}
							if !apis(func(a int) bool { return y(Case{Text: s, Aux: append([]int{a}, steps...)}) }) {
								return false
							}
							i := 0
							for ; i < len(steps) && steps[i]%3 == 2; i++ {
								steps[i] = 0
							}
							if i == len(steps) {
								return true
							}
							steps[i]++
						}
					}) {
						return
					}
				}
			}},
			sp("chunks", "long sources in chunks of every size up to beyond the buffer, with every first read", func(y gen.Yield) {
				var srcs []string
				srcs = append(srcs, strings.Repeat("when été == \"日本 \\u00e9\" /* c é */ ", 80), strings.Repeat("日", 900)+" "+strings.Repeat("x", 1500)+" 1.5")
				for _, s := range srcs {
					for k := 1; k <= t.pick(2200, 3300); k++ {
						for _, a := range []int{apiScan, apiTokenizer} {
							if !y(Case{Text: s, Aux: aux(a, 0, 0, -1, k)}) || !y(Case{Text: s, Aux: aux(a, 0, 0, -1, 0, k)}) {
								return
							}
						}
					}
				}
			}),
		}
		if t.Thorough {
			ss = append(ss, sp("fail-boundaries", "a failure at every byte around the buffer's size", func(y gen.Yield) {
				for _, s := range padded(1020) {
					for k := 1000; k <= len(s); k++ {
						for a := 0; a < nAPIs; a++ {
							for _, ch := range []int{0, 1, 3, 1000, 1023} {
								for j := 0; j <= 1; j++ {
									if !y(Case{Text: s, Aux: aux(a, 0, j, k, ch)}) {
										return
									}
								}
							}
						}
					}
				}
			}))
		}
		return ss
	}})
}

// scanChars has one character of each lexical class (and parts of characters).
var scanChars = []string{"a", "_", "é", "1", "0", ".", "\"", "'", "`", "\\", "/", "*", " ", "\n", "\t", "\r", "\x00", "\xff", "\xe4", "\ufeff", "=", "!", "-", "n", "x", "7", "(", "日", "\v", "\u0662"}

// place maps offsets of a text to lines and columns.
type place struct{ off, line, col int }

func places(src string, ends map[int]place) {
	line, col := 1, 1
	for i := 0; i < len(src); {
		ends[i] = place{i, line, col}
		r, w := utf8.DecodeRuneInString(src[i:])
		i += w
		col++
		if r == '\n' {
			line++
			col = 1
		}
	}
	ends[len(src)] = place{len(src), line, col}
}

func at(m map[int]place, off int) string {
	p := m[off]
	return strconv.Itoa(off) + ":" + strconv.Itoa(p.line) + ":" + strconv.Itoa(p.col)
}

var rawKinds = map[ref.RawKind]rune{ref.REOF: scanner.EOF, ref.RIdent: scanner.Ident, ref.RInt: scanner.Int, ref.RFloat: scanner.Float, ref.RChar: scanner.Char, ref.RString: scanner.String, ref.RRawString: scanner.RawString}

// usedBefore are sources that a scanner was used for before it is initialised
// again.
var usedBefore = []string{"a \"b\" /* c */ 1.5\n  d 'x' `r\nr`", "\"é\nx", "", "\ufeffé\n\n\n x", "/* open", "12e \xff\x00", strings.Repeat("x", 1020) + "\n" + strings.Repeat("é", 30), strings.Repeat(" \n", 700) + "a b"}

// chunked is a reader that gives a few bytes at a time.
type chunked struct {
	src  string
	size int
}

func (r *chunked) Read(b []byte) (int, error) {
	if r.src == "" {
		return 0, io.EOF
	}
	n := copy(b[:min(len(b), r.size)], r.src)
	r.src = r.src[n:]
	return n, nil
}

// checkScanner compares the scanner with the reference lexis.
func checkScanner(c Case) Result {
	src := c.Text
	l := ref.LexRaw(src)
	var m map[int]place
	pos := func(off int) string {
		if m == nil {
			m = make(map[int]place, len(src)+1)
			places(src, m)
		}
		return at(m, off)
	}
	var s scanner.Scanner
	// Aux: what the same scanner was used for before
	if len(c.Aux) > 0 {
		s.Init(&chunked{src: usedBefore[c.Aux[0]], size: c.Aux[3]})
		s.Error = func(*scanner.Scanner, string) {}
		for i := 0; i < c.Aux[1]; i++ {
			s.Scan()
		}
		for i := 0; i < c.Aux[2]; i++ {
			s.Next()
		}
		s.Mode, s.Whitespace = 0, 0
	}
	s.Init(strings.NewReader(src))
	nerr := 0
	if s.Error != nil || s.ErrorCount != 0 || s.Mode != scanner.GoTokens || s.Whitespace != scanner.GoWhitespace || s.Position.IsValid() {
		return Result{Outcome: "differs", Bad: fmt.Sprintf("Init does not put the scanner back: error handler set %v, ErrorCount %d, mode %#x, white space %#x, position %s", s.Error != nil, s.ErrorCount, s.Mode, s.Whitespace, s.Position)}
	}
	s.Error = func(*scanner.Scanner, string) { nerr++ }
	res := Result{Outcome: "tokens", Steps: len(l.Raws)}
	for i, r := range l.Raws {
		k := s.Scan()
		res.Calls++
		text := s.TokenText()
		want := r.R
		if v, ok := rawKinds[r.K]; ok {
			want = v
		}
		if r.K == ref.RBadDot {
			want = k // a token of its own, of no particular kind
		}
		if k != want || text != r.Text || s.Position.Offset != r.Off || src != "" && (s.Position.Line != r.Line || s.Position.Column != r.Col) || s.TokenText() != text {
			res.Bad = fmt.Sprintf("token %d of %q is %s %q at %s, not %s %q at %d:%d:%d", i, clip(src), scanner.TokenString(k), clip(text), posString(s.Position), scanner.TokenString(want), clip(r.Text), r.Off, r.Line, r.Col)
			return res
		}
		// the place after the token is only defined without look-ahead errors
		if l.ErrOff < 0 && posString(s.Pos()) != pos(r.End) {
			res.Bad = fmt.Sprintf("after token %d of %q, Pos is %s, not %s", i, clip(src), posString(s.Pos()), pos(r.End))
			return res
		}
	}
	if l.ErrOff < 0 {
		if nerr != 0 || s.ErrorCount != 0 {
			res.Bad = fmt.Sprintf("scanning %q reports %d errors (ErrorCount %d) but it has none", clip(src), nerr, s.ErrorCount)
		}
		if k := s.Scan(); res.Bad == "" && k != scanner.EOF {
			res.Bad = fmt.Sprintf("after the end of %q, Scan returns %s", clip(src), scanner.TokenString(k))
		}
		return res
	}
	res.Outcome = "lexical error"
	for i := 0; i < len(src)+3; i++ {
		if s.Scan() == scanner.EOF {
			break
		}
	}
	if nerr == 0 || s.ErrorCount != nerr {
		res.Bad = fmt.Sprintf("scanning %q reports %d errors (ErrorCount %d) but it has one at %d", clip(src), nerr, s.ErrorCount, l.ErrOff)
	}
	return res
}

var scanModes = []uint{
	scanner.GoTokens, scanner.GoTokens &^ scanner.SkipComments, scanner.GoTokens &^ scanner.ScanComments &^ scanner.SkipComments, scanner.GoTokens&^scanner.ScanFloats | scanner.ScanInts,
	scanner.GoTokens &^ scanner.ScanStrings, scanner.GoTokens &^ scanner.ScanIdents, scanner.GoTokens &^ scanner.ScanChars &^ scanner.ScanRawStrings, 0, scanner.ScanIdents,
}

// checkPartition: in every mode, the tokens are pieces of the source in order,
// with nothing but white space (and skipped comments) between them.
func checkPartition(c Case) Result {
	src := c.Text
	res := Result{Outcome: "partition"}
	m := map[int]place{}
	places(src, m)
	for _, mode := range scanModes {
		var s scanner.Scanner
		s.Init(strings.NewReader(src))
		s.Mode = mode
		nerr := 0
		s.Error = func(*scanner.Scanner, string) { nerr++ }
		end := 0
		if strings.HasPrefix(src, "\ufeff") {
			end = 3
		}
		for n := 0; ; n++ {
			k := s.Scan()
			res.Calls++
			res.Steps++
			text, off := s.TokenText(), s.Position.Offset
			fail := func(f string, args ...any) Result {
				res.Bad = fmt.Sprintf("mode %#x, token %d (%s) of %q: %s", mode, n, scanner.TokenString(k), clip(src), fmt.Sprintf(f, args...))
				return res
			}
			if off < end || off+len(text) > len(src) || src[off:off+len(text)] != text {
				return fail("text %q is not what the source has at %d (the previous token ends at %d)", clip(text), off, end)
			}
			if src != "" && posString(s.Position) != at(m, off) {
				return fail("position %s instead of %s", posString(s.Position), at(m, off))
			}
			if k != scanner.EOF && text == "" {
				return fail("no text")
			}
			if nerr == 0 {
				gap := src[end:off]
				if mode&scanner.ScanComments != 0 && mode&scanner.SkipComments != 0 {
					if l := ref.LexRaw("a" + gap); len(l.Raws) != 2 && gap != "" {
						return fail("%q before it is skipped", clip(gap))
					}
				} else if strings.Trim(gap, " \t\r\n") != "" {
					return fail("%q before it is skipped", clip(gap))
				}
			}
			end = off + len(text)
			if k == scanner.EOF {
				if end != len(src) {
					return fail("ends at %d before the end of the source", end)
				}
				break
			}
			if n > len(src)+2 {
				return fail("never ends")
			}
		}
	}
	return res
}

// checkPositionText: positions print as file:line:column and are valid once a
// token was scanned, and only then.
func checkPositionText(c Case) Result {
	src := c.Text
	res := Result{Outcome: "positions"}
	m := map[int]place{}
	places(src, m)
	for _, name := range []string{"", "f.rule", "a b:1"} {
		var s scanner.Scanner
		s.Init(strings.NewReader(src))
		s.Error = func(*scanner.Scanner, string) {}
		s.Filename = name
		if s.Position.IsValid() {
			res.Bad = fmt.Sprintf("%q: the position %s is valid before the first Scan", clip(src), s.Position)
			return res
		}
		want := name
		if name == "" {
			want = "<input>"
		}
		if g := s.Position.String(); g != want {
			res.Bad = fmt.Sprintf("%q: position %q before the first Scan instead of %q", clip(src), g, want)
			return res
		}
		for n := 0; n < len(src)+3; n++ {
			k := s.Scan()
			res.Calls++
			res.Steps++
			off := s.Position.Offset
			w := fmt.Sprintf("%s:%d:%d", want, m[off].line, m[off].col)
			if g := s.Position.String(); src != "" && (g != w || !s.Position.IsValid()) {
				res.Bad = fmt.Sprintf("token %d of %q: position %q (valid %v) instead of %q", n, clip(src), g, s.Position.IsValid(), w)
				return res
			}
			if k == scanner.EOF {
				break
			}
		}
	}
	return res
}

// checkHistory runs a sequence of Scan, Next and Peek calls (Aux) and compares
// each with the reference started at the place reached.
func checkHistory(c Case) Result {
	src := c.Text
	res := Result{Outcome: "history"}
	m := map[int]place{}
	places(src, m)
	var s scanner.Scanner
	s.Init(strings.NewReader(src))
	s.Error = func(*scanner.Scanner, string) {}
	p := 0
	if strings.HasPrefix(src, "\ufeff") {
		p = 3
	}
	char := func() (rune, int) {
		if p >= len(src) {
			return scanner.EOF, 0
		}
		return utf8.DecodeRuneInString(src[p:])
	}
	for i, op := range c.Aux {
		res.Calls++
		res.Steps++
		fail := func(f string, args ...any) Result {
			res.Bad = fmt.Sprintf("%q, calls %v (0 Scan, 1 Next, 2 Peek): call %d %s", src, c.Aux, i, fmt.Sprintf(f, args...))
			return res
		}
		switch op {
		case 0:
			pre := ""
			if strings.HasPrefix(src[p:], "\ufeff") {
				pre = " " // only the very first byte order mark is ignored
			}
			l := ref.LexRaw(pre + src[p:])
			if l.ErrOff >= 0 && len(l.Raws) == 0 {
				res.Outcome = "history up to an error"
				return res
			}
			r := l.Raws[0]
			r.Off += p - len(pre)
			r.End += p - len(pre)
			k := s.Scan()
			want := r.R
			if v, ok := rawKinds[r.K]; ok {
				want = v
			}
			if r.K == ref.RBadDot {
				want = k
			}
			if k != want || s.TokenText() != r.Text || src != "" && posString(s.Position) != at(m, r.Off) {
				return fail("(Scan) returned %s %q at %s instead of %s %q at %s", scanner.TokenString(k), s.TokenText(), posString(s.Position), scanner.TokenString(want), r.Text, at(m, r.Off))
			}
			p = r.End
		case 1, 2:
			w, n := char()
			if w == 0 || w == utf8.RuneError && n == 1 {
				res.Outcome = "history up to an error"
				return res
			}
			var g rune
			if op == 1 {
				g = s.Next()
				p += n
			} else {
				g = s.Peek()
			}
			if g != w {
				return fail("returned %q instead of %q", g, w)
			}
		}
		{
			if nx, n := char(); !(nx == 0 || nx == utf8.RuneError && n == 1) && posString(s.Pos()) != at(m, p) {
				return fail("leaves Pos at %s instead of %s", posString(s.Pos()), at(m, p))
			}
		}
	}
	return res
}

var tokKinds = map[ref.Kind]geo.Token{
	ref.ILLEGAL: geo.ILLEGAL, ref.EOF: geo.EOF, ref.TRIGGER: geo.TRIGGER, ref.WHEN: geo.WHEN, ref.SET: geo.SET, ref.REPEAT: geo.REPEAT, ref.RESET: geo.RESET, ref.INT: geo.INT, ref.FLOAT: geo.FLOAT, ref.STRING: geo.STRING,
	ref.TIME: geo.TIME, ref.DATE: geo.DATE, ref.WEEKDAY: geo.WEEKDAY, ref.MONTH: geo.MONTH, ref.AT: geo.IDENT, ref.RANGE: geo.RANGE, ref.BOOLEAN: geo.BOOLEAN, ref.SELECTOR: geo.SELECTOR,
	ref.POINT: geo.GEOMETRY_POINT, ref.LINE: geo.GEOMETRY_LINE, ref.POLYGON: geo.GEOMETRY_POLYGON, ref.MULTILINE: geo.GEOMETRY_MULTILINE, ref.MULTIPOINT: geo.GEOMETRY_MULTIPOINT, ref.MULTIPOLYGON: geo.GEOMETRY_MULTIPOLYGON, ref.COLLECTION: geo.GEOMETRY_COLLECTION,
	ref.ASSIGN: geo.ASSIGN, ref.SEMICOLON: geo.SEMICOLON, ref.COLON: geo.COLON, ref.LPAREN: geo.LPAREN, ref.RPAREN: geo.RPAREN, ref.COMMA: geo.COMMA, ref.RBRACK: geo.RBRACK, ref.LBRACK: geo.LBRACK, ref.RBRACE: geo.RBRACE, ref.LBRACE: geo.LBRACE,
	ref.PERIOD: geo.PERIOD, ref.QUO: geo.QUO, ref.MUL: geo.MUL, ref.SUB: geo.SUB, ref.ADD: geo.ADD, ref.REM: geo.REM, ref.GEQ: geo.GEQ, ref.LEQ: geo.LEQ, ref.GTR: geo.GTR, ref.LSS: geo.LSS, ref.AND: geo.AND, ref.OR: geo.OR, ref.IN: geo.IN, ref.NOT_IN: geo.NOT_IN,
	ref.EQL: geo.EQL, ref.LEQL: geo.LEQL, ref.NEARBY: geo.NEARBY, ref.INTERSECTS: geo.INTERSECTS, ref.NOT_EQ: geo.NOT_EQ, ref.NOT_NEARBY: geo.NOT_NEARBY, ref.LNEQ: geo.LNEQ, ref.NOT_INTERSECTS: geo.NOT_INTERSECTS,
}

// checkWord: the word of a token is scanned as that token, and operators have one.
func checkWord(c Case) Result {
	k := geo.Token(c.Aux[0])
	word := geo.KeywordString(k)
	res := Result{Outcome: "no word", Calls: 1}
	for rk, gk := range tokKinds {
		if gk == k && ref.Prec[rk] > 0 && word == "" {
			return Result{Outcome: "differs", Bad: fmt.Sprintf("operator %d has no word", k)}
		}
	}
	if word == "" {
		return res
	}
	res.Outcome = "word"
	for _, around := range [][2]string{{"", ""}, {"(", ")"}, {"a ", " b"}, {"1\t", "\n2"}} {
		z := geo.NewTokenizer(strings.NewReader(around[0] + word + around[1]))
		if around[0] != "" {
			z.Scan()
		}
		got, _ := z.Scan()
		rest, _ := z.Scan()
		res.Calls += 3
		res.Steps += 3
		if got != k || (rest == geo.EOF) != (around[1] == "") {
			return Result{Outcome: "differs", Bad: fmt.Sprintf("the word of token %d is %q, which is scanned as token %d (followed by %d) in %q", k, word, got, rest, around[0]+word+around[1])}
		}
	}
	return res
}

// checkLevel: operators have higher precedence than other tokens, and are
// ordered like the levels of the README.
func checkLevel(c Case) Result {
	a, b := geo.Token(c.Aux[0]), geo.Token(c.Aux[1])
	level := func(k geo.Token) int {
		for rk, gk := range tokKinds {
			if gk == k {
				return ref.Prec[rk]
			}
		}
		return 0
	}
	sign := func(n int) int {
		switch {
		case n < 0:
			return -1
		case n > 0:
			return 1
		}
		return 0
	}
	want, got := sign(level(a)-level(b)), sign(a.Precedence()-b.Precedence())
	if want != got {
		return Result{Outcome: "differs", Bad: fmt.Sprintf("precedences of tokens %d (%q) and %d (%q) are %d and %d", a, geo.KeywordString(a), b, geo.KeywordString(b), a.Precedence(), b.Precedence())}
	}
	return Result{Outcome: []string{"below", "equal", "above"}[want+1], Calls: 2, Steps: 1}
}

func tokenIDs(n int) gen.Enum {
	return func(y gen.Yield) {
		for i := -3; i < 130; i++ {
			for j := -3; j < 130; j++ {
				if n == 1 && j > -3 {
					break
				}
				if !y(Case{Text: "tokens", Aux: []int{i, j}}) {
					return
				}
			}
		}
	}
}

// checkTokenizer runs Scan (0), Reset (1) and Unwind (2) calls; without a list
// of calls, Scan to the end.
func checkTokenizer(c Case) Result {
	src := c.Text
	l := ref.LexRaw(src)
	res := Result{Outcome: "tokens"}
	raws := l.Raws
	if l.ErrOff >= 0 {
		if len(c.Aux) > 0 {
			return Result{Outcome: "skipped", NoModel: true}
		}
		// tokens that end before the error are determined, unless they need
		// to look at the token with the error
		res.Outcome = "lexical error"
		raws = append(append([]ref.Raw{}, raws...), ref.Raw{K: ref.REOF, Off: len(src), End: len(src)})
	}
	toks := ref.Tokens(raws)
	if l.ErrOff >= 0 {
		toks = toks[:len(toks)-1]
		for len(toks) > 0 && !toks[len(toks)-1].Single {
			toks = toks[:len(toks)-1]
		}
	}
	z := geo.NewTokenizer(strings.NewReader(src))
	check := func(i int, what string, k geo.Token, lit string) bool {
		t := toks[i]
		if k == tokKinds[t.K] && lit == t.Lit && z.TokenText() == t.Raw && int(z.Offset()) == t.Off {
			return true
		}
		res.Bad = fmt.Sprintf("%s: token %d of %q is %s %q (text %q, offset %d) instead of %s %q (text %q, offset %d)", what, i, clip(src), geo.KeywordString(k), clip(lit), clip(z.TokenText()), z.Offset(), geo.KeywordString(tokKinds[t.K]), clip(t.Lit), clip(t.Raw), t.Off)
		return false
	}
	if len(c.Aux) == 0 {
		for i := range toks {
			k, lit := z.Scan()
			res.Calls++
			res.Steps++
			if !check(i, "Scan", k, lit) {
				return res
			}
		}
		for i := 0; l.ErrOff >= 0 && i < len(src)+3; i++ {
			if k, _ := z.Scan(); k == geo.EOF {
				break
			}
		}
		if (l.ErrOff >= 0) != (z.Err() != nil) || (l.ErrOff >= 0) != (z.ErrorCount() > 0) {
			res.Bad = fmt.Sprintf("tokenizing %q ends with error %v (count %d), lexical error at %d", clip(src), z.Err(), z.ErrorCount(), l.ErrOff)
		}
		return res
	}
	i, back := -1, false
	for n, op := range c.Aux {
		res.Calls++
		res.Steps++
		switch op {
		case 0:
			if back && i >= 0 {
				back = false
			} else if i+1 < len(toks) {
				i++
			}
			k, lit := z.Scan()
			if !check(i, fmt.Sprintf("after calls %v (0 Scan, 1 Reset, 2 Unwind)", c.Aux[:n+1]), k, lit) {
				return res
			}
		case 1:
			z.Reset()
			back = true
		case 2:
			z.Unwind()
			back = false
		}
	}
	return res
}

// opStrings enumerates all sequences of n operations 0..k-1 that start with
// operation 0 if first is set.
func opStrings(k, n int, first bool, f func([]int) bool) bool {
	ops := make([]int, n)
	for {
		if !first || n == 0 || ops[0] == 0 {
			if !f(append([]int{}, ops...)) {
				return false
			}
		}
		i := n - 1
		for ; i >= 0; i-- {
			ops[i]++
			if ops[i] < k {
				break
			}
			ops[i] = 0
		}
		if i < 0 {
			return true
		}
	}
}

func init() {
	register(&Prop{ID: "C11", Level: "model_checking", Spaces: func(t Tier) []explore.Space {
		sp := func(name, doc string, check func(Case) Result, e gen.Enum) explore.Space {
			return explore.Space{Name: name, Doc: doc, Enum: e, Check: check}
		}
		words := []string{}
		for _, w := range []string{"trigger", "when", "set", "repeat", "reset", "time", "date", "weekday", "month", "true", "false", "up", "down", "point", "line", "polygon", "multipoint", "multiline", "multipolygon", "collection", "rem", "mod", "and", "or", "in", "eq", "not", "nearby", "intersects", "range",
			"every", "after", "am", "km", "a", "not_in", "notin", "points", "ins", "ore", "int", "float", "string", "array", "selector", "ident", "percent", "speed", "geometry", "eof", "illegal", "duration", "distance", "temperature", "pressure", "boolean", "global", "weekdays", "_", "pointt", "x1"} {
			words = append(words, gen.FewCases(w)...)
		}
		var plain []string
		for _, w := range words {
			plain = append(plain, w)
		}
		oneChar := []string{}
		for r := rune(0); r < 0x3000; r++ {
			oneChar = append(oneChar, string(r))
		}
		for _, r := range []rune{0xfeff, 0xfffd, 0x1F600, 0x10FFFF, 0xE000, 0xD7FF, 0xFFFF} {
			oneChar = append(oneChar, string(r))
		}
		oneChar = append(oneChar, allBytes()...)
		raw := append(append([]string{}, gen.Rules...), scanShort...)
		ss := []explore.Space{
			sp("chars", fmt.Sprintf("all sources of up to %d characters of the lexical classes", t.pick(5, 5)), checkScanner, gen.Strings(scanChars, 0, t.pick(5, 5), "")),
			sp("one-char", "every character (and byte) alone, twice, between others, in a string, in a comment", checkScanner, gen.In(gen.Texts(oneChar), []string{"%s", "%s%s", "a%sb", "1%s2", " %s ", "\"%s\"", "'%s'", "`%s`", "/*%s*/a", "//%s\na", "\"\\%s\"", "%s\n%s", "1.%s"})),
			sp("escapes", "all strings over an escape alphabet between quotes", checkScanner, gen.In(gen.Strings([]string{"\\", "n", "x", "u", "U", "0", "7", "8", "F", "g", "\"", "'", "é", "\n"}, 0, t.pick(5, 6), ""), []string{"\"%s\" a", "'%s' a"})),
			sp("numbers", "all strings of a number alphabet", checkScanner, gen.In(gen.Strings([]string{"0", "1", "9", "_", ".", "e", "x", "-", " ", "a"}, 1, t.pick(6, 7), ""), []string{"%s"})),
			sp("comments", "all strings of a comment alphabet", checkScanner, gen.Strings([]string{"/", "*", "a", "\n", " ", "é", "\""}, 1, t.pick(8, 9), "")),
			sp("partition", fmt.Sprintf("all sources of up to %d characters in nine scanner modes", t.pick(4, 4)), checkPartition, gen.Strings(scanChars, 0, t.pick(4, 4), "")),
			sp("partition-rules", "rules and odd sources, and every truncation of them, in nine scanner modes", checkPartition, func(y gen.Yield) {
				for _, s := range raw {
					for i := 0; i <= len(s); i++ {
						if !y(Case{Text: s[:i]}) {
							return
						}
					}
				}
			}),
			sp("words", "the word of every token, alone and between others", checkWord, tokenIDs(1)),
			sp("position-texts", "positions as text, with and without a file name, in all sources of up to 3 characters and in rules", checkPositionText, gen.Chain(gen.Strings(scanChars, 0, 3, ""), gen.Texts(raw))),
			sp("reused", "a scanner used for another source, up to any point, and then initialised again", checkScanner, func(y gen.Yield) {
				for i, u := range usedBefore {
					for k := 0; k <= 9; k++ {
						for n := 0; n <= t.pick(4, 12); n++ {
							for _, size := range []int{1, 3, 1000, 5000} {
								if size == 1 && len(u) > 100 {
									continue
								}
								for _, s := range append([]string{"\ufeffa\n b", "\n\n", "é", "\"a\" 1"}, scanShort...) {
									if !y(Case{Text: s, Aux: []int{i, k, n, size}}) {
										return
									}
								}
							}
						}
					}
				}
			}),
			sp("byte-edits", "all single-byte edits of rules", checkScanner, gen.ByteEdits(gen.Rules, gen.Garbage)),
			sp("histories", fmt.Sprintf("all sequences of up to %d Scan, Next and Peek calls on short sources", t.pick(8, 9)), checkHistory, func(y gen.Yield) {
				for _, s := range append(append([]string{}, scanShort...), "when a == 1.5\nand \"é\" // c\n or b", "a /* x\ny */ b\n\n  c", "\ufeff \ufeff a") {
					if !opStrings(3, t.pick(8, 9), false, func(ops []int) bool { return y(Case{Text: s, Aux: ops}) }) {
						return
					}
				}
			}),
			sp("tok-words", "every word of the language (and near misses) in its letter cases, alone and in pairs", checkTokenizer, gen.Chain(gen.Texts(plain), gen.Product(" ", []string{"not", "NOT", "Not", "a", "not not"}, plain), gen.Product(" ", plain, []string{"not", "in", "not in"}), gen.Product("", plain, []string{".", "=", "(", "\"s\"", "1"}))),
			sp("tok-marks", fmt.Sprintf("all sources of up to %d marks and symbols, with and without spaces", t.pick(5, 5)), checkTokenizer, gen.Chain(
				gen.Strings([]string{".", "=", "!", "<", ">", "@", ";", ",", "(", ")", "[", "]", "{", "}", "/", "+", "-", "*", ":", "a", "not", "in", "1", "%"}, 0, t.pick(5, 5), ""),
				gen.Strings([]string{".", "=", "!", "<", ">", "not", "in", "eq", "a", "1", "\"s\"", ":"}, 0, t.pick(5, 5), " "))),
			sp("tok-vocab", "all token strings of the whole vocabulary, up to 3 tokens", checkTokenizer, gen.Chain(gen.Strings(gen.Vocab, 0, 3, " "), gen.Strings(gen.Vocab, 2, 2, ""), gen.Strings(gen.Vocab, 2, 2, "\n"))),
			sp("tok-chars", "all sources of up to 3 characters", checkTokenizer, gen.Strings(scanChars, 0, t.pick(4, 4), "")),
			sp("tok-seeds", "every operand in every context", checkTokenizer, gen.Texts(gen.Seeds())),
			sp("tok-histories", fmt.Sprintf("all sequences of up to %d Scan, Reset and Unwind calls", t.pick(9, 10)), checkTokenizer, func(y gen.Yield) {
				srcs := []string{"a == b", "not in a", "= = =", "a = 1 . 2 .. 3", "> >= !", "! = x", "not x not", "<=<", "1.5km", "é\n\"s\"\n7", "a", "", "..", ". .", "@v:not eq", "POINT [ Not IN"}
				for _, s := range srcs {
					if !opStrings(3, t.pick(9, 10), true, func(ops []int) bool { return y(Case{Text: s, Aux: ops}) }) {
						return
					}
				}
			}),
			sp("tok-back", "every pair of words and symbols, each put back once, twice, or not after all", checkTokenizer, func(y gen.Yield) {
				vocab := append(append([]string{}, gen.OpSpellings...), gen.Vocab...)
				for _, a := range vocab {
					for _, b := range append(vocab, "") {
						for _, sep := range []string{" ", "", "/**/"}[:t.pick(2, 3)] {
							for _, ops := range [][]int{{0, 1, 0, 1, 0, 0, 1, 0, 0}, {0, 0, 1, 0, 1, 1, 0, 0, 1, 2, 0, 0}, {0, 1, 2, 1, 0, 0, 0, 1, 0}, {0, 0, 0, 1, 0, 0, 1, 0}} {
								if !y(Case{Text: a + sep + b, Aux: ops}) {
									return
								}
							}
						}
					}
				}
			}),
			sp("offsets", "tokens at every offset around the buffer's size and its multiples", checkScanner, func(y gen.Yield) {
				for _, r := range [][2]int{{1000, 1040}, {2030, 2060}, {3060, 3080}} {
					for n := r[0]; n <= r[1]; n++ {
						for _, s := range padded(n) {
							if !y(Case{Text: s}) {
								return
							}
						}
					}
				}
			}),
			sp("huge", "tokens far from the start of the source, in far lines and columns, and very long ones", checkScanner, func(y gen.Yield) {
				for _, n := range hugeOffsets(t) {
					for _, pad := range append(hugePads(n), strings.Repeat("é", n/2), "\""+strings.Repeat("é", n/2)+"\"", strings.Repeat("a é 1\n", min(n, 1<<20)/8), "`"+strings.Repeat("é\n", n/3)+"`", strings.Repeat("9", n)) {
						if !y(Case{Text: pad + " a é\n \"日\" 1.5km\n// c"}) || !y(Case{Text: pad + pad + "x"}) {
							return
						}
					}
				}
			}),
			sp("tok-huge", "the same through the tokenizer, with tokens put back", checkTokenizer, func(y gen.Yield) {
				for _, n := range hugeOffsets(t) {
					for _, pad := range hugePads(n) {
						for _, h := range [][]int{nil, {0, 1, 0, 2, 0}, {0, 2, 0, 0, 2, 0, 1, 0, 0}} {
							if !y(Case{Text: pad + "not  in == é \"日\" .. 1.5", Aux: h}) {
								return
							}
						}
					}
				}
			}),
			sp("tok-offsets", "the same through the tokenizer", checkTokenizer, func(y gen.Yield) {
				for n := 1000; n <= 1040; n++ {
					for _, s := range padded(n) {
						if !y(Case{Text: s}) {
							return
						}
					}
				}
			}),
		}
		return ss
	}})
	_ = unicode.MaxRune
}
