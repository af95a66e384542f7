package props

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"syscall"

	geo "github.com/mmadfox/go-geoql-parser"

	"verifmc/adapt"
	"verifmc/explore"
	"verifmc/gen"
	"verifmc/mcrt"
	"verifmc/ref"
)

// writeErrs are the errors of failing writers.
var writeErrs = []error{errors.New("the writer failed"), io.ErrShortWrite, io.EOF, io.ErrClosedPipe, os.ErrDeadlineExceeded, &os.PathError{Op: "write", Path: "f", Err: syscall.ENOSPC}, syscall.EPIPE, syscall.EINTR, context.Canceled, io.ErrUnexpectedEOF, ownErr{7}, panicErr(), runtimeErr{}, listErr{"a", "b"}, errors.Join(io.EOF, os.ErrExist), fmt.Errorf("writing: %w", io.ErrShortWrite), &textErr{}}

type ownErr struct{ n int }

func (ownErr) Error() string { return "" }

// panicErr is the error of a recovered panic.
func panicErr() (err error) {
	defer func() { err = recover().(error) }()
	var m map[int]int
	m[0] = 1
	return
}

type runtimeErr struct{}

func (runtimeErr) Error() string { return "not a panic" }
func (runtimeErr) RuntimeError() {}

// listErr cannot be compared.
type listErr []string

func (e listErr) Error() string { return strings.Join(e, ", ") }

type textErr struct{ is bool }

func (e *textErr) Error() string   { return "EOF" }
func (e *textErr) Temporary() bool { return true }
func (e *textErr) Timeout() bool   { return true }

// sameErr tells whether an error is or wraps another, which may be one that
// cannot be compared.
func sameErr(err, want error) bool {
	if l, ok := want.(listErr); ok {
		var got listErr
		return errors.As(err, &got) && &got[0] == &l[0]
	}
	return errors.Is(err, want)
}

// failing is a writer whose k-th write fails.
type failing struct {
	at, short int
	err       error
	n         int
	got       strings.Builder
	last      string // the text of the failing write
	after     int    // writes after it
}

func (w *failing) WriteString(s string) (int, error) {
	k := w.n
	w.n++
	switch {
	case k < w.at:
		w.got.WriteString(s)
		return len(s), nil
	case k > w.at:
		w.after++
		return len(s), nil
	}
	w.last = s
	switch w.short {
	case 1:
		return len(s) / 2, w.err
	case 2:
		return len(s), w.err
	}
	return 0, w.err
}

// richWriter is a failing writer with more methods than it needs.
type richWriter struct{ *failing }

func (w richWriter) Write(b []byte) (int, error) { return w.WriteString(string(b)) }
func (w richWriter) WriteByte(c byte) error {
	_, err := w.WriteString(string([]byte{c}))
	return err
}
func (w richWriter) WriteRune(r rune) (int, error) { return w.WriteString(string(r)) }
func (w richWriter) Flush() error                  { return nil }

type counting struct {
	strings.Builder
	n int
}

func (c *counting) WriteString(s string) (int, error) {
	c.n++
	return c.Builder.WriteString(s)
}

// depth is the nesting depth of a tree.
func depth(n *ref.Node) int {
	if n == nil {
		return 0
	}
	d := 0
	for _, k := range n.Kids {
		if e := depth(k); e > d {
			d = e
		}
	}
	switch n.Tag {
	case ref.TBin, ref.TVars, ref.TAssign, ref.TTrigger, ref.TArgs, ref.TProps:
		return d
	}
	return d + 1
}

// lengthFactor bounds the length of the formatted text by the length of the
// rule times its nesting depth (every case explored stays below 1).
const lengthFactor = 3

type formatOptions struct {
	pairs  int // pairs of map orders
	writes int // all writes fail up to that many, else some
}

func checkFormat(o formatOptions) func(Case) Result {
	return func(c Case) Result {
		src := c.Text
		stmt, err := geo.Parse(src)
		if err != nil {
			return Result{Outcome: "not a rule", Calls: 1, NoModel: true}
		}
		res := Result{Outcome: "formatted", Calls: 2}
		var w counting
		mcrt.With(nil, func() { err = geo.Format(&w, stmt) })
		if err != nil {
			return bad("differs", "Format fails on the statement of %q: %v", clip(src), err)
		}
		full := w.String()
		if again, err := format(stmt); err != nil || again != full {
			return bad("differs", "the statement of %q is formatted as\n%s\nand then as\n%s (error %v)", clip(src), clip(full), clip(again), err)
		}
		// into writers of several kinds, after other text
		var sink strings.Builder
		buf := bytes.NewBufferString("before\t")
		sink.WriteString("before\t")
		buffered := bufio.NewWriterSize(&sink, 16)
		if err := errors.Join(geo.Format(buf, stmt), geo.Format(buffered, stmt), buffered.Flush()); err != nil || buf.String() != "before\t"+full || sink.String() != "before\t"+full {
			return bad("differs", "the statement of %q is formatted after other text in a bytes.Buffer as\n%s\nand in a bufio.Writer as\n%s\ninstead of\n%s (error %v)", clip(src), clip(buf.String()), clip(sink.String()), clip(full), err)
		}
		sink.Reset()
		sink.WriteString("before\n")
		if err := geo.Format(&sink, stmt); err != nil || sink.String() != "before\n"+full {
			return bad("differs", "the statement of %q is formatted after other text in a strings.Builder as\n%s\ninstead of\n%s (error %v)", clip(src), clip(sink.String()), clip(full), err)
		}
		runs, wrong := orders(o.pairs, func(want []int) ([]int, string) {
			var text string
			var err error
			took := mcrt.With(want, func() { text, err = format(stmt) })
			if err != nil || text != full {
				return took, fmt.Sprintf("the statement of %q is formatted as\n%s\ninstead of\n%s (error %v)", clip(src), clip(text), clip(full), err)
			}
			return took, ""
		})
		res.Calls += runs
		if wrong != "" {
			return bad("differs", "%s", wrong)
		}
		// length
		d := depth(adapt.Tree(stmt))
		if max := lengthFactor * (len(src) + 8) * (d + 1); len(full) > max {
			return bad("differs", "the %d bytes of %q, nested %d deep, are formatted as %d bytes:\n%s", len(src), clip(src), d, len(full), clip(full))
		}
		// failing writers
		for k := 0; k < w.n; k++ {
			if w.n > o.writes && k > 12 && k < w.n-12 && k%(w.n/16+1) != 0 {
				continue
			}
			for short := 0; short < 3; short++ {
				if w.n > o.writes && k%3 != short {
					continue
				}
				fw := &failing{at: k, short: short, err: writeErrs[(k*2+short*5)%len(writeErrs)]}
				var err error
				if (k+short)%2 == 0 {
					err = geo.Format(fw, stmt)
				} else {
					err = geo.Format(richWriter{fw}, stmt)
				}
				res.Calls++
				res.Steps += fw.n
				switch {
				case err == nil:
					return bad("differs", "Format of the statement of %q reports success although write %d (of %q) failed", clip(src), k, fw.last)
				case !sameErr(err, fw.err):
					return bad("differs", "Format of the statement of %q returns %q when write %d fails with %q", clip(src), err, k, fw.err)
				case fw.after > 0:
					return bad("differs", "Format of the statement of %q makes %d more writes after write %d failed", clip(src), fw.after, k)
				case !strings.HasPrefix(full, fw.got.String()+fw.last):
					return bad("differs", "Format of the statement of %q wrote\n%s\nbefore write %d failed, which is not how it begins:\n%s", clip(src), clip(fw.got.String()+fw.last), k, clip(full))
				}
			}
		}
		// and the failures leave nothing behind
		if again, err := format(stmt); err != nil || again != full {
			return bad("differs", "after a failed write the statement of %q is formatted as\n%s\ninstead of\n%s (error %v)", clip(src), clip(again), clip(full), err)
		}
		return res
	}
}

// Digest summarises what the library does with a corpus, for comparison
// between processes whose packages were initialised under other map orders.
func Digest() string {
	h := sha256.New()
	d := typeDict()
	add := func(c Case) bool {
		stmt, err := geo.Parse(c.Text)
		if err != nil {
			fmt.Fprintf(h, "%s: no\n", c.Text)
			return true
		}
		text, err := format(stmt)
		fmt.Fprintf(h, "%s: %s %v %v %v\n", c.Text, adapt.Dump(stmt), text, err == nil, geo.CheckType(stmt, d) == nil)
		return true
	}
	gen.Chain(gen.Texts(gen.Seeds()), gen.Wrap(gen.Product(" ", []string{"a", "1"}, gen.OpSpellings, []string{"b", "(c)"}, gen.OpSpellings, []string{"2"}), "when ", ""), gen.In(gen.Texts(gen.Vocab), []string{"when %s", "when 1 %s", "when %s[1]"}))(add)
	for _, units := range [][]string{{"%", "PCT", "Pct"}, {"bar", "psi", "Bar"}, {"rm", "M", "km", "Rkm"}, {"kph", "Mph"}, {"f", "C"}, {"h", "m", "s", "ms", "us", "ns"}} {
		gen.In(gen.Texts(units), []string{"when 1%s", "when [-2.5%s, 1%s]", "when point[1,2]:3%s"})(add)
	}
	for _, names := range []string{"sun mon tue wed thu fri sat", "jan feb mar apr may jun jul aug sep oct nov dec", "sunday monday", "january march"} {
		gen.In(gen.Texts(strings.Fields(names)), []string{"when weekday[%s]", "when month[%s]", "when weekday[%s .. sat]", "when month[jan, %s]"})(add)
	}
	for k := geo.Token(0); k < 120; k++ {
		fmt.Fprintf(h, "%d %q %d\n", k, geo.KeywordString(k), k.Precedence())
	}
	return hex.EncodeToString(h.Sum(nil))
}

// checkInit compares with a process whose maps were iterated in another order
// while its packages were initialised.
func checkInit(c Case) Result {
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "MC_DIGEST=1", "MC_ORDER="+strconv.Itoa(c.Aux[0]))
	out, err := cmd.Output()
	if err != nil {
		return bad("differs", "cannot run with map order %d: %v", c.Aux[0], err)
	}
	if got, want := strings.TrimSpace(string(out)), Digest(); got != want {
		return bad("differs", "with the maps of package initialisation iterated in order %d, parsing, formatting and type checking the corpus gives other results (digest %s, not %s)", c.Aux[0], got, want)
	}
	return Result{Outcome: "same", Calls: 2}
}

func init() {
	register(&Prop{ID: "C13", Level: "model_checking", Instrumented: true, Spaces: func(t Tier) []explore.Space {
		sp := func(name, doc string, o formatOptions, e gen.Enum) explore.Space {
			return explore.Space{Name: name, Doc: fmt.Sprintf("%s; formatted under all iteration orders of each map iteration and %d pairs, with every write failing in every way (of more than %d writes, only the first and last and some between)", doc, o.pairs, o.writes), Enum: e, Check: checkFormat(o)}
		}
		most := formatOptions{pairs: 700, writes: 400}
		some := formatOptions{pairs: 60, writes: t.pick(40, 200)}
		skip := []string{"C01/deep", "C02/top3", "C02/byte-edits", "C04/strings", "C05/strings", "C05/brackets", "C06/byte-edits", "C02/edits", "C02/operand-edits", "C06/lengths", "C05/lengths"}
		if !t.Thorough {
			skip = append(skip, "C01/strings", "C02/viable", "C02/edits2", "C02/when3", "C04/viable", "C05/point-viable", "C05/edits2", "C03/units", "C04/all-times", "C01/spellings", "C01/chains")
		}
		ids := []string{`"x"`, `"y"`, `"zz"`, `""`, `"a b"`, "*"}
		return append([]explore.Space{
			{Name: "init-orders", Doc: "the maps of package initialisation iterated in other orders, in a fresh process, compared on a corpus of rules, operators, units and names", Check: checkInit, Enum: func(y gen.Yield) {
				for k := 0; k < t.pick(24, 240); k++ {
					if !y(Case{Text: "order", Aux: []int{k}}) {
						return
					}
				}
			}},
			sp("seeds", "every rule and every operand in every context", most, gen.Texts(gen.Seeds())),
			sp("ids", "selectors with all strings of up to 4 device ids, also several selectors in one rule", most, gen.Chain(
				gen.In(gen.Strings(ids, 1, t.pick(4, 5), ","), []string{"when a{%s}", "when a{%s}:1,2 in b{%s}"}),
				gen.In(gen.Product("", gen.All(gen.Strings(ids[:4], 1, 2, ",")), []string{"} == c:b{"}, gen.All(gen.Strings(ids[:4], 1, 2, ","))), []string{"when a{%s}", "trigger set a = s{%s}; when b"}))),
			sp("many-ids", "selectors with every number of device ids of a sweep", most, sweep(steps(t.pick(24, 60), t.pick(130, 600)), func(n int) []string {
				l := rep(n, ",", func(i int) string { return fmt.Sprintf(`"id%d"`, i*7919%1000) })
				return []string{"when a{" + l + "}", "when a{*," + l + "}:1", "trigger set v = a{" + l + "}:2; when b"}
			})),
			sp("wide-ids", "selectors with thousands of device ids", some, sweep([][]int{{1030, 4200, 10001}, {1030, 2050, 4097, 4200, 8200, 10001, 20002, 40000, 65537}}[t.pick(0, 1)], func(n int) []string {
				l := rep(n, ",", func(i int) string { return fmt.Sprintf(`"id%d"`, i*7919%100003) })
				return []string{"when a{" + l + "}", "trigger set v = a{*," + l + "}:2; when b"}
			})),
			sp("deep", "every construct nested more than a thousand levels deep, in conditions and assignments", formatOptions{pairs: 0, writes: 10}, sweep([][]int{{1030}, {1030, 2050, 4100}}[t.pick(0, 1)], gen.Deep)),
			sp("operand-pairs", "every pair of operands around an operator", some, gen.Wrap(gen.Product(" ", gen.Operands, []string{"or"}, gen.Operands), "when ", "")),
			sp("element-pairs", "every pair of operands as elements, properties, bounds, neighbouring assignments and collection members", some, pairsOf(gen.Operands, []string{"when [%1, %2]", "when a:%1,%2", "when %1 .. %2", "trigger set a = %1 b = %2; when a", "when collection[%1, %2]"})),
			sp("clauses", "all combinations of clauses", most, gen.Product(" ", []string{"trigger", "trigger set", "trigger set a = 1", "trigger set a = 1; b = [1,2]"}, []string{"when a", "when a:1 == [1,2]", "when point[1,2]:5km"}, []string{"", "repeat", "repeat 3", "repeat 3 every 5s"}, []string{"", "reset after 1h", "reset after 1.5h"})),
			sp("trees", "all trees of operators and parentheses", some, gen.Chain(fillTrees(trees(2, 3), gen.OpSpellings, "when "), fillTrees(trees(3, 3), gen.OpLevels, "when "))),
			sp("nesting", "every construct nested to every depth of a sweep, in conditions and assignments", some, sweep(steps(t.pick(40, 130), t.pick(260, 2000)), func(n int) []string {
				var out []string
				for _, p := range [][3]string{{"(", "a", ")"}, {"(a or ", "b", ")"}, {"(", "a", " and b)"}, {"(1 + ", "2", ")"}, {"a:(", "1", ")"}, {"a:", "1", ""}, {"(", "point[1,2]:5km", ")"}, {"(", `s{"x","y"}`, " == 1)"}, {"(1 .. (", "2", "))"}, {"((a or b) and ", "c", ")"}, {"[a:", "1", "]"}, {"(", "line[[1,2],[3,4],[5,6],[7,8],[9,1]]:5km", ")"}, {"(", "[1,2,3]", " == [1])"}, {"a:(b:", "1", ")"}} {
					text := strings.Repeat(p[0], n) + p[1] + strings.Repeat(p[2], n)
					out = append(out, "when "+text, "trigger set v = "+text+"; when a")
				}
				return out
			})),
			sp("lengths", "every list at every length of a sweep", some, sweep(steps(t.pick(24, 100), t.pick(260, 1100)), func(n int) []string {
				f := func(s string) func(int) string {
					return func(i int) string { return strings.ReplaceAll(s, "#", strconv.Itoa(i)) }
				}
				var out []string
				for _, s := range []string{"[" + rep(n, ",", f("#")) + "]", "[" + rep(n, ",", f("#h")) + "]", "[" + rep(n, ",", f(`"s#"`)) + "]", "a:" + rep(n, ",", f("#km")), "multipoint[" + rep(n, ",", f("point[1,2]:#km")) + "]", "multiline[" + rep(n, ",", f("line[[1,2]]:#km")) + "]", "line[" + rep(n, ",", f("[#,2]")) + "]", "multipolygon[" + rep(n, ",", f("polygon[[[1,2]]]")) + "]", "collection[" + rep(n, ",", f("multipoint[point[#,2]]")) + "]", "polygon[[" + rep(n, ",", f("[#,2]")) + "]]", "polygon[" + rep(n, ",", f("[[#,2]]")) + "]", "[" + rep(n, ",", f("1 .. #")) + "]", "time[" + rep(n, ",", f("9:05")) + "]", "weekday[" + rep(n, ",", f("mon")) + "]", `"` + strings.Repeat("x", n) + `"`, `a{"` + strings.Repeat("x", n) + `"}`, strings.Repeat("x", n), "[" + rep(n, ",", f(`a{"#","x"}`)) + "]"} {
					out = append(out, "when "+s, "trigger set v = "+s+"; when b")
				}
				return append(out, "trigger set "+rep(n, "; ", f("v# = #"))+"; when a", "when "+rep(n, " + ", f("a#")), "when "+rep(n, " + ", f(`a{"#", "x"}`)))
			})),
		}, reuse(t, checkFormat(some), "formatted", skip, "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C19")...)
	}})
}
