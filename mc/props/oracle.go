// Package props holds, for every property, the spaces that are explored and the
// oracle that judges each case.
package props

import (
	"fmt"
	"strconv"
	"strings"

	geo "github.com/mmadfox/go-geoql-parser"

	"verifmc/adapt"
	"verifmc/explore"
	"verifmc/ref"
)

type (
	// Case and Result are short for explore's.
	Case   = explore.Case
	Result = explore.Result
)

func bad(outcome, format string, args ...any) Result {
	return Result{Bad: fmt.Sprintf(format, args...), Outcome: outcome, Calls: 1}
}

// parse calls Parse and checks the shape of its answer: a statement or an
// error, never both and never neither, and the error's context.
func parse(src string) (geo.Statement, error, string) {
	stmt, err := geo.Parse(src)
	return stmt, err, contract(src, stmt, err)
}

func contract(src string, stmt geo.Statement, err error) string {
	switch {
	case err == nil && stmt == nil:
		return "Parse returned neither a statement nor an error"
	case err == nil && adapt.IsNil(stmt):
		return "Parse returned a nil statement without an error"
	case err == nil:
		return ""
	case stmt != nil:
		return fmt.Sprintf("Parse returned an error (%q) together with a statement (%T)", err, stmt)
	}
	e, ok := err.(*geo.Error)
	if !ok {
		return fmt.Sprintf("Parse returned an error of type %T, not *Error", err)
	}
	if e == nil {
		return "Parse returned a nil *Error as error"
	}
	if e.Offset < 0 || e.Offset > len(src) {
		return fmt.Sprintf("error offset %d is outside the text (length %d)", e.Offset, len(src))
	}
	if e.Msg != src[:e.Offset] {
		return fmt.Sprintf("error context %.200q is not the text before offset %d", e.Msg, e.Offset)
	}
	if msg := e.Error(); !strings.Contains(msg, strconv.Itoa(e.Offset)) || !strings.Contains(msg, strings.TrimSpace(e.Msg)) {
		return fmt.Sprintf("the message %.300q lacks the offset %d or the context", msg, e.Offset)
	}
	return ""
}

// clip shortens long texts for messages.
func clip(s string) string {
	if len(s) > 1500 {
		return s[:1000] + fmt.Sprintf("...(%d bytes)...", len(s)-1400) + s[len(s)-400:]
	}
	return s
}

// CheckParse compares Parse with the reference parser.
func CheckParse(c Case) Result { return checkParseText(c.Text) }

func checkParseText(src string) Result {
	res := compareParse(src)
	return res
}

// checkDeep is CheckParse for rules whose nesting may be deeper than is
// supported: those nested more than a thousand levels may be refused.
func checkDeep(c Case) Result {
	if n := strings.Count(c.Text, "(") + strings.Count(c.Text, "[") + strings.Count(c.Text, ":"); n > 1000 {
		if stmt, err := geo.Parse(c.Text); err != nil {
			if why := contract(c.Text, stmt, err); why != "" {
				return bad("broken", "Parse(%q): %s", clip(c.Text), why)
			}
			return Result{Outcome: "refused", Calls: 1, NoModel: true}
		}
	}
	return compareParse(c.Text)
}

func compareParse(src string) (res Result) {
	want, ok, steps := ref.ParseSteps(src)
	defer func() { res.Steps = steps }()
	stmt, err := geo.Parse(src)
	if err == nil && (stmt == nil || adapt.IsNil(stmt)) {
		return bad("broken", "Parse(%q) returned neither an error nor a statement", clip(src))
	}
	if !ok {
		if err == nil {
			return bad("differs", "Parse(%q) succeeded but the text is not a well-formed rule; got %s", clip(src), clip(adapt.Dump(stmt)))
		}
		return Result{Outcome: "rejected", Calls: 1}
	}
	if err != nil {
		return bad("differs", "Parse(%q) failed (%s) but the text is a well-formed rule meaning %s", clip(src), strings.ReplaceAll(clip(err.Error()), "\n", "\\n"), clip(ref.Dump(want)))
	}
	w, g := ref.Dump(want), adapt.Dump(stmt)
	if w != g {
		return bad("differs", "Parse(%q) returned\n  %s\nbut the text means\n  %s", clip(src), clip(g), clip(w))
	}
	return Result{Outcome: "accepted", Calls: 1}
}
