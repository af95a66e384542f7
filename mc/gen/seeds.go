package gen

import "strings"

// Vocab is the whole vocabulary of the language, one spelling per token plus
// spellings with a meaning of their own, and some lexical garbage.
var Vocab = []string{
	"trigger", "set", "when", "repeat", "reset", "every", "after",
	"a", "v", "hx",
	"1", "0", "12", "2.5", `"s"`,
	"@", "=", ";", ":", "(", ")", ",", "[", "]", "{", "}",
	".", "..", "range", "/", "*", "-", "+", "rem", "mod", "!",
	"==", "!=", ">=", "<=", ">", "<", "eq", "not", "not eq", "in", "not in",
	"and", "or", "nearby", "not nearby", "intersects", "not intersects",
	"true", "down",
	"point", "line", "polygon", "multipoint", "multiline", "multipolygon", "collection",
	"time", "date", "weekday", "month", "2024", "mon", "jan", "am",
	"%", "km", "m", "M", "c", "h", "kph", "bar",
	"@v", "1km", "5s", "[1]", "(1)", "point[1,2]",
	"'c'", "`r`", "%x", "?", `"`, "/*", "\x00", "\xff", "é",
}

// SmallVocab has one token of each syntactic class.
var SmallVocab = []string{
	"when", "set", "repeat", "reset", "every", "after",
	"a", "1", "2.5", `"s"`, "@", "=", ";", ":", "(", ")", ",", "[", "]", "{", "}",
	"..", ".", "*", "-", "+", "not", "==", "in", "and", "true",
	"point", "multipoint", "collection", "time", "weekday", "mon", "km", "h", "%",
}

// Numbers in various forms.
var Numbers = []string{"0", "1", "7", "10", "007", "2.5", "0.0", "3.", "1000.25", "9007199254740993", "123456789012"}

// Operands has every kind of operand.
var Operands = []string{
	"a", "a_b1", `a{*}`, `a{"x"}`, `a{"x", "y"}`, `a{*, "x"}`, `a{"x",*,"y"}:1`, "a:1", "a:1km,2km", `a{*}:1,2.5`, `a:b:1`,
	"*", "@v", "true", "false", "up", "down",
	"1", "-1", "+1", "2.5", "-2.5", "+2.5", "0", "0.0", `"s"`, `""`, `"a b"`,
	"5%", "2.5PCT", "1bar", "-2.5Psi", "10km", "2.5M", "1Rkm", "20kph", "4.5Mph", "19C", "-30F", "+4.5c",
	"1h", "20s", "7h3m45s", "1.5m", "100ms",
	"1 .. 2", "1.5 .. -2.5", "-5C .. +10C", "1km .. 2km", "1h .. 2h", "a .. b", `"a" .. "b"`, "@v .. @w", "1 range 2",
	"[1]", "[1,2,3]", "[1.5,-2.5]", `["a","b"]`, "[a,b]", "[1km,2M]", "[1h,2s]", "[@v,@w]", "[1 .. 2, 3 .. 4]", "[1:2]",
	"[5%,6%]", "[1C,-2F]", "[1bar,2psi]", "[1kph,2mph]",
	"date[2024-02-29]", "date[2024-01-02 .. 2024-03-04]", "date[2024-01-02, 2024-03-04]",
	"time[9:05]", "time[23:59:58]", "time[9:05AM]", "time[9:05:06pm]", "time[9:05 .. 10:06]", "time[9:05AM, 10:06:07, 11:08PM]", "time[1:02:03 .. 4:05:06PM]",
	"weekday[mon]", "weekday[Sun .. Sat]", "weekday[tue, Wed, THU]", "month[jan]", "month[Feb .. Dec]", "month[mar, Apr]",
	"point[1,2]", "point[-1.5, 2.5]:5km", "point[1,2]:500m", "line[[1,2],[3,4]]", "line[[1,2],[3,4]]:4M",
	"polygon[[[1,2],[3,4],[5,6]]]", "polygon[[[1,2],[3,4]],[[-5,6],[7,-8]]]",
	"multipoint[point[1,2],point[3,4]:1km]", "multiline[line[[1,2],[3,4]],line[[5,6]]:2km]",
	"multipolygon[polygon[[[1,2],[3,4]]],polygon[[[5,6]]]]",
	"collection[point[1,2]:1km,line[[1,2],[3,4]],polygon[[[1,2]]],multipoint[point[1,2]]]",
	"(1)", "(a == 1)", "(1 + 2)", "((a))",
}

// Contexts are the places where an operand may stand.
var Contexts = []string{
	"when %s",
	"when a == %s",
	"when %s == a",
	"when 1 + %s",
	"when -1 + %s * 2",
	"when (%s)",
	"when -5C > %s and b",
	"when a and (%s or b)",
	"trigger set a = %s; when b",
	"trigger set a = %s b = 1 when b",
	"trigger set z = -1; a = %s; when b",
	"when %s repeat 2 every 5s reset after 1h",
	"when a:%s",
	"when a:1,%s == b",
	"when [%s]",
	"when a in [%s, %s]",
	"when 1 .. %s",
	"when %s .. 2",
	"when -1 .. %s in a",
	"when [1, %s, 3]",
}

// Rules are whole rules exercising every construct in combination.
var Rules = []string{
	"when a",
	"when *",
	"when a == 1 and b != 2.5 or not_c > -3",
	"when a + b * c - d / e rem f",
	"when a - b - c",
	"when a or b and c == d + e * f",
	"when (a or b) and (c or d)",
	"when a * (b + c) >= 10",
	"when a in 1 .. 10 and b not in [1, 2, 3]",
	"when c intersects point[1.5,2.5]:5km or c not nearby @v",
	"when a eq true and b not eq false",
	`when s{"id1", "id2", *}:1km,6km,12km in 1kph .. 40kph`,
	`when s{*} == "x y" and t{"z"} != ""`,
	"when t in -30C .. +40C and u > -5C and w < 10F",
	"when p in 1.1Bar .. 20Bar and p < 40Psi",
	"when d in [1h, 20s, 7h3m45s] and e > 5% and f < 10km",
	"when x in weekday[mon .. fri] and y in month[jan, feb] and z in date[2024-01-02]",
	"when x in time[9:01AM .. 12:12PM] or x in time[11:11:11, 12:00]",
	"when g intersects polygon[[[1,2],[3,4],[5,6]],[[7,8],[9,10]]]",
	"when g intersects multipoint[point[1,2]:1km, point[3,4]]",
	"when g nearby multiline[line[[1,2],[3,4]]:5M, line[[5,6],[7,8]]]",
	"when g in collection[point[1,2], line[[1,2],[3,4]], multipolygon[polygon[[[1,2]]]]]",
	"trigger when a",
	"trigger set when a",
	"trigger set a = 1; when @a > 2",
	"trigger set a = 1 b = 2 when @a > @b",
	`trigger set a = [1,2]; b = "x"; C = point[1,2]; when @a == @C repeat 3 every 10s reset after 24h`,
	"trigger set t = time[9:00AM .. 5:00PM]; w = weekday[mon, tue]; when x in @t",
	"trigger set s = sel:1,2; r = 1 .. 2; p = (1 + 2); when s",
	"when a repeat",
	"when a repeat 3",
	"when a repeat 3 every 10s",
	"when a reset after 1h",
	"when a reset after 1.5h",
	"when a repeat reset after 1h",
	"when a repeat 3 every 1h30m reset after 100ms",
	"trigger set temp = +40C; temp2 = -30F temp3 = 0C; when t > @temp",
	"trigger set poly = multipolygon[polygon[[[1,2],[3,4],[5,6],[7,8],[9,10]]], polygon[[[1,2]]]]; when g in @poly",
	"when ((a)) == ((b + 1))",
	"when -1 + 2 - -3 * +4",
	"when a:-1,2 .. 3 == b:c",
}

// Seeds are all rules plus every operand in every context in which it is legal
// there or not (both matter).
func Seeds() []string {
	out := append([]string{}, Rules...)
	for _, o := range Operands {
		for _, c := range Contexts {
			out = append(out, strings.ReplaceAll(c, "%s", o))
		}
	}
	return out
}

// Inner are the places within an operand where another may stand.
var Inner = []string{"(%s)", "[%s]", "[1, %s]", "[%s, a]", "b:%s", "b:1,%s", `b{"x"}:%s`, "%s + 1", "-1 * %s", "%s .. 2", "1 .. %s", "a == (%s)", "a and %s", "%s or a", "collection[%s]", "multipoint[%s]", "point[1,2]:%s", "date[%s]"}

// Nested are the operands in n inner places in each context.
func Nested(n int) []string {
	ops := Operands
	for ; n > 0; n-- {
		var l []string
		for _, o := range ops {
			for _, in := range Inner {
				l = append(l, strings.ReplaceAll(in, "%s", o))
			}
		}
		ops = l
	}
	var out []string
	for _, o := range ops {
		for _, c := range Contexts {
			out = append(out, strings.ReplaceAll(c, "%s", o))
		}
	}
	return out
}

// OpSpellings are all documented operators (and the accepted synonym of rem).
var OpSpellings = []string{
	"or", "and", "<", "<=", ">", ">=", "==", "eq", "!=", "not eq", "in", "not in",
	"intersects", "not intersects", "nearby", "not nearby", "+", "-", "*", "/", "rem", "mod",
}

// OpLevels has one operator of each precedence.
var OpLevels = []string{"or", "and", "==", "+", "*"}

// Garbage bytes for byte-level edits.
var Garbage = []string{
	" ", "\n", "\"", "'", "`", "\\", "/", "*", "(", ")", "[", "]", "{", "}", ",", ".", ":", ";", "@", "=", "!", "<", ">",
	"-", "+", "%", "#", "_", "0", "9", "a", "Z", "\x00", "\xff", "\x80", "\u00e9", "\u4e16", "\U0001F600", "\ufeff", "\r", "\v",
}
