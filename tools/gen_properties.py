#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Conditions group by the documented operator precedence",
 "For every WHEN condition the parsed tree groups operands exactly as the README operator table says: higher precedence binds tighter, operators of equal precedence group to the left, and parentheses override both and stay in the tree. Every documented spelling of an operator, in any letter case, denotes that operator and no other. Token.Precedence orders all tokens by these levels.",
 ["inputs"],"All operator/operand/parenthesis strings, of any length and nesting.",
 "The tests parse a handful of conditions and never look at the shape of the tree; precedence and associativity are relations over all operator sequences.",
 ["parser.go","token.go","keyword.go","ast.go"],
 [("precedence climbing","parser.go parseBinaryExpr/parseParenExpr"),("operator precedences","token.go Precedence"),("operator spellings","keyword.go keywords, token.go Scan")],
 observe=["Parse(text).When"])
p("C02","Parse accepts whole well-formed rules only and drops nothing",
 "Parsing succeeds exactly when the complete text is a well-formed rule: unterminated strings, comments, brackets, braces or parentheses, missing operands, and any leftover text make it fail. When it succeeds, every token of the text other than the optional list and statement separators is represented in the returned statement; nothing is skipped, merged or invented. (A rule nested thousands of levels deep may be refused.)",
 ["inputs"],"All finite token strings over the language's vocabulary.",
 "The tests try about thirty malformed texts; silently ignoring part of a rule is a property of all texts, near-miss texts in particular.",
 ["parser.go","composite.go","datetime.go","geometry.go","primitive.go","token.go"],
 [("statement and expression grammar","parser.go"),("list parsers","composite.go, datetime.go, geometry.go"),("lexical errors","token.go Err, scanner/scanner.go error")],
 observe=["Parse(text) result and error"])
p("C03","Number and quantity literals keep their exact value, sign and unit",
 "An integer, float, percent, speed, distance, pressure, temperature or duration literal yields a value of that type, with exactly the number, the sign and the unit that are written, whatever precedes or follows it. A sign applies to the number it stands in front of and to nothing else; negative percent, speed, distance and duration values, values that do not fit, and malformed durations are errors.",
 ["inputs"],"All numbers x signs x unit spellings x surrounding expressions.",
 "Tests use a dozen literals; the value, sign and unit rules cover an unbounded set of literals in every position (ranges, arrays, arithmetic, variables).",
 ["primitive.go","units.go","parser.go","scanner/scanner.go"],
 [("literal parsing","primitive.go parseIntTypes/parseFloatTypes/parseAllTypes"),("unit tables","units.go"),("sign handling","parser.go parseUnaryExpr")],
 state=[("sign","pending sign of the literal being parsed","parser.go parser.sign")],
 observe=["literal nodes of Parse(text)"])
p("C04","Date, time, weekday and month literals denote what is written",
 "Every date, time, weekday or month literal, as single value, list or range, yields exactly the components and order written, including AM/PM. Literals with a component out of range (year 2022-2200, month 1-12, day 1-31, hour 0-24, minute and second 0-59, unknown day or month names), with a missing or extra component or separator, that mix list and range, or chain ranges, are errors.",
 ["inputs"],"All component values in and out of range, all list lengths, ranges, spellings and letter cases.",
 "Tests use about thirty literals out of millions of dates and times; boundary values and unusual separators are not sampled.",
 ["datetime.go","units.go"],
 [("calendar parsers","datetime.go parseDateExpr/parseTimeExpr/parseWeekdayExpr/parseMonthExpr")],
 observe=["calendar nodes of Parse(text)"])
p("C05","Geometry literals keep exactly the written coordinates and structure",
 "A point, line, polygon, multi-geometry or collection literal yields exactly the coordinates written, in order, grouped into the same lines, rings and members, with the radius or margin (Km, M or m) attached to the point or line it follows. Literals with missing, extra or misnested coordinates or brackets, members of the wrong kind, or no members are errors.",
 ["inputs"],"All bracket/number/comma/sign strings inside geometry literals; any number of positions, rings and members.",
 "Tests use a few literals whose points are mostly equal and never compare coordinates.",
 ["geometry.go","primitive.go"],
 [("geometry parsers","geometry.go parseGeometryExpr/parseGeometryMultiObject/parseGeometryCollectionExpr"),("radius and margin","primitive.go parseDistance")],
 observe=["geometry nodes of Parse(text)"])
p("C06","Selectors keep their name, device ids, wildcard and properties",
 "A selector yields its (lower-cased) name, the set of quoted device ids in its braces, the wildcard flag (set when * is listed or when no id is given) and its properties in written order with their exact values. Quoted text, here and in string literals, keeps every character between its outer quotes.",
 ["inputs"],"All combinations of ids, wildcards, separators and properties, in every position a selector may stand; all string contents.",
 "Tests use five selectors and two plain strings; sets of ids, property lists, escapes and interactions with neighbouring syntax are unbounded.",
 ["composite.go","primitive.go","parser.go"],
 [("selector parsing","composite.go parseSelectorExpr/parseSelectorProps"),("string literals","primitive.go parseStringLit, parser.go trim")],
 observe=["selector and string nodes of Parse(text)"])
p("C07","SET, REPEAT and RESET clauses are recorded exactly",
 "A rule's SET clause yields its assignments in written order under their exact names, rejecting a name assigned twice and values that are variable references or lists of them. REPEAT yields the written count and optional interval and RESET the written delay, each absent from the statement when not written; counts and delays of the wrong type, wrong connecting words and clauses out of order are errors.",
 ["inputs"],"All clause combinations, assignment counts, names and values.",
 "Tests use seven clause combinations and never many variables or near-miss clauses.",
 ["parser.go","ast.go"],
 [("clause parsers","parser.go parseSet/parseRepeat/parseReset"),("variable table","ast.go SetVar")],
 observe=["Trigger fields of Parse(text)"])
p("C08","Parse is total and its errors are usable",
 "For any text whatsoever Parse terminates without panicking or exhausting the stack and returns either a statement or an error, never both and never neither. A syntax error names an offset inside the text, and its context is exactly the text before that offset; its message tells both.",
 ["inputs"],"All byte strings, including invalid UTF-8, NUL bytes, truncations and deep nesting.",
 "Tests parse only well-chosen texts; totality quantifies over all byte strings.",
 ["parser.go","token.go","scanner/scanner.go","primitive.go","composite.go","datetime.go","geometry.go"],
 [("parse loops and recursion","parser.go, composite.go, datetime.go, geometry.go"),("error construction","parser.go error")],
 observe=["return values of Parse, fields of its error"])
p("C09","Layout, comments and letter case do not change a rule's meaning",
 "Two texts that differ only in white space, line breaks, comments between tokens, or the letter case of keywords, operators and selector names parse to the same statement (or both fail). Variable names, quoted strings and unit spellings keep the letter case written.",
 ["inputs"],"All placements of white space and comments between tokens; all letter cases of all words.",
 "Tests contain one or two layouts of each construct.",
 ["token.go","keyword.go","scanner/scanner.go"],
 [("case folding","token.go Scan"),("white space and comments","scanner/scanner.go Scan")],
 observe=["Parse of both texts"])
p("C10","Scanning does not depend on how the reader delivers bytes",
 "Scanning or tokenizing a source gives the same tokens, texts and positions however its reader splits the bytes into reads, including one byte at a time, empty reads, data together with end-of-file, and tokens straddling internal buffer boundaries. A read failure is always reported as an error and never mistaken for a normal end of input, and everything delivered before it is scanned as usual.",
 ["inputs","fault_sequences"],"All splits of the source into reads; a failure at every byte position.",
 "Tests only use strings.NewReader and inputs far below the buffer size.",
 ["scanner/scanner.go","token.go"],
 [("buffer refill","scanner/scanner.go next"),("token text assembly","scanner/scanner.go TokenText")],
 state=[("srcBuf/tokBuf","source window and head of the current token","scanner/scanner.go Scanner")],
 observe=["Scanner.Scan/Next/TokenText/Position/ErrorCount","Tokenizer.Scan/Err"])
p("C11","Tokens partition the source and carry their true positions",
 "For every source the scanner's tokens, in order, are non-overlapping pieces of it separated only by white space and comments, each reported with its exact text, byte offset, line and column; the character-level interface yields the source's characters. The tokenizer maps each word and symbol to one token kind, and putting a token back makes the next scan deliver it again. KeywordString names every operator, and the word it gives for a token is scanned as that token.",
 ["inputs","histories"],"All sources; all sequences of scan, peek, next and put-back calls.",
 "The scanner package has no tests and token tests check kinds for about fifty words only, no text or position.",
 ["scanner/scanner.go","token.go","keyword.go"],
 [("token scanning","scanner/scanner.go Scan/scanNumber/scanString/scanComment"),("position tracking","scanner/scanner.go next/Pos"),("two-symbol tokens and put-back","token.go Scan/Reset/Unwind")],
 observe=["Scanner and Tokenizer API"])
p("C12","Formatting and re-parsing gives back the same rule",
 "For every rule that parses, formatting the statement succeeds and the formatted text parses to a statement equal in everything but positions: same variables, condition tree, literal types and values, and clauses. Formatting that statement again gives the same text.",
 ["inputs"],"All well-formed rules.",
 "One test formats one rule and only checks that the output parses.",
 ["format.go"],
 [("per-node printers","format.go"),("layout decisions","format.go, ast.go needExpand")],
 observe=["Format output","Parse of it"])
p("C13","Formatting is deterministic, bounded and reports write failures",
 "Formatting a statement produces byte-identical text every time, whatever order map entries are iterated in, and its length stays proportional to the rule's length times its nesting depth. If the writer fails at any write, formatting stops there and returns that failure, without panicking and without reporting success.",
 ["inputs","schedules","fault_sequences"],"All rules; all map iteration orders; a failure at every write.",
 "A test sees one random iteration order and a writer that never fails.",
 ["format.go","ast.go"],
 [("write error propagation","format.go checkError/formatTriggerStmt"),("selector argument printing","format.go Selector.format"),("indentation","format.go ParenExpr.format")],
 observe=["bytes and error of Format"],hook="none: map iteration is intercepted in an instrumented build overlay")
p("C14","Type checking accepts exactly the permitted operand types",
 "Type checking a rule succeeds exactly when every operator application in its condition, at any depth, including inside parentheses, range bounds, list elements and selector properties, combines operand types the operator permits. There, variables have the type of the assigned literal or selector, selectors the type declared in the dictionary (as a scalar and as a list of it), integer and float mixing gives float, and comparisons and logical operators give boolean. Undeclared selectors and unknown variables used as operands are rejected, and the verdict does not depend on map iteration order.",
 ["inputs","configurations","schedules"],"All conditions x dictionaries x variable assignments, all iteration orders of the rule tables.",
 "Tests check about 110 single-operator pairs, at depth one and in one random iteration order per run.",
 ["typecheck.go"],
 [("operator rule table","typecheck.go rules"),("bottom-up evaluation","typecheck.go walk/eval/toExpr"),("operand classification","typecheck.go is*")],
 observe=["CheckType result"],hook="none: map iteration is intercepted in an instrumented build overlay")
p("C15","Walking visits every node once, parents first, in source order",
 "Walking a statement or expression calls the visitor once for every node it contains (variables, operands, list elements, geometry members, radii and margins, selector properties, clauses), each parent before its children and siblings in written order, children by the visitor the parent's visit returned. A node whose visit returns no visitor, or false, has none of its descendants visited and the rest of the walk is unaffected; every other visited node is closed by exactly one nil visit after its children, and absent parts cause no visit.",
 ["inputs"],"All statements; all sets of pruned nodes.",
 "Tests only use walking to look for particular nodes.",
 ["walk.go"],
 [("traversal","walk.go Walk/Visit")],
 observe=["sequence of visitor calls"])
p("C16","Calls are independent: no history, no side effects on arguments",
 "The result of parsing, formatting, walking or type checking depends only on its arguments, not on what was parsed, formatted or checked before, including calls that failed. Formatting, walking and type checking leave the statement and the dictionary unchanged, and changing a returned statement does not affect any other result.",
 ["histories"],"All sequences of calls over all statements.",
 "Every test makes one call on fresh data.",
 ["parser.go","format.go","typecheck.go","keyword.go","walk.go"],
 [("per-call parser state","parser.go newParser, token.go NewTokenizer"),("shared tables","keyword.go keywords, typecheck.go rules/op*")],
 state=[("package-level tables","keyword, unit, rule and name tables shared by all calls","keyword.go, units.go, typecheck.go, format.go")],
 observe=["results of call sequences"])
p("C17","Concurrent use is safe and gives the sequential results",
 "Any number of goroutines may parse texts, and format, walk or type check the same parsed statement with the same dictionary, at the same time: every call returns exactly what it returns when run alone, with no data race, panic or deadlock.",
 ["schedules"],"All interleavings of concurrent calls.",
 "No test uses more than one goroutine.",
 ["parser.go","token.go","keyword.go","units.go","format.go","typecheck.go","walk.go","scanner/scanner.go"],
 [("no mutable shared state","all files")],
 state=[("package-level tables","shared by all calls","keyword.go, units.go, typecheck.go, format.go")],
 observe=["results of the concurrent calls"],hook="none: scheduling points are inserted in an instrumented build overlay")
p("C18","Reported positions of nodes match the source text",
 "Every expression, variable assignment and operator of a parsed rule reports as its start the byte offset of its own first character (including a sign), however the text is laid out. Its reported end is not before its own last character and before the start of whatever follows it, so a node's span contains the spans of its parts.",
 ["inputs"],"All rules in all layouts.",
 "Tests check positions of some nodes in compactly written texts only.",
 ["token.go","ast.go","primitive.go","composite.go","datetime.go","geometry.go","parser.go"],
 [("token offset","token.go Offset"),("node positions","lpos/rpos in all parsers, ast.go Pos/End")],
 observe=["Pos()/End(), operator and assignment positions"])
p("C19","Lists and ranges keep their elements and stay homogeneous",
 "A list literal yields exactly the written elements in order and is rejected when empty, nested or mixing element types; a range yields exactly the written lower and upper bound. Neither the number of elements nor what they are changes how any of them is parsed.",
 ["inputs"],"All lists and ranges of all element types, lengths and positions.",
 "Tests use lists of at most five elements and check only their number and type.",
 ["composite.go","parser.go"],
 [("list and range parsing","composite.go parseArrayExpr/parseRangeExpr")],
 observe=["list and range nodes of Parse(text)"])
p("C20","Statements a program builds or changes behave like parsed ones",
 "How a statement is formatted, type checked and walked depends on its exported content alone, not on where it stood in a text or how it came about. A statement that a program assembles from exported fields, or changes after parsing it (assignments added with SetVar, replaced or removed; condition, operands, list elements, device ids, properties, geometry members, rings and clauses replaced, added or removed), is formatted, checked and walked like the parsed statement with the same content, also if it was formatted, checked or walked before the change. SetVar appends an assignment under a new name and rejects a name that is taken, leaving the statement unchanged; names are the same only if they are spelled the same. HasHoles tells whether a polygon has more than one ring.",
 ["inputs","histories"],"All statements and all sequences of changes to their exported fields, with uses in between.",
 "Tests format, check and walk only statements that were just parsed.",
 ["ast.go","format.go","typecheck.go","walk.go"],
 [("SetVar, HasHoles and the exported node types","ast.go"),("formatting of nodes","format.go"),("type checking of nodes","typecheck.go"),("walking","walk.go")],
 observe=["text of Format","verdict of CheckType","visits of Visit","result of SetVar and Trigger.Vars"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
