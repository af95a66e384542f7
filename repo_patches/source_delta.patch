From bb82a92b4df6441d79e123196620cb72c025b366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 01/44] fix: tokenizer reports and puts back the whole last
 token, not its look-ahead

---
 parser.go |  2 +-
 token.go  | 37 ++++++++++++++++++++++++++++---------
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/parser.go b/parser.go
index 892b76a..10874c3 100644
--- a/parser.go
+++ b/parser.go
@@ -131,7 +131,7 @@ func (s *parser) parseSet(stmt *Trigger) error {
 		if !s.except(ASSIGN) {
 			return s.error()
 		}
-		tokPos := s.t.Offset() - 1
+		tokPos := s.t.Offset()
 		expr, err := s.parseUnaryExpr()
 		if err != nil {
 			return err
diff --git a/token.go b/token.go
index 2ae51e6..57baabe 100644
--- a/token.go
+++ b/token.go
@@ -19,6 +19,13 @@ type Tokenizer struct {
 	tok rune
 	lit string
 	err error
+
+	// the token last returned by Scan
+	last    Token
+	lastLit string
+	off     Pos
+	text    string
+	back    bool
 }
 
 func NewTokenizer(r io.Reader) *Tokenizer {
@@ -40,12 +47,14 @@ func (t *Tokenizer) next() (rune, string) {
 	return t.tok, t.lit
 }
 
+// Reset puts the last token back: the next Scan returns it again.
 func (t *Tokenizer) Reset() {
-	t.hop = 1
+	t.back = true
 }
 
+// Unwind takes back Reset.
 func (t *Tokenizer) Unwind() {
-	t.hop = 0
+	t.back = false
 }
 
 func (t *Tokenizer) ErrorCount() int {
@@ -56,16 +65,26 @@ func (t *Tokenizer) Err() error {
 	return t.err
 }
 
+// Offset returns the offset of the token last returned by Scan.
 func (t *Tokenizer) Offset() Pos {
-	return Pos(t.s.Offset)
+	return t.off
 }
 
+// TokenText returns the text of the token last returned by Scan.
 func (t *Tokenizer) TokenText() string {
-	return t.s.TokenText()
+	return t.text
 }
 
 func (t *Tokenizer) Scan() (tok Token, lit string) {
+	if t.back {
+		t.back = false
+		return t.last, t.lastLit
+	}
 	r, s := t.next()
+	t.off, t.text = Pos(t.s.Offset), s
+	defer func() {
+		t.last, t.lastLit = tok, lit
+	}()
 	lit = strings.ToLower(s)
 	switch r {
 	case scanner.EOF:
@@ -84,7 +103,7 @@ func (t *Tokenizer) Scan() (tok Token, lit string) {
 			lit = KeywordString(tok)
 		default:
 			tok = PERIOD
-			t.Reset()
+			t.hop = 1
 		}
 	case '=':
 		nr, _ := t.next()
@@ -94,7 +113,7 @@ func (t *Tokenizer) Scan() (tok Token, lit string) {
 			lit = KeywordString(tok)
 		default:
 			tok = ASSIGN
-			t.Reset()
+			t.hop = 1
 		}
 	case '@':
 		tok = IDENT
@@ -130,7 +149,7 @@ func (t *Tokenizer) Scan() (tok Token, lit string) {
 			lit = KeywordString(tok)
 		default:
 			tok = ILLEGAL
-			t.Reset()
+			t.hop = 1
 		}
 	case '>':
 		nr, _ := t.next()
@@ -140,7 +159,7 @@ func (t *Tokenizer) Scan() (tok Token, lit string) {
 			lit = KeywordString(tok)
 		default:
 			tok = GTR
-			t.Reset()
+			t.hop = 1
 		}
 	case '<':
 		nr, _ := t.next()
@@ -150,7 +169,7 @@ func (t *Tokenizer) Scan() (tok Token, lit string) {
 			lit = KeywordString(tok)
 		default:
 			tok = LSS
-			t.Reset()
+			t.hop = 1
 		}
 	case ':':
 		tok = COLON
-- 
2.43.0


From cb5b0ad2cd91a46adb776b77b9d9672d37a5a319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 02/44] fix: format months with month names

---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index 546d0d4..eda8dca 100644
--- a/format.go
+++ b/format.go
@@ -504,7 +504,7 @@ func (e *MonthTyp) format(w io.StringWriter, _ string, inline bool) {
 	if !inline {
 		checkError(w.WriteString("month["))
 	}
-	checkError(w.WriteString(shortDayNames[e.Val-1]))
+	checkError(w.WriteString(shortMonthNames[e.Val-1]))
 	if !inline {
 		checkError(w.WriteString("]"))
 	}
-- 
2.43.0


From d3514419cfb9d158ff78467a744bb86e384bd21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 03/44] fix: keep spaces around rem and / when formatting

---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index eda8dca..f73b56c 100644
--- a/format.go
+++ b/format.go
@@ -366,7 +366,7 @@ func (e *BinaryExpr) format(w io.StringWriter, padding string, inline bool) {
 	switch e.Op {
 	case AND, OR:
 		nl = true
-	case ADD, SUB, MUL, QUO, REM:
+	case ADD, SUB, MUL:
 		nospace = true
 	}
 	if !nospace {
-- 
2.43.0


From bb18b1cf2fdc87deb3a596cd0249387b8459f0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 04/44] fix: strip only the outer quotes of a string

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 10874c3..66f5099 100644
--- a/parser.go
+++ b/parser.go
@@ -372,7 +372,7 @@ func isGeometryToken(tok Token) (ok bool) {
 }
 
 func trim(lit string) string {
-	lit = strings.TrimLeft(lit, `"`)
-	lit = strings.TrimRight(lit, `"`)
+	lit = strings.TrimPrefix(lit, `"`)
+	lit = strings.TrimSuffix(lit, `"`)
 	return lit
 }
-- 
2.43.0


From d8fa947ccecffa2c064e02b5919658d3335fd1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 05/44] fix: reject leftover text and return no statement with
 an error

---
 parser.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 66f5099..b6d80d0 100644
--- a/parser.go
+++ b/parser.go
@@ -193,7 +193,18 @@ func (s *parser) parse0() (stmt Statement, err error) {
 		if s.except(TRIGGER) {
 			s.next()
 		}
-		return s.parseTriggerStmt()
+		trigger, er := s.parseTriggerStmt()
+		if er != nil {
+			return nil, er
+		}
+		if s.t.Err() != nil {
+			s.err = s.t.Err()
+			return nil, s.error()
+		}
+		if !s.except(EOF) {
+			return nil, s.error()
+		}
+		stmt = trigger
 	default:
 		err = s.error()
 	}
-- 
2.43.0


From 9f6d66bf34672ac7c2cbadcf62a732ee1b6a33e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 06/44] fix: an operator after a number is not a duration unit

---
 primitive.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/primitive.go b/primitive.go
index ba9d923..cb26d38 100644
--- a/primitive.go
+++ b/primitive.go
@@ -125,6 +125,9 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 		if len(s.lit) > 0 {
 			fr = rune(s.lit[0])
 		}
+		if !s.except(SELECTOR) {
+			return
+		}
 		switch fr {
 		case 'h', 'm', 's':
 			if s.isSignMinus() {
-- 
2.43.0


From a7fb6e0e385f4b071f597e674b474a54f24acd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 07/44] fix: a sign belongs to the number it precedes only

---
 parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.go b/parser.go
index b6d80d0..3ab255f 100644
--- a/parser.go
+++ b/parser.go
@@ -252,6 +252,7 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 	}
 
 	s.next()
+	s.resetSign()
 
 	if s.except(SUB, ADD) {
 		switch s.tok {
@@ -261,6 +262,9 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 			s.sign = ADD
 		}
 		s.next()
+		if !s.except(INT, FLOAT) {
+			return nil, s.error()
+		}
 	}
 
 	switch s.tok {
-- 
2.43.0


From 68a30b39ce51b201c8ab553f6938293ab9986e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 08/44] fix: keep the sign of negative pressure values

---
 primitive.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/primitive.go b/primitive.go
index cb26d38..04a898e 100644
--- a/primitive.go
+++ b/primitive.go
@@ -83,6 +83,9 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 		expr = &PercentTyp{Val: v, lpos: s.lpos, rpos: s.rpos}
 		s.next()
 	case isPressureUnit(unit):
+		if s.isSignMinus() {
+			v = -v
+		}
 		u := unitFromString(s.lit)
 		s.rpos += litlen + u.size()
 		expr = &PressureTyp{Val: v, U: u, lpos: s.lpos, rpos: s.rpos}
-- 
2.43.0


From d5694348ddac81f1163d94dc03b976e1d2c86f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:55 +0000
Subject: [PATCH 09/44] fix: require the closing parenthesis

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 3ab255f..33abdb3 100644
--- a/parser.go
+++ b/parser.go
@@ -332,10 +332,13 @@ func (s *parser) isSignPlus() bool {
 
 func (s *parser) parseParenExpr() (expr Expr, err error) {
 	lp := s.t.Offset()
-	expr, err = s.parseBinaryExpr(s.tok.Precedence())
+	expr, err = s.parseBinaryExpr(1)
 	if err != nil {
 		return nil, err
 	}
+	if !s.except(RPAREN) {
+		return nil, s.error()
+	}
 	rp := s.t.Offset()
 	s.next()
 	return &ParenExpr{Expr: expr, lpos: lp, rpos: rp}, nil
-- 
2.43.0


From bd1e4a519216a493dcad5adb526869d256f329e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:56 +0000
Subject: [PATCH 10/44] fix: require the closing brace of a selector

---
 composite.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index c1520c1..c6c3f21 100644
--- a/composite.go
+++ b/composite.go
@@ -126,7 +126,10 @@ func (s *parser) parseSelectorExpr() (expr Expr, err error) {
 		var i int
 		for {
 			s.next()
-			if s.except(EOF, RBRACE) {
+			if s.except(EOF) {
+				return nil, s.error()
+			}
+			if s.except(RBRACE) {
 				break
 			}
 			if s.except(COMMA) {
-- 
2.43.0


From 9d9e0477cbdb452ac5d73606266218df8a496f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:57 +0000
Subject: [PATCH 11/44] fix: require a name after @

---
 primitive.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/primitive.go b/primitive.go
index 04a898e..32dc424 100644
--- a/primitive.go
+++ b/primitive.go
@@ -7,6 +7,9 @@ import (
 
 func (s *parser) parseVarExpr() (expr Expr, err error) {
 	s.next()
+	if !s.except(SELECTOR) {
+		return nil, s.error()
+	}
 	expr = &Ref{ID: s.t.TokenText(), lpos: s.t.Offset()}
 	s.next()
 	return
-- 
2.43.0


From 0998060db5d3db503a635d9980e384cb5b75a042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 12/44] fix: require list separators and reject chained ranges

---
 composite.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/composite.go b/composite.go
index c6c3f21..cdefa18 100644
--- a/composite.go
+++ b/composite.go
@@ -77,6 +77,9 @@ func (s *parser) parseArrayExpr() (expr Expr, err error) {
 		if s.except(RBRACK) {
 			break
 		}
+		if !s.except(COMMA, COLON) {
+			return nil, s.error()
+		}
 	}
 	arrayExpr.rpos = s.t.Offset()
 	s.next()
@@ -93,6 +96,9 @@ func (s *parser) parseRangeExpr(low Expr) (expr Expr, err error) {
 	if err != nil {
 		return
 	}
+	if _, isRangeExpr = high.(*Range); isRangeExpr {
+		return nil, s.error()
+	}
 	return &Range{
 		Low:  low,
 		High: high,
-- 
2.43.0


From 4d5f0c2de925c1c75697c49e1ebd79d843f72e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:59 +0000
Subject: [PATCH 13/44] fix: do not take a wildcard for a multiplication too

---
 parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 33abdb3..4a6027c 100644
--- a/parser.go
+++ b/parser.go
@@ -315,7 +315,9 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 }
 
 func (s *parser) parseWildcardLit() (expr Expr, err error) {
-	return &WildcardTyp{lpos: s.t.Offset()}, nil
+	expr = &WildcardTyp{lpos: s.t.Offset()}
+	s.next()
+	return
 }
 
 func (s *parser) resetSign() {
-- 
2.43.0


From 77eaa22612204515a66d2ef5b178256b2d195b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:36 +0000
Subject: [PATCH 14/44] fix: reject dates and times with missing or misplaced
 components

---
 datetime.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/datetime.go b/datetime.go
index 1e49f50..f8c099b 100644
--- a/datetime.go
+++ b/datetime.go
@@ -39,6 +39,10 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 		var sep int
 		for i := 0; i <= 3; i++ {
 			s.next()
+			if s.except(INT) != (isMonth(i) || isDay(i)) {
+				err = fmt.Errorf("invalid date format: expected date[YYYY-MM-DD]")
+				break
+			}
 			if s.except(SUB) {
 				sep++
 				continue
@@ -159,6 +163,10 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 		var sep int
 		for i := 0; i <= 3; i++ {
 			s.next()
+			if s.except(INT) != (isMinutes(i) || isSeconds(i)) {
+				err = fmt.Errorf("invalid time format: expected time[HH:MM:SS]")
+				break
+			}
 			if s.except(COLON) {
 				sep++
 				continue
-- 
2.43.0


From 8bca074dda2d06dcb5f930e86e7ffa1c105bc0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:37 +0000
Subject: [PATCH 15/44] fix: reject chained calendar ranges and stray tokens
 between calendar values

---
 datetime.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/datetime.go b/datetime.go
index f8c099b..b3a7ae6 100644
--- a/datetime.go
+++ b/datetime.go
@@ -97,14 +97,17 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 				arrayExpr = &ArrayTyp{Kind: DATE, List: make([]Expr, 0)}
 			}
 			arrayExpr.List = append(arrayExpr.List, date)
-		case RANGE, PERIOD:
-			if arrayExpr != nil {
+		case RANGE:
+			if arrayExpr != nil || rangeExpr != nil {
 				return nil, s.error()
 			}
 			if rangeExpr == nil {
 				rangeExpr = &Range{}
 			}
 			rangeExpr.Low = date
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
@@ -236,14 +239,17 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 				arrayExpr = &ArrayTyp{Kind: TIME, List: make([]Expr, 0)}
 			}
 			arrayExpr.List = append(arrayExpr.List, time_)
-		case RANGE, PERIOD:
-			if arrayExpr != nil {
+		case RANGE:
+			if arrayExpr != nil || rangeExpr != nil {
 				return nil, s.error()
 			}
 			if rangeExpr == nil {
 				rangeExpr = &Range{}
 			}
 			rangeExpr.Low = time_
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
@@ -322,14 +328,17 @@ func (s *parser) parseWeekdayExpr() (expr Expr, err error) {
 				arrayExpr = &ArrayTyp{Kind: WEEKDAY, List: make([]Expr, 0)}
 			}
 			arrayExpr.List = append(arrayExpr.List, wd)
-		case RANGE, PERIOD:
-			if arrayExpr != nil {
+		case RANGE:
+			if arrayExpr != nil || rangeExpr != nil {
 				return nil, s.error()
 			}
 			if rangeExpr == nil {
 				rangeExpr = &Range{}
 			}
 			rangeExpr.Low = wd
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
@@ -418,14 +427,17 @@ func (s *parser) parseMonthExpr() (expr Expr, err error) {
 				arrayExpr = &ArrayTyp{Kind: MONTH, List: make([]Expr, 0)}
 			}
 			arrayExpr.List = append(arrayExpr.List, wd)
-		case RANGE, PERIOD:
-			if arrayExpr != nil {
+		case RANGE:
+			if arrayExpr != nil || rangeExpr != nil {
 				return nil, s.error()
 			}
 			if rangeExpr == nil {
 				rangeExpr = &Range{}
 			}
 			rangeExpr.Low = wd
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
-- 
2.43.0


From 9e10585b0e06581984452c3f699a703e5e7beb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:38 +0000
Subject: [PATCH 16/44] fix: require every and after in REPEAT and RESET

---
 parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 4a6027c..ccc0d89 100644
--- a/parser.go
+++ b/parser.go
@@ -96,10 +96,13 @@ func (s *parser) parseRepeat(stmt *Trigger) (err error) {
 		return
 	}
 
-	if !s.except(SELECTOR) {
+	if !s.except(SELECTOR) || s.lit != "every" {
 		return s.error()
 	}
 	s.next()
+	if !s.except(INT) {
+		return s.error()
+	}
 	dur, err := s.parseIntTypes()
 	if err != nil {
 		return err
@@ -163,6 +166,9 @@ func (s *parser) parseSet(stmt *Trigger) error {
 
 func (s *parser) parseReset(stmt *Trigger) (err error) {
 	s.next()
+	if !s.except(SELECTOR) || s.lit != "after" {
+		return s.error()
+	}
 	s.next()
 	var dur Expr
 	switch s.tok {
-- 
2.43.0


From 64ae9a098634401b1db663a60e422c1fb12e9502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:22 +0000
Subject: [PATCH 17/44] fix: reject anything but geometries in multi-geometries
 and collections

---
 geometry.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry.go b/geometry.go
index d3e0733..60a7fe5 100644
--- a/geometry.go
+++ b/geometry.go
@@ -16,7 +16,7 @@ func (s *parser) parseGeometryMultiObject() (expr Expr, err error) {
 	}
 	for {
 		if !isGeometryToken(s.tok) {
-			break
+			return nil, s.error()
 		}
 		object, oer := s.parseGeometryExpr()
 		if oer != nil {
@@ -68,7 +68,7 @@ func (s *parser) parseGeometryCollectionExpr() (expr Expr, err error) {
 	s.next()
 	for {
 		if !isGeometryToken(s.tok) {
-			break
+			return nil, s.error()
 		}
 		var object Expr
 		var oer error
-- 
2.43.0


From 61fccfa1bd3a32560d13f40de9d8f76d2af1244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:23 +0000
Subject: [PATCH 18/44] fix: reject geometries with missing, extra or misnested
 coordinates

---
 geometry.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/geometry.go b/geometry.go
index 60a7fe5..f0a409a 100644
--- a/geometry.go
+++ b/geometry.go
@@ -112,6 +112,13 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 	var cc [][][2]float64
 	open := true
 	q := 1
+	var count, maxPath int
+	switch geomtyp {
+	case GEOMETRY_LINE:
+		maxPath = 1
+	case GEOMETRY_POLYGON:
+		maxPath = 2
+	}
 	for {
 		s.next()
 		if s.except(EOF) {
@@ -124,10 +131,16 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 			path++
 			q++
 			open = true
+			if path > maxPath {
+				return nil, s.error()
+			}
 			continue
 		}
 		if s.except(RBRACK) {
 			if open {
+				if path != maxPath || count != 2 {
+					return nil, s.error()
+				}
 				switch path {
 				case 0:
 					aa = [2]float64{x, y}
@@ -156,6 +169,7 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 				bb = make([][2]float64, 0)
 			}
 			open = false
+			count = 0
 			pi = 0
 			x = 0
 			y = 0
@@ -177,6 +191,11 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 			s.next()
 		}
 
+		if !open || path != maxPath || count != int(pi) {
+			return nil, s.error()
+		}
+		count++
+
 		var val float64
 		switch s.tok {
 		case FLOAT:
@@ -209,6 +228,9 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 		}
 		s.resetSign()
 	}
+	if q > 0 {
+		return nil, s.error()
+	}
 	switch geomtyp {
 	case GEOMETRY_POINT:
 		point := &GeometryPointTyp{Val: aa, lpos: sp, rpos: s.t.Offset() - 1}
-- 
2.43.0


From bd922eede8d0cc396e0eab6694ba75132f127ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 19/44] fix: require a distance after the colon of a point or
 line

---
 primitive.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/primitive.go b/primitive.go
index 32dc424..a60027d 100644
--- a/primitive.go
+++ b/primitive.go
@@ -174,6 +174,8 @@ func (s *parser) parseDistance() (dist *DistanceTyp, err error) {
 		if !ok {
 			return nil, s.error()
 		}
+	default:
+		return nil, s.error()
 	}
 	return
 }
-- 
2.43.0


From d1e37f97417493f08bc5afa3341225b29444f935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 20/44] fix: accept the documented m unit in radius and margin

---
 parser.go    | 2 ++
 primitive.go | 4 +++-
 units.go     | 2 +-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index ccc0d89..a5dc76b 100644
--- a/parser.go
+++ b/parser.go
@@ -25,6 +25,8 @@ type parser struct {
 	sign Token
 	lpos Pos
 	rpos Pos
+
+	meters bool // m after a number means meters, not minutes
 }
 
 func (s *parser) parseTriggerStmt() (stmt *Trigger, err error) {
diff --git a/primitive.go b/primitive.go
index a60027d..de99072 100644
--- a/primitive.go
+++ b/primitive.go
@@ -93,7 +93,7 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 		s.rpos += litlen + u.size()
 		expr = &PressureTyp{Val: v, U: u, lpos: s.lpos, rpos: s.rpos}
 		s.next()
-	case isDistanceUnit(unit):
+	case isDistanceUnit(unit), s.meters && unit == "m":
 		if s.isSignMinus() {
 			s.err = errNegativeValue
 			return nil, s.error()
@@ -154,6 +154,8 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 
 func (s *parser) parseDistance() (dist *DistanceTyp, err error) {
 	s.next()
+	s.meters = true
+	defer func() { s.meters = false }()
 	var ok bool
 	switch s.tok {
 	case INT:
diff --git a/units.go b/units.go
index 4a193b5..40589a9 100644
--- a/units.go
+++ b/units.go
@@ -130,7 +130,7 @@ func unitFromString(in string) (out Unit) {
 		out = Percent
 	case "rkm", "rKM", "Rkm", "km", "Km":
 		out = Kilometer
-	case "rm", "rM", "Rm", "M", "met":
+	case "rm", "rM", "Rm", "m", "M", "met":
 		out = Meter
 	case "kph", "KPH", "Kph":
 		out = Kph
-- 
2.43.0


From 92ee16af93316b447e3d81425798718772d7bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 21/44] fix: limit the nesting of expressions instead of
 overflowing the stack

---
 parser.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index a5dc76b..1707ebf 100644
--- a/parser.go
+++ b/parser.go
@@ -7,7 +7,13 @@ import (
 	"strings"
 )
 
-var errNegativeValue = errors.New("value cannot be negative")
+var (
+	errNegativeValue = errors.New("value cannot be negative")
+	errTooDeep       = errors.New("expression nested too deeply")
+)
+
+// maxDepth limits how deeply expressions may be nested.
+const maxDepth = 10000
 
 func Parse(gql string) (Statement, error) {
 	r := strings.NewReader(gql)
@@ -27,6 +33,7 @@ type parser struct {
 	rpos Pos
 
 	meters bool // m after a number means meters, not minutes
+	depth  int  // nesting of the current expression
 }
 
 func (s *parser) parseTriggerStmt() (stmt *Trigger, err error) {
@@ -254,6 +261,13 @@ func (s *parser) parseBinaryExpr(oprec0 int) (Expr, error) {
 }
 
 func (s *parser) parseUnaryExpr() (expr Expr, err error) {
+	s.depth++
+	defer func() { s.depth-- }()
+	if s.depth > maxDepth {
+		s.err = errTooDeep
+		return nil, s.error()
+	}
+
 	if s.t.Err() != nil {
 		s.err = s.t.Err()
 		return nil, s.error()
-- 
2.43.0


From 970f6cd9827c62585374b2e7cb8c7b6db5082251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:20 +0000
Subject: [PATCH 22/44] fix: indent nested parentheses by one tab, not by
 doubling

---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index f73b56c..be8cf6f 100644
--- a/format.go
+++ b/format.go
@@ -392,7 +392,7 @@ func (e *ParenExpr) format(w io.StringWriter, padding string, inline bool) {
 			expand = false
 		}
 	}
-	pad2 := padding + padding
+	pad2 := padding + "\t"
 	checkError(w.WriteString("("))
 	if expand {
 		checkError(w.WriteString("\n" + pad2))
-- 
2.43.0


From fbe86e6c311adbdad7e555741eb24e1ba32d2808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 23/44] fix: format calendar literals with their keyword and
 brackets everywhere

---
 format.go | 107 +++++++++++++++++++++++++++++-------------------------
 1 file changed, 58 insertions(+), 49 deletions(-)

diff --git a/format.go b/format.go
index be8cf6f..87818b6 100644
--- a/format.go
+++ b/format.go
@@ -206,27 +206,32 @@ func (e *GeometryCollectionTyp) format(w io.StringWriter, padding string, inline
 }
 
 func (e *Range) format(w io.StringWriter, padding string, inline bool) {
-	switch e.Low.(type) {
-	case *TimeTyp:
-		checkError(w.WriteString("time["))
-		inline = true
-	case *MonthTyp:
-		checkError(w.WriteString("month["))
-		inline = true
-	case *DateTyp:
-		checkError(w.WriteString("date["))
-		inline = true
-	case *WeekdayTyp:
-		checkError(w.WriteString("weekday["))
-		inline = true
-	}
-	e.Low.format(w, padding, inline)
+	low, lok := e.Low.(calendarTyp)
+	high, hok := e.High.(calendarTyp)
+	if !lok || !hok || low.keyword() != high.keyword() {
+		e.Low.format(w, padding, inline)
+		checkError(w.WriteString(" .. "))
+		e.High.format(w, padding, inline)
+		return
+	}
+	checkError(w.WriteString(low.keyword() + "["))
+	low.formatBody(w)
 	checkError(w.WriteString(" .. "))
-	e.High.format(w, padding, inline)
-	switch e.Low.(type) {
-	case *TimeTyp, *MonthTyp, *DateTyp, *WeekdayTyp:
-		checkError(w.WriteString("]"))
-	}
+	high.formatBody(w)
+	checkError(w.WriteString("]"))
+}
+
+// calendarTyp is a date, time, weekday or month: its body stands in brackets
+// after its keyword, alone or with the other ends or elements of a range or list.
+type calendarTyp interface {
+	keyword() string
+	formatBody(w io.StringWriter)
+}
+
+func formatCalendar(w io.StringWriter, e calendarTyp) {
+	checkError(w.WriteString(e.keyword() + "["))
+	e.formatBody(w)
+	checkError(w.WriteString("]"))
 }
 
 func (e *PercentTyp) format(w io.StringWriter, _ string, _ bool) {
@@ -350,7 +355,11 @@ func (e *ArrayTyp) format(b io.StringWriter, padding string, inline bool) {
 	checkError(b.WriteString("["))
 
 	for i, expr := range e.List {
-		expr.format(b, padding, inline)
+		if c, ok := expr.(calendarTyp); ok {
+			c.formatBody(b)
+		} else {
+			expr.format(b, padding, inline)
+		}
 		if i+1 < len(e.List) {
 			checkError(b.WriteString(", "))
 		}
@@ -453,24 +462,27 @@ func (e *IntTyp) format(w io.StringWriter, _ string, _ bool) {
 	checkError(w.WriteString(strconv.Itoa(e.Val)))
 }
 
-func (e *DateTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("date["))
-	}
+func (e *DateTyp) format(w io.StringWriter, _ string, _ bool) {
+	formatCalendar(w, e)
+}
+
+func (e *DateTyp) keyword() string { return "date" }
+
+func (e *DateTyp) formatBody(w io.StringWriter) {
 	checkError(w.WriteString(d2s(e.Year)))
 	checkError(w.WriteString("-"))
 	checkError(w.WriteString(d2s(e.Month)))
 	checkError(w.WriteString("-"))
 	checkError(w.WriteString(d2s(e.Day)))
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
 }
 
-func (e *TimeTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("time["))
-	}
+func (e *TimeTyp) format(w io.StringWriter, _ string, _ bool) {
+	formatCalendar(w, e)
+}
+
+func (e *TimeTyp) keyword() string { return "time" }
+
+func (e *TimeTyp) formatBody(w io.StringWriter) {
 	if e.U == AM || e.U == PM {
 		checkError(w.WriteString(strconv.Itoa(e.Hours)))
 	} else {
@@ -485,29 +497,26 @@ func (e *TimeTyp) format(w io.StringWriter, _ string, inline bool) {
 	if e.U == AM || e.U == PM {
 		checkError(w.WriteString(e.U.String()))
 	}
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
 }
 
-func (e *WeekdayTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("weekday["))
-	}
+func (e *WeekdayTyp) format(w io.StringWriter, _ string, _ bool) {
+	formatCalendar(w, e)
+}
+
+func (e *WeekdayTyp) keyword() string { return "weekday" }
+
+func (e *WeekdayTyp) formatBody(w io.StringWriter) {
 	checkError(w.WriteString(shortDayNames[e.Val]))
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
 }
 
-func (e *MonthTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("month["))
-	}
+func (e *MonthTyp) format(w io.StringWriter, _ string, _ bool) {
+	formatCalendar(w, e)
+}
+
+func (e *MonthTyp) keyword() string { return "month" }
+
+func (e *MonthTyp) formatBody(w io.StringWriter) {
 	checkError(w.WriteString(shortMonthNames[e.Val-1]))
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
 }
 
 func d2s(n int) string {
-- 
2.43.0


From 72eee9ca3d4f8f9a049997a28e5f93f156f91d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:53 +0000
Subject: [PATCH 24/44] fix: format floats so that they stay floats

---
 format.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/format.go b/format.go
index 87818b6..3b09357 100644
--- a/format.go
+++ b/format.go
@@ -3,6 +3,7 @@ package geoqlparser
 import (
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 )
 
@@ -75,7 +76,11 @@ func formatTriggerStmt(t *Trigger, w io.StringWriter) (err error) {
 func (t *Trigger) format(_ io.StringWriter, _ string, _ bool) {}
 
 func formatFloat(w io.StringWriter, v float64) {
-	checkError(w.WriteString(strconv.FormatFloat(v, 'f', -1, 64)))
+	s := strconv.FormatFloat(v, 'f', -1, 64)
+	if math.Abs(v) >= 1<<63 {
+		s += ".0" // does not fit an integer
+	}
+	checkError(w.WriteString(s))
 }
 
 func (e *GeometryMultiObjectTyp) format(w io.StringWriter, padding string, inline bool) {
@@ -247,6 +252,9 @@ func (e *StringTyp) format(w io.StringWriter, _ string, _ bool) {
 
 func (e *FloatTyp) format(w io.StringWriter, _ string, _ bool) {
 	formatFloat(w, e.Val)
+	if v := math.Abs(e.Val); v < 1<<63 && v == math.Trunc(v) {
+		checkError(w.WriteString(".0"))
+	}
 }
 
 func (e *DurationTyp) format(b io.StringWriter, _ string, _ bool) {
-- 
2.43.0


From 27cca19513446234bbe7dbc2d115d91c3451856b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 25/44] fix: format durations with fractions of a second as
 duration literals

---
 format.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/format.go b/format.go
index 3b09357..1241039 100644
--- a/format.go
+++ b/format.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"math"
 	"strconv"
+	"time"
 )
 
 const (
@@ -258,7 +259,11 @@ func (e *FloatTyp) format(w io.StringWriter, _ string, _ bool) {
 }
 
 func (e *DurationTyp) format(b io.StringWriter, _ string, _ bool) {
-	checkError(b.WriteString(e.Val.String()))
+	s := e.Val.String()
+	if ns := e.Val % time.Second; ns != 0 {
+		s = fmt.Sprintf("%ds%dns", e.Val/time.Second, ns)
+	}
+	checkError(b.WriteString(s))
 }
 
 func (e *TemperatureTyp) format(w io.StringWriter, _ string, _ bool) {
-- 
2.43.0


From fb9e5a948001f49079fda30f2853307d363a4eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:55 +0000
Subject: [PATCH 26/44] fix: do not let list elements become selector
 properties when formatting

---
 format.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/format.go b/format.go
index 1241039..4fd2c8d 100644
--- a/format.go
+++ b/format.go
@@ -374,12 +374,27 @@ func (e *ArrayTyp) format(b io.StringWriter, padding string, inline bool) {
 			expr.format(b, padding, inline)
 		}
 		if i+1 < len(e.List) {
-			checkError(b.WriteString(", "))
+			if endsWithProps(expr) {
+				checkError(b.WriteString(" : ")) // a comma would continue the properties
+			} else {
+				checkError(b.WriteString(", "))
+			}
 		}
 	}
 	checkError(b.WriteString("]"))
 }
 
+// endsWithProps tells whether the text of e ends with selector properties.
+func endsWithProps(e Expr) bool {
+	switch typ := e.(type) {
+	case *Selector:
+		return len(typ.Props) > 0
+	case *Range:
+		return endsWithProps(typ.High)
+	}
+	return false
+}
+
 func (e *BinaryExpr) format(w io.StringWriter, padding string, inline bool) {
 	e.Left.format(w, padding, inline)
 	var nospace bool
-- 
2.43.0


From 2093c010c3f412d025c89c9efd12da2664fc1c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:56 +0000
Subject: [PATCH 27/44] fix: format selectors independently of map order

---
 ast.go    | 5 -----
 format.go | 6 ++++++
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/ast.go b/ast.go
index ede9e36..112d3bc 100644
--- a/ast.go
+++ b/ast.go
@@ -270,17 +270,12 @@ func (e *Selector) calculateEnd(p Pos) {
 
 func (e *Selector) needExpand() (ok bool) {
 	var n int
-	var i int
 	for k := range e.Args {
 		n += len(k)
 		if n > 64 {
 			ok = true
 			break
 		}
-		if i > 3 {
-			break
-		}
-		i++
 	}
 	return
 }
diff --git a/format.go b/format.go
index 4fd2c8d..5848a9b 100644
--- a/format.go
+++ b/format.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"math"
+	"sort"
 	"strconv"
 	"time"
 )
@@ -311,7 +312,12 @@ func (e *Selector) format(b io.StringWriter, padding string, inline bool) {
 				checkError(b.WriteString(", "))
 			}
 		}
+		keys := make([]string, 0, len(e.Args))
 		for k := range e.Args {
+			keys = append(keys, k)
+		}
+		sort.Strings(keys)
+		for _, k := range keys {
 			if !inline && expand {
 				checkError(b.WriteString("\n" + pad2))
 			}
-- 
2.43.0


From ea1ad7b89ab8b7914783b2d6c8a3d36b25ad0b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 28/44] fix: report write failures when formatting booleans

---
 ast.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast.go b/ast.go
index 112d3bc..02a3e47 100644
--- a/ast.go
+++ b/ast.go
@@ -289,9 +289,9 @@ type BooleanTyp struct {
 func (e *BooleanTyp) format(b io.StringWriter, padding string, inline bool) {
 	switch e.Val {
 	case true:
-		b.WriteString("true")
+		checkError(b.WriteString("true"))
 	case false:
-		b.WriteString("false")
+		checkError(b.WriteString("false"))
 	}
 	return
 }
-- 
2.43.0


From 2a22b612a95250078d3034d0d7bff4ee362a6b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 29/44] fix: walk children with the visitor returned for their
 parent

---
 walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/walk.go b/walk.go
index bfbde08..71ff5fd 100644
--- a/walk.go
+++ b/walk.go
@@ -5,7 +5,7 @@ type Visitor interface {
 }
 
 func Walk(v Visitor, expr Expr) {
-	if v.Visit(expr) == nil {
+	if v = v.Visit(expr); v == nil {
 		return
 	}
 	switch typ := expr.(type) {
-- 
2.43.0


From 5f61287fe8a01f06d0a6e7e26536ebd4979a906d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:33 +0000
Subject: [PATCH 30/44] fix: do not visit absent clauses

---
 walk.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/walk.go b/walk.go
index 71ff5fd..3399c74 100644
--- a/walk.go
+++ b/walk.go
@@ -36,10 +36,11 @@ func Walk(v Visitor, expr Expr) {
 				Walk(v, expr)
 			}
 		}
-		Walk(v, typ.When)
-		Walk(v, typ.RepeatCount)
-		Walk(v, typ.RepeatInterval)
-		Walk(v, typ.ResetAfter)
+		for _, expr := range []Expr{typ.When, typ.RepeatCount, typ.RepeatInterval, typ.ResetAfter} {
+			if expr != nil {
+				Walk(v, expr)
+			}
+		}
 	}
 	v.Visit(nil)
 }
-- 
2.43.0


From db5aef06a9f91f8e156f2256857161b604be15f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:34 +0000
Subject: [PATCH 31/44] fix: walk into geometries

---
 walk.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/walk.go b/walk.go
index 3399c74..e0e672d 100644
--- a/walk.go
+++ b/walk.go
@@ -27,6 +27,22 @@ func Walk(v Visitor, expr Expr) {
 		for i := 0; i < len(typ.List); i++ {
 			Walk(v, typ.List[i])
 		}
+	case *GeometryPointTyp:
+		if typ.Radius != nil {
+			Walk(v, typ.Radius)
+		}
+	case *GeometryLineTyp:
+		if typ.Margin != nil {
+			Walk(v, typ.Margin)
+		}
+	case *GeometryMultiObjectTyp:
+		for i := 0; i < len(typ.Val); i++ {
+			Walk(v, typ.Val[i])
+		}
+	case *GeometryCollectionTyp:
+		for i := 0; i < len(typ.Objects); i++ {
+			Walk(v, typ.Objects[i])
+		}
 	case *Assign:
 		Walk(v, typ.Left)
 		Walk(v, typ.Right)
-- 
2.43.0


From f7c99962ab5e21216ceccd8bf8b49a9271d49be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:35 +0000
Subject: [PATCH 32/44] fix: a polygon is a geometry operand

---
 typecheck.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 128a260..4b76332 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -446,7 +446,7 @@ func (tc *checker) isArray(in Expr, typ Token) (ok bool) {
 func (tc *checker) isGeometry(in Expr) (ok bool) {
 	switch typ := in.(type) {
 	case *GeometryCollectionTyp, *GeometryLineTyp, *GeometryPointTyp,
-		*GeometryMultiObjectTyp:
+		*GeometryMultiObjectTyp, *GeometryPolygonTyp:
 		ok = true
 	case *Ref:
 		assign, err := tc.trigger.findAssign(typ.ID)
@@ -455,7 +455,7 @@ func (tc *checker) isGeometry(in Expr) (ok bool) {
 		}
 		switch assign.Right.(type) {
 		case *GeometryCollectionTyp, *GeometryLineTyp, *GeometryPointTyp,
-			*GeometryMultiObjectTyp:
+			*GeometryMultiObjectTyp, *GeometryPolygonTyp:
 			ok = true
 		}
 	}
-- 
2.43.0


From 79d0429f5fc11c21528a565ec3a8c54e24708e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 33/44] fix: accept selectors declared as lists of integers

---
 typecheck.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typecheck.go b/typecheck.go
index 4b76332..8266239 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -481,6 +481,9 @@ func (tc *checker) isInt(in Expr) (ok bool) {
 		if err != nil {
 			return
 		}
+		if array, isArray := selector.(*ArrayTyp); isArray {
+			selector = array.List[0]
+		}
 		switch selector.(type) {
 		case *IntTyp:
 			ok = true
-- 
2.43.0


From 95d11b427f473220a29d1ce0f935197d1e5019a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 34/44] fix: check both bounds of a range, and ranges held by
 variables

---
 typecheck.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 8266239..c2e8e48 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -387,19 +387,26 @@ func (tc *checker) isString(in Expr) (ok bool) {
 }
 
 func (tc *checker) isRange(in Expr, typ Token) (ok bool) {
+	if ref, isRef := in.(*Ref); isRef {
+		assign, err := tc.trigger.findAssign(ref.ID)
+		if err != nil {
+			return
+		}
+		in = assign.Right
+	}
 	range_, ok := in.(*Range)
 	if !ok {
 		return
 	}
 	switch typ {
 	case INT:
-		return tc.isInt(range_.Low)
+		return tc.isInt(range_.Low) && tc.isNumber(range_.High)
 	case FLOAT:
-		return tc.isFloat(range_.Low)
+		return tc.isFloat(range_.Low) && tc.isNumber(range_.High)
 	case STRING:
-		return tc.isString(range_.Low)
+		return tc.isString(range_.Low) && tc.isString(range_.High)
 	}
-	return
+	return false
 }
 
 func (tc *checker) isArray(in Expr, typ Token) (ok bool) {
-- 
2.43.0


From de084d2849626c4bde42d531d7074fdc3d2ac1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 35/44] fix: check the types of all elements of a list

---
 typecheck.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index c2e8e48..fa54007 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -410,17 +410,17 @@ func (tc *checker) isRange(in Expr, typ Token) (ok bool) {
 }
 
 func (tc *checker) isArray(in Expr, typ Token) (ok bool) {
-	var item Expr
+	var items []Expr
 	switch t := in.(type) {
 	default:
 		return
 	case *Selector:
-		item = t
+		items = []Expr{t}
 	case *ArrayTyp:
 		if len(t.List) == 0 {
 			return
 		}
-		item = t.List[0]
+		items = t.List
 	case *Ref:
 		assign, err := tc.trigger.findAssign(t.ID)
 		if err != nil {
@@ -433,19 +433,24 @@ func (tc *checker) isArray(in Expr, typ Token) (ok bool) {
 			if len(tt.List) == 0 {
 				return
 			}
-			item = tt.List[0]
+			items = tt.List
 		}
 	}
 
-	switch typ {
-	case BOOLEAN:
-		return tc.isBoolean(item)
-	case INT:
-		return tc.isInt(item)
-	case FLOAT:
-		return tc.isFloat(item)
-	case STRING:
-		return tc.isString(item)
+	for _, item := range items {
+		switch typ {
+		case BOOLEAN:
+			ok = tc.isBoolean(item)
+		case INT:
+			ok = tc.isInt(item)
+		case FLOAT:
+			ok = tc.isFloat(item)
+		case STRING:
+			ok = tc.isString(item)
+		}
+		if !ok {
+			return
+		}
 	}
 	return
 }
-- 
2.43.0


From fa8af50c2f6006b28d71bd86ecf96d3489a3e0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:39 +0000
Subject: [PATCH 36/44] fix: variables holding selectors have the declared type

---
 typecheck.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/typecheck.go b/typecheck.go
index fa54007..a04ab1e 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -340,6 +340,8 @@ func (tc *checker) isBoolean(expr Expr) (ok bool) {
 		switch assign.Right.(type) {
 		case *BooleanTyp:
 			ok = true
+		case *Selector:
+			ok = tc.isBoolean(assign.Right)
 		}
 
 	case *Selector:
@@ -367,6 +369,8 @@ func (tc *checker) isString(in Expr) (ok bool) {
 		switch assign.Right.(type) {
 		case *StringTyp:
 			ok = true
+		case *Selector:
+			ok = tc.isString(assign.Right)
 		}
 
 	case *Selector:
@@ -429,6 +433,8 @@ func (tc *checker) isArray(in Expr, typ Token) (ok bool) {
 		switch tt := assign.Right.(type) {
 		default:
 			return
+		case *Selector:
+			items = []Expr{tt}
 		case *ArrayTyp:
 			if len(tt.List) == 0 {
 				return
@@ -486,6 +492,8 @@ func (tc *checker) isInt(in Expr) (ok bool) {
 		switch assign.Right.(type) {
 		case *IntTyp:
 			ok = true
+		case *Selector:
+			ok = tc.isInt(assign.Right)
 		}
 
 	case *Selector:
@@ -521,6 +529,8 @@ func (tc *checker) isFloat(in Expr) (ok bool) {
 		switch assign.Right.(type) {
 		case *FloatTyp, *PercentTyp, *PressureTyp, *DistanceTyp, *SpeedTyp, *TemperatureTyp:
 			ok = true
+		case *Selector:
+			ok = tc.isFloat(assign.Right)
 		}
 
 	case *Selector:
-- 
2.43.0


From 3c2963c0d98058c9aff80271be7a545f2630a41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:30 +0000
Subject: [PATCH 37/44] fix: check the types of operators inside bounds,
 properties and lists

---
 typecheck.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/typecheck.go b/typecheck.go
index a04ab1e..ce682f6 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -260,10 +260,33 @@ func (tc *checker) walk(expr Expr) (Expr, error) {
 			return nil, err
 		}
 		return tc.eval(left, right, typ.Op)
+	case *Range:
+		low, err := tc.walk(typ.Low)
+		if err != nil {
+			return nil, err
+		}
+		high, err := tc.walk(typ.High)
+		if err != nil {
+			return nil, err
+		}
+		return &Range{Low: low, High: high, lpos: typ.lpos, rpos: typ.rpos}, nil
+	case *ArrayTyp:
+		return expr, tc.walkAll(typ.List)
+	case *Selector:
+		return expr, tc.walkAll(typ.Props)
 	}
 	return expr, nil
 }
 
+func (tc *checker) walkAll(list []Expr) error {
+	for i := 0; i < len(list); i++ {
+		if _, err := tc.walk(list[i]); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (tc *checker) is(rt ruleTyp, in Expr) (ok bool) {
 	switch rt {
 	case isGeometry:
-- 
2.43.0


From 7cffb03ea5604d1c2b1a19bbaa5cdb7ac8fada88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:15 +0000
Subject: [PATCH 38/44] fix: End of operators, parentheses and wildcards is
 their last character

---
 ast.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ast.go b/ast.go
index 02a3e47..47ddf1e 100644
--- a/ast.go
+++ b/ast.go
@@ -327,13 +327,13 @@ func (e *WeekdayTyp) isExpr()             {}
 func (e *MonthTyp) isExpr()               {}
 
 func (e *BinaryExpr) Pos() Pos             { return e.Left.Pos() }
-func (e *BinaryExpr) End() Pos             { return e.Right.Pos() }
+func (e *BinaryExpr) End() Pos             { return e.Right.End() }
 func (e *ParenExpr) Pos() Pos              { return e.lpos }
-func (e *ParenExpr) End() Pos              { return e.Expr.End() }
+func (e *ParenExpr) End() Pos              { return e.rpos }
 func (e *Selector) Pos() Pos               { return e.lpos }
 func (e *Selector) End() Pos               { return e.rpos }
 func (e *WildcardTyp) Pos() Pos            { return e.lpos }
-func (e *WildcardTyp) End() Pos            { return e.lpos + 1 }
+func (e *WildcardTyp) End() Pos            { return e.lpos }
 func (e *BooleanTyp) Pos() Pos             { return e.lpos }
 func (e *BooleanTyp) End() Pos             { return e.rpos }
 func (e *SpeedTyp) Pos() Pos               { return e.lpos }
-- 
2.43.0


From e9d4e2e9e901f1c790ec13745ae01042b052e21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:16 +0000
Subject: [PATCH 39/44] fix: positions of variables and booleans

---
 primitive.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/primitive.go b/primitive.go
index de99072..a8de043 100644
--- a/primitive.go
+++ b/primitive.go
@@ -6,13 +6,15 @@ import (
 )
 
 func (s *parser) parseVarExpr() (expr Expr, err error) {
+	lpos := s.t.Offset()
 	s.next()
 	if !s.except(SELECTOR) {
 		return nil, s.error()
 	}
-	expr = &Ref{ID: s.t.TokenText(), lpos: s.t.Offset()}
+	ref := &Ref{ID: s.t.TokenText(), lpos: lpos}
 	s.next()
-	return
+	ref.rpos = s.t.Offset() - 1
+	return ref, nil
 }
 
 func (s *parser) parseStringLit() (expr Expr, err error) {
@@ -183,14 +185,16 @@ func (s *parser) parseDistance() (dist *DistanceTyp, err error) {
 }
 
 func (s *parser) parseBooleanLit() (expr Expr, err error) {
+	boolean := &BooleanTyp{lpos: s.t.Offset()}
 	switch s.lit {
 	default:
 		return nil, s.error()
 	case "true", "up":
-		expr = &BooleanTyp{Val: true, lpos: s.t.Offset()}
+		boolean.Val = true
 	case "false", "down":
-		expr = &BooleanTyp{Val: false, lpos: s.t.Offset()}
+		boolean.Val = false
 	}
 	s.next()
-	return
+	boolean.rpos = s.t.Offset() - 1
+	return boolean, nil
 }
-- 
2.43.0


From b40dff01998f98cd404ce50bfcd3490a76082d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:17 +0000
Subject: [PATCH 40/44] fix: a range starts at its lower and ends at its upper
 bound

---
 composite.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/composite.go b/composite.go
index cdefa18..660fba3 100644
--- a/composite.go
+++ b/composite.go
@@ -91,7 +91,6 @@ func (s *parser) parseRangeExpr(low Expr) (expr Expr, err error) {
 	if isRangeExpr {
 		return nil, s.error()
 	}
-	startPos := s.t.Offset()
 	high, err := s.parseUnaryExpr()
 	if err != nil {
 		return
@@ -102,8 +101,8 @@ func (s *parser) parseRangeExpr(low Expr) (expr Expr, err error) {
 	return &Range{
 		Low:  low,
 		High: high,
-		lpos: startPos,
-		rpos: s.t.Offset(),
+		lpos: low.Pos(),
+		rpos: high.End(),
 	}, nil
 }
 
-- 
2.43.0


From cf9b1980edde1f0c14a63c1319fa929eecc865f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:17 +0000
Subject: [PATCH 41/44] fix: numbers with units start at their sign, wherever
 it is

---
 parser.go    |  2 ++
 primitive.go | 15 ++++++---------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/parser.go b/parser.go
index 1707ebf..5b57273 100644
--- a/parser.go
+++ b/parser.go
@@ -29,6 +29,7 @@ type parser struct {
 	lit  string
 	err  error
 	sign Token
+	spos Pos // position of the sign
 	lpos Pos
 	rpos Pos
 
@@ -283,6 +284,7 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 		case ADD:
 			s.sign = ADD
 		}
+		s.spos = s.t.Offset()
 		s.next()
 		if !s.except(INT, FLOAT) {
 			return nil, s.error()
diff --git a/primitive.go b/primitive.go
index a8de043..247bb2a 100644
--- a/primitive.go
+++ b/primitive.go
@@ -30,6 +30,9 @@ func (s *parser) parseStringLit() (expr Expr, err error) {
 
 func (s *parser) parseFloatTypes() (expr Expr, err error) {
 	s.lpos = s.t.Offset()
+	if s.isSignPlus() || s.isSignMinus() {
+		s.lpos = s.spos
+	}
 	val, err := strconv.ParseFloat(s.lit, 64)
 	if err != nil {
 		return nil, s.error()
@@ -42,9 +45,6 @@ func (s *parser) parseFloatTypes() (expr Expr, err error) {
 		if s.isSignMinus() {
 			val = -val
 		}
-		if s.isSignPlus() || s.isSignMinus() {
-			s.lpos -= 1
-		}
 		expr = &FloatTyp{Val: val, lpos: s.lpos, rpos: s.t.Offset() - 1}
 	}
 	return
@@ -52,6 +52,9 @@ func (s *parser) parseFloatTypes() (expr Expr, err error) {
 
 func (s *parser) parseIntTypes() (expr Expr, err error) {
 	s.lpos = s.t.Offset()
+	if s.isSignPlus() || s.isSignMinus() {
+		s.lpos = s.spos
+	}
 	intval, err := strconv.Atoi(s.lit)
 	if err != nil {
 		return nil, s.error()
@@ -64,9 +67,6 @@ func (s *parser) parseIntTypes() (expr Expr, err error) {
 		if s.isSignMinus() {
 			intval = -intval
 		}
-		if s.isSignPlus() || s.isSignMinus() {
-			s.lpos -= 1
-		}
 		expr = &IntTyp{Val: intval, lpos: s.lpos, rpos: s.t.Offset() - 1}
 	}
 	return
@@ -121,9 +121,6 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 		if s.isSignPlus() {
 			ts = Plus
 		}
-		if s.isSignPlus() || s.isSignMinus() {
-			s.lpos -= 1
-		}
 		u := unitFromString(s.lit)
 		s.rpos += litlen + u.size()
 		expr = &TemperatureTyp{Val: v, U: u, Vec: ts, lpos: s.lpos, rpos: s.rpos}
-- 
2.43.0


From e2d2f93b39ac7195153ff6f9fa15abd3a12bf5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:12 +0000
Subject: [PATCH 42/44] fix: numbers with units end with their unit, wherever
 it is

---
 primitive.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/primitive.go b/primitive.go
index 247bb2a..be7b116 100644
--- a/primitive.go
+++ b/primitive.go
@@ -74,17 +74,15 @@ func (s *parser) parseIntTypes() (expr Expr, err error) {
 
 func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 	plit := s.lit
-	s.rpos = s.t.Offset() - 1
 	s.next()
 	unit := s.t.TokenText()
-	litlen := Pos(len(plit))
+	s.rpos = s.t.Offset() + Pos(len(unit)-1)
 	switch {
 	case isPercentUnit(unit):
 		if s.isSignMinus() {
 			s.err = errNegativeValue
 			return nil, s.error()
 		}
-		s.rpos += litlen + 1
 		expr = &PercentTyp{Val: v, lpos: s.lpos, rpos: s.rpos}
 		s.next()
 	case isPressureUnit(unit):
@@ -92,7 +90,6 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 			v = -v
 		}
 		u := unitFromString(s.lit)
-		s.rpos += litlen + u.size()
 		expr = &PressureTyp{Val: v, U: u, lpos: s.lpos, rpos: s.rpos}
 		s.next()
 	case isDistanceUnit(unit), s.meters && unit == "m":
@@ -101,7 +98,6 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 			return nil, s.error()
 		}
 		u := unitFromString(unit)
-		s.rpos += litlen + u.size()
 		expr = &DistanceTyp{Val: v, U: u, lpos: s.lpos, rpos: s.rpos}
 		s.next()
 	case isSpeedUnit(unit):
@@ -110,7 +106,6 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 			return nil, s.error()
 		}
 		u := unitFromString(s.lit)
-		s.rpos += litlen + u.size()
 		expr = &SpeedTyp{Val: v, U: u, lpos: s.lpos, rpos: s.rpos}
 		s.next()
 	case isTemperatureUnit(unit):
@@ -122,7 +117,6 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 			ts = Plus
 		}
 		u := unitFromString(s.lit)
-		s.rpos += litlen + u.size()
 		expr = &TemperatureTyp{Val: v, U: u, Vec: ts, lpos: s.lpos, rpos: s.rpos}
 		s.next()
 	default:
@@ -143,7 +137,6 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 			if er != nil {
 				return nil, s.error()
 			}
-			s.rpos = s.lpos + Pos(len(plit+s.lit)-1)
 			expr = &DurationTyp{Val: dur, lpos: s.lpos, rpos: s.rpos}
 			s.next()
 		}
-- 
2.43.0


From f2d8ca8157e7e71f2ed6d0adc3e7899b5352571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:12 +0000
Subject: [PATCH 43/44] fix: positions of geometries

---
 geometry.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/geometry.go b/geometry.go
index f0a409a..b2f3b84 100644
--- a/geometry.go
+++ b/geometry.go
@@ -4,6 +4,7 @@ import "strconv"
 
 func (s *parser) parseGeometryMultiObject() (expr Expr, err error) {
 	geotyp := s.tok
+	lpos := s.t.Offset()
 	s.next()
 	if !s.except(LBRACK) {
 		return nil, s.error()
@@ -12,7 +13,7 @@ func (s *parser) parseGeometryMultiObject() (expr Expr, err error) {
 	multiobj := &GeometryMultiObjectTyp{
 		Kind: geotyp,
 		Val:  make([]Expr, 0),
-		lpos: s.t.Offset(),
+		lpos: lpos,
 	}
 	for {
 		if !isGeometryToken(s.tok) {
@@ -49,7 +50,7 @@ func (s *parser) parseGeometryMultiObject() (expr Expr, err error) {
 			s.next()
 		}
 	}
-	multiobj.rpos = s.t.Offset()
+	multiobj.rpos = s.t.Offset() - 1
 	if len(multiobj.Val) == 0 {
 		return nil, s.error()
 	}
@@ -90,7 +91,7 @@ func (s *parser) parseGeometryCollectionExpr() (expr Expr, err error) {
 			s.next()
 		}
 	}
-	collection.rpos = s.t.Offset()
+	collection.rpos = s.t.Offset() - 1
 	if len(collection.Objects) == 0 {
 		return nil, s.error()
 	}
@@ -243,7 +244,7 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 			return nil, err
 		}
 		point.Radius = radius
-		point.rpos = s.t.Offset()
+		point.rpos = s.t.Offset() - 1
 		return point, nil
 	case GEOMETRY_LINE:
 		line := &GeometryLineTyp{Val: bb, lpos: sp, rpos: s.t.Offset() - 1}
@@ -256,7 +257,7 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 			return nil, err
 		}
 		line.Margin = margin
-		line.rpos = s.t.Offset()
+		line.rpos = s.t.Offset() - 1
 		return line, nil
 	case GEOMETRY_POLYGON:
 		return &GeometryPolygonTyp{Val: cc, lpos: sp, rpos: s.t.Offset() - 1}, nil
-- 
2.43.0


From 4dc6a3f79e80ccd748b4f87fa1e9deff76b9807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:13 +0000
Subject: [PATCH 44/44] fix: positions of calendar literals in lists and ranges

---
 datetime.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/datetime.go b/datetime.go
index b3a7ae6..0825cfe 100644
--- a/datetime.go
+++ b/datetime.go
@@ -31,6 +31,7 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 		if !s.except(INT, SUB, COMMA, RANGE) {
 			return nil, s.error()
 		}
+		pos := s.t.Offset()
 		y, err = strconv.Atoi(s.lit)
 		if err != nil {
 			s.err = err
@@ -85,8 +86,8 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 			Year:  y,
 			Month: m,
 			Day:   d,
-			lpos:  lpos,
-			rpos:  s.t.Offset(),
+			lpos:  pos,
+			rpos:  s.t.Offset() - 1,
 		}
 		switch s.tok {
 		case COMMA:
@@ -112,6 +113,7 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 		if s.except(RBRACK) {
 			switch {
 			default:
+				date.lpos, date.rpos = lpos, s.t.Offset()
 				s.next()
 				return date, nil
 			case isArrayTyp():
@@ -158,6 +160,7 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 		if !s.except(INT, COLON, COMMA, RANGE) {
 			return nil, s.error()
 		}
+		pos := s.t.Offset()
 		h, err = strconv.Atoi(s.lit)
 		if err != nil {
 			s.err = err
@@ -216,8 +219,8 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 			Hours:   h,
 			Minutes: m,
 			Seconds: c,
-			lpos:    lpos,
-			rpos:    s.t.Offset(),
+			lpos:    pos,
+			rpos:    s.t.Offset() - 1,
 		}
 
 		if s.except(SELECTOR) {
@@ -226,8 +229,8 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 				return nil, s.error()
 			}
 			time_.U = unitFromString(s.lit)
-			time_.rpos = s.t.Offset() + time_.U.size()
 			s.next()
+			time_.rpos = s.t.Offset() - 1
 		}
 
 		switch s.tok {
@@ -254,6 +257,7 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 		if s.except(RBRACK) {
 			switch {
 			default:
+				time_.lpos, time_.rpos = lpos, s.t.Offset()
 				s.next()
 				return time_, nil
 			case isArrayTyp():
@@ -298,6 +302,7 @@ func (s *parser) parseWeekdayExpr() (expr Expr, err error) {
 		if !s.except(SELECTOR) {
 			return nil, s.error()
 		}
+		pos := s.t.Offset()
 		switch s.lit {
 		default:
 			s.err = fmt.Errorf("invalid weekday format got %s, expected weekday[Mon, ...]", s.lit)
@@ -318,7 +323,7 @@ func (s *parser) parseWeekdayExpr() (expr Expr, err error) {
 			weekday = 6
 		}
 		s.next()
-		wd := &WeekdayTyp{Val: weekday, lpos: lpos, rpos: s.t.Offset()}
+		wd := &WeekdayTyp{Val: weekday, lpos: pos, rpos: s.t.Offset() - 1}
 		switch s.tok {
 		case COMMA:
 			if rangeExpr != nil {
@@ -343,6 +348,7 @@ func (s *parser) parseWeekdayExpr() (expr Expr, err error) {
 		if s.except(RBRACK) {
 			switch {
 			default:
+				wd.lpos, wd.rpos = lpos, s.t.Offset()
 				s.next()
 				return wd, nil
 			case isArrayTyp():
@@ -387,6 +393,7 @@ func (s *parser) parseMonthExpr() (expr Expr, err error) {
 		if !s.except(SELECTOR) {
 			return nil, s.error()
 		}
+		pos := s.t.Offset()
 		switch s.lit {
 		default:
 			s.err = fmt.Errorf("invalid month format got %s, expected month[Mon, ...]", s.lit)
@@ -417,7 +424,7 @@ func (s *parser) parseMonthExpr() (expr Expr, err error) {
 			month = 12
 		}
 		s.next()
-		wd := &MonthTyp{Val: month, lpos: lpos, rpos: s.t.Offset()}
+		wd := &MonthTyp{Val: month, lpos: pos, rpos: s.t.Offset() - 1}
 		switch s.tok {
 		case COMMA:
 			if rangeExpr != nil {
@@ -442,6 +449,7 @@ func (s *parser) parseMonthExpr() (expr Expr, err error) {
 		if s.except(RBRACK) {
 			switch {
 			default:
+				wd.lpos, wd.rpos = lpos, s.t.Offset()
 				s.next()
 				return wd, nil
 			case isArrayTyp():
-- 
2.43.0

