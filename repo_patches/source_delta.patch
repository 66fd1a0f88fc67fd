From 05556980f48f4a67d6e8191ed074602788b927b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 01/40] fix: a sign is only part of a number in its exponent,
 so 1-2 and $1-2 are subtractions

---
 parser/lexer.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 108b486..69833ce 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -957,6 +957,10 @@ outer:
 }
 
 func (ctx *context) consumeFloat(start int, d rune) {
+	if d != '.' {
+		// Only an exponent can be signed
+		ctx.skipSign()
+	}
 	if ctx.skipDecimalDigits() == 0 {
 		panic(ctx.parseIssue(lexDigitExpected))
 	}
@@ -965,6 +969,7 @@ func (ctx *context) consumeFloat(start int, d rune) {
 		// Check for 'e'
 		if c == 'e' || c == 'E' {
 			ctx.Advance(n)
+			ctx.skipSign()
 			if ctx.skipDecimalDigits() == 0 {
 				panic(ctx.parseIssue(lexDigitExpected))
 			}
@@ -978,13 +983,15 @@ func (ctx *context) consumeFloat(start int, d rune) {
 	ctx.settokenValue(tokenFloat, v)
 }
 
+func (ctx *context) skipSign() {
+	if c, n := ctx.Peek(); c == '-' || c == '+' {
+		ctx.Advance(n)
+	}
+}
+
 func (ctx *context) skipDecimalDigits() (digitCount int) {
 	digitCount = 0
 	c, n := ctx.Peek()
-	if c == '-' || c == '+' {
-		ctx.Advance(n)
-		c, n = ctx.Peek()
-	}
 	for isDecimalDigit(c) {
 		ctx.Advance(n)
 		c, n = ctx.Peek()
-- 
2.43.0


From d4ac5727135bd73e94af162f51c7293e63cb47a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 02/40] fix: type alias with parent crashed when its hash was
 followed by an operator

---
 parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index d786464..617e87b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1217,7 +1217,8 @@ func (ctx *context) typeAliasOrDefinition() Expression {
 		switch bt := body.(type) {
 		case *QualifiedReference:
 			if ctx.currentToken == tokenLc {
-				hash := ctx.expression().(*LiteralHash)
+				// Only the hash belongs to the alias. Whatever follows it is a new statement
+				hash := ctx.atomExpression().(*LiteralHash)
 				if bt.name == `Object` || bt.name == `TypeSet` {
 					body = ctx.factory.Access(bt, []Expression{hash}, ctx.locator, bodyStart, ctx.Pos()-bodyStart)
 				} else {
-- 
2.43.0


From e75fc3e30b90141e048d22b97ac03c7d99ebc755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 03/40] fix: a numeric variable as step iteration name crashed
 the parser

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 617e87b..f816d3c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1439,7 +1439,10 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 
 	iterName := name
 	if ctx.currentToken == tokenVariable {
-		iterName = ctx.tokenString()
+		var ok bool
+		if iterName, ok = ctx.tokenValue.(string); !ok {
+			panic(ctx.parseIssue(parseExpectedVariable))
+		}
 		ctx.nextToken()
 		ctx.assertToken(tokenAssign)
 		ctx.nextToken()
-- 
2.43.0


From 8cba137e399bb24e67dc9b20e45d2804abcaef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 04/40] fix: the valid character U+FFFD was rejected as invalid
 unicode

---
 parser/reader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/reader.go b/parser/reader.go
index c18c0b3..ac4d5d8 100644
--- a/parser/reader.go
+++ b/parser/reader.go
@@ -63,7 +63,7 @@ func (r *stringReader) Next() (c rune, start int) {
 		return
 	}
 	c, size := utf8.DecodeRuneInString(r.text[r.i:])
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && size <= 1 {
 		panic(r.invalidUnicode())
 	}
 	r.i += size
@@ -80,7 +80,7 @@ func (r *stringReader) Peek() (c rune, size int) {
 		return
 	}
 	c, size = utf8.DecodeRuneInString(r.text[r.i:])
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && size <= 1 {
 		panic(r.invalidUnicode())
 	}
 	return c, size
@@ -96,7 +96,7 @@ func (r *stringReader) PeekAt(pos int) (c rune, size int) {
 		return
 	}
 	c, size = utf8.DecodeRuneInString(r.text[pos:])
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && size <= 1 {
 		panic(r.invalidUnicode())
 	}
 	return c, size
-- 
2.43.0


From 74672142a0714706631fb03a35fc8ac252c5e828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 05/40] fix: line lookup crashed on invalid unicode and stopped
 at a NUL character

---
 parser/expression.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parser/expression.go b/parser/expression.go
index d3765b6..f43ad8f 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -584,10 +584,9 @@ func (e *Locator) PosOnLine(offset int) int {
 func (e *Locator) getLineIndex() []int {
 	if e.lineIndex == nil {
 		li := append(make([]int, 0, 32), 0)
-		rdr := NewStringReader(e.string)
-		for c, _ := rdr.Next(); c != 0; c, _ = rdr.Next() {
-			if c == '\n' {
-				li = append(li, rdr.Pos())
+		for i := 0; i < len(e.string); i++ {
+			if e.string[i] == '\n' {
+				li = append(li, i+1)
 			}
 		}
 		e.lineIndex = li
-- 
2.43.0


From 209f6ec7d0ec60a48211c16477a1c7f122ef7566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 06/40] fix: a NUL character silently ended the source

---
 parser/reader.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/parser/reader.go b/parser/reader.go
index ac4d5d8..19b0c22 100644
--- a/parser/reader.go
+++ b/parser/reader.go
@@ -52,6 +52,11 @@ func (r *stringReader) invalidUnicode() *parseError {
 	return r.parseError("invalid unicode character")
 }
 
+// NUL is never valid in a source. It cannot be returned by the reader since that denotes EOS
+func (r *stringReader) nulCharacter() *parseError {
+	return r.parseError("invalid NUL character")
+}
+
 func (r *stringReader) Next() (c rune, start int) {
 	start = r.i
 	if r.i >= len(r.text) {
@@ -59,6 +64,9 @@ func (r *stringReader) Next() (c rune, start int) {
 	}
 	c = rune(r.text[r.i])
 	if c < utf8.RuneSelf {
+		if c == 0 {
+			panic(r.nulCharacter())
+		}
 		r.i++
 		return
 	}
@@ -76,6 +84,9 @@ func (r *stringReader) Peek() (c rune, size int) {
 	}
 	c = rune(r.text[r.i])
 	if c < utf8.RuneSelf {
+		if c == 0 {
+			panic(r.nulCharacter())
+		}
 		size = 1
 		return
 	}
@@ -92,6 +103,9 @@ func (r *stringReader) PeekAt(pos int) (c rune, size int) {
 	}
 	c = rune(r.text[pos])
 	if c < utf8.RuneSelf {
+		if c == 0 {
+			panic(r.nulCharacter())
+		}
 		size = 1
 		return
 	}
-- 
2.43.0


From 274639c4bdb409ad009763331802ee2ac693f403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 07/40] fix: a number that is out of range was silently changed
 to another number

---
 parser/issues.go |  2 ++
 parser/lexer.go  | 29 +++++++++++++++++++++++------
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/parser/issues.go b/parser/issues.go
index d64af25..8e79ee0 100644
--- a/parser/issues.go
+++ b/parser/issues.go
@@ -21,6 +21,7 @@ const (
 	lexMalformedHexEscape           = `LEX_MALFORMED_HEX_ESCAPE`
 	lexMalformedInterpolation       = `LEX_MALFORMED_INTERPOLATION`
 	lexMalformedUnicodeEscape       = `LEX_MALFORMED_UNICODE_ESCAPE`
+	lexNumberOutOfRange             = `LEX_NUMBER_OUT_OF_RANGE`
 	lexOctaldigitExpected           = `LEX_OCTALDIGIT_EXPECTED`
 	lexUnbalancedEppComment         = `LEX_UNBALANCED_EPP_COMMENT`
 	lexUnexpectedToken              = `LEX_UNEXPECTED_TOKEN`
@@ -74,6 +75,7 @@ func init() {
 	issue.Hard(lexMalformedHexEscape, `malformed hexadecimal escape sequence`)
 	issue.Hard(lexMalformedInterpolation, `malformed interpolation expression`)
 	issue.Hard(lexMalformedUnicodeEscape, `malformed unicode escape sequence`)
+	issue.Hard(lexNumberOutOfRange, `number '%{number}' is out of range`)
 	issue.Hard(lexOctaldigitExpected, `octal digit expected`)
 	issue.Hard(lexUnbalancedEppComment, `unbalanced epp comment`)
 	issue.Hard(lexUnexpectedToken, `unexpected token '%{token}'`)
diff --git a/parser/lexer.go b/parser/lexer.go
index 69833ce..8c4e2d4 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -366,8 +366,7 @@ func (ctx *context) nextToken() {
 		if unicode.IsLetter(c) {
 			panic(ctx.parseIssue(lexDigitExpected))
 		}
-		v, _ := strconv.ParseInt(ctx.From(start), 10, 64)
-		ctx.settokenValue(tokenInteger, v)
+		ctx.settokenValue(tokenInteger, ctx.parseInt(start, start, 10))
 		ctx.radix = 10
 
 	case 'A' <= c && c <= 'Z':
@@ -673,7 +672,7 @@ func (ctx *context) nextToken() {
 			} else if isDecimalDigit(c) {
 				ctx.Advance(sz)
 				ctx.skipDecimalDigits()
-				ctx.tokenValue, _ = strconv.ParseInt(ctx.From(start+1), 10, 64)
+				ctx.tokenValue = ctx.parseInt(start, start+1, 10)
 			} else if unicode.IsLetter(c) {
 				panic(ctx.parseIssue(lexInvalidVariableName))
 			} else {
@@ -701,7 +700,7 @@ func (ctx *context) nextToken() {
 				if ctx.Pos() == hexStart || isLetter(c) {
 					panic(ctx.parseIssue(lexHexdigitExpected))
 				}
-				v, _ := strconv.ParseInt(ctx.From(hexStart), 16, 64)
+				v := ctx.parseInt(start, hexStart, 16)
 				ctx.radix = 16
 				ctx.settokenValue(tokenInteger, v)
 
@@ -720,7 +719,7 @@ func (ctx *context) nextToken() {
 					panic(ctx.parseIssue(lexOctaldigitExpected))
 				}
 				if ctx.Pos() > octalStart {
-					v, _ := strconv.ParseInt(ctx.From(octalStart), 8, 64)
+					v := ctx.parseInt(start, octalStart, 8)
 					ctx.radix = 8
 					ctx.settokenValue(tokenInteger, v)
 				} else {
@@ -979,10 +978,28 @@ func (ctx *context) consumeFloat(start int, d rune) {
 	if unicode.IsLetter(c) {
 		panic(ctx.parseIssue(lexDigitExpected))
 	}
-	v, _ := strconv.ParseFloat(ctx.From(start), 64)
+	v, err := strconv.ParseFloat(ctx.From(start), 64)
+	if err != nil {
+		panic(ctx.numberOutOfRange(start))
+	}
 	ctx.settokenValue(tokenFloat, v)
 }
 
+// parseInt returns the value of the digits between digitsStart and the current position
+func (ctx *context) parseInt(start, digitsStart, radix int) int64 {
+	v, err := strconv.ParseInt(ctx.From(digitsStart), radix, 64)
+	if err != nil {
+		panic(ctx.numberOutOfRange(start))
+	}
+	return v
+}
+
+func (ctx *context) numberOutOfRange(start int) issue.Reported {
+	number := ctx.From(start)
+	ctx.SetPos(start)
+	return ctx.parseIssue2(lexNumberOutOfRange, issue.H{`number`: number})
+}
+
 func (ctx *context) skipSign() {
 	if c, n := ctx.Peek(); c == '-' || c == '+' {
 		ctx.Advance(n)
-- 
2.43.0


From 52ace277ec831ac5482e86b0703d19bc4f6c9d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 08/40] fix: nodes with a negative length crashed String() and
 the validator

---
 parser/parser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index f816d3c..c62c657 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1141,12 +1141,12 @@ func (ctx *context) identifierExpr() (Expression, bool) {
 	start := ctx.tokenStartPos
 	switch ctx.currentToken {
 	case tokenIdentifier:
-		name := ctx.factory.QualifiedName(ctx.tokenString(), ctx.locator, start, start-ctx.Pos())
+		name := ctx.factory.QualifiedName(ctx.tokenString(), ctx.locator, start, ctx.Pos()-start)
 		ctx.nextToken()
 		return name, true
 	default:
 		if word, ok := ctx.keyword(); ok {
-			name := ctx.factory.QualifiedName(word, ctx.locator, start, start-ctx.Pos())
+			name := ctx.factory.QualifiedName(word, ctx.locator, start, ctx.Pos()-start)
 			ctx.nextToken()
 			return name, ok
 		}
@@ -1460,7 +1460,7 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 			iterParams := ctx.parameterList()
 			ctx.nextToken()
 			vs := ctx.Pos()
-			pl := ps - vs
+			pl := vs - ps
 			iterVars := ctx.lambdaParameterList()
 			ctx.nextToken()
 			vl := ctx.Pos() - vs
@@ -1835,7 +1835,7 @@ func (ctx *context) returnParameter() Expression {
 		case tokenLp, tokenWslp:
 			ps := ctx.tokenStartPos
 			ctx.nextToken()
-			defaultExpression = ctx.factory.Array(ctx.expressions(tokenRp, ctx.attributeAlias), ctx.locator, ps, ps-ctx.Pos())
+			defaultExpression = ctx.factory.Array(ctx.expressions(tokenRp, ctx.attributeAlias), ctx.locator, ps, ctx.Pos()-ps)
 			ctx.nextToken()
 		default:
 			defaultExpression = ctx.attributeAlias()
-- 
2.43.0


From c8543416ab38b7a3ffb1720553e2102695ea56c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 09/40] fix: steps, type aliases, capability mappings and call
 arguments were located at the wrong place

---
 parser/parser.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index c62c657..024452c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -438,7 +438,7 @@ func (ctx *context) assignment() (expr Expression) {
 }
 
 func (ctx *context) step() (expr Expression) {
-	start := ctx.Pos()
+	start := ctx.tokenStartPos
 	expr = ctx.resource()
 	if ctx.workflow {
 		if qn, ok := expr.(*QualifiedName); ok {
@@ -712,6 +712,7 @@ func (ctx *context) primaryExpression() (expr Expression) {
 		case tokenLcollect, tokenLlcollect:
 			expr = ctx.collectExpression(expr)
 		case tokenLb:
+			lbStart := ctx.tokenStartPos
 			ctx.nextToken()
 			params := ctx.arrayExpression()
 			isCall := false
@@ -720,7 +721,7 @@ func (ctx *context) primaryExpression() (expr Expression) {
 			}
 			l := ctx.Pos() - expr.ByteOffset()
 			if isCall {
-				expr = ctx.factory.CallNamed(expr, false, []Expression{ctx.factory.Array(params, ctx.locator, expr.ByteOffset(), l)}, nil, ctx.locator, expr.ByteOffset(), l)
+				expr = ctx.factory.CallNamed(expr, false, []Expression{ctx.factory.Array(params, ctx.locator, lbStart, ctx.Pos()-lbStart)}, nil, ctx.locator, expr.ByteOffset(), l)
 			} else {
 				expr = ctx.factory.Access(expr, params, ctx.locator, expr.ByteOffset(), l)
 			}
@@ -843,7 +844,7 @@ func (ctx *context) atomExpression() (expr Expression) {
 		name := ctx.tokenString()
 		ctx.nextToken()
 		if ctx.currentToken == tokenTypeName {
-			expr = ctx.typeAliasOrDefinition()
+			expr = ctx.typeAliasOrDefinition(atomStart)
 		} else {
 			// Not a type definition. Just treat the 'type' keyword as a qualified name
 			expr = ctx.factory.QualifiedName(name, ctx.locator, atomStart, ctx.Pos()-atomStart)
@@ -973,6 +974,7 @@ func (ctx *context) caseOption() Expression {
 }
 
 func (ctx *context) resourceExpression(start int, first Expression, form ResourceForm) (expr Expression) {
+	hashStart := ctx.tokenStartPos
 	bodiesStart := ctx.Pos()
 	ctx.nextToken()
 	titleStart := ctx.Pos()
@@ -1002,7 +1004,7 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 					args := make([]Expression, 1)
 					ctx.SetPos(bodiesStart)
 					ctx.nextToken()
-					args[0] = ctx.factory.Hash(ctx.hashExpression(), ctx.locator, bodiesStart, ctx.Pos()-bodiesStart)
+					args[0] = ctx.factory.Hash(ctx.hashExpression(), ctx.locator, hashStart, ctx.Pos()-hashStart)
 					expr = ctx.factory.CallNamed(first, true, args, nil, ctx.locator, start, ctx.Pos()-start)
 					ctx.nextToken()
 					return
@@ -1194,8 +1196,7 @@ func (ctx *context) collectExpression(lhs Expression) Expression {
 	return ctx.factory.Collect(lhs, collectQuery, attributeOps, ctx.locator, lhs.ByteOffset(), ctx.Pos()-lhs.ByteOffset())
 }
 
-func (ctx *context) typeAliasOrDefinition() Expression {
-	start := ctx.tokenStartPos
+func (ctx *context) typeAliasOrDefinition(start int) Expression {
 	typeExpr := ctx.parameterType()
 	fqr, ok := typeExpr.(*QualifiedReference)
 	if !ok {
@@ -1300,7 +1301,7 @@ func (ctx *context) stepName(step StepStyle) string {
 // stepEntry is a hash entry with some specific constraints
 
 func (ctx *context) stepProperty() Expression {
-	start := ctx.Pos()
+	start := ctx.tokenStartPos
 	key, ok := ctx.identifierExpr()
 	if !ok {
 		panic(ctx.parseIssue(parseExpectedAttributeName))
@@ -1310,7 +1311,7 @@ func (ctx *context) stepProperty() Expression {
 	}
 	ctx.nextToken()
 
-	vstart := ctx.Pos()
+	vstart := ctx.tokenStartPos
 	name := key.(*QualifiedName).name
 	var value Expression
 	switch name {
@@ -1404,7 +1405,7 @@ func (ctx *context) stateAttribute() (op Expression) {
 }
 
 func (ctx *context) stepExpression() Expression {
-	start := ctx.Pos()
+	start := ctx.tokenStartPos
 	if ctx.currentToken == tokenFunction {
 		return ctx.functionDefinition()
 	}
@@ -1455,11 +1456,11 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 			iterFunc := ctx.tokenString()
 			nl := len(iterFunc)
 			fs := ctx.tokenStartPos
-			ps := ctx.Pos()
 			ctx.nextToken()
+			ps := ctx.tokenStartPos
 			iterParams := ctx.parameterList()
 			ctx.nextToken()
-			vs := ctx.Pos()
+			vs := ctx.tokenStartPos
 			pl := vs - ps
 			iterVars := ctx.lambdaParameterList()
 			ctx.nextToken()
@@ -1940,7 +1941,7 @@ func (ctx *context) qualifiedName(name string) string {
 }
 
 func (ctx *context) capabilityMapping(component Expression, kind string) Expression {
-	start := ctx.tokenStartPos
+	start := component.ByteOffset()
 	ctx.nextToken()
 	capName := ctx.className()
 	ctx.assertToken(tokenLc)
-- 
2.43.0


From 95170571681539aff05d2d044e35ba6de58f4d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 10/40] fix: whitespace after the first token of a block was
 lost, and the block was located after that token

---
 parser/parser.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 024452c..b87cdc7 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -243,8 +243,7 @@ func (ctx *context) parseTopExpression(filename string, source string, singleExp
 }
 
 func (ctx *context) parse(expectedEnd int, singleExpression bool) (expr Expression) {
-	_, start := ctx.skipWhite(false)
-	ctx.SetPos(start)
+	start := ctx.tokenStartPos
 	if singleExpression {
 		if ctx.currentToken == expectedEnd {
 			expr = ctx.factory.Undef(ctx.locator, start, 0)
-- 
2.43.0


From 4a059c924dc0d012dd4b3ba2b8164d3c62b687a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 11/40] fix: extraneous commas went undetected when the block
 ended with a statement call

---
 parser/parser.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index b87cdc7..d2f789c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -309,7 +309,8 @@ func (ctx *context) transformCalls(exprs []Expression, start int) (result []Expr
 			result = append(result, cn)
 			idx++
 			if idx == top {
-				return
+				memo = nil
+				break
 			}
 			memo = exprs[idx]
 		} else {
@@ -320,10 +321,12 @@ func (ctx *context) transformCalls(exprs []Expression, start int) (result []Expr
 			memo = expr
 		}
 	}
-	if cnFunc, ok := memo.(*CallNamedFunctionExpression); ok {
-		cnFunc.rvalRequired = false
+	if memo != nil {
+		if cnFunc, ok := memo.(*CallNamedFunctionExpression); ok {
+			cnFunc.rvalRequired = false
+		}
+		result = append(result, memo)
 	}
-	result = append(result, memo)
 	for _, ex := range result {
 		if csl, ok := ex.(*commaSeparatedList); ok {
 			// This happens when a block contains extraneous commas between statements. The
-- 
2.43.0


From 382f973e5a30af0e23dbf345e4de2a42947989d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 12/40] fix: a step style used as a plain name derailed the
 workflow parser

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index d2f789c..e0cacb8 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -446,8 +446,12 @@ func (ctx *context) step() (expr Expression) {
 		if qn, ok := expr.(*QualifiedName); ok {
 			s := qn.Name()
 			if style, ok := workflowStyles[s]; ok {
+				pos := ctx.Pos()
 				if name, ok := ctx.identifier(); ok {
 					expr = ctx.stepDeclaration(start, style, name, true)
+				} else {
+					// Just a name. Undo the rewind to the start of the current token
+					ctx.SetPos(pos)
 				}
 			}
 		}
-- 
2.43.0


From dabab920173c09a76a28ab821eb9a95d699f5a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 13/40] fix: numbers in a node name were reformatted, e.g.
 10.0.0.1 became 10.0.1

---
 parser/parser.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e0cacb8..86b6504 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"fmt"
-	"strconv"
 	"strings"
 
 	"github.com/lyraproj/issue/issue"
@@ -1739,10 +1738,9 @@ func (ctx *context) dottedName() Expression {
 		switch ctx.currentToken {
 		case tokenIdentifier, tokenTypeName:
 			names = append(names, ctx.tokenString())
-		case tokenInteger:
-			names = append(names, strconv.FormatInt(ctx.tokenValue.(int64), 10))
-		case tokenFloat:
-			names = append(names, strconv.FormatFloat(ctx.tokenValue.(float64), 'g', -1, 64))
+		case tokenInteger, tokenFloat:
+			// Must be verbatim. 10.0 is not the same as 10 in a name
+			names = append(names, ctx.From(ctx.tokenStartPos))
 		default:
 			panic(ctx.parseIssue(parseExpectedNameOrNumberAfterDot))
 		}
-- 
2.43.0


From af26085ba0d2f4ecbfe8e614ca5808aae7c2b2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 14/40] fix: assignments, resources, and relationships were
 rejected in EPP without a parameter list

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 86b6504..33a5072 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -232,7 +232,10 @@ func (ctx *context) parseTopExpression(filename string, source string, singleExp
 				expr = asEppLambda(ctx.factory.Block(ctx.transformCalls(expressions, 0), ctx.locator, 0, ctx.Pos()))
 				return
 			}
-			expressions = append(expressions, ctx.expression())
+			expressions = append(expressions, ctx.syntacticStatement())
+			if ctx.currentToken == tokenSemicolon {
+				ctx.nextToken()
+			}
 		}
 	}
 
-- 
2.43.0


From c7c68fed2c9d9f2daa9eb8b4c552d88cd57b350f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 15/40] fix: a malformed hexadecimal escape was replaced by a
 NUL character

---
 parser/lexer.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 8c4e2d4..2d1fe1a 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1691,11 +1691,11 @@ func (ctx *context) appendHexadec(buf *bytes.Buffer) {
 	// Must be XX (a two-digit hex number)
 	d, start := ctx.Next()
 	if isHexDigit(d) {
-		d, _ := ctx.Next()
-		if !isHexDigit(d) {
-			ctx.SetPos(start - 2)
-			panic(ctx.parseIssue(lexMalformedHexEscape))
-		}
+		d, _ = ctx.Next()
+	}
+	if !isHexDigit(d) {
+		ctx.SetPos(start - 2)
+		panic(ctx.parseIssue(lexMalformedHexEscape))
 	}
 	r, _ := strconv.ParseInt(ctx.From(start), 16, 64)
 	buf.WriteByte(byte(r))
-- 
2.43.0


From 63005481323539f1a4ce57399c1258348bb8b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 16/40] fix: lookahead skipped a pending heredoc text and
 duplicated definitions

---
 parser/lexer.go  | 29 +++++++++++++++++++++++++----
 parser/parser.go | 12 +++++++-----
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 2d1fe1a..7c05273 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -324,6 +324,27 @@ type context struct {
 	definitions           []Definition
 }
 
+// lexPosition is a position that the lexer can be rewound to
+type lexPosition struct {
+	pos             int
+	nextLineStart   int
+	currentToken    int
+	beginningOfLine int
+}
+
+// mark returns the current position of the lexer
+func (ctx *context) mark() lexPosition {
+	return lexPosition{ctx.Pos(), ctx.nextLineStart, ctx.currentToken, ctx.beginningOfLine}
+}
+
+// rewind undoes all lexing since the given position was marked
+func (ctx *context) rewind(m lexPosition) {
+	ctx.SetPos(m.pos)
+	ctx.nextLineStart = m.nextLineStart
+	ctx.currentToken = m.currentToken
+	ctx.beginningOfLine = m.beginningOfLine
+}
+
 func (ctx *context) setToken(token int) {
 	ctx.currentToken = token
 	ctx.tokenValue = nil
@@ -419,10 +440,10 @@ func (ctx *context) nextToken() {
 		case '(':
 			// If token is first on line or only preceded by whitespace, then it is not start of parameters
 			// in a call.
-			savePos := ctx.Pos()
+			saved := ctx.mark()
 			ctx.SetPos(ctx.beginningOfLine)
 			_, firstNonWhite := ctx.skipWhite(false)
-			ctx.SetPos(savePos)
+			ctx.rewind(saved)
 			if firstNonWhite == start {
 				ctx.setToken(tokenWslp)
 			} else {
@@ -629,9 +650,9 @@ func (ctx *context) nextToken() {
 					// Empty parameter list
 					ctx.setToken(tokenPipeEnd)
 				} else {
-					pos := ctx.Pos()
+					saved := ctx.mark()
 					n, _ := ctx.skipWhite(false)
-					ctx.SetPos(pos)
+					ctx.rewind(saved)
 					if n == '{' || n == '>' || ctx.eppMode && (n == '%' || n == '-') {
 						// A lambda parameter list cannot start with either of these tokens so
 						// this must be the end (next is either block body or block return type declaration)
diff --git a/parser/parser.go b/parser/parser.go
index 33a5072..ecc411a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -983,7 +983,8 @@ func (ctx *context) caseOption() Expression {
 
 func (ctx *context) resourceExpression(start int, first Expression, form ResourceForm) (expr Expression) {
 	hashStart := ctx.tokenStartPos
-	bodiesStart := ctx.Pos()
+	bodiesStart := ctx.mark()
+	definitionCount := len(ctx.definitions)
 	ctx.nextToken()
 	titleStart := ctx.Pos()
 	var firstTitle Expression
@@ -995,8 +996,9 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 	}
 
 	if ctx.currentToken != tokenColon {
-		// Resource body without title
+		// Resource body without title. What has been parsed so far is discarded
 		ctx.SetPos(titleStart)
+		ctx.definitions = ctx.definitions[:definitionCount]
 		switch ctx.resourceShape(first) {
 		case `resource`:
 			// This is just LHS followed by a hash. It only makes sense when LHS is an identifier equal
@@ -1010,7 +1012,7 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 					// Handle the call here and set lexer position to where the next expression (the one starting
 					// with a curly brace) starts.
 					args := make([]Expression, 1)
-					ctx.SetPos(bodiesStart)
+					ctx.rewind(bodiesStart)
 					ctx.nextToken()
 					args[0] = ctx.factory.Hash(ctx.hashExpression(), ctx.locator, hashStart, ctx.Pos()-hashStart)
 					expr = ctx.factory.CallNamed(first, true, args, nil, ctx.locator, start, ctx.Pos()-start)
@@ -1021,12 +1023,12 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 			ctx.SetPos(start)
 			panic(ctx.parseIssue2(parseResourceWithoutTitle, issue.H{`name`: name}))
 		case `defaults`:
-			ctx.SetPos(bodiesStart)
+			ctx.rewind(bodiesStart)
 			ctx.nextToken()
 			ops := ctx.attributeOperations()
 			expr = ctx.factory.ResourceDefaults(form, first, ops, ctx.locator, start, ctx.Pos()-start)
 		case `override`:
-			ctx.SetPos(bodiesStart)
+			ctx.rewind(bodiesStart)
 			ctx.nextToken()
 			ops := ctx.attributeOperations()
 			expr = ctx.factory.ResourceOverride(form, first, ops, ctx.locator, start, ctx.Pos()-start)
-- 
2.43.0


From 0037f51caac3e8ed735698b322f6cbbf81de8063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 17/40] fix: the outcome of a parse depended on what the parser
 instance had parsed before

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index ecc411a..29e3c9b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -163,6 +163,10 @@ func (ctx *context) Parse(filename string, source string, singleExpression bool)
 	ctx.locator = &Locator{string: source, file: filename}
 	ctx.definitions = make([]Definition, 0, 8)
 	ctx.nextLineStart = -1
+	ctx.beginningOfLine = 0
+	ctx.tokenStartPos = 0
+	ctx.setToken(tokenEnd)
+	ctx.nameStack = nil
 
 	expr, err = ctx.parseTopExpression(filename, source, singleExpression)
 	if err == nil && !singleExpression {
-- 
2.43.0


From d46046ebc482b0127848b7f3d4894f62041a03d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 18/40] fix: the simple lexer restarted from the beginning at
 the first newline

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index 29e3c9b..7046f2c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -89,6 +89,7 @@ func NewSimpleLexer(filename string, source string) Lexer {
 		stringReader:          stringReader{text: source},
 		factory:               nil,
 		locator:               &Locator{string: source, file: filename},
+		nextLineStart:         -1,
 		handleBacktickStrings: false,
 		handleHexEscapes:      false,
 		tasks:                 false,
-- 
2.43.0


From 171ebe17259226010cee768162a2d55dbfb7ce0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 19/40] fix: interpolations not first in a string were located
 at the wrong place

---
 parser/lexer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 7c05273..1c882a6 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1065,12 +1065,12 @@ func (ctx *context) consumeDelimitedString(delimiter rune, delimiterStart int, i
 
 			case delimiter:
 				buf.WriteRune(delimiter)
-				ec, _ = ctx.Next()
+				ec, start = ctx.Next()
 				continue
 
 			default:
 				handler(buf, ctx, ec)
-				ec, _ = ctx.Next()
+				ec, start = ctx.Next()
 				continue
 			}
 
@@ -1085,7 +1085,7 @@ func (ctx *context) consumeDelimitedString(delimiter rune, delimiterStart int, i
 			fallthrough
 		default:
 			buf.WriteRune(ec)
-			ec, _ = ctx.Next()
+			ec, start = ctx.Next()
 		}
 	}
 }
-- 
2.43.0


From afd79b9ad2878906ce771dcb6c4918fa58bb92d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 20/40] fix: a string with interpolation was located at its
 first or last interpolation

---
 parser/lexer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 1c882a6..6f0a263 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1293,6 +1293,7 @@ func (ctx *context) consumeDoubleQuotedString() {
 	if ctx.factory != nil {
 		segments = make([]Expression, 0, 4)
 	}
+	start := ctx.tokenStartPos
 	segments = ctx.consumeDelimitedString('"', ctx.Pos()-1, segments,
 		func(buf *bytes.Buffer, ctx *context, ec rune) {
 			switch ec {
@@ -1339,14 +1340,14 @@ func (ctx *context) consumeDoubleQuotedString() {
 	} else {
 		segments = append(segments, ctx.factory.String(ctx.tokenValue.(string), ctx.locator, ctx.tokenStartPos, ctx.Pos()-ctx.tokenStartPos))
 	}
-	firstPos := segments[0].ByteOffset()
+	ctx.tokenStartPos = start // interpolation moves it
 	if len(segments) == 1 {
 		if _, ok := segments[0].(*LiteralString); ok {
 			// Avoid turning a single string literal into a concatenated string
 			return
 		}
 	}
-	ctx.settokenValue(tokenConcatenatedString, ctx.factory.ConcatenatedString(segments, ctx.locator, firstPos, ctx.Pos()-firstPos))
+	ctx.settokenValue(tokenConcatenatedString, ctx.factory.ConcatenatedString(segments, ctx.locator, start, ctx.Pos()-start))
 }
 
 func (ctx *context) consumeSingleQuotedString() {
@@ -1579,17 +1580,20 @@ findEndOfText:
 		if quoteStart >= 0 && ctx.factory != nil {
 			segments = make([]Expression, 0, 4)
 		}
+		ctx.tokenStartPos = heredocContentStart
 		heredoc, segments = ctx.applyEscapes(heredocContentEnd, indentStrip, flags, segments)
 		if len(segments) > 0 {
 			if len(heredoc) > 0 {
 				segments = append(segments, ctx.factory.String(heredoc, ctx.locator, ctx.tokenStartPos, ctx.Pos()-ctx.tokenStartPos))
 			}
+			ctx.tokenStartPos = heredocStart   // interpolation moves it
 			ctx.SetPos(heredocTagEnd)          // Normal parsing continues here
 			ctx.nextLineStart = heredocEnd + 1 // and next newline will jump to here
 			textExpr := ctx.factory.ConcatenatedString(segments, ctx.locator, heredocContentStart, heredocContentEnd-heredocContentStart)
 			ctx.settokenValue(tokenHeredoc, ctx.factory.Heredoc(textExpr, syntax, ctx.locator, heredocStart, heredocContentEnd-heredocStart))
 			return
 		}
+		ctx.tokenStartPos = heredocStart
 	} else {
 		ctx.SetPos(heredocContentEnd)
 		heredoc = ctx.From(heredocContentStart)
-- 
2.43.0


From 253c2361978d772b34a34e810de960c494bc4b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 21/40] fix: "$name" was rejected when $name is a valid
 variable that is not a valid name, e.g. "$1", "$class", "$a-b"

---
 parser/lexer.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 6f0a263..0ebd42b 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1234,16 +1234,19 @@ func (ctx *context) interpolate(start int) Expression {
 		return ctx.factory.Text(expr, ctx.locator, start, ctx.Pos()-start)
 	}
 
-	// Not delimited by curly braces. Must be a single identifier then
-	ctx.setToken(tokenVariable)
-	if c == ':' || isLowercaseLetter(c) || isDecimalDigit(c) {
-		ctx.nextToken()
-	}
-	if ctx.currentToken != tokenIdentifier {
+	// Not delimited by curly braces. Must be a single variable then
+	if !(c == ':' || isLowercaseLetter(c) || isDecimalDigit(c)) {
 		ctx.SetPos(start)
 		panic(ctx.parseIssue(lexMalformedInterpolation))
 	}
-	textExpr := ctx.factory.QualifiedName(ctx.tokenValue.(string), ctx.locator, start+1, ctx.Pos()-(start+1))
+	ctx.SetPos(start)
+	ctx.nextToken()
+	var textExpr Expression
+	if name, ok := ctx.tokenValue.(string); ok {
+		textExpr = ctx.factory.QualifiedName(name, ctx.locator, start+1, ctx.Pos()-(start+1))
+	} else {
+		textExpr = ctx.factory.Integer(ctx.tokenValue.(int64), 10, ctx.locator, start+1, ctx.Pos()-(start+1))
+	}
 	return ctx.factory.Text(ctx.factory.Variable(textExpr, ctx.locator, start, ctx.Pos()-start), ctx.locator, start, ctx.Pos()-start)
 }
 
-- 
2.43.0


From 6cb388567d9a5dadd5edf3eb3d704ed75b8716e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 22/40] fix: an empty heredoc with suppressed newline crashed
 the parser

---
 parser/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 0ebd42b..15ee26e 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1562,9 +1562,9 @@ findEndOfText:
 				heredocEnd = n
 				if c == '\n' || c == 0 {
 					heredocContentEnd = lineStart
-					if suppressLastNL {
+					if suppressLastNL && heredocContentEnd > heredocContentStart {
 						heredocContentEnd--
-						if expr[heredocContentEnd-1] == '\r' {
+						if heredocContentEnd > heredocContentStart && expr[heredocContentEnd-1] == '\r' {
 							heredocContentEnd--
 						}
 					}
-- 
2.43.0


From 70722e13c0aa2134ccba5128928bb2d4d9295336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 23/40] fix: a heredoc line starting with | or - changed margin
 or newline suppression at the end tag

---
 parser/lexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 15ee26e..ac70d60 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1530,6 +1530,8 @@ findEndOfText:
 
 		case '\n':
 			lineStart := ctx.Pos()
+			indentStrip = 0
+			suppressLastNL = false
 			c, n = ctx.skipWhiteInLiteral()
 			switch c {
 			case 0:
-- 
2.43.0


From 80859226a0ba726ee367aee895d04d465ead4cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 24/40] fix: a heredoc that ends at the end of the source moved
 the lexer beyond the source

---
 parser/lexer.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index ac70d60..1580639 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1515,7 +1515,7 @@ findStartOfText:
 
 	suppressLastNL := false
 	heredocContentEnd := -1
-	heredocEnd := -1
+	heredocNextLine := -1
 	indentStrip := 0
 	tagLen := len(tag)
 
@@ -1561,8 +1561,8 @@ findEndOfText:
 				// tag found if rest of line is whitespace
 				ctx.SetPos(tagEnd)
 				c, n = ctx.skipWhiteInLiteral()
-				heredocEnd = n
 				if c == '\n' || c == 0 {
+					heredocNextLine = ctx.Pos() // just after the newline unless at EOS
 					heredocContentEnd = lineStart
 					if suppressLastNL && heredocContentEnd > heredocContentStart {
 						heredocContentEnd--
@@ -1591,9 +1591,9 @@ findEndOfText:
 			if len(heredoc) > 0 {
 				segments = append(segments, ctx.factory.String(heredoc, ctx.locator, ctx.tokenStartPos, ctx.Pos()-ctx.tokenStartPos))
 			}
-			ctx.tokenStartPos = heredocStart   // interpolation moves it
-			ctx.SetPos(heredocTagEnd)          // Normal parsing continues here
-			ctx.nextLineStart = heredocEnd + 1 // and next newline will jump to here
+			ctx.tokenStartPos = heredocStart    // interpolation moves it
+			ctx.SetPos(heredocTagEnd)           // Normal parsing continues here
+			ctx.nextLineStart = heredocNextLine // and next newline will jump to here
 			textExpr := ctx.factory.ConcatenatedString(segments, ctx.locator, heredocContentStart, heredocContentEnd-heredocContentStart)
 			ctx.settokenValue(tokenHeredoc, ctx.factory.Heredoc(textExpr, syntax, ctx.locator, heredocStart, heredocContentEnd-heredocStart))
 			return
@@ -1604,8 +1604,8 @@ findEndOfText:
 		heredoc = ctx.From(heredocContentStart)
 	}
 
-	ctx.SetPos(heredocTagEnd)          // Normal parsing continues here
-	ctx.nextLineStart = heredocEnd + 1 // and next newline will jump to here
+	ctx.SetPos(heredocTagEnd)           // Normal parsing continues here
+	ctx.nextLineStart = heredocNextLine // and next newline will jump to here
 	if ctx.factory != nil {
 		textExpr := ctx.factory.String(heredoc, ctx.locator, heredocContentStart, heredocContentEnd-heredocContentStart)
 		ctx.settokenValue(tokenHeredoc, ctx.factory.Heredoc(textExpr, syntax, ctx.locator, heredocStart, heredocContentEnd-heredocStart))
-- 
2.43.0


From bea9eb1dea0f0b7b89323a1c645ec0cfd496e522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 25/40] fix: a comment or division after a heredoc tag lost
 characters, or the first line of the text

---
 parser/lexer.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 1580639..0770e69 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1486,15 +1486,18 @@ findStartOfText:
 			panic(ctx.parseIssue(lexHeredocUnterminated))
 
 		case '#':
-			c, _ = ctx.skipWhite(true)
+			_, n = ctx.skipWhite(true)
+			ctx.SetPos(n)
+			c, sz = ctx.Peek()
 
 		case '/':
 			n = ctx.Pos()
 			ctx.Advance(sz)
-			c, _ = ctx.Next()
-			if c == '*' {
+			if c, sz = ctx.Peek(); c == '*' {
 				ctx.SetPos(n) // rewind to comment start
-				c, _ = ctx.skipWhite(true)
+				_, n = ctx.skipWhite(true)
+				ctx.SetPos(n)
+				c, sz = ctx.Peek()
 			}
 
 		case '\n':
-- 
2.43.0


From 88283e3eefed6153f992ca7d6d98b7d9ea1f9d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 26/40] fix: a literal hash with an array or hash as key
 crashed ToLiteral and the validator

---
 literal/literal.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/literal/literal.go b/literal/literal.go
index 2fee078..ab32d7d 100644
--- a/literal/literal.go
+++ b/literal/literal.go
@@ -38,7 +38,13 @@ func toLiteral(e parser.Expression) interface{} {
 		result := make(map[interface{}]interface{}, len(entries))
 		for _, entry := range entries {
 			kh := entry.(*parser.KeyedEntry)
-			result[toLiteral(kh.Key())] = toLiteral(kh.Value())
+			key := toLiteral(kh.Key())
+			switch key.(type) {
+			case []interface{}, map[interface{}]interface{}:
+				// Not possible to use as key in a map
+				panic(notLiteral)
+			}
+			result[key] = toLiteral(kh.Value())
 		}
 		return result
 	case *parser.ConcatenatedString:
-- 
2.43.0


From f6f73f6d08bd17bcce19b3ea9af3e2c5571e3eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 27/40] fix: PN format dropped zeroes from the exponent of a
 float, e.g. 1e10 became 1e+1

---
 pn/pn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pn/pn.go b/pn/pn.go
index 7ab8a12..20c7c76 100644
--- a/pn/pn.go
+++ b/pn/pn.go
@@ -248,7 +248,7 @@ func (pn *literalPN) AsParameters() []PN {
 
 // Strip zeroes between last significant digit and end or exponent. The
 // zero following the decimal point is considered significant.
-var StripTrailingZeroes = regexp.MustCompile(`\A(.*(?:\.0|[1-9]))0+(e[+-]?\d+)?\z`)
+var StripTrailingZeroes = regexp.MustCompile(`\A([^e]*(?:\.0|[1-9]))0+(e[+-]?\d+)?\z`)
 
 func (pn *literalPN) Format(b *bytes.Buffer) {
 	switch pn.val.(type) {
-- 
2.43.0


From 6238fed5ff1e982e618acb37bce0fc67618fc941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 28/40] fix: parse command crashed on an unreadable file and on
 an invalid strictness

---
 parse/parser.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parse/parser.go b/parse/parser.go
index 9f48301..2a9cd7a 100644
--- a/parse/parser.go
+++ b/parse/parser.go
@@ -36,7 +36,15 @@ func main() {
 	fileName := args[0]
 	content, err := ioutil.ReadFile(fileName)
 	if err != nil {
-		panic(err)
+		pn.Fprintln(os.Stderr, err.Error())
+		os.Exit(1)
+	}
+
+	switch strings.ToLower(*strict) {
+	case ``, `off`, `warning`, `error`:
+	default:
+		pn.Fprintln(os.Stderr, `Invalid value for option -s: `+*strict)
+		os.Exit(1)
 	}
 
 	var result map[string]interface{}
-- 
2.43.0


From 099dd8c1119102754ffeb84c7549cdbb74e77b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 29/40] fix: parse command rejected every workflow and accepted
 catalog operations in tasks

---
 parse/parser.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/parse/parser.go b/parse/parser.go
index 2a9cd7a..067a1ef 100644
--- a/parse/parser.go
+++ b/parse/parser.go
@@ -78,7 +78,7 @@ func main() {
 			os.Exit(1)
 		}
 
-		v := validator.ValidatePuppet(expr, strictness)
+		v := validate(expr, strictness)
 		if len(v.Issues()) > 0 {
 			severity := issue.Severity(issue.SeverityIgnore)
 			issues := make([]interface{}, len(v.Issues()))
@@ -108,7 +108,7 @@ func main() {
 		os.Exit(1)
 	}
 
-	v := validator.ValidatePuppet(expr, strictness)
+	v := validate(expr, strictness)
 	if len(v.Issues()) > 0 {
 		severity := issue.Severity(issue.SeverityIgnore)
 		for _, i := range v.Issues() {
@@ -129,6 +129,18 @@ func main() {
 	}
 }
 
+// validate using the validator for the language that is parsed
+func validate(expr parser.Expression, strictness validator.Strictness) validator.Validator {
+	switch {
+	case *workflow:
+		return validator.ValidateWorkflow(expr)
+	case *tasks:
+		return validator.ValidateTasks(expr)
+	default:
+		return validator.ValidatePuppet(expr, strictness)
+	}
+}
+
 func emitJson(value interface{}) {
 	b := bytes.NewBufferString(``)
 	json.ToJson(value, b)
-- 
2.43.0


From c9cceff5ba8594c5031468fdb235fd90740f793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 30/40] fix: ParserValidator crashed on a source that is not
 valid unicode

---
 validator/issues.go    | 3 +++
 validator/validator.go | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/validator/issues.go b/validator/issues.go
index c670c7d..907d8ba 100644
--- a/validator/issues.go
+++ b/validator/issues.go
@@ -30,6 +30,7 @@ const (
 	ValidateIllegalQueryExpression          = `VALIDATE_ILLEGAL_QUERY_EXPRESSION`
 	ValidateIllegalRegexpTypeMapping        = `VALIDATE_ILLEGAL_REGEXP_TYPE_MAPPING`
 	ValidateIllegalSingleTypeMapping        = `VALIDATE_ILLEGAL_SINGLE_TYPE_MAPPING`
+	ValidateInvalidSource                   = `VALIDATE_INVALID_SOURCE`
 	ValidateInvalidStepStyle                = `VALIDATE_INVALID_STEP_STYLE`
 	ValidateMultipleAttributesUnfold        = `VALIDATE_MULTIPLE_ATTRIBUTES_UNFOLD`
 	ValidateNotAbsoluteTopLevel             = `VALIDATE_NOT_ABSOLUTE_TOP_LEVEL`
@@ -116,6 +117,8 @@ func init() {
 		`Illegal type mapping. Expected a Type on the left side, got %{expression}`,
 		issue.HF{`expression`: issue.AnOrA})
 
+	issue.Hard(ValidateInvalidSource, `Invalid source: %{detail}`)
+
 	issue.Hard(ValidateInvalidStepStyle, `Expected one of 'for', 'function', 'guard', 'resource', or 'workflow'. Got '%{style}'`)
 
 	issue.Hard(ValidateMultipleAttributesUnfold, `Unfolding of attributes from Hash can only be used once per resource body`)
diff --git a/validator/validator.go b/validator/validator.go
index fa2d652..973df8b 100644
--- a/validator/validator.go
+++ b/validator/validator.go
@@ -176,7 +176,9 @@ func (pv *parserValidator) Parse(filename string, source string) (parser.Express
 		if i, ok := err.(issue.Reported); ok {
 			return nil, issue.NewResult([]issue.Reported{i})
 		}
-		panic(err.Error())
+		// Not valid as text, i.e. no line and position can be given
+		return nil, issue.NewResult([]issue.Reported{issue.NewReported(
+			ValidateInvalidSource, issue.SeverityError, issue.H{`detail`: err.Error()}, issue.NewLocation(filename, 0, 0))})
 	}
 	Validate(pv.validator, expr)
 	issues := pv.validator.Issues()
-- 
2.43.0


From b8c60e51dd48860789f84100a00ad1f2d2727125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 31/40] fix: the empty query of a collector was reported as an
 illegal query

---
 validator/checker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validator/checker.go b/validator/checker.go
index 475120b..a22298d 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -449,7 +449,7 @@ func (v *basicChecker) checkParameter(e *parser.Parameter) {
 }
 
 func (v *basicChecker) checkQueryExpression(e parser.QueryExpression) {
-	if e.Expr() != nil {
+	if e.Expr() != nil && !e.Expr().IsNop() {
 		v.checkQuery(e.Expr())
 	}
 }
-- 
2.43.0


From fb9312b5082209db6c1acac38a4ac2baa269546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 32/40] fix: the name of the parameter was missing in the
 message for an unsupported captures rest

---
 validator/checker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validator/checker.go b/validator/checker.go
index a22298d..c3eac04 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -667,7 +667,7 @@ func (v *basicChecker) checkNoCapture(container parser.Expression, parameters []
 	for _, parameter := range parameters {
 		if param, ok := parameter.(*parser.Parameter); ok && param.CapturesRest() {
 			v.Accept(ValidateCapturesRestNotSupported, param,
-				issue.H{`name`: param.Name(), `container`: container})
+				issue.H{`param`: param.Name(), `container`: container})
 		}
 	}
 }
-- 
2.43.0


From bde79f6c6938d2fe10026090c8d2a8c4da16740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 33/40] fix: plan definitions were not validated

---
 validator/checker.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/validator/checker.go b/validator/checker.go
index c3eac04..1bb3edf 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -174,6 +174,8 @@ func Check(v Checker, e parser.Expression) {
 		v.checkNodeDefinition(e)
 	case *parser.Parameter:
 		v.checkParameter(e)
+	case *parser.PlanDefinition:
+		v.checkFunctionDefinition(&e.FunctionDefinition)
 	case *parser.RelationshipExpression:
 		v.checkRelationshipExpression(e)
 	case *parser.ReservedWord:
-- 
2.43.0


From 07a97104caa1effd8c414887ce9a2293fd9038d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 34/40] fix: a plan definition presents itself as a function
 definition to the visitors of its contents

---
 parser/expression.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parser/expression.go b/parser/expression.go
index f43ad8f..00884f4 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -1571,6 +1571,18 @@ func (e *ParenthesizedExpression) ToUnaryExpression() UnaryExpression {
 
 func (e *ParenthesizedExpression) ToPN() pn.PN { return pn.Call(`paren`, e.Expr().ToPN()) }
 
+func (e *PlanDefinition) AllContents(path []Expression, visitor PathVisitor) {
+	DeepVisit(e, path, visitor, e.parameters, e.returnType, e.body)
+}
+
+func (e *PlanDefinition) Contents(path []Expression, visitor PathVisitor) {
+	ShallowVisit(e, path, visitor, e.parameters, e.returnType, e.body)
+}
+
+func (e *PlanDefinition) ToDefinition() Definition {
+	return e
+}
+
 func (e *PlanDefinition) ToPN() pn.PN {
 	return e.definitionPN(`plan`, ``, e.returnType)
 }
-- 
2.43.0


From 452bedc6227ea1970900b8ec666a053b36f035dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 35/40] fix: conversion to PN crashed on a parameter with a
 qualified or empty name

---
 pn/pn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pn/pn.go b/pn/pn.go
index 20c7c76..de08ff9 100644
--- a/pn/pn.go
+++ b/pn/pn.go
@@ -77,7 +77,8 @@ type (
 	}
 )
 
-var keyPattern = regexp.MustCompile(`^[A-Za-z_-][0-9A-Za-z_-]*$`)
+// keyPattern matches the keys of a map. Parameter names are keys too and may, until validated, be qualified or empty.
+var keyPattern = regexp.MustCompile(`^(?:(?:::)?[A-Za-z_-][0-9A-Za-z_-]*(?:::[0-9A-Za-z_-]+)*)?$`)
 
 // Represent the Reported using Puppet Extended S-Expression Notation (PN)
 func ReportedToPN(ri issue.Reported) PN {
-- 
2.43.0


From 63caf4bf2ccf01e10c6a28b247c252cd3223f967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 36/40] fix: plans, lambdas and other expressions without label
 of their own are misnamed in messages

---
 parser/label.go      |  4 ++++
 validator/checker.go | 11 +++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/parser/label.go b/parser/label.go
index 5762e09..2143c2c 100644
--- a/parser/label.go
+++ b/parser/label.go
@@ -17,6 +17,7 @@ func (e *AssignmentExpression) Label() string        { return fmt.Sprintf("'%s'
 func (e *AttributeOperation) Label() string          { return fmt.Sprintf("'%s' expression", e.operator) }
 func (e *AttributesOperation) Label() string         { return "AttributesOperation" }
 func (e *BlockExpression) Label() string             { return "Block Expression" }
+func (e *CallFunctionExpression) Label() string      { return "Function Call" }
 func (e *CallMethodExpression) Label() string        { return "Method Call" }
 func (e *CallNamedFunctionExpression) Label() string { return "Function Call" }
 func (e *CapabilityMapping) Label() string           { return "Capability Mapping" }
@@ -33,6 +34,7 @@ func (e *HostClassDefinition) Label() string         { return "Host Class Defini
 func (e *IfExpression) Label() string                { return "'if' statement" }
 func (e *InExpression) Label() string                { return "'in' expression" }
 func (e *KeyedEntry) Label() string                  { return "Hash Entry" }
+func (e *LambdaExpression) Label() string            { return "Lambda" }
 func (e *LiteralBoolean) Label() string              { return "Literal Boolean" }
 func (e *LiteralDefault) Label() string              { return "'default' expression" }
 func (e *LiteralFloat) Label() string                { return "Literal Float" }
@@ -49,6 +51,8 @@ func (e *Nop) Label() string                         { return "Nop" }
 func (e *NotExpression) Label() string               { return "'!' expression" }
 func (e *OrExpression) Label() string                { return "'or' expression" }
 func (e *Parameter) Label() string                   { return "Parameter Definition" }
+func (e *ParenthesizedExpression) Label() string     { return "Parenthesized Expression" }
+func (e *PlanDefinition) Label() string              { return "Plan Definition" }
 func (e *Program) Label() string                     { return "Program" }
 func (e *QualifiedName) Label() string               { return "Name" }
 func (e *QualifiedReference) Label() string          { return "Type-Name" }
diff --git a/validator/checker.go b/validator/checker.go
index 1bb3edf..bbc86c2 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -105,6 +105,7 @@ type Checker interface {
 	checkNamedDefinition(e parser.NamedDefinition)
 	checkNodeDefinition(e *parser.NodeDefinition)
 	checkParameter(e *parser.Parameter)
+	checkPlanDefinition(e *parser.PlanDefinition)
 	checkQueryExpression(e parser.QueryExpression)
 	checkRelationshipExpression(e *parser.RelationshipExpression)
 	checkReservedWord(e *parser.ReservedWord)
@@ -175,7 +176,7 @@ func Check(v Checker, e parser.Expression) {
 	case *parser.Parameter:
 		v.checkParameter(e)
 	case *parser.PlanDefinition:
-		v.checkFunctionDefinition(&e.FunctionDefinition)
+		v.checkPlanDefinition(e)
 	case *parser.RelationshipExpression:
 		v.checkRelationshipExpression(e)
 	case *parser.ReservedWord:
@@ -450,6 +451,12 @@ func (v *basicChecker) checkParameter(e *parser.Parameter) {
 	}
 }
 
+func (v *basicChecker) checkPlanDefinition(e *parser.PlanDefinition) {
+	v.checkNamedDefinition(e)
+	v.checkCaptureLast(e, e.Parameters())
+	v.checkReturnType(e, e.ReturnType())
+}
+
 func (v *basicChecker) checkQueryExpression(e parser.QueryExpression) {
 	if e.Expr() != nil && !e.Expr().IsNop() {
 		v.checkQuery(e.Expr())
@@ -765,7 +772,7 @@ func (v *basicChecker) checkTop(e parser.Expression, c parser.Expression) {
 		c = v.ContainerOf(c)
 		if _, ok := c.(*parser.Program); !ok {
 			switch e.(type) {
-			case *parser.FunctionDefinition, *parser.TypeAlias, *parser.TypeDefinition, *parser.TypeMapping:
+			case *parser.FunctionDefinition, *parser.PlanDefinition, *parser.TypeAlias, *parser.TypeDefinition, *parser.TypeMapping:
 				// not ok. These can never be nested in a block
 				v.Accept(ValidateNotAbsoluteTopLevel, e, issue.H{`value`: e})
 				return
-- 
2.43.0


From 87df1a2f9644a2bafbd470a74e28e337936f90f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:09 +0000
Subject: [PATCH 37/40] fix: nodes of an interpolation in braces are one byte
 short of the construct

---
 parser/lexer.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 0770e69..9410621 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1219,15 +1219,15 @@ func (ctx *context) interpolate(start int) Expression {
 			access := expr.(*AccessExpression)
 			if identifier, ok := access.operand.(*QualifiedName); ok {
 				expr = ctx.factory.Access(
-					ctx.factory.Variable(identifier, ctx.locator, start, identifier.ByteLength()+1),
-					access.keys, ctx.locator, start, access.ByteLength()+1)
+					ctx.factory.Variable(identifier, ctx.locator, start, lengthFrom(start, identifier)),
+					access.keys, ctx.locator, start, lengthFrom(start, access))
 			}
 		case *CallMethodExpression:
 			call := expr.(*CallMethodExpression)
 			if ne, ok := call.functor.(*NamedAccessExpression); ok {
 				modNe := ctx.convertNamedAccessLHS(ne, start)
 				if modNe != ne {
-					expr = ctx.factory.CallMethod(modNe, call.arguments, call.lambda, ctx.locator, start, call.ByteLength()+1)
+					expr = ctx.factory.CallMethod(modNe, call.arguments, call.lambda, ctx.locator, start, lengthFrom(start, call))
 				}
 			}
 		}
@@ -1250,29 +1250,34 @@ func (ctx *context) interpolate(start int) Expression {
 	return ctx.factory.Text(ctx.factory.Variable(textExpr, ctx.locator, start, ctx.Pos()-start), ctx.locator, start, ctx.Pos()-start)
 }
 
+// lengthFrom returns the length of what begins at start and ends where the given expression ends
+func lengthFrom(start int, expr Expression) int {
+	return expr.ByteOffset() + expr.ByteLength() - start
+}
+
 func (ctx *context) convertNamedAccessLHS(expr *NamedAccessExpression, start int) Expression {
 	switch lhs := expr.lhs.(type) {
 	case *QualifiedName:
 		return ctx.factory.NamedAccess(
-			ctx.factory.Variable(lhs, ctx.locator, start, lhs.ByteLength()+1),
-			expr.rhs, ctx.locator, start, expr.ByteLength()+1)
+			ctx.factory.Variable(lhs, ctx.locator, start, lengthFrom(start, lhs)),
+			expr.rhs, ctx.locator, start, lengthFrom(start, expr))
 	case *AccessExpression:
 		var lhe Expression = lhs
 		if identifier, ok := lhs.operand.(*QualifiedName); ok {
 			lhe = ctx.factory.Access(
-				ctx.factory.Variable(identifier, ctx.locator, start, identifier.ByteLength()+1),
-				lhs.keys, ctx.locator, start, lhs.ByteLength()+1)
+				ctx.factory.Variable(identifier, ctx.locator, start, lengthFrom(start, identifier)),
+				lhs.keys, ctx.locator, start, lengthFrom(start, lhs))
 		}
-		return ctx.factory.NamedAccess(lhe, expr.rhs, ctx.locator, start, expr.ByteLength()+1)
+		return ctx.factory.NamedAccess(lhe, expr.rhs, ctx.locator, start, lengthFrom(start, expr))
 	case *NamedAccessExpression:
 		return ctx.factory.NamedAccess(
 			ctx.convertNamedAccessLHS(lhs, start),
-			expr.rhs, ctx.locator, start, expr.ByteLength()+1)
+			expr.rhs, ctx.locator, start, lengthFrom(start, expr))
 	case *CallMethodExpression:
 		lhe := ctx.factory.CallMethod(
 			ctx.convertNamedAccessLHS(lhs.functor.(*NamedAccessExpression), start),
-			lhs.arguments, lhs.lambda, ctx.locator, start, lhs.ByteLength()+1).(*CallMethodExpression)
-		return ctx.factory.NamedAccess(lhe, expr.rhs, ctx.locator, start, expr.ByteLength()+1)
+			lhs.arguments, lhs.lambda, ctx.locator, start, lengthFrom(start, lhs)).(*CallMethodExpression)
+		return ctx.factory.NamedAccess(lhe, expr.rhs, ctx.locator, start, lengthFrom(start, expr))
 	}
 	return expr
 }
-- 
2.43.0


From 1629ed9958c56ad78223f3b1f5a71bcc719726df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:43 +0000
Subject: [PATCH 38/40] fix: let a validator that is not made by this package
 demote issues

AbstractValidator.Demote wrote to a map that only NewChecker makes, so that
it panicked for all other validators that embed AbstractValidator.
---
 validator/validator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/validator/validator.go b/validator/validator.go
index 973df8b..805b9c5 100644
--- a/validator/validator.go
+++ b/validator/validator.go
@@ -81,6 +81,9 @@ func (v *AbstractValidator) Demote(code issue.Code, severity issue.Severity) {
 	if !i.IsDemotable() {
 		panic(fmt.Sprintf(`Attempt to demote the hard issue '%s' to %s`, code, severity.String()))
 	}
+	if v.severities == nil {
+		v.severities = make(map[issue.Code]issue.Severity, 5)
+	}
 	v.severities[code] = severity
 }
 
-- 
2.43.0


From df42eb0e9f85e34292bd338df7e0deb102d88e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:21 +0000
Subject: [PATCH 39/40] fix: A lexer that is told to move knows which line it
 moves to

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 7046f2c..1441d34 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -107,6 +107,11 @@ func (l *lexer) NextToken() int {
 
 func (l *lexer) SetPos(pos int) {
 	l.context.SetPos(pos)
+	bol := 0
+	if pos <= len(l.context.text) {
+		bol = strings.LastIndexByte(l.context.text[:pos], '\n') + 1
+	}
+	l.context.beginningOfLine = bol
 }
 
 func (l *lexer) SyntaxError() {
-- 
2.43.0


From ee83c131419f4fc21b553001cdd98187f62c4d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:47 +0000
Subject: [PATCH 40/40] fix: nodes of one tree raced for the line index when
 several goroutines asked for lines

---
 parser/expression.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/parser/expression.go b/parser/expression.go
index 00884f4..f77a944 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"sort"
 	"strings"
+	"sync"
 	"unicode/utf8"
 
 	"github.com/lyraproj/issue/issue"
@@ -325,9 +326,10 @@ type (
 	}
 
 	Locator struct {
-		string    string
-		file      string
-		lineIndex []int
+		string        string
+		file          string
+		lineIndex     []int
+		lineIndexOnce sync.Once
 	}
 
 	MatchExpression struct {
@@ -582,7 +584,8 @@ func (e *Locator) PosOnLine(offset int) int {
 }
 
 func (e *Locator) getLineIndex() []int {
-	if e.lineIndex == nil {
+	// Nodes of one tree may be asked for their lines by several goroutines
+	e.lineIndexOnce.Do(func() {
 		li := append(make([]int, 0, 32), 0)
 		for i := 0; i < len(e.string); i++ {
 			if e.string[i] == '\n' {
@@ -590,7 +593,7 @@ func (e *Locator) getLineIndex() []int {
 			}
 		}
 		e.lineIndex = li
-	}
+	})
 	return e.lineIndex
 }
 
-- 
2.43.0

