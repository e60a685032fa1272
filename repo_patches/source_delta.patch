From 5813c8cfbc4348ff503c1a6a078ec053e427a0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 01/92] fix: do not lex a '.' as a number because of what
 follows it

The check for a number starting with '.' looked at the three code points after
the '.', so that inputs like '.-5' or '..5' produced an empty number token
without consuming anything, and the parser looped forever.
---
 internal/lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index d6b5193..f0bb276 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -249,7 +249,7 @@ func (l *Lexer) Next() {
 			l.step()
 
 		case '.':
-			if startsNumber(l.peek(0), l.peek(1), l.peek(2)) {
+			if startsNumber(l.ch, l.peek(0), l.peek(1)) {
 				l.nextNumericToken()
 				return
 			}
-- 
2.43.0


From 1a43fdbc0adc8745380b69aed8b3a76ef2a05943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 02/92] fix: consume <!-- and --> tokens

The lexer returned CDO and CDC without stepping over them, so that any
stylesheet containing them never finished compiling.
---
 internal/lexer/lexer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index f0bb276..a5676af 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -174,6 +174,9 @@ func (l *Lexer) Next() {
 			}
 
 			if p0, p1 := l.peek(0), l.peek(1); p0 == '-' && p1 == '>' {
+				l.step()
+				l.step()
+				l.step()
 				l.Current = CDC
 				return
 			}
@@ -187,6 +190,10 @@ func (l *Lexer) Next() {
 
 		case '<':
 			if p0, p1, p2 := l.peek(0), l.peek(1), l.peek(2); p0 == '!' && p1 == '-' && p2 == '-' {
+				l.step()
+				l.step()
+				l.step()
+				l.step()
 				l.Current = CDO
 				return
 			}
-- 
2.43.0


From 794c15792ccc413462375d4fe39d092616b8ddae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 03/92] fix: consume the escaped code point of an escape

An escape of a non-hex code point (.sm\:flex, .w-1\/2, url(a\)b)) ended the
name or url before the escaped code point. Hex escapes are one to six digits
with one optional whitespace after all of them, not after each.
---
 internal/lexer/lexer.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index a5676af..ca7f6b2 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -576,11 +576,18 @@ func (l *Lexer) nextName() {
 // the byte offsets as-is for transformation.
 func (l *Lexer) nextEscaped() {
 	l.step()
-	for i := 0; i < 5 && isHexDigit(l.ch); i++ {
-		l.step()
-		if isWhitespace(l.ch) {
+	if !isHexDigit(l.ch) {
+		if l.ch != -1 {
 			l.step()
 		}
+		return
+	}
+
+	for i := 0; i < 6 && isHexDigit(l.ch); i++ {
+		l.step()
+	}
+	if isWhitespace(l.ch) {
+		l.step()
 	}
 }
 
-- 
2.43.0


From cd8ce563e96b34b7e3cd2b1e12e5e12dde8bd6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:40 +0000
Subject: [PATCH 04/92] fix: do not end a string at an escaped quote

The code point after a backslash was left for the next iteration, so that
"a\"b" ended at the escaped quote.
---
 internal/lexer/lexer.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index ca7f6b2..db7c079 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -327,9 +327,7 @@ func (l *Lexer) Next() {
 					case -1:
 						l.Errorf("unexpected EOF")
 					default:
-						if startsEscape(l.ch, l.peek(0)) {
-							l.nextEscaped()
-						}
+						l.step()
 					}
 				case -1:
 					l.Errorf("unexpected EOF")
-- 
2.43.0


From 1c77bc3789c320c5495fefc3f6369c58e66cccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 05/92] fix: treat lone carriage returns and form feeds as
 newlines

A carriage return that was not followed by a line feed was replaced by the code
point after it, which at the end of the file even became an identifier. Form
feeds were not whitespace at all. Both are newlines in CSS.
---
 internal/lexer/lexer.go    | 13 +++++++++----
 internal/sources/source.go |  2 +-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index db7c079..f56775d 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -83,13 +83,15 @@ func (l *Lexer) step() {
 	}
 
 	// "Convert" to newline. https://www.w3.org/TR/css-syntax-3/#newline
-	if cp == '\r' {
+	if cp == '\r' || cp == '\f' {
 		next, nextSize := utf8.DecodeRuneInString(l.source.Content[l.pos+size:])
-		if next == '\n' {
-			l.source.Lines = append(l.source.Lines, l.pos+size+nextSize)
+		if cp == '\f' || next != '\n' {
+			// Only \r\n is a two code point newline.
+			nextSize = 0
 		}
 
-		l.ch = next
+		l.source.Lines = append(l.source.Lines, l.pos+size+nextSize)
+		l.ch = '\n'
 		l.lastPos = l.pos
 		l.pos += size + nextSize
 		return
@@ -115,6 +117,9 @@ func (l *Lexer) peek(i int) rune {
 	if size == 0 {
 		return -1
 	}
+	if cp == '\r' || cp == '\f' {
+		return '\n'
+	}
 	return cp
 }
 
diff --git a/internal/sources/source.go b/internal/sources/source.go
index 3160d7b..121e751 100644
--- a/internal/sources/source.go
+++ b/internal/sources/source.go
@@ -38,7 +38,7 @@ func (s *Source) FullLine(loc ast.Span) ast.Span {
 
 	lineEnd := len(s.Content)
 	for i, ch := range s.Content[loc.Start:] {
-		if ch == '\n' {
+		if ch == '\n' || ch == '\r' || ch == '\f' {
 			lineEnd = i + loc.Start
 			break
 		}
-- 
2.43.0


From 2df2256bf510ba718036212eae64d2c58565e6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 06/92] fix: keep the line table sorted when the parser rewinds
 the lexer

Falling back to a raw declaration lexes the same text twice, which added its
lines twice and made every later source map line and error location wrong.
---
 internal/lexer/lexer.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index f56775d..af8dad4 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -68,10 +68,18 @@ func NewLexer(source *sources.Source) *Lexer {
 	return l
 }
 
+// addLine records the offset of the beginning of a line. The parser can rewind the
+// lexer, so the line may have been seen before.
+func (l *Lexer) addLine(offset int) {
+	if n := len(l.source.Lines); n == 0 || l.source.Lines[n-1] < offset {
+		l.source.Lines = append(l.source.Lines, offset)
+	}
+}
+
 // step consumes the next unicode rune and stores it.
 func (l *Lexer) step() {
 	if l.pos == 0 {
-		l.source.Lines = append(l.source.Lines, l.pos)
+		l.addLine(l.pos)
 	}
 
 	cp, size := utf8.DecodeRuneInString(l.source.Content[l.pos:])
@@ -90,7 +98,7 @@ func (l *Lexer) step() {
 			nextSize = 0
 		}
 
-		l.source.Lines = append(l.source.Lines, l.pos+size+nextSize)
+		l.addLine(l.pos + size + nextSize)
 		l.ch = '\n'
 		l.lastPos = l.pos
 		l.pos += size + nextSize
@@ -98,7 +106,7 @@ func (l *Lexer) step() {
 	}
 
 	if cp == '\n' {
-		l.source.Lines = append(l.source.Lines, l.pos+size)
+		l.addLine(l.pos + size)
 	}
 
 	l.ch = cp
-- 
2.43.0


From fd930316b1c93f00a927f6c335ca491763de225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 07/92] fix: only treat 0-9 as digits
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Other unicode digits are name code points in CSS, but they were lexed as
numbers, e.g. the class in .٣ {}.
---
 internal/lexer/lexer.go  | 23 +++++++++++------------
 internal/lexer/tokens.go |  9 ++++++---
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index af8dad4..5da1cfa 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -3,7 +3,6 @@
 package lexer
 
 import (
-	"unicode"
 	"unicode/utf8"
 
 	"github.com/stephen/cssc/internal/ast"
@@ -370,7 +369,7 @@ func (l *Lexer) Next() {
 				return
 			}
 
-			if unicode.IsDigit(l.ch) {
+			if isDigit(l.ch) {
 				l.nextNumericToken()
 				return
 			}
@@ -416,22 +415,22 @@ func startsEscape(p0, p1 rune) bool {
 // startsNumber implements https://www.w3.org/TR/css-syntax-3/#starts-with-a-number.
 func startsNumber(p0, p1, p2 rune) bool {
 	if p0 == '+' || p0 == '-' {
-		if unicode.IsDigit(p1) {
+		if isDigit(p1) {
 			return true
 		}
 
-		if p1 == '.' && unicode.IsDigit(p2) {
+		if p1 == '.' && isDigit(p2) {
 			return true
 		}
 
 		return false
 	}
 
-	if p0 == '.' && unicode.IsDigit(p1) {
+	if p0 == '.' && isDigit(p1) {
 		return true
 	}
 
-	return unicode.IsDigit(p0)
+	return isDigit(p0)
 }
 
 // nextNumericToken implements https://www.w3.org/TR/css-syntax-3/#consume-a-numeric-token
@@ -532,27 +531,27 @@ func (l *Lexer) nextNumber() {
 		l.step()
 	}
 
-	for unicode.IsDigit(l.ch) {
+	for isDigit(l.ch) {
 		l.step()
 	}
 
-	if l.ch == '.' && unicode.IsDigit(l.peek(0)) {
+	if l.ch == '.' && isDigit(l.peek(0)) {
 		l.step()
 		l.step()
 
-		for unicode.IsDigit(l.ch) {
+		for isDigit(l.ch) {
 			l.step()
 		}
 	}
 
-	if p0, p1 := l.peek(0), l.peek(1); (l.ch == 'e' || l.ch == 'E') && (unicode.IsDigit(p0) ||
-		((p0 == '+' || p0 == '-') && unicode.IsDigit(p1))) {
+	if p0, p1 := l.peek(0), l.peek(1); (l.ch == 'e' || l.ch == 'E') && (isDigit(p0) ||
+		((p0 == '+' || p0 == '-') && isDigit(p1))) {
 		l.step()
 		if l.ch == '+' || l.ch == '-' {
 			l.step()
 		}
 
-		for unicode.IsDigit(l.ch) {
+		for isDigit(l.ch) {
 			l.step()
 		}
 	}
diff --git a/internal/lexer/tokens.go b/internal/lexer/tokens.go
index 693353f..44c46f8 100644
--- a/internal/lexer/tokens.go
+++ b/internal/lexer/tokens.go
@@ -1,7 +1,5 @@
 package lexer
 
-import "unicode"
-
 // Token is the set of lexical tokens in CSS.
 type Token int
 
@@ -79,9 +77,14 @@ var tokens = [...]string{
 	RCurly: "}",
 }
 
+// isDigit implements https://www.w3.org/TR/css-syntax-3/#digit.
+func isDigit(r rune) bool {
+	return r >= '0' && r <= '9'
+}
+
 // isHexDigit implements https://www.w3.org/TR/css-syntax-3/#hex-digit.
 func isHexDigit(r rune) bool {
-	return unicode.IsDigit(r) || (r >= 'A' && r <= 'F') || (r >= 'a' && r <= 'f')
+	return isDigit(r) || (r >= 'A' && r <= 'F') || (r >= 'a' && r <= 'f')
 }
 
 // isWhitespace implements https://www.w3.org/TR/css-syntax-3/#whitespace.
-- 
2.43.0


From 5842a80ca7f90653ed61f548ddf21f232ddabcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:25 +0000
Subject: [PATCH 08/92] fix: recognize identifiers that start with an escape

startsIdentifier did not know about escapes, so that units like in 0\9 and names
like -\31 were split in two tokens. It also accepted digits as the start of an
identifier.
---
 internal/lexer/lexer.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 5da1cfa..bce99c0 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -193,7 +193,7 @@ func (l *Lexer) Next() {
 				return
 			}
 
-			if startsIdentifier(l.peek(0), l.peek(1), l.peek(2)) {
+			if startsIdentifier(l.ch, l.peek(0), l.peek(1)) {
 				l.nextIdentLikeToken()
 				return
 			}
@@ -391,11 +391,11 @@ func (l *Lexer) Next() {
 func startsIdentifier(p0, p1, p2 rune) bool {
 	switch p0 {
 	case '-':
-		return p1 == '-' || isNameCodePoint(p1) || startsEscape(p1, p2)
-	case '\n':
-		return false
+		return p1 == '-' || isNameStartCodePoint(p1) || startsEscape(p1, p2)
+	case '\\':
+		return startsEscape(p0, p1)
 	default:
-		return isNameCodePoint(p0)
+		return isNameStartCodePoint(p0)
 	}
 }
 
-- 
2.43.0


From 6e470c05762c2bfd930eacb83f435ca9e731e407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:26 +0000
Subject: [PATCH 09/92] fix: return an error when the first token of a file is
 broken

Creating the lexer reads the first token, but it happened before the recover was
in place, so that e.g. an unclosed comment at the start of a file panicked.
---
 internal/parser/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index fb568a9..79960bb 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -9,7 +9,7 @@ import (
 
 // Parse parses an input stylesheet.
 func Parse(source *sources.Source) (ss *ast.Stylesheet, err error) {
-	p := newParser(source)
+	var p *parser
 	defer func() {
 		if rErr := recover(); rErr != nil {
 			if errI, ok := rErr.(*lexer.Error); ok {
@@ -17,15 +17,16 @@ func Parse(source *sources.Source) (ss *ast.Stylesheet, err error) {
 				return
 			}
 
-			if errI, ok := rErr.(error); ok {
+			if errI, ok := rErr.(error); ok && p != nil {
 				panic(logging.LocationErrorf(source, p.lexer.TokenSpan(), "%v", errI))
 			}
 
 			// Re-panic unknown issues.
-			panic(err)
+			panic(rErr)
 		}
 	}()
 
+	p = newParser(source)
 	p.parse()
 	return p.ss, nil
 }
-- 
2.43.0


From a0d6f792239e57fa33192fe04f2ffaf8c0ce033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:27 +0000
Subject: [PATCH 10/92] fix: end raw declarations at the end of their block or
 file

Declarations that could not be parsed were skipped up to the next semicolon,
wherever it was: past the end of the block (a{b:c !x} d{e:f;}), inside of nested
blocks, or never, in which case parsing did not terminate.
---
 internal/parser/parser.go | 44 ++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 79960bb..d950d33 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -145,15 +145,45 @@ func (p *parser) parseRaw() *ast.Raw {
 		Span: p.lexer.TokenSpan(),
 	}
 
-	for p.lexer.Current != lexer.Semicolon {
-		p.lexer.Next()
-	}
-	raw.End = p.lexer.TokenEnd()
-	p.lexer.Next()
+	// closers is the stack of tokens that close the currently open blocks.
+	var closers []lexer.Token
+	for {
+		switch p.lexer.Current {
+		case lexer.EOF:
+			p.lexer.Errorf("unexpected EOF")
+
+		case lexer.Semicolon:
+			if len(closers) == 0 {
+				raw.End = p.lexer.TokenEnd()
+				raw.Value = p.source.Content[raw.Start:raw.End]
+				p.lexer.Next()
+				return raw
+			}
+
+		case lexer.LCurly:
+			closers = append(closers, lexer.RCurly)
+
+		case lexer.LParen, lexer.FunctionStart:
+			closers = append(closers, lexer.RParen)
+
+		case lexer.LBracket:
+			closers = append(closers, lexer.RBracket)
 
-	raw.Value = p.source.Content[raw.Start:raw.End]
+		case lexer.RCurly, lexer.RParen, lexer.RBracket:
+			if len(closers) > 0 && closers[len(closers)-1] == p.lexer.Current {
+				closers = closers[:len(closers)-1]
+				break
+			}
 
-	return raw
+			// The end of the declaration block. The caller consumes it.
+			if len(closers) == 0 && p.lexer.Current == lexer.RCurly {
+				raw.End = p.lexer.TokenSpan().Start
+				raw.Value = p.source.Content[raw.Start:raw.End]
+				return raw
+			}
+		}
+		p.lexer.Next()
+	}
 }
 
 func (p *parser) parseDeclaration() *ast.Declaration {
-- 
2.43.0


From 2fa4d101bbd6a703f3372c86f3092afca5ed9743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:28 +0000
Subject: [PATCH 11/92] fix: fall back to a raw declaration when a value is
 followed by garbage

A declaration ended at the first token that is not a value, and the rest was
parsed as another declaration, so that e.g. filter: progid:a(b) came out as two.
---
 internal/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index d950d33..bd68d3f 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -239,6 +239,9 @@ func (p *parser) parseDeclaration() *ast.Declaration {
 				if len(decl.Values) == 0 {
 					p.lexer.Errorf("declaration must have a value")
 				}
+				if p.lexer.Current != lexer.Semicolon && p.lexer.Current != lexer.RCurly {
+					p.lexer.Errorf("unexpected token: %s", p.lexer.Current.String())
+				}
 				if lastValueEnd := decl.Values[len(decl.Values)-1].Location().End; lastValueEnd > decl.End {
 					decl.End = lastValueEnd
 				}
-- 
2.43.0


From 15f4ad75b83ba367ae4ec3a9d08380c6e59fd4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 12/92] fix: only accept !important at the end of a declaration

Values after !important were moved in front of it.
---
 internal/parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index bd68d3f..9cb98ca 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -226,12 +226,15 @@ func (p *parser) parseDeclaration() *ast.Declaration {
 			}
 			p.lexer.Next()
 
-			if !isImportantString(p.lexer.CurrentString) {
+			if p.lexer.Current != lexer.Ident || !isImportantString(p.lexer.CurrentString) {
 				p.lexer.Errorf("expected !important, unexpected token: %s", p.lexer.CurrentString)
 			}
 			decl.End = p.lexer.TokenEnd()
 			p.lexer.Next()
 			decl.Important = true
+			if p.lexer.Current != lexer.Semicolon && p.lexer.Current != lexer.RCurly {
+				p.lexer.Errorf("unexpected token after !important: %s", p.lexer.Current.String())
+			}
 
 		default:
 			val := p.parseValue()
-- 
2.43.0


From fac42be61046644349f37de1a8a08fe6960fb9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 13/92] fix: do not cut functions off at the first token that
 is not a value

Delimiters in function arguments (rgb(0 0 0 / 50%), alpha(opacity=50)) closed
the function early and corrupted the rest of the declaration. Inside of math
functions such a token was retried forever.
---
 internal/parser/parser.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 9cb98ca..e451bd4 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -358,7 +358,11 @@ func (p *parser) parseMathProduct() ast.Value {
 
 func (p *parser) parseMathParenthesizedExpression() ast.Value {
 	if p.lexer.Current != lexer.LParen {
-		return p.parseValue()
+		val := p.parseValue()
+		if val == nil {
+			p.lexer.Errorf("expected value in math expression, but got %s", p.lexer.Current.String())
+		}
+		return val
 	}
 
 	loc := p.lexer.TokenSpan()
@@ -472,15 +476,21 @@ func (p *parser) parseValue() ast.Value {
 					Span: p.lexer.TokenSpan(),
 				})
 				p.lexer.Next()
+			case lexer.EOF:
+				p.lexer.Errorf("unexpected EOF")
 			default:
 				if fn.IsMath() {
 					fn.Arguments = append(fn.Arguments, p.parseMathExpression())
 					continue
 				}
+				if p.lexer.Current == lexer.Delim {
+					fn.Arguments = append(fn.Arguments, &ast.Raw{Span: p.lexer.TokenSpan(), Value: p.lexer.CurrentString})
+					p.lexer.Next()
+					continue
+				}
 				val := p.parseValue()
 				if val == nil {
-					// XXX: there's probably some backtracking to do here?
-					break arguments
+					p.lexer.Errorf("unexpected token in function: %s", p.lexer.Current.String())
 				}
 
 				fn.Arguments = append(fn.Arguments, val)
-- 
2.43.0


From dfac2bb0467c3b01482863ec9a00b96218e2d610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 14/92] fix: print spaces between function arguments

Arguments that are not separated by commas were printed without anything between
them, e.g. linear-gradient(to right, red 0%) as linear-gradient(toright,red0%).
---
 internal/printer/printer.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index b0a43a9..afef124 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -233,8 +233,17 @@ func (p *printer) print(in ast.Node) {
 	case *ast.Function:
 		p.s.WriteString(node.Name)
 		p.s.WriteRune('(')
-		for _, arg := range node.Arguments {
+		for i, arg := range node.Arguments {
 			p.print(arg)
+
+			// Like in declarations, values that are not separated by a comma need a space.
+			if i+1 < len(node.Arguments) {
+				_, isComma := arg.(*ast.Comma)
+				_, nextIsComma := node.Arguments[i+1].(*ast.Comma)
+				if !isComma && !nextIsComma {
+					p.s.WriteRune(' ')
+				}
+			}
 		}
 		p.s.WriteRune(')')
 
-- 
2.43.0


From bdcf1e7fe7cb7a8094c149df60b92948002f80f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 15/92] fix: keep single quotes around strings that contain
 double quotes

'"' was printed as """.
---
 internal/printer/printer.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index afef124..6f12027 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -123,6 +123,20 @@ func (p *printer) addMapping(loc ast.Span) {
 	p.lastWritten = p.s.Len()
 }
 
+// stringQuote returns the quote to use for a string's (still escaped) value. It is
+// a double quote, unless that would end the string early.
+func stringQuote(value string) rune {
+	for i := 0; i < len(value); i++ {
+		switch value[i] {
+		case '\\':
+			i++
+		case '"':
+			return '\''
+		}
+	}
+	return '"'
+}
+
 // print prints the current ast node to the printer output.
 func (p *printer) print(in ast.Node) {
 	switch node := in.(type) {
@@ -223,9 +237,10 @@ func (p *printer) print(in ast.Node) {
 		p.s.WriteRune('%')
 
 	case *ast.String:
-		p.s.WriteRune('"')
+		quote := stringQuote(node.Value)
+		p.s.WriteRune(quote)
 		p.s.WriteString(node.Value)
-		p.s.WriteRune('"')
+		p.s.WriteRune(quote)
 
 	case *ast.Identifier:
 		p.s.WriteString(node.Value)
-- 
2.43.0


From 6fdeb13a23a69bcf974aedfa4a14ee8bb313a40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:33 +0000
Subject: [PATCH 16/92] fix: print commas between keyframe selectors

---
 internal/printer/printer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 6f12027..7af5ba1 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -178,8 +178,12 @@ func (p *printer) print(in ast.Node) {
 		}
 
 	case *ast.KeyframeSelectorList:
-		for _, s := range node.Selectors {
+		for i, s := range node.Selectors {
 			p.print(s)
+
+			if i+1 < len(node.Selectors) {
+				p.s.WriteRune(',')
+			}
 		}
 
 	case *ast.QualifiedRule:
-- 
2.43.0


From 715b1b77a076126996f55ee833c748f67e4e9f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 17/92] fix: print the operator and modifier of attribute
 selectors

[a^="b" i] was printed as [a="b"].
---
 internal/printer/printer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 7af5ba1..863b37f 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -303,8 +303,13 @@ func (p *printer) print(in ast.Node) {
 		p.s.WriteRune('[')
 		p.s.WriteString(node.Property)
 		if node.Value != nil {
+			p.s.WriteString(node.PreOperator)
 			p.s.WriteRune('=')
 			p.print(node.Value)
+			if node.Modifier != "" {
+				p.s.WriteRune(' ')
+				p.s.WriteString(node.Modifier)
+			}
 		}
 		p.s.WriteRune(']')
 
-- 
2.43.0


From e3d8ea2c1808173a75a4f6be93a99fc1e8d31522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 18/92] fix: reject unknown attribute selector operators

Any delimiter was taken for =.
---
 internal/parser/selectors.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 45b875d..2f2cf6b 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -211,6 +211,9 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 		}
 		p.lexer.Expect(lexer.Delim)
 	default:
+		if p.lexer.Current == lexer.Delim && p.lexer.CurrentString != "=" {
+			p.lexer.Errorf("unexpected delimeter: %s", p.lexer.CurrentString)
+		}
 		p.lexer.Expect(lexer.Delim)
 	}
 
-- 
2.43.0


From 7668b966ff84f77f9b257bac727427db6d023925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:36 +0000
Subject: [PATCH 19/92] fix: keep the descendant combinator after an attribute
 selector

The token after ] was lexed without whitespace, so that [a] b became [a]b.
---
 internal/parser/selectors.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 2f2cf6b..b8ea426 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -51,9 +51,17 @@ func (p *parser) parseSelector() *ast.Selector {
 			p.lexer.Errorf("unexpected EOF")
 
 		case lexer.Whitespace:
-			s.Parts = append(s.Parts, &ast.Whitespace{Span: p.lexer.TokenSpan()})
+			whitespace := &ast.Whitespace{Span: p.lexer.TokenSpan()}
 			p.lexer.Next()
 
+			// Don't keep whitespace at the end of the selector after an attribute.
+			if len(s.Parts) > 0 && (p.lexer.Current == lexer.LCurly || p.lexer.Current == lexer.Comma || p.lexer.Current == lexer.RParen) {
+				if _, ok := s.Parts[len(s.Parts)-1].(*ast.AttributeSelector); ok {
+					break
+				}
+			}
+			s.Parts = append(s.Parts, whitespace)
+
 		case lexer.Ident:
 			s.Parts = append(s.Parts, &ast.TypeSelector{
 				Span: p.lexer.TokenSpan(),
@@ -197,6 +205,7 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 	p.lexer.Expect(lexer.Ident)
 	if p.lexer.Current == lexer.RBracket {
 		attr.End = p.lexer.TokenEnd()
+		p.lexer.RetainWhitespace = prev
 		p.lexer.Next()
 		return attr
 	}
@@ -230,6 +239,7 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 		p.lexer.Next()
 	}
 
+	p.lexer.RetainWhitespace = prev
 	p.lexer.Expect(lexer.RBracket)
 	return attr
 }
-- 
2.43.0


From 9fa48d9c261f66ec19097ec396187b9cb1680205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:37 +0000
Subject: [PATCH 20/92] fix: allow whitespace around the arguments of nth-*
 pseudo classes

---
 internal/parser/selectors.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index b8ea426..13b83fb 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -135,6 +135,7 @@ func (p *parser) parseSelector() *ast.Selector {
 				p.lexer.Next()
 
 				if pc.Name == "nth-child" || pc.Name == "nth-last-child" || pc.Name == "nth-of-type" || pc.Name == "nth-last-of-type" {
+					p.skipWhitespace()
 					switch p.lexer.Current {
 					case lexer.Number, lexer.Dimension:
 						pc.Arguments = p.parseANPlusB()
@@ -153,6 +154,7 @@ func (p *parser) parseSelector() *ast.Selector {
 						}
 						p.lexer.Next()
 					}
+					p.skipWhitespace()
 				} else {
 					pc.Arguments = p.parseSelectorList()
 				}
@@ -188,6 +190,13 @@ func (p *parser) parseSelector() *ast.Selector {
 	}
 }
 
+// skipWhitespace skips any retained whitespace.
+func (p *parser) skipWhitespace() {
+	for p.lexer.Current == lexer.Whitespace {
+		p.lexer.Next()
+	}
+}
+
 func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 	prev := p.lexer.RetainWhitespace
 	p.lexer.RetainWhitespace = false
-- 
2.43.0


From 8fdbad111ee5849c5f8210b4395d63ddc4f239cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 21/92] fix: print negative and zero An+B constants

:nth-child(-5) was printed as :nth-child(5) and :nth-child(0) as :nth-child().
---
 internal/printer/printer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 863b37f..785a33d 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -361,10 +361,14 @@ func (p *printer) print(in ast.Node) {
 			wrote = true
 		}
 		if node.B != "" && node.B != "0" {
-			if wrote {
+			if wrote || node.Operator == "-" {
 				p.s.WriteString(node.Operator)
 			}
 			p.s.WriteString(node.B)
+			wrote = true
+		}
+		if !wrote {
+			p.s.WriteRune('0')
 		}
 
 	case *ast.MediaQueryList:
-- 
2.43.0


From 34f1b02e0084b666eaaf253715bb4ad3e17e765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 22/92] fix: require exactly one prelude in rules

---
 internal/parser/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index e451bd4..6921a6b 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -93,11 +93,18 @@ func (p *parser) parseQualifiedRule(isKeyframes bool) *ast.QualifiedRule {
 			p.lexer.Errorf("unexpected EOF")
 
 		case lexer.LCurly:
+			if r.Prelude == nil {
+				p.lexer.Errorf("expected selector")
+			}
 			r.Block = p.parseDeclarationBlock()
 			r.End = r.Block.Location().End
 			return r
 
 		default:
+			if r.Prelude != nil {
+				p.lexer.Errorf("unexpected token: %s", p.lexer.Current.String())
+			}
+
 			if isKeyframes {
 				r.Prelude = p.parseKeyframeSelectorList()
 				continue
-- 
2.43.0


From 0d1ff886e646f0f33bc5f9b1ccd996184f8c8098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:43 +0000
Subject: [PATCH 23/92] fix: do not crash on @media without a query

---
 internal/parser/parser.go           | 4 +++-
 internal/transformer/transformer.go | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 6921a6b..58ea7c1 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -649,7 +649,9 @@ func (p *parser) parseMediaAtRule() {
 	}
 	p.lexer.Next()
 
-	r.Preludes = []ast.AtPrelude{p.parseMediaQueryList()}
+	if mq := p.parseMediaQueryList(); mq != nil {
+		r.Preludes = []ast.AtPrelude{mq}
+	}
 
 	block := &ast.QualifiedRuleBlock{
 		Span: p.lexer.TokenSpan(),
diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 771bca2..30220c1 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -219,8 +219,10 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 				}()
 
 			case "media":
-				mq := node.Preludes[0].(*ast.MediaQueryList)
-				mq.Queries = t.transformMediaQueries(mq.Queries)
+				if len(node.Preludes) > 0 {
+					mq := node.Preludes[0].(*ast.MediaQueryList)
+					mq.Queries = t.transformMediaQueries(mq.Queries)
+				}
 				rv = append(rv, node)
 
 			default:
-- 
2.43.0


From 6fdc9f7347a4b77b14b14d279313761630e0fa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 24/92] fix: do not crash on @custom-media without a query

---
 internal/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 58ea7c1..8c290c2 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -880,7 +880,7 @@ func (p *parser) parseCustomMediaAtRule() {
 
 	r.Preludes = append(r.Preludes, name)
 	queries := p.parseMediaQueryList()
-	if len(queries.Queries) != 1 {
+	if queries == nil || len(queries.Queries) != 1 {
 		p.lexer.Errorf("@custom-media rule requires a single media query argument")
 	}
 	r.Preludes = append(r.Preludes, queries.Queries[0])
-- 
2.43.0


From 070984acda2f19232a18cdf46a2f1adbecd4085b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 25/92] fix: require values in media features and accept ratios

---
 internal/parser/parser.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 8c290c2..c2c4fad 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -764,6 +764,20 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 		}
 
 		secondValue := p.parseValue()
+		if secondValue == nil {
+			p.lexer.Errorf("expected value in media feature")
+		}
+
+		// Ratios are two numbers, e.g. (aspect-ratio: 16/9).
+		if p.lexer.Current == lexer.Delim && p.lexer.CurrentString == "/" {
+			p.lexer.Next()
+			denominator := p.parseValue()
+			if denominator == nil {
+				p.lexer.Errorf("expected value in media feature")
+			}
+			ratio := ast.Span{Start: secondValue.Location().Start, End: denominator.Location().End}
+			secondValue = &ast.Raw{Span: ratio, Value: p.source.Content[ratio.Start:ratio.End]}
+		}
 
 		plain := &ast.MediaFeaturePlain{
 			Span:     startLoc,
@@ -783,6 +797,9 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 		r.Operator = p.parseMediaRangeOperator()
 
 		secondValue := p.parseValue()
+		if firstValue == nil || secondValue == nil {
+			p.lexer.Errorf("expected values on both sides of a media range operator")
+		}
 
 		maybeIdent, ok := secondValue.(*ast.Identifier)
 		if !ok {
@@ -812,6 +829,9 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 				p.lexer.Errorf("operators in a range must be the same")
 			}
 			r.RightValue = p.parseValue()
+			if r.RightValue == nil {
+				p.lexer.Errorf("expected value after media range operator")
+			}
 		}
 
 		r.End = p.lexer.TokenEnd()
-- 
2.43.0


From 9cf9fbf4928c72fa1bf05431879c44609db987bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:50 +0000
Subject: [PATCH 26/92] fix: end @import and @custom-media only at a semicolon
 or the end of the file

---
 internal/parser/parser.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index c2c4fad..4cb6978 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -585,6 +585,9 @@ func (p *parser) parseImportAtRule() {
 	if mq != nil {
 		imp.Preludes = append(imp.Preludes, mq)
 	}
+	if p.lexer.Current != lexer.Semicolon && p.lexer.Current != lexer.EOF {
+		p.lexer.Errorf("unexpected token in @import: %s", p.lexer.Current.String())
+	}
 
 	imp.End = imp.Preludes[len(imp.Preludes)-1].Location().End
 	p.ss.Nodes = append(p.ss.Nodes, imp)
@@ -682,10 +685,6 @@ func (p *parser) parseMediaQueryList() *ast.MediaQueryList {
 	}
 
 	for {
-		if p.lexer.Current == lexer.EOF {
-			p.lexer.Errorf("unexpected EOF")
-		}
-
 		q := p.parseMediaQuery()
 		if q != nil {
 			l.Queries = append(l.Queries, q)
@@ -714,9 +713,6 @@ func (p *parser) parseMediaQuery() *ast.MediaQuery {
 
 	for {
 		switch p.lexer.Current {
-		case lexer.EOF:
-			p.lexer.Errorf("unexpected EOF")
-
 		case lexer.LParen:
 			q.Parts = append(q.Parts, p.parseMediaFeature())
 
@@ -905,6 +901,9 @@ func (p *parser) parseCustomMediaAtRule() {
 	}
 	r.Preludes = append(r.Preludes, queries.Queries[0])
 	r.End = queries.Queries[0].End
+	if p.lexer.Current != lexer.Semicolon && p.lexer.Current != lexer.EOF {
+		p.lexer.Errorf("unexpected token in @custom-media: %s", p.lexer.Current.String())
+	}
 
 	p.ss.Nodes = append(p.ss.Nodes, r)
 }
-- 
2.43.0


From bd3a8e095e1cdc3d0f7434766e340b20d8015671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:51 +0000
Subject: [PATCH 27/92] fix: keep the preludes, statements and nested rules of
 at-rules

---
 internal/ast/ast.go       |   3 +-
 internal/ast/atrule.go    |   1 +
 internal/parser/parser.go | 115 ++++++++++++++++++++++++++++++--------
 3 files changed, 94 insertions(+), 25 deletions(-)

diff --git a/internal/ast/ast.go b/internal/ast/ast.go
index d73017f..378ec31 100644
--- a/internal/ast/ast.go
+++ b/internal/ast/ast.go
@@ -66,7 +66,8 @@ type Declarationish interface {
 type QualifiedRuleBlock struct {
 	Span
 
-	Rules []*QualifiedRule
+	// Rules is the list of rules, which are either qualified rules or at-rules.
+	Rules []Node
 }
 
 func (DeclarationBlock) isBlock()   {}
diff --git a/internal/ast/atrule.go b/internal/ast/atrule.go
index 243243a..ad25d89 100644
--- a/internal/ast/atrule.go
+++ b/internal/ast/atrule.go
@@ -13,6 +13,7 @@ type AtRule struct {
 
 func (String) isAtPrelude()     {}
 func (Identifier) isAtPrelude() {}
+func (Raw) isAtPrelude()        {}
 
 var _ AtPrelude = String{}
 var _ AtPrelude = Identifier{}
diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 4cb6978..9169c93 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -49,7 +49,7 @@ func (p *parser) parse() {
 	for p.lexer.Current != lexer.EOF {
 		switch p.lexer.Current {
 		case lexer.At:
-			p.parseAtRule()
+			p.ss.Nodes = append(p.ss.Nodes, p.parseAtRule())
 
 		case lexer.Semicolon:
 			p.lexer.Next()
@@ -510,28 +510,28 @@ func (p *parser) parseValue() ast.Value {
 	}
 }
 
-func (p *parser) parseAtRule() {
+func (p *parser) parseAtRule() *ast.AtRule {
 	switch p.lexer.CurrentString {
 	case "import":
-		p.parseImportAtRule()
+		return p.parseImportAtRule()
 
 	case "media":
-		p.parseMediaAtRule()
+		return p.parseMediaAtRule()
 
-	case "keyframes", "-webkit-keyframes", "-o-keyframes":
-		p.parseKeyframes()
+	case "keyframes", "-webkit-keyframes", "-moz-keyframes", "-ms-keyframes", "-o-keyframes":
+		return p.parseKeyframes()
 
 	case "custom-media":
-		p.parseCustomMediaAtRule()
+		return p.parseCustomMediaAtRule()
 
 	default:
-		p.parseGenericAtRule()
+		return p.parseGenericAtRule()
 	}
 }
 
 // parseImportAtRule parses an import at rule. It roughly implements
 // https://www.w3.org/TR/css-cascade-4/#at-import.
-func (p *parser) parseImportAtRule() {
+func (p *parser) parseImportAtRule() *ast.AtRule {
 	prelude := &ast.String{}
 
 	imp := &ast.AtRule{
@@ -590,12 +590,12 @@ func (p *parser) parseImportAtRule() {
 	}
 
 	imp.End = imp.Preludes[len(imp.Preludes)-1].Location().End
-	p.ss.Nodes = append(p.ss.Nodes, imp)
+	return imp
 }
 
 // parseKeyframes parses a keyframes at rule. It roughly implements
 // https://www.w3.org/TR/css-animations-1/#keyframes
-func (p *parser) parseKeyframes() {
+func (p *parser) parseKeyframes() *ast.AtRule {
 	r := &ast.AtRule{
 		Span: p.lexer.TokenSpan(),
 		Name: p.lexer.CurrentString,
@@ -631,11 +631,10 @@ func (p *parser) parseKeyframes() {
 			p.lexer.Errorf("unexpected EOF")
 
 		case lexer.RCurly:
-			p.ss.Nodes = append(p.ss.Nodes, r)
 			block.End = p.lexer.TokenEnd()
 			r.End = block.End
 			p.lexer.Next()
-			return
+			return r
 
 		default:
 			block.Rules = append(block.Rules, p.parseQualifiedRule(true))
@@ -645,7 +644,7 @@ func (p *parser) parseKeyframes() {
 
 // parseMediaAtRule parses a media at rule. It roughly implements
 // https://www.w3.org/TR/mediaqueries-4/#media.
-func (p *parser) parseMediaAtRule() {
+func (p *parser) parseMediaAtRule() *ast.AtRule {
 	r := &ast.AtRule{
 		Span: p.lexer.TokenSpan(),
 		Name: p.lexer.CurrentString,
@@ -656,10 +655,16 @@ func (p *parser) parseMediaAtRule() {
 		r.Preludes = []ast.AtPrelude{mq}
 	}
 
+	r.Block = p.parseRuleBlock()
+	r.End = r.Block.Location().End
+	return r
+}
+
+// parseRuleBlock parses a {} block of rules, e.g. the body of @media.
+func (p *parser) parseRuleBlock() *ast.QualifiedRuleBlock {
 	block := &ast.QualifiedRuleBlock{
 		Span: p.lexer.TokenSpan(),
 	}
-	r.Block = block
 	p.lexer.Expect(lexer.LCurly)
 	for {
 		switch p.lexer.Current {
@@ -667,11 +672,18 @@ func (p *parser) parseMediaAtRule() {
 			p.lexer.Errorf("unexpected EOF")
 
 		case lexer.RCurly:
-			p.ss.Nodes = append(p.ss.Nodes, r)
 			block.End = p.lexer.TokenEnd()
-			r.End = block.End
 			p.lexer.Next()
-			return
+			return block
+
+		case lexer.Semicolon:
+			p.lexer.Next()
+
+		case lexer.At:
+			if p.lexer.CurrentString == "import" || p.lexer.CurrentString == "custom-media" {
+				p.lexer.Errorf("@%s is only allowed at the top level", p.lexer.CurrentString)
+			}
+			block.Rules = append(block.Rules, p.parseAtRule())
 
 		default:
 			block.Rules = append(block.Rules, p.parseQualifiedRule(false))
@@ -880,7 +892,7 @@ func (p *parser) parseMediaRangeOperator() string {
 
 // parseCustomMediaAtRule parses a @custom-media rule.
 // See: https://www.w3.org/TR/mediaqueries-5/#custom-mq.
-func (p *parser) parseCustomMediaAtRule() {
+func (p *parser) parseCustomMediaAtRule() *ast.AtRule {
 	r := &ast.AtRule{
 		Span: p.lexer.TokenSpan(),
 		Name: p.lexer.CurrentString,
@@ -905,19 +917,74 @@ func (p *parser) parseCustomMediaAtRule() {
 		p.lexer.Errorf("unexpected token in @custom-media: %s", p.lexer.Current.String())
 	}
 
-	p.ss.Nodes = append(p.ss.Nodes, r)
+	return r
 }
 
-// parseGenericAtRule parses a generic atrule like @font-face.
-func (p *parser) parseGenericAtRule() {
+// parseGenericAtRule parses a generic atrule like @font-face or @supports. We don't
+// know the syntax of its prelude, so it is kept as it is in the source.
+func (p *parser) parseGenericAtRule() *ast.AtRule {
 	r := &ast.AtRule{
 		Span: p.lexer.TokenSpan(),
 		Name: p.lexer.CurrentString,
 	}
 	p.lexer.Next()
 
-	r.Block = p.parseDeclarationBlock()
+	r.End = r.Start + len("@") + len(r.Name)
+	if prelude := p.parseRawPrelude(); prelude != nil {
+		r.Preludes = append(r.Preludes, prelude)
+		r.End = prelude.End
+	}
+
+	if p.lexer.Current != lexer.LCurly {
+		// Statements, e.g. @charset or @namespace, have no block.
+		return r
+	}
+
+	switch r.Name {
+	case "supports", "layer", "container", "scope", "starting-style", "document", "-moz-document":
+		r.Block = p.parseRuleBlock()
+	default:
+		r.Block = p.parseDeclarationBlock()
+	}
 	r.End = r.Block.Location().End
+	return r
+}
 
-	p.ss.Nodes = append(p.ss.Nodes, r)
+// parseRawPrelude consumes everything up to a block, a semicolon, or the end
+// of the file. It returns nil if there was nothing.
+func (p *parser) parseRawPrelude() *ast.Raw {
+	raw := &ast.Raw{
+		Span: p.lexer.TokenSpan(),
+	}
+	raw.End = raw.Start
+
+	// closers is the stack of tokens that close the currently open blocks.
+	var closers []lexer.Token
+	for {
+		switch p.lexer.Current {
+		case lexer.EOF, lexer.Semicolon, lexer.LCurly, lexer.RCurly:
+			if len(closers) > 0 {
+				p.lexer.Errorf("unexpected token: %s", p.lexer.Current.String())
+			}
+			if raw.End == raw.Start {
+				return nil
+			}
+			raw.Value = p.source.Content[raw.Start:raw.End]
+			return raw
+
+		case lexer.LParen, lexer.FunctionStart:
+			closers = append(closers, lexer.RParen)
+
+		case lexer.LBracket:
+			closers = append(closers, lexer.RBracket)
+
+		case lexer.RParen, lexer.RBracket:
+			if len(closers) == 0 || closers[len(closers)-1] != p.lexer.Current {
+				p.lexer.Errorf("unexpected token: %s", p.lexer.Current.String())
+			}
+			closers = closers[:len(closers)-1]
+		}
+		raw.End = p.lexer.TokenEnd()
+		p.lexer.Next()
+	}
 }
-- 
2.43.0


From c6d249b6ad3e37fc1dae2ff62eb67bd0cf96e23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 28/92] fix: do not split the ranges in unicode-range
 declarations

---
 internal/parser/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 9169c93..ec58181 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -1,6 +1,8 @@
 package parser
 
 import (
+	"strings"
+
 	"github.com/stephen/cssc/internal/ast"
 	"github.com/stephen/cssc/internal/lexer"
 	"github.com/stephen/cssc/internal/logging"
@@ -216,6 +218,11 @@ func (p *parser) parseDeclaration() *ast.Declaration {
 	p.lexer.Expect(lexer.Ident)
 	p.lexer.Expect(lexer.Colon)
 
+	if strings.EqualFold(property, "unicode-range") {
+		// Ranges like U+0-7F are not made of regular values, so fall back to a raw declaration.
+		p.lexer.Errorf("cannot parse unicode-range")
+	}
+
 	for {
 		switch p.lexer.Current {
 		case lexer.EOF:
-- 
2.43.0


From 08fb4859fda2af6177b79aac9794e9ef09445c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 29/92] fix: limit nesting so that hostile files cannot
 overflow the stack

---
 internal/parser/parser.go    | 33 +++++++++++++++++++++++++++++++--
 internal/parser/selectors.go |  3 +++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index ec58181..82a2a96 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -45,6 +45,21 @@ type parser struct {
 	source *sources.Source
 	lexer  *lexer.Lexer
 	ss     *ast.Stylesheet
+
+	// depth is the number of constructs that are currently being parsed recursively.
+	depth int
+}
+
+// maxDepth limits nesting. The goroutine stack cannot be recovered once it overflows,
+// and the printer and transformer recurse as deeply as the parser does.
+const maxDepth = 1000
+
+// enter should be called before parsing a construct recursively.
+func (p *parser) enter() {
+	p.depth++
+	if p.depth > maxDepth {
+		p.lexer.Errorf("too many nested values, selectors, or rules")
+	}
 }
 
 func (p *parser) parse() {
@@ -137,11 +152,11 @@ func (p *parser) parseDeclarationBlock() *ast.DeclarationBlock {
 }
 
 func (p *parser) parseDeclarationOrFallback() (rv ast.Declarationish) {
-	lexerState := *p.lexer
+	lexerState, depth := *p.lexer, p.depth
 	defer func() {
 		if err := recover(); err != nil {
 			// Restore the lexer and try again to read the value.
-			p.lexer = &lexerState
+			p.lexer, p.depth = &lexerState, depth
 			rv = p.parseRaw()
 		}
 	}()
@@ -325,12 +340,17 @@ func (p *parser) parseMathExpression() ast.Value {
 }
 
 func (p *parser) parseMathSum() ast.Value {
+	p.enter()
+	defer func(depth int) { p.depth = depth }(p.depth - 1)
+
 	left := p.parseMathProduct()
 
 	for p.lexer.Current == lexer.Delim && (p.lexer.CurrentString == "+" || p.lexer.CurrentString == "-") {
 		op := p.lexer.CurrentString
 		p.lexer.Expect(lexer.Delim)
 
+		// Expressions are left-associative, so every operator makes the tree deeper.
+		p.enter()
 		right := p.parseMathProduct()
 
 		span := left.Location()
@@ -348,12 +368,15 @@ func (p *parser) parseMathSum() ast.Value {
 }
 
 func (p *parser) parseMathProduct() ast.Value {
+	defer func(depth int) { p.depth = depth }(p.depth)
+
 	left := p.parseMathParenthesizedExpression()
 
 	for p.lexer.Current == lexer.Delim && (p.lexer.CurrentString == "*" || p.lexer.CurrentString == "/") {
 		op := p.lexer.CurrentString
 		p.lexer.Expect(lexer.Delim)
 
+		p.enter()
 		right := p.parseMathParenthesizedExpression()
 
 		span := left.Location()
@@ -394,6 +417,9 @@ func (p *parser) parseMathParenthesizedExpression() ast.Value {
 // can set allowMathOperators if the enclosing context allows math expressions.
 // See: https://www.w3.org/TR/css-values-4/#math-function.
 func (p *parser) parseValue() ast.Value {
+	p.enter()
+	defer func() { p.depth-- }()
+
 	switch p.lexer.Current {
 	case lexer.Dimension:
 		defer p.lexer.Next()
@@ -672,6 +698,9 @@ func (p *parser) parseRuleBlock() *ast.QualifiedRuleBlock {
 	block := &ast.QualifiedRuleBlock{
 		Span: p.lexer.TokenSpan(),
 	}
+	p.enter()
+	defer func() { p.depth-- }()
+
 	p.lexer.Expect(lexer.LCurly)
 	for {
 		switch p.lexer.Current {
diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 13b83fb..ecddac7 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -12,6 +12,9 @@ func (p *parser) parseSelectorList() *ast.SelectorList {
 		Span: p.lexer.TokenSpan(),
 	}
 
+	p.enter()
+	defer func() { p.depth-- }()
+
 	for {
 		if p.lexer.Current == lexer.EOF {
 			p.lexer.Errorf("unexpected EOF")
-- 
2.43.0


From 787212290c745986c3ca6ee989f597e5e1fcc25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 30/92] fix: escape the file name in source maps

---
 internal/printer/printer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 785a33d..75fbc31 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -62,10 +62,14 @@ func (p *printer) printMapping() {
 	}
 
 	b := strings.Builder{}
-	b.WriteString(`{"version": 3,"file":"`)
-	b.WriteString(p.options.OriginalSource.Path)
+	b.WriteString(`{"version": 3,"file":`)
+	file, err := json.Marshal(p.options.OriginalSource.Path)
+	if err != nil {
+		panic(err)
+	}
+	b.Write(file)
 	// XXX: sources content and names.
-	b.WriteString(`","sourceRoot":"", "sources": ["source.css"], "sourcesContent":[`)
+	b.WriteString(`,"sourceRoot":"", "sources": ["source.css"], "sourcesContent":[`)
 	out, err := json.Marshal(p.options.OriginalSource.Content)
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 74ccbb857a1182a4918e2be1308ef2e8be9b49fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 31/92] fix: count every css newline of the output in source
 maps

---
 internal/printer/printer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 75fbc31..84faa48 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -97,8 +97,10 @@ func (p *printer) addMapping(loc ast.Span) {
 	newState.originalLine, newState.originalColumn = line-1, col-1
 
 	// Note that String() here does not reallocate the string.
-	for _, ch := range p.s.String()[p.lastWritten:] {
-		if ch == '\n' {
+	written := p.s.String()[p.lastWritten:]
+	for i, ch := range written {
+		// \r\n is a single newline.
+		if ch == '\n' || ch == '\f' || (ch == '\r' && !strings.HasPrefix(written[i+1:], "\n")) {
 			p.lastMappingState.generatedColumn = 0
 			newState.generatedColumn = 0
 			p.sourceMappings.WriteRune(';')
-- 
2.43.0


From 8f9e2a0f9488dcf2f8ef26b315bb23ddaf90b394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 32/92] fix: count the columns of source maps in UTF-16 code
 units

---
 internal/printer/printer.go | 39 +++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 84faa48..f94d050 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -18,6 +18,9 @@ type printer struct {
 	sourceMappings   strings.Builder
 	lastWritten      int
 	lastMappingState mappingState
+
+	// lastOriginalOffset is the offset of the last mapping in the original source.
+	lastOriginalOffset int
 }
 
 type mappingState struct {
@@ -94,7 +97,7 @@ func (p *printer) addMapping(loc ast.Span) {
 	newState := p.lastMappingState
 
 	line, col := p.options.OriginalSource.LineAndCol(loc)
-	newState.originalLine, newState.originalColumn = line-1, col-1
+	newState.originalLine, newState.originalColumn = line-1, p.originalColumn(loc.Start-int(col-1), loc.Start)
 
 	// Note that String() here does not reallocate the string.
 	written := p.s.String()[p.lastWritten:]
@@ -107,7 +110,7 @@ func (p *printer) addMapping(loc ast.Span) {
 			continue
 		}
 
-		newState.generatedColumn++
+		newState.generatedColumn += utf16Len(ch)
 	}
 
 	if p.s.Len() > 0 {
@@ -129,6 +132,38 @@ func (p *printer) addMapping(loc ast.Span) {
 	p.lastWritten = p.s.Len()
 }
 
+// utf16Len returns the number of columns that a rune takes up, as source maps
+// count columns in UTF-16 code units.
+func utf16Len(ch rune) int32 {
+	if ch >= 0x10000 {
+		return 2
+	}
+	return 1
+}
+
+// originalColumn returns the 0-indexed column of an offset in the original source. Mappings
+// mostly move forward, so it continues from the last mapping if that was on the same line.
+func (p *printer) originalColumn(lineStart, offset int) int32 {
+	from, col := lineStart, int32(0)
+	if p.lastOriginalOffset > lineStart && p.lastOriginalOffset <= offset {
+		from, col = p.lastOriginalOffset, p.lastMappingState.originalColumn
+	}
+	p.lastOriginalOffset = offset
+
+	// XXX: inlined rules come from another source, so their offsets may be out of range.
+	content := p.options.OriginalSource.Content
+	if offset > len(content) {
+		offset = len(content)
+	}
+	if from > offset {
+		from = offset
+	}
+	for _, ch := range content[from:offset] {
+		col += utf16Len(ch)
+	}
+	return col
+}
+
 // stringQuote returns the quote to use for a string's (still escaped) value. It is
 // a double quote, unless that would end the string early.
 func stringQuote(value string) rune {
-- 
2.43.0


From 9d6c7f829eff22f082bfea243a33e7df27b80ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 33/92] fix: do not duplicate @import rules that are passed
 through

---
 internal/transformer/transformer.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 30220c1..74e9294 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -179,10 +179,6 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 		case *ast.AtRule:
 			switch node.Name {
 			case "import":
-				if t.ImportReplacements == nil {
-					rv = append(rv, node)
-				}
-
 				imported, ok := t.ImportReplacements[node]
 				if !ok {
 					rv = append(rv, node)
-- 
2.43.0


From c1cec2304d8c0dbf59301c791e93281e6993d8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 34/92] fix: only collect custom properties from rules for
 exactly :root

---
 internal/transformer/transformer.go | 44 +++++++++++++++++------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 74e9294..6190ace 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -108,6 +108,31 @@ func (t *transformer) transformSelectors(nodes []*ast.Selector) []*ast.Selector
 	return newNodes
 }
 
+// isRoot returns whether or not the selector list is exactly :root.
+func isRoot(selList *ast.SelectorList) bool {
+	if len(selList.Selectors) != 1 {
+		return false
+	}
+
+	isRoot := false
+	for i, part := range selList.Selectors[0].Parts {
+		switch p := part.(type) {
+		case *ast.PseudoClassSelector:
+			if i != 0 || p.Name != "root" || p.Arguments != nil {
+				return false
+			}
+			isRoot = true
+
+		case *ast.Whitespace:
+			// Insignificant, unless there's another part after it.
+
+		default:
+			return false
+		}
+	}
+	return isRoot
+}
+
 func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 	rv := make([]ast.Node, 0, len(nodes))
 	for _, value := range nodes {
@@ -119,24 +144,7 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 					return
 				}
 
-				isRoot := false
-				for _, sel := range selList.Selectors {
-					if len(sel.Parts) != 1 {
-						isRoot = true
-						break
-					}
-				}
-
-				if !isRoot {
-					return
-				}
-
-				rootSel, ok := selList.Selectors[0].Parts[0].(*ast.PseudoClassSelector)
-				if !ok {
-					return
-				}
-
-				if rootSel.Name != "root" {
+				if !isRoot(selList) {
 					return
 				}
 
-- 
2.43.0


From 33ffdd26dc01a5fcebc3da4d835b46f4d2d6772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 35/92] fix: transform rules and declarations inside at-rules

---
 internal/transformer/transformer.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 6190ace..33e8704 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -64,6 +64,9 @@ type transformer struct {
 
 	variables   map[string][]ast.Value
 	customMedia map[string]*ast.MediaQuery
+
+	// nested is the number of at-rules around the current rule.
+	nested int
 }
 
 func (t *transformer) addError(loc ast.Node, fmt string, args ...interface{}) {
@@ -144,7 +147,8 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 					return
 				}
 
-				if !isRoot(selList) {
+				// Definitions inside other rules only apply conditionally.
+				if t.nested > 0 || !isRoot(selList) {
 					return
 				}
 
@@ -174,7 +178,10 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 
 			selList, ok := node.Prelude.(*ast.SelectorList)
 			if !ok {
-				t.addError(node.Prelude, "expected selector list for qualified rule")
+				// Keyframes have no selectors, and are kept even if they are empty.
+				t.transformBlock(node.Block)
+				rv = append(rv, node)
+				continue
 			}
 			selList.Selectors = t.transformSelectors(selList.Selectors)
 			node.Block = t.transformBlock(node.Block)
@@ -227,9 +234,13 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 					mq := node.Preludes[0].(*ast.MediaQueryList)
 					mq.Queries = t.transformMediaQueries(mq.Queries)
 				}
+				t.transformBlock(node.Block)
 				rv = append(rv, node)
 
 			default:
+				if node.Block != nil {
+					t.transformBlock(node.Block)
+				}
 				rv = append(rv, node)
 			}
 
@@ -367,9 +378,9 @@ func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart) []ast
 func (t *transformer) transformBlock(block ast.Block) ast.Block {
 	switch node := block.(type) {
 	case *ast.QualifiedRuleBlock:
-		// 	for _, d := range node.Rules {
-		// 		// t.transform(d)
-		// 	}
+		t.nested++
+		node.Rules = t.transformNodes(node.Rules)
+		t.nested--
 		if len(node.Rules) == 0 {
 			return nil
 		}
-- 
2.43.0


From 354637ed0abac5a625951afa7307d4d8ffec83cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 36/92] fix: expand every :any-link, wherever it is in a
 selector

---
 internal/transformer/transformer.go | 138 +++++++++++++++++++++++-----
 1 file changed, 116 insertions(+), 22 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 33e8704..0afaae4 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -77,38 +77,132 @@ func (t *transformer) addWarn(loc ast.Node, fmt string, args ...interface{}) {
 	t.Reporter.AddError(logging.LocationWarnf(t.OriginalSource, loc.Location(), fmt, args...))
 }
 
+// maxAlternatives limits how many selectors a single selector can be expanded into.
+const maxAlternatives = 1024
+
 func (t *transformer) transformSelectors(nodes []*ast.Selector) []*ast.Selector {
+	if t.AnyLink == transforms.AnyLinkPassthrough {
+		return nodes
+	}
+
 	newNodes := make([]*ast.Selector, 0, len(nodes))
 	for _, n := range nodes {
-		newParts := make([]ast.SelectorPart, 0, len(n.Parts))
-		for index, p := range n.Parts {
-			switch part := p.(type) {
-			case *ast.PseudoClassSelector:
-				if part.Name != "any-link" || t.AnyLink == transforms.AnyLinkPassthrough {
-					newParts = append(newParts, p)
-					break
-				}
+		alternatives := t.expandSelector(n)
+		if alternatives == nil {
+			t.addError(n, "too many uses of :any-link in a selector")
+			newNodes = append(newNodes, n)
+			continue
+		}
+		newNodes = append(newNodes, alternatives...)
+	}
+	return newNodes
+}
+
+// expandSelector returns the selectors that together match the same elements as n, with every :any-link
+// replaced by either :visited or :link. It returns nil if there would be too many of them.
+func (t *transformer) expandSelector(n *ast.Selector) []*ast.Selector {
+	alternatives := []*ast.Selector{{Span: n.Span, Parts: make([]ast.SelectorPart, 0, len(n.Parts))}}
+	for _, part := range n.Parts {
+		options := t.expandSelectorPart(part)
+		if len(options) == 1 {
+			for _, alt := range alternatives {
+				alt.Parts = append(alt.Parts, options[0])
+			}
+			continue
+		}
 
-				// Replace one of them with :link.
-				newParts = append(
-					newParts,
-					&ast.PseudoClassSelector{Name: "link"},
-				)
+		if len(options) == 0 || len(options)*len(alternatives) > maxAlternatives {
+			return nil
+		}
 
-				// Make a duplicate with :visited.
-				duplicate := *n
-				duplicate.Parts[index] = &ast.PseudoClassSelector{Name: "visited"}
-				newNodes = append(newNodes, &duplicate)
+		newAlternatives := make([]*ast.Selector, 0, len(options)*len(alternatives))
+		for _, alt := range alternatives {
+			for _, option := range options {
+				newParts := make([]ast.SelectorPart, 0, len(n.Parts))
+				newParts = append(append(newParts, alt.Parts...), option)
+				newAlternatives = append(newAlternatives, &ast.Selector{Span: n.Span, Parts: newParts})
+			}
+		}
+		alternatives = newAlternatives
+	}
+	return alternatives
+}
 
-			default:
-				newParts = append(newParts, p)
+// expandSelectorPart is like expandSelector, but for a single part of it.
+func (t *transformer) expandSelectorPart(p ast.SelectorPart) []ast.SelectorPart {
+	switch part := p.(type) {
+	case *ast.PseudoClassSelector:
+		if part.Name == "any-link" && part.Arguments == nil {
+			return []ast.SelectorPart{
+				&ast.PseudoClassSelector{Span: part.Span, Name: "visited"},
+				&ast.PseudoClassSelector{Span: part.Span, Name: "link"},
 			}
 		}
 
-		n.Parts = newParts
-		newNodes = append(newNodes, n)
+		args, ok := part.Arguments.(*ast.SelectorList)
+		if !ok {
+			return []ast.SelectorPart{p}
+		}
+
+		switch part.Name {
+		case "is", "where", "not", "has", "matches", "-webkit-any", "-moz-any":
+			// These take a list, so the alternatives can stay inside.
+			args.Selectors = t.transformSelectors(args.Selectors)
+			return []ast.SelectorPart{p}
+		}
+
+		var rv []ast.SelectorPart
+		for _, list := range t.expandArguments(args) {
+			rv = append(rv, &ast.PseudoClassSelector{Span: part.Span, Name: part.Name, Arguments: list})
+		}
+		return rv
+
+	case *ast.PseudoElementSelector:
+		args, ok := part.Inner.Arguments.(*ast.SelectorList)
+		if !ok {
+			return []ast.SelectorPart{p}
+		}
+
+		var rv []ast.SelectorPart
+		for _, list := range t.expandArguments(args) {
+			inner := &ast.PseudoClassSelector{Span: part.Inner.Span, Name: part.Inner.Name, Arguments: list}
+			rv = append(rv, &ast.PseudoElementSelector{Span: part.Span, Inner: inner})
+		}
+		return rv
+
+	default:
+		return []ast.SelectorPart{p}
 	}
-	return newNodes
+}
+
+// expandArguments is like expandSelector, but for the arguments of selectors that don't
+// necessarily take a list of alternatives, e.g. ::slotted(:any-link).
+func (t *transformer) expandArguments(args *ast.SelectorList) []*ast.SelectorList {
+	alternatives := []*ast.SelectorList{{Span: args.Span}}
+	for _, n := range args.Selectors {
+		options := t.expandSelector(n)
+		if len(options) == 1 {
+			for _, alt := range alternatives {
+				alt.Selectors = append(alt.Selectors, options[0])
+			}
+			continue
+		}
+
+		if len(options) == 0 || len(options)*len(alternatives) > maxAlternatives {
+			return nil
+		}
+
+		newAlternatives := make([]*ast.SelectorList, 0, len(options)*len(alternatives))
+		for _, alt := range alternatives {
+			for _, option := range options {
+				list := &ast.SelectorList{Span: args.Span}
+				list.Selectors = append(append(list.Selectors, alt.Selectors...), option)
+				newAlternatives = append(newAlternatives, list)
+			}
+		}
+		alternatives = newAlternatives
+	}
+	return alternatives
 }
 
 // isRoot returns whether or not the selector list is exactly :root.
-- 
2.43.0


From baec7c819aafdf7b29011617e21902adeb1e5a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 37/92] fix: do not report valid calc() expressions that cannot
 be reduced

---
 internal/transformer/transformer.go | 38 ++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 0afaae4..25d5a62 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -568,7 +568,7 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 					return
 				}
 
-				arg, ok := args[0].(*ast.MathExpression)
+				arg, ok := withoutParens(args[0]).(*ast.MathExpression)
 				if !ok {
 					return
 				}
@@ -628,10 +628,34 @@ func (t *transformer) doMath(left, right, op string) (float64, error) {
 	}
 }
 
+// withoutParens unwraps parenthesized expressions.
+func withoutParens(v ast.Value) ast.Value {
+	for {
+		expr, ok := v.(*ast.MathParenthesizedExpression)
+		if !ok {
+			return v
+		}
+		v = expr.Value
+	}
+}
+
+// isMathOperand returns whether or not the value can be an operand of a math expression, even
+// though we might not be able to evaluate it.
+func isMathOperand(v ast.Value) bool {
+	switch v.(type) {
+	case *ast.Dimension, *ast.Function, *ast.Identifier, *ast.MathExpression, *ast.MathParenthesizedExpression:
+		return true
+	default:
+		return false
+	}
+}
+
 // evaluateMathExpression attempts to add l + r. If sub is true, subtraction will be applied
 // instead. For sum to succeed, both l and r must be of the same type.
 // See notes from https://www.w3.org/TR/css-values-3/#calc-type-checking.
 func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Value {
+	l, r = withoutParens(l), withoutParens(r)
+
 	if expr, ok := l.(*ast.MathExpression); ok {
 		if evaluated := t.evaluateMathExpression(expr.Left, expr.Right, expr.Operator); evaluated != nil {
 			l = evaluated
@@ -689,7 +713,10 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 		// left.Left.Unit case: doMath on left.Left.Value and right.Value and return left with Left = [the result of doMath]
 
 		default:
-			t.addError(l, "cannot perform %s on this type", op)
+			// The left-hand side may be valid css, even if it's not reducible.
+			if !isMathOperand(l) {
+				t.addError(l, "cannot perform %s on this type", op)
+			}
 			return nil
 		}
 
@@ -725,6 +752,9 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 
 	case "/":
 		rightAsDimension, rightIsDimension := r.(*ast.Dimension)
+		if !rightIsDimension && isMathOperand(r) {
+			return nil
+		}
 		if !rightIsDimension || rightAsDimension.Unit != "" {
 			t.addError(l, "right side of division must be a number (non-percentage/dimension)")
 			return nil
@@ -746,7 +776,9 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 			// case *ast.MathExpression
 
 		default:
-			t.addError(l, "cannot perform %s on this type", op)
+			if !isMathOperand(l) {
+				t.addError(l, "cannot perform %s on this type", op)
+			}
 			return nil
 		}
 
-- 
2.43.0


From e9d4c03c3bbe2ec97c795bee22fe97825b57bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 38/92] fix: do not reduce calc() to an infinite value

---
 internal/transformer/transformer.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 25d5a62..0041960 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -2,6 +2,7 @@ package transformer
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -611,21 +612,28 @@ func (t *transformer) doMath(left, right, op string) (float64, error) {
 	if err != nil {
 		return 0, fmt.Errorf("could not parse dimension value: %s", right)
 	}
+
+	var result float64
 	switch op {
 	case "+":
-		return leftValue + rightValue, nil
+		result = leftValue + rightValue
 	case "-":
-		return leftValue - rightValue, nil
+		result = leftValue - rightValue
 	case "*":
-		return leftValue * rightValue, nil
+		result = leftValue * rightValue
 	case "/":
 		if rightValue == 0 {
 			return 0, fmt.Errorf("cannot divide by zero")
 		}
-		return leftValue / rightValue, nil
+		result = leftValue / rightValue
 	default:
 		return 0, fmt.Errorf("unknown op: %s", op)
 	}
+
+	if math.IsInf(result, 0) || math.IsNaN(result) {
+		return 0, fmt.Errorf("result is out of range: %s %s %s", left, op, right)
+	}
+	return result, nil
 }
 
 // withoutParens unwraps parenthesized expressions.
-- 
2.43.0


From d8265645780917786f102dbcd9fac4b4050cda20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 39/92] fix: report errors in nested calc() expressions where
 they are

---
 internal/transformer/transformer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 0041960..4ff558f 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -662,6 +662,7 @@ func isMathOperand(v ast.Value) bool {
 // instead. For sum to succeed, both l and r must be of the same type.
 // See notes from https://www.w3.org/TR/css-values-3/#calc-type-checking.
 func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Value {
+	span := ast.Span{Start: l.Location().Start, End: r.Location().End}
 	l, r = withoutParens(l), withoutParens(r)
 
 	if expr, ok := l.(*ast.MathExpression); ok {
@@ -707,6 +708,7 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 			}
 
 			return &ast.Dimension{
+				Span:  span,
 				Value: strconv.FormatFloat(newValue, 'f', -1, 64),
 				Unit:  left.Unit,
 			}
@@ -754,6 +756,7 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 		}
 
 		return &ast.Dimension{
+			Span:  span,
 			Value: strconv.FormatFloat(newValue, 'f', -1, 64),
 			Unit:  maybeWithUnit.Unit,
 		}
@@ -777,6 +780,7 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 			}
 
 			return &ast.Dimension{
+				Span:  span,
 				Value: strconv.FormatFloat(newValue, 'f', -1, 64),
 				Unit:  left.Unit,
 			}
-- 
2.43.0


From 93c2a17e380b32d8b32a73c4dd30dcd5f7b44285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 40/92] fix: substitute and reduce values inside functions,
 brackets and expressions

---
 internal/transformer/transformer.go | 58 ++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 4ff558f..929248b 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -514,6 +514,12 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 		switch v := value.(type) {
 		case *ast.Function:
 			newValues := []ast.Value{v}
+			isVar := v.Name == "var" && t.variables != nil
+			argCount := len(v.Arguments)
+			if !isVar {
+				v.Arguments = t.transformValues(v.Arguments)
+			}
+
 			func() {
 				if v.Name != "var" {
 					return
@@ -538,7 +544,7 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 				if !ok {
 					// The first argument is the value, the second is a comma.
 					if len(v.Arguments) > 2 {
-						newValues = v.Arguments[2:]
+						newValues = t.transformValues(v.Arguments[2:])
 						return
 					}
 
@@ -558,33 +564,22 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 					return
 				}
 
-				if len(v.Arguments) != 1 {
+				if argCount != 1 {
 					t.addWarn(v, "expected single argument for calc()")
 					return
 				}
 
-				args := t.transformValues([]ast.Value{v.Arguments[0]})
-				if len(args) != 1 {
-					t.addWarn(v, "expected single argument for calc()")
+				// Substitution can leave more than one argument.
+				if len(v.Arguments) != 1 {
 					return
 				}
 
-				arg, ok := withoutParens(args[0]).(*ast.MathExpression)
+				arg, ok := withoutParens(v.Arguments[0]).(*ast.MathExpression)
 				if !ok {
 					return
 				}
 
-				l, r := t.transformValues([]ast.Value{arg.Left}), t.transformValues([]ast.Value{arg.Right})
-				if len(l) != 1 {
-					t.addWarn(arg.Left, "expected left-hand side of math expression to be a single value")
-					return
-				}
-				if len(r) != 1 {
-					t.addWarn(arg.Right, "expected right-hand side of math expression to be a single value")
-					return
-				}
-
-				newValue := t.evaluateMathExpression(l[0], r[0], arg.Operator)
+				newValue := t.evaluateMathExpression(arg.Left, arg.Right, arg.Operator)
 				if newValue == nil {
 					return
 				}
@@ -594,6 +589,35 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 
 			rv = append(rv, newValues...)
 
+		case *ast.Brackets:
+			v.Values = t.transformValues(v.Values)
+			rv = append(rv, v)
+
+		case *ast.MathParenthesizedExpression:
+			inner := t.transformValues([]ast.Value{v.Value})
+			if len(inner) == 1 {
+				v.Value = inner[0]
+				rv = append(rv, v)
+				break
+			}
+
+			// If a variable was replaced by several values, then it isn't a single expression anymore.
+			rv = append(rv, &ast.Raw{Span: v.Span, Value: "("})
+			rv = append(rv, inner...)
+			rv = append(rv, &ast.Raw{Span: v.Span, Value: ")"})
+
+		case *ast.MathExpression:
+			l, r := t.transformValues([]ast.Value{v.Left}), t.transformValues([]ast.Value{v.Right})
+			if len(l) == 1 && len(r) == 1 {
+				v.Left, v.Right = l[0], r[0]
+				rv = append(rv, v)
+				break
+			}
+
+			rv = append(rv, l...)
+			rv = append(rv, &ast.Raw{Span: v.Span, Value: v.Operator})
+			rv = append(rv, r...)
+
 		default:
 			rv = append(rv, v)
 		}
-- 
2.43.0


From b1967557101558e51479ef5d34e26493c1c89b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 41/92] fix: collect definitions before replacing their uses

---
 internal/transformer/transformer.go | 132 ++++++++++++++++------------
 1 file changed, 76 insertions(+), 56 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 929248b..af8f117 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -53,6 +53,7 @@ func Transform(s *ast.Stylesheet, opts Options) *ast.Stylesheet {
 		t.Reporter.AddError(fmt.Errorf("ImportRules is set to ImportRulesInline, but ImportReplacements is not set"))
 	}
 
+	t.collectDefinitions(s.Nodes)
 	s.Nodes = t.transformNodes(s.Nodes)
 
 	return s
@@ -65,9 +66,6 @@ type transformer struct {
 
 	variables   map[string][]ast.Value
 	customMedia map[string]*ast.MediaQuery
-
-	// nested is the number of at-rules around the current rule.
-	nested int
 }
 
 func (t *transformer) addError(loc ast.Node, fmt string, args ...interface{}) {
@@ -231,46 +229,90 @@ func isRoot(selList *ast.SelectorList) bool {
 	return isRoot
 }
 
-func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
-	rv := make([]ast.Node, 0, len(nodes))
+// collectDefinitions records (and removes) the definitions of custom properties and records
+// the definitions of custom media queries. It needs to run before anything is replaced, because definitions can
+// come after their uses. Definitions inside other rules only apply conditionally, so they are not collected.
+func (t *transformer) collectDefinitions(nodes []ast.Node) {
 	for _, value := range nodes {
 		switch node := value.(type) {
 		case *ast.QualifiedRule:
-			func() {
-				selList, ok := node.Prelude.(*ast.SelectorList)
-				if !ok {
-					return
-				}
+			t.collectCustomProperties(node)
 
-				// Definitions inside other rules only apply conditionally.
-				if t.nested > 0 || !isRoot(selList) {
-					return
+		case *ast.AtRule:
+			switch node.Name {
+			case "import":
+				if imported, ok := t.ImportReplacements[node]; ok {
+					t.collectDefinitions(imported.Nodes)
 				}
 
-				declBlock, ok := node.Block.(*ast.DeclarationBlock)
-				if !ok {
-					return
-				}
+			case "custom-media":
+				t.collectCustomMedia(node)
+			}
+		}
+	}
+}
 
-				newDecls := make([]ast.Declarationish, 0, len(declBlock.Declarations))
-				for _, decl := range declBlock.Declarations {
-					switch d := decl.(type) {
-					case *ast.Declaration:
-
-						if strings.HasPrefix(d.Property, "--") && t.variables != nil {
-							t.variables[d.Property] = d.Values
-							continue
-						}
-						newDecls = append(newDecls, d)
-					default:
-						newDecls = append(newDecls, d)
-					}
+func (t *transformer) collectCustomProperties(node *ast.QualifiedRule) {
+	selList, ok := node.Prelude.(*ast.SelectorList)
+	if !ok {
+		return
+	}
 
-				}
+	if !isRoot(selList) {
+		return
+	}
 
-				declBlock.Declarations = newDecls
-			}()
+	declBlock, ok := node.Block.(*ast.DeclarationBlock)
+	if !ok {
+		return
+	}
+
+	newDecls := make([]ast.Declarationish, 0, len(declBlock.Declarations))
+	for _, decl := range declBlock.Declarations {
+		switch d := decl.(type) {
+		case *ast.Declaration:
+
+			if strings.HasPrefix(d.Property, "--") && t.variables != nil {
+				t.variables[d.Property] = d.Values
+				continue
+			}
+			newDecls = append(newDecls, d)
+		default:
+			newDecls = append(newDecls, d)
+		}
 
+	}
+
+	declBlock.Declarations = newDecls
+}
+
+func (t *transformer) collectCustomMedia(node *ast.AtRule) {
+	if t.customMedia == nil {
+		return
+	}
+
+	if len(node.Preludes) != 2 {
+		return
+	}
+
+	name, ok := node.Preludes[0].(*ast.Identifier)
+	if !ok {
+		return
+	}
+
+	query, ok := node.Preludes[1].(*ast.MediaQuery)
+	if !ok {
+		return
+	}
+
+	t.customMedia[name.Value] = query
+}
+
+func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
+	rv := make([]ast.Node, 0, len(nodes))
+	for _, value := range nodes {
+		switch node := value.(type) {
+		case *ast.QualifiedRule:
 			selList, ok := node.Prelude.(*ast.SelectorList)
 			if !ok {
 				// Keyframes have no selectors, and are kept even if they are empty.
@@ -302,27 +344,7 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 				rv = append(rv, t.transformNodes(imported.Nodes)...)
 
 			case "custom-media":
-				func() {
-					if t.customMedia == nil {
-						return
-					}
-
-					if len(node.Preludes) != 2 {
-						return
-					}
-
-					name, ok := node.Preludes[0].(*ast.Identifier)
-					if !ok {
-						return
-					}
-
-					query, ok := node.Preludes[1].(*ast.MediaQuery)
-					if !ok {
-						return
-					}
-
-					t.customMedia[name.Value] = query
-				}()
+				// Definitions have already been collected.
 
 			case "media":
 				if len(node.Preludes) > 0 {
@@ -473,9 +495,7 @@ func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart) []ast
 func (t *transformer) transformBlock(block ast.Block) ast.Block {
 	switch node := block.(type) {
 	case *ast.QualifiedRuleBlock:
-		t.nested++
 		node.Rules = t.transformNodes(node.Rules)
-		t.nested--
 		if len(node.Rules) == 0 {
 			return nil
 		}
-- 
2.43.0


From 8b30e924c3cca5b4fe61cb0cac6218f0126dbdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 42/92] fix: substitute custom properties in the values of
 other custom properties

---
 internal/transformer/transformer.go | 146 ++++++++++++++++++++++++++--
 1 file changed, 140 insertions(+), 6 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index af8f117..4148475 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -42,7 +42,7 @@ func Transform(s *ast.Stylesheet, opts Options) *ast.Stylesheet {
 	}
 
 	if opts.CustomProperties != transforms.CustomPropertiesPassthrough {
-		t.variables = make(map[string][]ast.Value)
+		t.variables = make(map[string]*variable)
 	}
 
 	if opts.CustomMediaQueries != transforms.CustomMediaQueriesPassthrough {
@@ -64,10 +64,40 @@ func Transform(s *ast.Stylesheet, opts Options) *ast.Stylesheet {
 type transformer struct {
 	Options
 
-	variables   map[string][]ast.Value
+	variables   map[string]*variable
 	customMedia map[string]*ast.MediaQuery
+
+	// resolving is the stack of custom properties whose values are being substituted.
+	resolving []*variable
+
+	// substituted is how many values were substituted so far.
+	substituted int
+}
+
+// variable is a custom property.
+type variable struct {
+	values    []ast.Value
+	important bool
+
+	// source is where the custom property was defined.
+	source *sources.Source
+
+	// resolved is whether or not the custom properties in values have been substituted.
+	resolved bool
+
+	// cyclic is whether or not the custom property depends on itself, i.e. has no valid value.
+	cyclic bool
 }
 
+const (
+	// maxResolving limits how many custom properties can depend on each other in a chain.
+	maxResolving = 1000
+
+	// maxSubstituted limits the number of substituted values, because custom
+	// properties that use others several times can grow exponentially.
+	maxSubstituted = 1 << 20
+)
+
 func (t *transformer) addError(loc ast.Node, fmt string, args ...interface{}) {
 	t.Reporter.AddError(logging.LocationErrorf(t.OriginalSource, loc.Location(), fmt, args...))
 }
@@ -273,7 +303,10 @@ func (t *transformer) collectCustomProperties(node *ast.QualifiedRule) {
 		case *ast.Declaration:
 
 			if strings.HasPrefix(d.Property, "--") && t.variables != nil {
-				t.variables[d.Property] = d.Values
+				if prev, ok := t.variables[d.Property]; ok && prev.important && !d.Important {
+					continue
+				}
+				t.variables[d.Property] = &variable{values: d.Values, important: d.Important, source: t.OriginalSource}
 				continue
 			}
 			newDecls = append(newDecls, d)
@@ -560,8 +593,12 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 					return
 				}
 
-				vals, ok := t.variables[varName.Value]
-				if !ok {
+				vals, err := t.resolveVariable(varName.Value)
+				if err != nil {
+					t.addError(v, "%v", err)
+					return
+				}
+				if vals == nil {
 					// The first argument is the value, the second is a comma.
 					if len(v.Arguments) > 2 {
 						newValues = t.transformValues(v.Arguments[2:])
@@ -572,7 +609,7 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 					return
 				}
 
-				newValues = vals
+				newValues = copyValues(vals, v.Span)
 			}()
 
 			func() {
@@ -646,6 +683,103 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 	return rv
 }
 
+// resolveVariable returns the value of a custom property, in which other custom properties have been
+// substituted. It returns nil if there is no value.
+func (t *transformer) resolveVariable(name string) ([]ast.Value, error) {
+	v, ok := t.variables[name]
+	if !ok {
+		return nil, nil
+	}
+
+	for i, other := range t.resolving {
+		if other == v {
+			// Everything since the first use is part of the cycle.
+			for _, member := range t.resolving[i:] {
+				member.cyclic = true
+			}
+			return nil, nil
+		}
+	}
+
+	if !v.resolved {
+		if len(t.resolving) >= maxResolving {
+			return nil, fmt.Errorf("too many custom properties depend on each other: %s", name)
+		}
+
+		useSource := t.OriginalSource
+		t.OriginalSource = v.source
+		t.resolving = append(t.resolving, v)
+		v.values = t.transformValues(v.values)
+		v.resolved = true
+		t.resolving = t.resolving[:len(t.resolving)-1]
+		t.OriginalSource = useSource
+	}
+
+	if v.cyclic {
+		return nil, nil
+	}
+
+	t.substituted += countValues(v.values)
+	if t.substituted > maxSubstituted {
+		return nil, fmt.Errorf("too many substitutions of custom properties: %s", name)
+	}
+	return v.values, nil
+}
+
+// countValues returns the number of values, including the ones inside of other values.
+func countValues(values []ast.Value) int {
+	count := len(values)
+	for _, value := range values {
+		switch v := value.(type) {
+		case *ast.Function:
+			count += countValues(v.Arguments)
+		case *ast.Brackets:
+			count += countValues(v.Values)
+		case *ast.MathParenthesizedExpression:
+			count += countValues([]ast.Value{v.Value})
+		case *ast.MathExpression:
+			count += countValues([]ast.Value{v.Left, v.Right})
+		}
+	}
+	return count
+}
+
+// copyValues returns a deep copy of values that are used at span.
+func copyValues(values []ast.Value, span ast.Span) []ast.Value {
+	rv := make([]ast.Value, 0, len(values))
+	for _, value := range values {
+		rv = append(rv, copyValue(value, span))
+	}
+	return rv
+}
+
+func copyValue(value ast.Value, span ast.Span) ast.Value {
+	switch v := value.(type) {
+	case *ast.String:
+		return &ast.String{Span: span, Value: v.Value}
+	case *ast.Dimension:
+		return &ast.Dimension{Span: span, Value: v.Value, Unit: v.Unit}
+	case *ast.Identifier:
+		return &ast.Identifier{Span: span, Value: v.Value}
+	case *ast.HexColor:
+		return &ast.HexColor{Span: span, RGBA: v.RGBA}
+	case *ast.Raw:
+		return &ast.Raw{Span: span, Value: v.Value}
+	case *ast.Comma:
+		return &ast.Comma{Span: span}
+	case *ast.Brackets:
+		return &ast.Brackets{Span: span, Values: copyValues(v.Values, span)}
+	case *ast.Function:
+		return &ast.Function{Span: span, Name: v.Name, Arguments: copyValues(v.Arguments, span)}
+	case *ast.MathParenthesizedExpression:
+		return &ast.MathParenthesizedExpression{Span: span, Value: copyValue(v.Value, span)}
+	case *ast.MathExpression:
+		return &ast.MathExpression{Span: span, Operator: v.Operator, Left: copyValue(v.Left, span), Right: copyValue(v.Right, span)}
+	default:
+		return value
+	}
+}
+
 func (t *transformer) doMath(left, right, op string) (float64, error) {
 	leftValue, err := strconv.ParseFloat(left, 10)
 	if err != nil {
-- 
2.43.0


From 63c1496e2c5deff2c62c901799ddd0e017f180c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 43/92] fix: parse and print nested media conditions

---
 internal/parser/parser.go           | 34 +++++++++++++++++++++++++++--
 internal/printer/printer.go         | 11 ++++++++++
 internal/transformer/transformer.go |  4 ++++
 3 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 82a2a96..8d6a048 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -762,7 +762,7 @@ func (p *parser) parseMediaQuery() *ast.MediaQuery {
 	for {
 		switch p.lexer.Current {
 		case lexer.LParen:
-			q.Parts = append(q.Parts, p.parseMediaFeature())
+			q.Parts = append(q.Parts, p.parseMediaFeatureOrParens())
 
 		case lexer.Ident:
 			q.Parts = append(q.Parts, p.parseValue().(*ast.Identifier))
@@ -778,10 +778,40 @@ func (p *parser) parseMediaQuery() *ast.MediaQuery {
 	}
 }
 
-func (p *parser) parseMediaFeature() ast.MediaFeature {
+// parseMediaFeatureOrParens parses either a media feature or a condition in
+// parenthesis, e.g. ((color) or (not (hover))).
+func (p *parser) parseMediaFeatureOrParens() ast.MediaQueryPart {
 	startLoc := p.lexer.TokenSpan()
 	p.lexer.Expect(lexer.LParen)
 
+	isNot := p.lexer.Current == lexer.Ident && strings.EqualFold(p.lexer.CurrentString, "not")
+	if p.lexer.Current != lexer.LParen && !isNot {
+		return p.parseMediaFeature(startLoc)
+	}
+
+	p.enter()
+	defer func() { p.depth-- }()
+
+	condition := &ast.MediaInParens{Span: startLoc}
+	for p.lexer.Current != lexer.RParen {
+		switch p.lexer.Current {
+		case lexer.LParen:
+			condition.Parts = append(condition.Parts, p.parseMediaFeatureOrParens())
+
+		case lexer.Ident:
+			condition.Parts = append(condition.Parts, p.parseValue().(*ast.Identifier))
+
+		default:
+			p.lexer.Errorf("unexpected token in media condition: %s", p.lexer.Current.String())
+		}
+	}
+	condition.End = p.lexer.TokenEnd()
+	p.lexer.Next()
+	return condition
+}
+
+// parseMediaFeature parses a media feature after its left paren.
+func (p *parser) parseMediaFeature(startLoc ast.Span) ast.MediaFeature {
 	firstValue := p.parseValue()
 
 	switch p.lexer.Current {
diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index f94d050..6608fd9 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -430,6 +430,17 @@ func (p *printer) print(in ast.Node) {
 			}
 		}
 
+	case *ast.MediaInParens:
+		p.s.WriteRune('(')
+		for i, part := range node.Parts {
+			p.print(part)
+
+			if i+1 < len(node.Parts) {
+				p.s.WriteRune(' ')
+			}
+		}
+		p.s.WriteRune(')')
+
 	case *ast.MediaFeaturePlain:
 		p.s.WriteRune('(')
 		p.print(node.Property)
diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 4148475..66eda4d 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -518,6 +518,10 @@ func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart) []ast
 		case *ast.MediaFeatureRange:
 			newParts = append(newParts, t.transformMediaFeatureRange(part)...)
 
+		case *ast.MediaInParens:
+			part.Parts = t.transformMediaQueryParts(part.Parts)
+			newParts = append(newParts, part)
+
 		default:
 			newParts = append(newParts, p)
 		}
-- 
2.43.0


From 4b307ac0065d6c496f6a62bf8f58cec4dce8e7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 44/92] fix: leave media ranges alone if their bounds cannot be
 changed

---
 internal/transformer/transformer.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 66eda4d..c174a18 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -410,7 +410,7 @@ func (t *transformer) transformMediaQueries(queries []*ast.MediaQuery) []*ast.Me
 	return newQueries
 }
 
-// addToValue takes an ast.Value and adds diff to it.
+// addToValue takes an ast.Value and adds diff to it. It returns nil if that's not possible.
 // XXX: change this out to only operate on ast.Dimension, since there are no other valid number types now.
 func (t *transformer) addToValue(v ast.Value, diff float64) ast.Value {
 	if diff == 0 {
@@ -422,13 +422,13 @@ func (t *transformer) addToValue(v ast.Value, diff float64) ast.Value {
 		f, err := strconv.ParseFloat(oldValue.Value, 10)
 		if err != nil {
 			t.addError(oldValue, "could not parse dimension value to lower media range: %s", oldValue.Value)
-			return oldValue
+			return nil
 		}
 		return &ast.Dimension{Value: strconv.FormatFloat(f+diff, 'f', -1, 64), Unit: oldValue.Unit}
 
 	default:
 		t.addError(oldValue, "tried to modify non-numeric value. expected dimension, percentage, or number, but got: %s", reflect.TypeOf(v).String())
-		return v
+		return nil
 	}
 }
 
@@ -455,10 +455,15 @@ func (t *transformer) transformMediaFeatureRange(part *ast.MediaFeatureRange) []
 			direction = "min"
 		}
 
+		value := t.addToValue(part.LeftValue, diff)
+		if value == nil {
+			return asIs
+		}
+
 		newParts = append(newParts, &ast.MediaFeaturePlain{
 			// XXX: replace this allocation with a lookup.
 			Property: &ast.Identifier{Value: fmt.Sprintf("%s-%s", direction, part.Property.Value)},
-			Value:    t.addToValue(part.LeftValue, diff),
+			Value:    value,
 		})
 	}
 
@@ -482,10 +487,15 @@ func (t *transformer) transformMediaFeatureRange(part *ast.MediaFeatureRange) []
 			direction = "max"
 		}
 
+		value := t.addToValue(part.RightValue, diff)
+		if value == nil {
+			return asIs
+		}
+
 		newParts = append(newParts, &ast.MediaFeaturePlain{
 			// XXX: replace this allocation with a lookup.
 			Property: &ast.Identifier{Value: fmt.Sprintf("%s-%s", direction, part.Property.Value)},
-			Value:    t.addToValue(part.RightValue, diff),
+			Value:    value,
 		})
 	}
 
-- 
2.43.0


From b3e0fd5437e96196d19df4d43b4f3dfe467a0a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 45/92] fix: put media ranges in parenthesis if they are
 negated or alternatives

---
 internal/transformer/transformer.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index c174a18..8adc52d 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -502,9 +502,29 @@ func (t *transformer) transformMediaFeatureRange(part *ast.MediaFeatureRange) []
 	return newParts
 }
 
+func isKeyword(p ast.MediaQueryPart, keyword string) bool {
+	ident, ok := p.(*ast.Identifier)
+	return ok && strings.EqualFold(ident.Value, keyword)
+}
+
+// canSpliceAnd returns whether or not parts[index] can be replaced by several parts that
+// are joined by "and" without putting them in parenthesis.
+func canSpliceAnd(parts []ast.MediaQueryPart, index int) bool {
+	if index > 0 && isKeyword(parts[index-1], "not") {
+		return false
+	}
+
+	for _, p := range parts {
+		if isKeyword(p, "or") {
+			return false
+		}
+	}
+	return true
+}
+
 func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart) []ast.MediaQueryPart {
 	newParts := make([]ast.MediaQueryPart, 0, len(parts))
-	for _, p := range parts {
+	for i, p := range parts {
 		switch part := p.(type) {
 		case *ast.MediaFeaturePlain:
 			if part.Value != nil || !strings.HasPrefix(part.Property.Value, "--") {
@@ -526,7 +546,11 @@ func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart) []ast
 			newParts = append(newParts, replacement.Parts...)
 
 		case *ast.MediaFeatureRange:
-			newParts = append(newParts, t.transformMediaFeatureRange(part)...)
+			features := t.transformMediaFeatureRange(part)
+			if len(features) > 1 && !canSpliceAnd(parts, i) {
+				features = []ast.MediaQueryPart{&ast.MediaInParens{Span: part.Span, Parts: features}}
+			}
+			newParts = append(newParts, features...)
 
 		case *ast.MediaInParens:
 			part.Parts = t.transformMediaQueryParts(part.Parts)
-- 
2.43.0


From 50ab127ad2765b8a28b9d4648e276edaf6913604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 46/92] fix: transform the media queries of @import rules

---
 internal/transformer/transformer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 8adc52d..ff1b6f1 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -366,6 +366,11 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 			case "import":
 				imported, ok := t.ImportReplacements[node]
 				if !ok {
+					for _, prelude := range node.Preludes {
+						if mq, isMedia := prelude.(*ast.MediaQueryList); isMedia {
+							mq.Queries = t.transformMediaQueries(mq.Queries)
+						}
+					}
 					rv = append(rv, node)
 					break
 				}
-- 
2.43.0


From 55b37d90f93a4990dcf898417b4a529aac920f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 47/92] fix: keep the meaning of media queries when replacing
 custom media queries

---
 internal/transformer/transformer.go | 155 ++++++++++++++++++++++++++--
 1 file changed, 145 insertions(+), 10 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index ff1b6f1..25a15be 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -46,7 +46,7 @@ func Transform(s *ast.Stylesheet, opts Options) *ast.Stylesheet {
 	}
 
 	if opts.CustomMediaQueries != transforms.CustomMediaQueriesPassthrough {
-		t.customMedia = make(map[string]*ast.MediaQuery)
+		t.customMedia = make(map[string]*customMedia)
 	}
 
 	if opts.ImportReplacements == nil && opts.ImportRules == transforms.ImportRulesInline {
@@ -65,7 +65,10 @@ type transformer struct {
 	Options
 
 	variables   map[string]*variable
-	customMedia map[string]*ast.MediaQuery
+	customMedia map[string]*customMedia
+
+	// customMediaDepth is how many custom media queries are being substituted.
+	customMediaDepth int
 
 	// resolving is the stack of custom properties whose values are being substituted.
 	resolving []*variable
@@ -89,8 +92,21 @@ type variable struct {
 	cyclic bool
 }
 
+// customMedia is a custom media query.
+type customMedia struct {
+	query *ast.MediaQuery
+
+	// source is where the custom media query was defined.
+	source *sources.Source
+
+	// resolving and resolved are whether or not the custom media queries in the
+	// query are being substituted, or have been substituted.
+	resolving, resolved bool
+}
+
 const (
-	// maxResolving limits how many custom properties can depend on each other in a chain.
+	// maxResolving limits how many custom properties (or custom media queries) can depend
+	// on each other in a chain.
 	maxResolving = 1000
 
 	// maxSubstituted limits the number of substituted values, because custom
@@ -338,7 +354,7 @@ func (t *transformer) collectCustomMedia(node *ast.AtRule) {
 		return
 	}
 
-	t.customMedia[name.Value] = query
+	t.customMedia[name.Value] = &customMedia{query: query, source: t.OriginalSource}
 }
 
 func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
@@ -409,7 +425,7 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 func (t *transformer) transformMediaQueries(queries []*ast.MediaQuery) []*ast.MediaQuery {
 	newQueries := make([]*ast.MediaQuery, 0, len(queries))
 	for _, q := range queries {
-		q.Parts = t.transformMediaQueryParts(q.Parts)
+		q.Parts = t.transformMediaQueryParts(q.Parts, false)
 		newQueries = append(newQueries, q)
 	}
 	return newQueries
@@ -527,7 +543,114 @@ func canSpliceAnd(parts []ast.MediaQueryPart, index int) bool {
 	return true
 }
 
-func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart) []ast.MediaQueryPart {
+// isAndOnly returns whether or not the parts are only joined by "and".
+func isAndOnly(parts []ast.MediaQueryPart) bool {
+	for _, p := range parts {
+		if _, ok := p.(*ast.Identifier); ok && !isKeyword(p, "and") {
+			return false
+		}
+	}
+	return true
+}
+
+// hasMediaType returns whether or not there is a media type in a query, e.g. print.
+func hasMediaType(parts []ast.MediaQueryPart) bool {
+	for _, p := range parts {
+		if _, ok := p.(*ast.Identifier); ok && !isKeyword(p, "and") && !isKeyword(p, "or") && !isKeyword(p, "not") {
+			return true
+		}
+	}
+	return false
+}
+
+// spliceMediaType appends the replacement of parts[index], which has a media type, to newParts. Media types are only
+// allowed at the beginning of a query, where they can be negated.
+func (t *transformer) spliceMediaType(newParts, parts []ast.MediaQueryPart, index int, replacement []ast.MediaQueryPart) []ast.MediaQueryPart {
+	canNegate := !isKeyword(replacement[0], "not") && !isKeyword(replacement[0], "only")
+	if len(parts) == 2 && index == 1 && isKeyword(parts[0], "not") && canNegate {
+		return append(newParts, replacement...)
+	}
+
+	if isAndOnly(parts) && !hasMediaType(newParts) && !isKeyword(replacement[0], "not") {
+		if index == 0 {
+			return append(newParts, replacement...)
+		}
+		and := newParts[len(newParts)-1]
+		return append(append(replacement, and), newParts[:len(newParts)-1]...)
+	}
+
+	t.addError(parts[index], "custom media query with a media type cannot be used in this condition")
+	return append(newParts, parts[index])
+}
+
+// resolveCustomMedia returns the parts to replace a custom media query with. It returns nil if there are none.
+func (t *transformer) resolveCustomMedia(use *ast.MediaFeaturePlain) []ast.MediaQueryPart {
+	definition, ok := t.customMedia[use.Property.Value]
+	if !ok || definition.resolving {
+		return nil
+	}
+
+	if !definition.resolved {
+		if t.customMediaDepth >= maxResolving {
+			t.addError(use, "too many custom media queries depend on each other: %s", use.Property.Value)
+			return nil
+		}
+
+		useSource := t.OriginalSource
+		t.OriginalSource = definition.source
+		t.customMediaDepth++
+		definition.resolving = true
+		definition.query.Parts = t.transformMediaQueryParts(definition.query.Parts, false)
+		definition.resolving = false
+		definition.resolved = true
+		t.customMediaDepth--
+		t.OriginalSource = useSource
+	}
+
+	t.substituted += countMediaParts(definition.query.Parts)
+	if t.substituted > maxSubstituted {
+		t.addError(use, "too many substitutions of custom media queries: %s", use.Property.Value)
+		return nil
+	}
+	return copyMediaParts(definition.query.Parts, use.Span)
+}
+
+// countMediaParts returns the number of parts, including the ones in parenthesis.
+func countMediaParts(parts []ast.MediaQueryPart) int {
+	count := len(parts)
+	for _, p := range parts {
+		if parens, ok := p.(*ast.MediaInParens); ok {
+			count += countMediaParts(parens.Parts)
+		}
+	}
+	return count
+}
+
+// copyMediaParts returns a deep copy of parts that are used at span.
+func copyMediaParts(parts []ast.MediaQueryPart, span ast.Span) []ast.MediaQueryPart {
+	rv := make([]ast.MediaQueryPart, 0, len(parts))
+	for _, p := range parts {
+		switch part := p.(type) {
+		case *ast.Identifier:
+			rv = append(rv, &ast.Identifier{Span: span, Value: part.Value})
+		case *ast.MediaInParens:
+			rv = append(rv, &ast.MediaInParens{Span: span, Parts: copyMediaParts(part.Parts, span)})
+		case *ast.MediaFeaturePlain:
+			rv = append(rv, &ast.MediaFeaturePlain{Span: span, Property: part.Property, Value: part.Value})
+		case *ast.MediaFeatureRange:
+			c := *part
+			c.Span = span
+			rv = append(rv, &c)
+		default:
+			rv = append(rv, p)
+		}
+	}
+	return rv
+}
+
+// transformMediaQueryParts transforms the parts of a media query, or if nested is set, the parts of
+// a condition in parenthesis.
+func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart, nested bool) []ast.MediaQueryPart {
 	newParts := make([]ast.MediaQueryPart, 0, len(parts))
 	for i, p := range parts {
 		switch part := p.(type) {
@@ -542,13 +665,25 @@ func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart) []ast
 				break
 			}
 
-			replacement, ok := t.customMedia[part.Property.Value]
-			if !ok {
+			replacement := t.resolveCustomMedia(part)
+			if replacement == nil {
 				newParts = append(newParts, p)
 				break
 			}
 
-			newParts = append(newParts, replacement.Parts...)
+			switch {
+			case len(parts) == 1 && !(nested && hasMediaType(replacement)):
+				newParts = append(newParts, replacement...)
+
+			case hasMediaType(replacement):
+				newParts = t.spliceMediaType(newParts, parts, i, replacement)
+
+			case len(replacement) > 1 && !(isAndOnly(replacement) && canSpliceAnd(parts, i)):
+				newParts = append(newParts, &ast.MediaInParens{Span: part.Span, Parts: replacement})
+
+			default:
+				newParts = append(newParts, replacement...)
+			}
 
 		case *ast.MediaFeatureRange:
 			features := t.transformMediaFeatureRange(part)
@@ -558,7 +693,7 @@ func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart) []ast
 			newParts = append(newParts, features...)
 
 		case *ast.MediaInParens:
-			part.Parts = t.transformMediaQueryParts(part.Parts)
+			part.Parts = t.transformMediaQueryParts(part.Parts, true)
 			newParts = append(newParts, part)
 
 		default:
-- 
2.43.0


From 244b8cd8aab09ade9b95a762bcaef742c0e1a722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 48/92] fix: report broken media features where they are

---
 internal/parser/parser.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 8d6a048..7ec4ad5 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -817,12 +817,12 @@ func (p *parser) parseMediaFeature(startLoc ast.Span) ast.MediaFeature {
 	switch p.lexer.Current {
 	case lexer.RParen:
 		startLoc.End = p.lexer.TokenEnd()
-		p.lexer.Next()
 		ident, ok := firstValue.(*ast.Identifier)
 		if !ok {
-			// XXX: this location is wrong. also, can't figure out type since we lost the lexer value.
-			p.lexer.Errorf("expected identifier in media feature with no value")
+			// XXX: can't figure out type since we lost the lexer value.
+			p.lexer.LocationErrorf(startLoc, "expected identifier in media feature with no value")
 		}
+		p.lexer.Next()
 
 		return &ast.MediaFeaturePlain{
 			Span:     startLoc,
@@ -833,8 +833,9 @@ func (p *parser) parseMediaFeature(startLoc ast.Span) ast.MediaFeature {
 		p.lexer.Next()
 		ident, ok := firstValue.(*ast.Identifier)
 		if !ok {
-			// XXX: this location is wrong. also, can't figure out type since we lost the lexer value.
-			p.lexer.Errorf("expected identifier in non-range media feature")
+			// XXX: can't figure out type since we lost the lexer value.
+			startLoc.End = p.lexer.TokenEnd()
+			p.lexer.LocationErrorf(startLoc, "expected identifier in non-range media feature")
 		}
 
 		secondValue := p.parseValue()
@@ -881,7 +882,7 @@ func (p *parser) parseMediaFeature(startLoc ast.Span) ast.MediaFeature {
 			// width < 600px, so the first value must have been an identifier.
 			maybeIdent, ok := firstValue.(*ast.Identifier)
 			if !ok {
-				p.lexer.Errorf("expected identifier")
+				p.lexer.LocationErrorf(firstValue.Location(), "expected identifier")
 			}
 
 			r.LeftValue = nil
-- 
2.43.0


From 03c510279fa3440213db05ff8590534dcbc9a931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 49/92] fix: compile every entry and import, not only the last
 one

---
 api.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api.go b/api.go
index f559852..7459b55 100644
--- a/api.go
+++ b/api.go
@@ -181,6 +181,7 @@ func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
 	replacements := make(map[*ast.AtRule]*ast.Stylesheet)
 	var wg errgroup.Group
 	for _, imp := range ss.Imports {
+		imp := imp
 		wg.Go(func() error {
 			rel, err := c.resolver.Resolve(imp.Value, filepath.Dir(source.Path))
 			if err != nil {
@@ -225,6 +226,7 @@ func Compile(opts Options) *Result {
 	var wg errgroup.Group
 
 	for _, e := range opts.Entry {
+		e := e
 		wg.Go(func() error {
 			c.parseFile(e, true)
 			return nil
-- 
2.43.0


From 5506dec47ac36d6ed7a9e5414db58a1b31accc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 50/92] fix: synchronize source indices, outputs and reported
 errors

---
 api.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/api.go b/api.go
index 7459b55..ac27bc8 100644
--- a/api.go
+++ b/api.go
@@ -72,7 +72,8 @@ type compilation struct {
 	astsByIndex   map[int]*ast.Stylesheet
 
 	// outputsByIndex is the set of sources to write outputs for.
-	outputsByIndex map[int]struct{}
+	outputsByIndexMu sync.Mutex
+	outputsByIndex   map[int]struct{}
 
 	result *Result
 
@@ -109,15 +110,20 @@ func (c *compilation) addSource(path string) (int, error) {
 	}
 
 	c.sourcesMu.Lock()
+	defer c.sourcesMu.Unlock()
+	if i, ok := c.sources[abs]; ok {
+		// Someone else added the same file in the meantime.
+		return i, nil
+	}
+
 	i := c.nextIndex
-	c.sources[abs] = i
-	c.sourcesMu.Unlock()
+	c.nextIndex++
 
 	c.sourcesByIndexMu.Lock()
 	c.sourcesByIndex[i] = source
 	c.sourcesByIndexMu.Unlock()
 
-	c.nextIndex++
+	c.sources[abs] = i
 	return i, nil
 }
 
@@ -133,6 +139,17 @@ type Result struct {
 	Files map[string]string
 }
 
+// synchronizedReporter is the compilation's reporter for use by
+// several goroutines at once.
+type synchronizedReporter struct {
+	*compilation
+}
+
+// AddError implements Reporter.
+func (r synchronizedReporter) AddError(err error) {
+	r.addError(err)
+}
+
 func (c *compilation) addError(err error) {
 	c.mu.Lock()
 	defer c.mu.Unlock()
@@ -155,7 +172,9 @@ func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
 	}
 
 	if hasOutput {
+		c.outputsByIndexMu.Lock()
 		c.outputsByIndex[idx] = struct{}{}
+		c.outputsByIndexMu.Unlock()
 	}
 
 	c.astsByIndexMu.RLock()
@@ -205,7 +224,7 @@ func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
 	opts := transformer.Options{
 		Options:        c.transforms,
 		OriginalSource: source,
-		Reporter:       c.reporter,
+		Reporter:       synchronizedReporter{c},
 	}
 
 	if c.transforms.ImportRules == transforms.ImportRulesInline {
-- 
2.43.0


From 5862efe320eac9cbbc89d1d2daca4733f745af40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:02 +0000
Subject: [PATCH 51/92] fix: ignore byte order marks

---
 api.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index ac27bc8..afe6a3d 100644
--- a/api.go
+++ b/api.go
@@ -3,6 +3,7 @@ package cssc
 import (
 	"io/ioutil"
 	"path/filepath"
+	"strings"
 	"sync"
 
 	"github.com/samsarahq/go/oops"
@@ -105,7 +106,8 @@ func (c *compilation) addSource(path string) (int, error) {
 	}
 
 	source := &sources.Source{
-		Content: string(in),
+		// The byte order mark is not part of the content.
+		Content: strings.TrimPrefix(string(in), "\uFEFF"),
 		Path:    abs,
 	}
 
-- 
2.43.0


From f9ee5a8bf0c3c9db4ad3d134453f4433979657e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 52/92] fix: inline imported files independently of each other
 and detect import cycles

---
 api.go                              | 129 ++++++++++++++++++++--------
 internal/transformer/transformer.go |  23 ++++-
 2 files changed, 116 insertions(+), 36 deletions(-)

diff --git a/api.go b/api.go
index afe6a3d..fadd234 100644
--- a/api.go
+++ b/api.go
@@ -162,15 +162,13 @@ func (c *compilation) addError(err error) {
 // looks at imported files and adds them to the compilation. hasOutput should
 // be called if the file should be included in compilation output.
 //
-// parseFile also runs the last transformation pass on the output. Note that we
-// don't make this function print the output as well so that we can make the current
-// file available to any callers as a dependency.
-func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
+// parseFile also runs the last transformation pass on the output.
+func (c *compilation) parseFile(file string, hasOutput bool) {
 	// Assign the file a source index.
 	idx, err := c.addSource(file)
 	if err != nil {
 		c.addError(err)
-		return nil
+		return
 	}
 
 	if hasOutput {
@@ -179,12 +177,15 @@ func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
 		c.outputsByIndexMu.Unlock()
 	}
 
-	c.astsByIndexMu.RLock()
-	if ss, ok := c.astsByIndex[idx]; ok {
-		c.astsByIndexMu.RUnlock()
-		return ss
+	// The first one to get here parses the file. No one needs to wait for it, because
+	// the result is only used once everything is parsed (and waiting would never end if files import each other).
+	c.astsByIndexMu.Lock()
+	if _, ok := c.astsByIndex[idx]; ok {
+		c.astsByIndexMu.Unlock()
+		return
 	}
-	c.astsByIndexMu.RUnlock()
+	c.astsByIndex[idx] = nil
+	c.astsByIndexMu.Unlock()
 
 	c.sourcesByIndexMu.RLock()
 	source := c.sourcesByIndex[idx]
@@ -192,14 +193,38 @@ func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
 	ss, err := parser.Parse(source)
 	if err != nil {
 		c.addError(err)
-		return nil
+		return
+	}
+
+	opts := transformer.Options{
+		Options:        c.transforms,
+		OriginalSource: source,
+		Reporter:       synchronizedReporter{c},
 	}
 
 	// Immediately look at the imports from the file and feed those dependencies
-	// into parseFile as well. If we're set to inline imports, then we'll use
+	// into parseFile as well. If we're set to inline imports, then we'll
 	// collect those dependency ASTs to let the transformer replace them.
-	var mu sync.Mutex
-	replacements := make(map[*ast.AtRule]*ast.Stylesheet)
+	if c.transforms.ImportRules == transforms.ImportRulesInline {
+		imports := importedFiles{
+			replacements: make(map[*ast.AtRule]*ast.Stylesheet),
+			sources:      make(map[*ast.AtRule]*sources.Source),
+		}
+		c.parseImports(ss, source, nil, &imports)
+		opts.ImportReplacements = imports.replacements
+		opts.ImportSources = imports.sources
+	} else {
+		c.followImports(ss, source)
+	}
+
+	ss = transformer.Transform(ss, opts)
+	c.astsByIndexMu.Lock()
+	c.astsByIndex[idx] = ss
+	c.astsByIndexMu.Unlock()
+}
+
+// followImports adds the files imported by the stylesheet to the compilation.
+func (c *compilation) followImports(ss *ast.Stylesheet, source *sources.Source) {
 	var wg errgroup.Group
 	for _, imp := range ss.Imports {
 		imp := imp
@@ -211,33 +236,69 @@ func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
 			}
 
 			// If import follow is on, then every referenced file makes it to the output.
-			imported := c.parseFile(rel, c.transforms.ImportRules == transforms.ImportRulesFollow)
-
-			mu.Lock()
-			defer mu.Unlock()
-			if imported != nil {
-				replacements[imp.AtRule] = imported
-			}
+			c.parseFile(rel, c.transforms.ImportRules == transforms.ImportRulesFollow)
 			return nil
 		})
 	}
 	wg.Wait()
+}
 
-	opts := transformer.Options{
-		Options:        c.transforms,
-		OriginalSource: source,
-		Reporter:       synchronizedReporter{c},
-	}
+// importedFiles is the set of files to inline into another one.
+type importedFiles struct {
+	mu           sync.Mutex
+	replacements map[*ast.AtRule]*ast.Stylesheet
+	sources      map[*ast.AtRule]*sources.Source
+}
 
-	if c.transforms.ImportRules == transforms.ImportRulesInline {
-		opts.ImportReplacements = replacements
-	}
+// parseImports parses the files imported by the stylesheet (and the ones imported by those) and adds them to
+// imports. Files are parsed once for every @import, since the transformer modifies the parsed result. importers
+// is the chain of files that leads to the stylesheet.
+func (c *compilation) parseImports(ss *ast.Stylesheet, source *sources.Source, importers []string, imports *importedFiles) {
+	chain := append(append(make([]string, 0, len(importers)+1), importers...), source.Path)
 
-	ss = transformer.Transform(ss, opts)
-	c.astsByIndexMu.Lock()
-	c.astsByIndex[idx] = ss
-	c.astsByIndexMu.Unlock()
-	return ss
+	var wg errgroup.Group
+	for _, imp := range ss.Imports {
+		imp := imp
+		wg.Go(func() error {
+			rel, err := c.resolver.Resolve(imp.Value, filepath.Dir(source.Path))
+			if err != nil {
+				c.addError(err)
+				return nil
+			}
+
+			idx, err := c.addSource(rel)
+			if err != nil {
+				c.addError(err)
+				return nil
+			}
+
+			c.sourcesByIndexMu.RLock()
+			cached := c.sourcesByIndex[idx]
+			c.sourcesByIndexMu.RUnlock()
+			imported := &sources.Source{Path: cached.Path, Content: cached.Content}
+			for _, path := range chain {
+				if path == imported.Path {
+					c.addError(oops.Errorf("cannot inline %s, because it imports itself: imported by %s", path, source.Path))
+					return nil
+				}
+			}
+
+			importedSS, err := parser.Parse(imported)
+			if err != nil {
+				c.addError(err)
+				return nil
+			}
+
+			imports.mu.Lock()
+			imports.replacements[imp.AtRule] = importedSS
+			imports.sources[imp.AtRule] = imported
+			imports.mu.Unlock()
+
+			c.parseImports(importedSS, imported, chain, imports)
+			return nil
+		})
+	}
+	wg.Wait()
 }
 
 // Compile runs a compilation with the specified Options.
diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 25a15be..d0b9da6 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -28,6 +28,10 @@ type Options struct {
 	// ImportReplacements is the set of import references to inline. ImportReplacements must be non-nil
 	// if ImportRules is set to ImportRulesInline.
 	ImportReplacements map[*ast.AtRule]*ast.Stylesheet
+
+	// ImportSources is the set of sources that ImportReplacements were parsed from. It is used
+	// to report error locations.
+	ImportSources map[*ast.AtRule]*sources.Source
 }
 
 // Transform takes a pass over the input AST and runs various
@@ -122,6 +126,17 @@ func (t *transformer) addWarn(loc ast.Node, fmt string, args ...interface{}) {
 	t.Reporter.AddError(logging.LocationWarnf(t.OriginalSource, loc.Location(), fmt, args...))
 }
 
+// withImportSource runs f, which works on the replacement for an import, so that
+// errors are reported at locations in the imported source.
+func (t *transformer) withImportSource(imp *ast.AtRule, f func()) {
+	importer := t.OriginalSource
+	defer func() { t.OriginalSource = importer }()
+	if source, ok := t.ImportSources[imp]; ok {
+		t.OriginalSource = source
+	}
+	f()
+}
+
 // maxAlternatives limits how many selectors a single selector can be expanded into.
 const maxAlternatives = 1024
 
@@ -288,7 +303,9 @@ func (t *transformer) collectDefinitions(nodes []ast.Node) {
 			switch node.Name {
 			case "import":
 				if imported, ok := t.ImportReplacements[node]; ok {
-					t.collectDefinitions(imported.Nodes)
+					t.withImportSource(node, func() {
+						t.collectDefinitions(imported.Nodes)
+					})
 				}
 
 			case "custom-media":
@@ -395,7 +412,9 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 					t.addWarn(node, "@import transform does not yet support @supports or media queries")
 				}
 
-				rv = append(rv, t.transformNodes(imported.Nodes)...)
+				t.withImportSource(node, func() {
+					rv = append(rv, t.transformNodes(imported.Nodes)...)
+				})
 
 			case "custom-media":
 				// Definitions have already been collected.
-- 
2.43.0


From 1defcf17baf29ab5db11a85673b9973075c8d0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 53/92] fix: resolver hang for relative directories, empty
 result for directories named like files

---
 resolver/node_resolver.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/resolver/node_resolver.go b/resolver/node_resolver.go
index 2c491a7..2170e08 100644
--- a/resolver/node_resolver.go
+++ b/resolver/node_resolver.go
@@ -108,6 +108,9 @@ func (r *NodeResolver) resolveAsDir(path string) (string, error) {
 			if os.IsNotExist(err) {
 				return "", oops.Wrapf(ErrNotFound, "could not resolve as directory: %s", path)
 			}
+			if err == nil {
+				return "", oops.Wrapf(ErrNotFound, "%s exists, but is directory", indexPath)
+			}
 			return "", oops.Wrapf(err, "failure during resolution")
 		}
 
@@ -129,6 +132,9 @@ func (r *NodeResolver) resolveAsDir(path string) (string, error) {
 		if os.IsNotExist(err) {
 			return "", oops.Wrapf(ErrNotFound, "package.json has style attribute, but it cannot be resolved: %s (to %s)", pkgContent.Style, stylePath)
 		}
+		if err == nil {
+			return "", oops.Wrapf(ErrNotFound, "%s exists, but is directory", stylePath)
+		}
 		return "", oops.Wrapf(err, "failure during resolution")
 	}
 
@@ -138,14 +144,19 @@ func (r *NodeResolver) resolveAsDir(path string) (string, error) {
 // resolveAsNodeModule walks directories from fromDir to find node_modules paths.
 func (r *NodeResolver) resolveFromNodeModules(module, fromDir string) (string, error) {
 	currentDir := fromDir
-	for currentDir != "/" {
+	for {
 		modulePkgPath := filepath.Join(currentDir, "node_modules", module)
 
 		if res, err := r.resolve(modulePkgPath); err == nil {
 			return res, nil
 		}
 
-		currentDir = filepath.Dir(currentDir)
+		parent := filepath.Dir(currentDir)
+		if parent == currentDir {
+			// This is the root, or "." if fromDir is relative.
+			break
+		}
+		currentDir = parent
 	}
 
 	return "", oops.Wrapf(ErrNotFound, "could not find absolute path in node_modules")
-- 
2.43.0


From a013606669fc38456d57deac65fcf73819daad8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 54/92] fix: resolve files with extension before directories,
 and . and .. as relative

---
 resolver/node_resolver.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/resolver/node_resolver.go b/resolver/node_resolver.go
index 2170e08..afa6446 100644
--- a/resolver/node_resolver.go
+++ b/resolver/node_resolver.go
@@ -28,7 +28,7 @@ type NodeResolver struct {
 
 // Resolve implements Resolver.
 func (r *NodeResolver) Resolve(spec, fromDir string) (string, error) {
-	if isRelative := strings.HasPrefix(spec, "../") || strings.HasPrefix(spec, "./") || strings.HasPrefix(spec, "/"); isRelative {
+	if isRelative := strings.HasPrefix(spec, "../") || strings.HasPrefix(spec, "./") || strings.HasPrefix(spec, "/") || spec == "." || spec == ".."; isRelative {
 		path := filepath.Join(fromDir, spec)
 		if res, err := r.resolve(path); err != nil {
 			return "", oops.Wrapf(err, "could not resolve %s relative to %s", spec, fromDir)
@@ -88,6 +88,12 @@ func (r *NodeResolver) resolve(absPath string) (string, error) {
 		return absPath, nil
 	}
 
+	// Files take precedence over directories of the same name, so try the extension first.
+	withExtension := absPath + ".css"
+	if info, err := os.Stat(withExtension); err == nil && !info.IsDir() {
+		return withExtension, nil
+	}
+
 	// Otherwise, try to resolve as a directory.
 	path, err := r.resolveAsDir(absPath)
 	if err == nil {
-- 
2.43.0


From 338c64b3c7b8c5dd15f492222adccb36192bab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 55/92] fix: report every esbuild message once and at the right
 location

---
 esbuildplugin/plugin.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/esbuildplugin/plugin.go b/esbuildplugin/plugin.go
index 36d62ee..bf2ae38 100644
--- a/esbuildplugin/plugin.go
+++ b/esbuildplugin/plugin.go
@@ -2,6 +2,7 @@ package esbuildplugin
 
 import (
 	"context"
+	"errors"
 	"runtime/pprof"
 
 	"github.com/evanw/esbuild/pkg/api"
@@ -26,21 +27,29 @@ func (r *csscReporter) toEsbuild() []api.Message {
 	var errs []api.Message
 	for _, err := range *r {
 
-		if lErr, ok := err.(locationError); ok {
+		// Parse errors wrap the error with the location.
+		var lErr locationError
+		if errors.As(err, &lErr) {
 			source, span := lErr.Location()
-			_, colNumber := source.LineAndCol(span)
+			lineNumber, colNumber := source.LineAndCol(span)
 			lineSpan := source.FullLine(span)
+			end := span.End
+			if end > lineSpan.End {
+				end = lineSpan.End
+			}
 
 			errs = append(errs, api.Message{
 				Text: err.Error(),
 				Location: &api.Location{
-					File:     source.Path,
-					Column:   int(colNumber),
-					Line:     lineSpan.Start,
-					Length:   lineSpan.End - lineSpan.Start,
+					File: source.Path,
+					// esbuild's columns start at 0, but lines start at 1.
+					Column:   int(colNumber) - 1,
+					Line:     int(lineNumber),
+					Length:   end - span.Start,
 					LineText: source.Content[lineSpan.Start:lineSpan.End],
 				},
 			})
+			continue
 		}
 
 		errs = append(errs, api.Message{
@@ -80,10 +89,10 @@ func Plugin(opts ...Option) api.Plugin {
 				func(args api.OnLoadArgs) (res api.OnLoadResult, err error) {
 					res.Loader = api.LoaderCSS
 
-					var errors csscReporter
+					var reporter csscReporter
 					options := cssc.Options{
 						Entry:    []string{args.Path},
-						Reporter: &errors,
+						Reporter: &reporter,
 					}
 					for _, opt := range opts {
 						options = opt(options)
@@ -92,8 +101,8 @@ func Plugin(opts ...Option) api.Plugin {
 					pprof.SetGoroutineLabels(pprof.WithLabels(context.TODO(), pprof.Labels("cssc-path", args.Path)))
 					result := cssc.Compile(options)
 
-					if len(errors) > 0 {
-						res.Errors = errors.toEsbuild()
+					if len(reporter) > 0 {
+						res.Errors = reporter.toEsbuild()
 						return
 					}
 
-- 
2.43.0


From 15afd6ee9440155168e7907d1143e4458ef0a06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 56/92] fix: do not fail esbuild builds because of warnings

---
 esbuildplugin/plugin.go     | 19 ++++++++++++-------
 internal/logging/logging.go |  5 +++++
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/esbuildplugin/plugin.go b/esbuildplugin/plugin.go
index bf2ae38..7329f5b 100644
--- a/esbuildplugin/plugin.go
+++ b/esbuildplugin/plugin.go
@@ -21,10 +21,10 @@ func (r *csscReporter) AddError(err error) {
 
 type locationError interface {
 	Location() (*sources.Source, ast.Span)
+	IsWarning() bool
 }
 
-func (r *csscReporter) toEsbuild() []api.Message {
-	var errs []api.Message
+func (r *csscReporter) toEsbuild() (errs, warnings []api.Message) {
 	for _, err := range *r {
 
 		// Parse errors wrap the error with the location.
@@ -38,7 +38,7 @@ func (r *csscReporter) toEsbuild() []api.Message {
 				end = lineSpan.End
 			}
 
-			errs = append(errs, api.Message{
+			message := api.Message{
 				Text: err.Error(),
 				Location: &api.Location{
 					File: source.Path,
@@ -48,7 +48,12 @@ func (r *csscReporter) toEsbuild() []api.Message {
 					Length:   end - span.Start,
 					LineText: source.Content[lineSpan.Start:lineSpan.End],
 				},
-			})
+			}
+			if lErr.IsWarning() {
+				warnings = append(warnings, message)
+			} else {
+				errs = append(errs, message)
+			}
 			continue
 		}
 
@@ -57,7 +62,7 @@ func (r *csscReporter) toEsbuild() []api.Message {
 		})
 	}
 
-	return errs
+	return errs, warnings
 }
 
 // Option is an optional argument to the plugin.
@@ -101,8 +106,8 @@ func Plugin(opts ...Option) api.Plugin {
 					pprof.SetGoroutineLabels(pprof.WithLabels(context.TODO(), pprof.Labels("cssc-path", args.Path)))
 					result := cssc.Compile(options)
 
-					if len(reporter) > 0 {
-						res.Errors = reporter.toEsbuild()
+					res.Errors, res.Warnings = reporter.toEsbuild()
+					if len(res.Errors) > 0 {
 						return
 					}
 
diff --git a/internal/logging/logging.go b/internal/logging/logging.go
index 45d7eeb..300ccb2 100644
--- a/internal/logging/logging.go
+++ b/internal/logging/logging.go
@@ -71,6 +71,11 @@ func (l *locationError) Error() string {
 	return fmt.Sprintf("%s:%d:%d\n%s:\n%s", l.Source.Path, lineNumber, col, l.inner.Error(), AnnotateSourceSpan(l.Source, l.Span))
 }
 
+// IsWarning returns whether or not the error is only a warning.
+func (l *locationError) IsWarning() bool {
+	return l.warning
+}
+
 // Location returns the source and span for the location error.
 func (l *locationError) Location() (source *sources.Source, span ast.Span) {
 	return l.Source, l.Span
-- 
2.43.0


From c92b80aba91de038d5ff26da4d9085c8c6829cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:09 +0000
Subject: [PATCH 57/92] fix: collapse whitespace around comments in selectors

---
 internal/parser/selectors.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index ecddac7..35585b1 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -55,7 +55,8 @@ func (p *parser) parseSelector() *ast.Selector {
 
 		case lexer.Whitespace:
 			whitespace := &ast.Whitespace{Span: p.lexer.TokenSpan()}
-			p.lexer.Next()
+			// There can be comments in between.
+			p.skipWhitespace()
 
 			// Don't keep whitespace at the end of the selector after an attribute.
 			if len(s.Parts) > 0 && (p.lexer.Current == lexer.LCurly || p.lexer.Current == lexer.Comma || p.lexer.Current == lexer.RParen) {
-- 
2.43.0


From 93d44e506346d992d8acff80bca1dded0cd26013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 58/92] fix: print An+B with an explicitly positive step like
 without the sign

---
 internal/printer/printer.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 6608fd9..19e18c0 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -387,17 +387,16 @@ func (p *printer) print(in ast.Node) {
 
 	case *ast.ANPlusB:
 		wrote := false
-		if node.A != "" && node.A != "1" && node.A != "0" {
-			if node.A == "-1" {
+		a := strings.TrimPrefix(node.A, "+")
+		if a != "" && a != "1" && a != "0" {
+			if a == "-1" {
 				p.s.WriteString("-")
-			} else if strings.HasPrefix(node.A, "+") {
-				p.s.WriteString(node.A[1:])
 			} else {
-				p.s.WriteString(node.A)
+				p.s.WriteString(a)
 			}
 			wrote = true
 		}
-		if node.A != "0" {
+		if a != "0" {
 			p.s.WriteRune('n')
 			wrote = true
 		}
-- 
2.43.0


From 376ff76a676b6cad6038e974687389afd8cf6161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 59/92] fix: parse n-3 as An+B

---
 internal/parser/selectors.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 35585b1..5bc8266 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -144,7 +144,7 @@ func (p *parser) parseSelector() *ast.Selector {
 					case lexer.Number, lexer.Dimension:
 						pc.Arguments = p.parseANPlusB()
 					case lexer.Ident:
-						if p.lexer.CurrentString == "n" || p.lexer.CurrentString == "-n" {
+						if p.lexer.CurrentString == "n" || p.lexer.CurrentString == "-n" || isNMinus(p.lexer.CurrentString) {
 							pc.Arguments = p.parseANPlusB()
 							break
 						}
@@ -257,6 +257,16 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 	return attr
 }
 
+// isNMinus returns whether or not an identifier is n- or -n- and a number, e.g. n-3.
+func isNMinus(ident string) bool {
+	digits := strings.TrimPrefix(ident, "-")
+	if !strings.HasPrefix(digits, "n-") {
+		return false
+	}
+	digits = digits[len("n-"):]
+	return digits != "" && strings.Trim(digits, "0123456789") == ""
+}
+
 func (p *parser) parseANPlusB() *ast.ANPlusB {
 	prev := p.lexer.RetainWhitespace
 	p.lexer.RetainWhitespace = false
@@ -298,6 +308,16 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 		v.A = "-1"
 		v.End = p.lexer.TokenEnd()
 		p.lexer.Expect(lexer.Ident)
+	} else if p.lexer.Current == lexer.Ident && isNMinus(p.lexer.CurrentString) {
+		// Something like n-3 is a single identifier.
+		if strings.HasPrefix(p.lexer.CurrentString, "-") {
+			v.A = "-1"
+		}
+		v.Operator = "-"
+		v.B = strings.TrimPrefix(strings.TrimPrefix(p.lexer.CurrentString, "-"), "n-")
+		v.End = p.lexer.TokenEnd()
+		p.lexer.Expect(lexer.Ident)
+		return v
 	} else if p.lexer.Current == lexer.Number {
 		v.A = "0"
 		v.B = p.lexer.CurrentNumeral
-- 
2.43.0


From c83747eef1fdd94f4a480ea4f41aa638a1c0cb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 60/92] fix: report custom media queries with a media type in
 parenthesis

---
 internal/transformer/transformer.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index d0b9da6..d13e3d9 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -583,8 +583,13 @@ func hasMediaType(parts []ast.MediaQueryPart) bool {
 }
 
 // spliceMediaType appends the replacement of parts[index], which has a media type, to newParts. Media types are only
-// allowed at the beginning of a query, where they can be negated.
-func (t *transformer) spliceMediaType(newParts, parts []ast.MediaQueryPart, index int, replacement []ast.MediaQueryPart) []ast.MediaQueryPart {
+// allowed at the beginning of a query, where they can be negated, and not in parenthesis.
+func (t *transformer) spliceMediaType(newParts, parts []ast.MediaQueryPart, index int, replacement []ast.MediaQueryPart, nested bool) []ast.MediaQueryPart {
+	if nested {
+		t.addError(parts[index], "custom media query with a media type cannot be used in this condition")
+		return append(newParts, parts[index])
+	}
+
 	canNegate := !isKeyword(replacement[0], "not") && !isKeyword(replacement[0], "only")
 	if len(parts) == 2 && index == 1 && isKeyword(parts[0], "not") && canNegate {
 		return append(newParts, replacement...)
@@ -695,7 +700,7 @@ func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart, neste
 				newParts = append(newParts, replacement...)
 
 			case hasMediaType(replacement):
-				newParts = t.spliceMediaType(newParts, parts, i, replacement)
+				newParts = t.spliceMediaType(newParts, parts, i, replacement, nested)
 
 			case len(replacement) > 1 && !(isAndOnly(replacement) && canSpliceAnd(parts, i)):
 				newParts = append(newParts, &ast.MediaInParens{Span: part.Span, Parts: replacement})
-- 
2.43.0


From dd9e85a072f0a3f0f887f25f6dd45c6f89550264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 61/92] fix: resolve the value of import targets with escapes

---
 internal/parser/parser.go | 59 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 56 insertions(+), 3 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 7ec4ad5..13642d5 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -1,7 +1,9 @@
 package parser
 
 import (
+	"strconv"
 	"strings"
+	"unicode"
 
 	"github.com/stephen/cssc/internal/ast"
 	"github.com/stephen/cssc/internal/lexer"
@@ -562,6 +564,57 @@ func (p *parser) parseAtRule() *ast.AtRule {
 	}
 }
 
+// unescape returns the value of a string or url, in which the escapes are replaced by what they stand for. See
+// https://www.w3.org/TR/css-syntax-3/#consume-escaped-code-point.
+func unescape(s string) string {
+	if !strings.Contains(s, "\\") {
+		return s
+	}
+
+	var b strings.Builder
+	for i := 0; i < len(s); i++ {
+		if s[i] != '\\' {
+			b.WriteByte(s[i])
+			continue
+		}
+		if i+1 == len(s) {
+			break
+		}
+
+		i++
+		digits := 0
+		for digits < 6 && i+digits < len(s) && strings.IndexByte("0123456789abcdefABCDEF", s[i+digits]) >= 0 {
+			digits++
+		}
+
+		switch {
+		case digits > 0:
+			code, _ := strconv.ParseUint(s[i:i+digits], 16, 32)
+			if code == 0 || code > unicode.MaxRune || (code >= 0xD800 && code <= 0xDFFF) {
+				code = unicode.ReplacementChar
+			}
+			b.WriteRune(rune(code))
+			i += digits
+			// A single whitespace ends the escape.
+			if i < len(s) && s[i] == '\r' && i+1 < len(s) && s[i+1] == '\n' {
+				i++
+			} else if i == len(s) || strings.IndexByte(" \t\n\r\f", s[i]) < 0 {
+				i--
+			}
+
+		case s[i] == '\r' && i+1 < len(s) && s[i+1] == '\n':
+			// An escaped newline is not part of the value.
+			i++
+
+		case s[i] == '\n' || s[i] == '\r' || s[i] == '\f':
+
+		default:
+			b.WriteByte(s[i])
+		}
+	}
+	return b.String()
+}
+
 // parseImportAtRule parses an import at rule. It roughly implements
 // https://www.w3.org/TR/css-cascade-4/#at-import.
 func (p *parser) parseImportAtRule() *ast.AtRule {
@@ -579,7 +632,7 @@ func (p *parser) parseImportAtRule() *ast.AtRule {
 		prelude.Span = p.lexer.TokenSpan()
 		prelude.Value = p.lexer.CurrentString
 		p.ss.Imports = append(p.ss.Imports, ast.ImportSpecifier{
-			Value:  prelude.Value,
+			Value:  unescape(prelude.Value),
 			AtRule: imp,
 		})
 		p.lexer.Next()
@@ -593,7 +646,7 @@ func (p *parser) parseImportAtRule() *ast.AtRule {
 
 		prelude.Value = p.lexer.CurrentString
 		p.ss.Imports = append(p.ss.Imports, ast.ImportSpecifier{
-			Value:  prelude.Value,
+			Value:  unescape(prelude.Value),
 			AtRule: imp,
 		})
 		p.lexer.Expect(lexer.String)
@@ -604,7 +657,7 @@ func (p *parser) parseImportAtRule() *ast.AtRule {
 		prelude.Span = p.lexer.TokenSpan()
 		prelude.Value = p.lexer.CurrentString
 		p.ss.Imports = append(p.ss.Imports, ast.ImportSpecifier{
-			Value:  prelude.Value,
+			Value:  unescape(prelude.Value),
 			AtRule: imp,
 		})
 		p.lexer.Expect(lexer.String)
-- 
2.43.0


From 2270bde0fd9a02ce0dbe8259372b3b2ce28354fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 62/92] fix: whitespace at the end of a url is not part of it

---
 internal/lexer/lexer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index bce99c0..f2d12c7 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -480,10 +480,12 @@ func (l *Lexer) nextIdentLikeToken() {
 
 		l.Current = URL
 		urlStart := l.lastPos
+		// urlEnd is the end of the url without the whitespace after it.
+		urlEnd := urlStart
 		for {
 			switch l.ch {
 			case ')':
-				l.CurrentString = l.source.Content[urlStart:l.lastPos]
+				l.CurrentString = l.source.Content[urlStart:urlEnd]
 				l.step()
 				return
 			case -1:
@@ -493,6 +495,7 @@ func (l *Lexer) nextIdentLikeToken() {
 			case '\\':
 				if startsEscape(l.ch, l.peek(0)) {
 					l.nextEscaped()
+					urlEnd = l.lastPos
 					continue
 				}
 
@@ -508,6 +511,7 @@ func (l *Lexer) nextIdentLikeToken() {
 				}
 
 				l.step()
+				urlEnd = l.lastPos
 			}
 		}
 	}
-- 
2.43.0


From b0935d5866d977e4937b7c5ef2c97b496a5ee758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:53 +0000
Subject: [PATCH 63/92] fix: accept URL() in upper case as an import target

---
 internal/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 13642d5..a781379 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -639,7 +639,7 @@ func (p *parser) parseImportAtRule() *ast.AtRule {
 
 	case lexer.FunctionStart:
 		prelude.Span = p.lexer.TokenSpan()
-		if p.lexer.CurrentString != "url" {
+		if !strings.EqualFold(p.lexer.CurrentString, "url") {
 			p.lexer.Errorf("@import target must be a url or string")
 		}
 		p.lexer.Next()
-- 
2.43.0


From 63a39169ac195eac00923573e70c1edf8f9eb45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:13 +0000
Subject: [PATCH 64/92] fix: accept newlines that end an escape in a string

---
 internal/lexer/lexer.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index f2d12c7..458c9c5 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -331,15 +331,16 @@ func (l *Lexer) Next() {
 				case '\n':
 					l.Errorf("unclosed string: unexpected newline")
 				case '\\':
-					l.step()
-
-					switch l.ch {
+					switch l.peek(0) {
 					case '\n':
 						l.step()
+						l.step()
 					case -1:
+						l.step()
 						l.Errorf("unexpected EOF")
 					default:
-						l.step()
+						// This includes whitespace (and newlines) at the end of the escape.
+						l.nextEscaped()
 					}
 				case -1:
 					l.Errorf("unexpected EOF")
-- 
2.43.0


From 4378f96271e5dcabf93cffdc6ca1795fe07e40ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:38 +0000
Subject: [PATCH 65/92] fix: line up the underline of a diagnostic after
 multi-byte characters

---
 internal/logging/logging.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/logging/logging.go b/internal/logging/logging.go
index 300ccb2..ee20994 100644
--- a/internal/logging/logging.go
+++ b/internal/logging/logging.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"os"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/stephen/cssc/internal/ast"
 	"github.com/stephen/cssc/internal/sources"
@@ -93,13 +94,17 @@ func AnnotateSourceSpan(source *sources.Source, span ast.Span) string {
 	tabCount := strings.Count(line, "\t")
 	withoutTabs := strings.ReplaceAll(line, "\t", "  ")
 
-	indent := strings.Repeat(" ", int(col)+tabCount-1)
-	underline := strings.Repeat("~", span.End-span.Start)[:]
+	end := span.End
 	excessMarker := ""
-	if excess := span.End - lineSpan.End; excess > 0 {
-		underline = underline[:len(underline)-excess]
+	if end > lineSpan.End {
+		end = lineSpan.End
 		excessMarker = ">"
 	}
 
+	// Columns are in bytes, but what is printed lines up by characters.
+	before := utf8.RuneCountInString(line[:col-1])
+	indent := strings.Repeat(" ", before+tabCount)
+	underline := strings.Repeat("~", utf8.RuneCountInString(source.Content[span.Start:end]))
+
 	return fmt.Sprintf("\t%s\n\t%s%s%s", withoutTabs, indent, underline, excessMarker)
 }
-- 
2.43.0


From fd4b48ca96a4b3ca48c74144a91a211c7c947198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 66/92] fix: recognize at-rules and keyframe selectors whatever
 their case

---
 internal/parser/parser.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index a781379..e1f2c3d 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -306,7 +306,7 @@ func (p *parser) parseKeyframeSelectorList() *ast.KeyframeSelectorList {
 			})
 
 		case lexer.Ident:
-			if p.lexer.CurrentString != "from" && p.lexer.CurrentString != "to" {
+			if !strings.EqualFold(p.lexer.CurrentString, "from") && !strings.EqualFold(p.lexer.CurrentString, "to") {
 				p.lexer.Errorf("unexpected string: %s. keyframe selector can only be from, to, or a percentage", p.lexer.CurrentString)
 			}
 			l.Selectors = append(l.Selectors, &ast.Identifier{
@@ -546,7 +546,8 @@ func (p *parser) parseValue() ast.Value {
 }
 
 func (p *parser) parseAtRule() *ast.AtRule {
-	switch p.lexer.CurrentString {
+	// The names of at-rules are case-insensitive.
+	switch strings.ToLower(p.lexer.CurrentString) {
 	case "import":
 		return p.parseImportAtRule()
 
@@ -622,7 +623,7 @@ func (p *parser) parseImportAtRule() *ast.AtRule {
 
 	imp := &ast.AtRule{
 		Span:     p.lexer.TokenSpan(),
-		Name:     p.lexer.CurrentString,
+		Name:     strings.ToLower(p.lexer.CurrentString),
 		Preludes: []ast.AtPrelude{prelude},
 	}
 	p.lexer.Next()
@@ -684,7 +685,7 @@ func (p *parser) parseImportAtRule() *ast.AtRule {
 func (p *parser) parseKeyframes() *ast.AtRule {
 	r := &ast.AtRule{
 		Span: p.lexer.TokenSpan(),
-		Name: p.lexer.CurrentString,
+		Name: strings.ToLower(p.lexer.CurrentString),
 	}
 	p.lexer.Next()
 
@@ -733,7 +734,7 @@ func (p *parser) parseKeyframes() *ast.AtRule {
 func (p *parser) parseMediaAtRule() *ast.AtRule {
 	r := &ast.AtRule{
 		Span: p.lexer.TokenSpan(),
-		Name: p.lexer.CurrentString,
+		Name: strings.ToLower(p.lexer.CurrentString),
 	}
 	p.lexer.Next()
 
@@ -769,8 +770,8 @@ func (p *parser) parseRuleBlock() *ast.QualifiedRuleBlock {
 			p.lexer.Next()
 
 		case lexer.At:
-			if p.lexer.CurrentString == "import" || p.lexer.CurrentString == "custom-media" {
-				p.lexer.Errorf("@%s is only allowed at the top level", p.lexer.CurrentString)
+			if name := strings.ToLower(p.lexer.CurrentString); name == "import" || name == "custom-media" {
+				p.lexer.Errorf("@%s is only allowed at the top level", name)
 			}
 			block.Rules = append(block.Rules, p.parseAtRule())
 
@@ -1015,7 +1016,7 @@ func (p *parser) parseMediaRangeOperator() string {
 func (p *parser) parseCustomMediaAtRule() *ast.AtRule {
 	r := &ast.AtRule{
 		Span: p.lexer.TokenSpan(),
-		Name: p.lexer.CurrentString,
+		Name: strings.ToLower(p.lexer.CurrentString),
 	}
 	p.lexer.Next()
 
@@ -1060,7 +1061,7 @@ func (p *parser) parseGenericAtRule() *ast.AtRule {
 		return r
 	}
 
-	switch r.Name {
+	switch strings.ToLower(r.Name) {
 	case "supports", "layer", "container", "scope", "starting-style", "document", "-moz-document":
 		r.Block = p.parseRuleBlock()
 	default:
-- 
2.43.0


From beb9979049003b362db7bf7980a33f3f192380ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 67/92] fix: transform :any-link, :root and var() whatever
 their case

---
 internal/transformer/transformer.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index d13e3d9..1fdd17e 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -192,7 +192,7 @@ func (t *transformer) expandSelector(n *ast.Selector) []*ast.Selector {
 func (t *transformer) expandSelectorPart(p ast.SelectorPart) []ast.SelectorPart {
 	switch part := p.(type) {
 	case *ast.PseudoClassSelector:
-		if part.Name == "any-link" && part.Arguments == nil {
+		if strings.EqualFold(part.Name, "any-link") && part.Arguments == nil {
 			return []ast.SelectorPart{
 				&ast.PseudoClassSelector{Span: part.Span, Name: "visited"},
 				&ast.PseudoClassSelector{Span: part.Span, Name: "link"},
@@ -204,7 +204,7 @@ func (t *transformer) expandSelectorPart(p ast.SelectorPart) []ast.SelectorPart
 			return []ast.SelectorPart{p}
 		}
 
-		switch part.Name {
+		switch strings.ToLower(part.Name) {
 		case "is", "where", "not", "has", "matches", "-webkit-any", "-moz-any":
 			// These take a list, so the alternatives can stay inside.
 			args.Selectors = t.transformSelectors(args.Selectors)
@@ -275,7 +275,7 @@ func isRoot(selList *ast.SelectorList) bool {
 	for i, part := range selList.Selectors[0].Parts {
 		switch p := part.(type) {
 		case *ast.PseudoClassSelector:
-			if i != 0 || p.Name != "root" || p.Arguments != nil {
+			if i != 0 || !strings.EqualFold(p.Name, "root") || p.Arguments != nil {
 				return false
 			}
 			isRoot = true
@@ -769,14 +769,14 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 		switch v := value.(type) {
 		case *ast.Function:
 			newValues := []ast.Value{v}
-			isVar := v.Name == "var" && t.variables != nil
+			isVar := strings.EqualFold(v.Name, "var") && t.variables != nil
 			argCount := len(v.Arguments)
 			if !isVar {
 				v.Arguments = t.transformValues(v.Arguments)
 			}
 
 			func() {
-				if v.Name != "var" {
+				if !strings.EqualFold(v.Name, "var") {
 					return
 				}
 
-- 
2.43.0


From df30c75dab65d8e565b0ed688244661677bc2f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:36 +0000
Subject: [PATCH 68/92] fix: parenthesize negated conditions of custom media
 queries with a media type

---
 internal/transformer/transformer.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 1fdd17e..ae94f24 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -582,6 +582,18 @@ func hasMediaType(parts []ast.MediaQueryPart) bool {
 	return false
 }
 
+// parenthesizeNot puts a negated condition that follows a media type in parenthesis, e.g. print and not (color), so
+// that other conditions can be appended.
+func parenthesizeNot(parts []ast.MediaQueryPart) []ast.MediaQueryPart {
+	for i, p := range parts {
+		if i > 0 && isKeyword(p, "not") {
+			condition := &ast.MediaInParens{Span: p.Location(), Parts: parts[i:]}
+			return append(parts[:i:i], condition)
+		}
+	}
+	return parts
+}
+
 // spliceMediaType appends the replacement of parts[index], which has a media type, to newParts. Media types are only
 // allowed at the beginning of a query, where they can be negated, and not in parenthesis.
 func (t *transformer) spliceMediaType(newParts, parts []ast.MediaQueryPart, index int, replacement []ast.MediaQueryPart, nested bool) []ast.MediaQueryPart {
@@ -596,6 +608,7 @@ func (t *transformer) spliceMediaType(newParts, parts []ast.MediaQueryPart, inde
 	}
 
 	if isAndOnly(parts) && !hasMediaType(newParts) && !isKeyword(replacement[0], "not") {
+		replacement = parenthesizeNot(replacement)
 		if index == 0 {
 			return append(newParts, replacement...)
 		}
-- 
2.43.0


From 5f45574153bf56042072cde719c44384c609b379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 69/92] fix: find all cyclic custom properties in any order,
 and accept empty fallbacks

---
 internal/transformer/transformer.go | 108 +++++++++++++++++++++++-----
 1 file changed, 89 insertions(+), 19 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index ae94f24..24ebeb3 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -58,6 +58,7 @@ func Transform(s *ast.Stylesheet, opts Options) *ast.Stylesheet {
 	}
 
 	t.collectDefinitions(s.Nodes)
+	t.markCyclicVariables()
 	s.Nodes = t.transformNodes(s.Nodes)
 
 	return s
@@ -74,8 +75,8 @@ type transformer struct {
 	// customMediaDepth is how many custom media queries are being substituted.
 	customMediaDepth int
 
-	// resolving is the stack of custom properties whose values are being substituted.
-	resolving []*variable
+	// variableDepth is how many custom properties are being substituted.
+	variableDepth int
 
 	// substituted is how many values were substituted so far.
 	substituted int
@@ -814,8 +815,8 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 					return
 				}
 				if vals == nil {
-					// The first argument is the value, the second is a comma.
-					if len(v.Arguments) > 2 {
+					// The first argument is the value, the second is a comma. The fallback may be empty.
+					if hasFallback(v) {
 						newValues = t.transformValues(v.Arguments[2:])
 						return
 					}
@@ -898,6 +899,85 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 	return rv
 }
 
+// hasFallback returns whether or not a var() has a fallback.
+func hasFallback(v *ast.Function) bool {
+	if len(v.Arguments) < 2 {
+		return false
+	}
+	_, ok := v.Arguments[1].(*ast.Comma)
+	return ok
+}
+
+// markCyclicVariables finds the custom properties that depend on themselves, i.e. the strongly connected components
+// of their references. See https://www.w3.org/TR/css-variables-1/#cycles.
+func (t *transformer) markCyclicVariables() {
+	index := make(map[*variable]int, len(t.variables))
+	low := make(map[*variable]int, len(t.variables))
+	var stack []*variable
+
+	var visit func(v *variable)
+	visit = func(v *variable) {
+		index[v] = len(index) + 1
+		low[v] = index[v]
+		bottom := len(stack)
+		stack = append(stack, v)
+
+		for _, name := range referencedVariables(v.values, nil) {
+			other, ok := t.variables[name]
+			if !ok {
+				continue
+			}
+			if other == v {
+				v.cyclic = true
+			}
+			if index[other] == 0 {
+				visit(other)
+			}
+			if low[other] != 0 && low[other] < low[v] {
+				low[v] = low[other]
+			}
+		}
+
+		if low[v] != index[v] {
+			return
+		}
+		component := stack[bottom:]
+		for _, member := range component {
+			member.cyclic = member.cyclic || len(component) > 1
+			low[member] = 0
+		}
+		stack = stack[:bottom]
+	}
+
+	for _, v := range t.variables {
+		if index[v] == 0 {
+			visit(v)
+		}
+	}
+}
+
+// referencedVariables appends the names of the custom properties that are used in values, including in fallbacks.
+func referencedVariables(values []ast.Value, names []string) []string {
+	for _, value := range values {
+		switch v := value.(type) {
+		case *ast.Function:
+			if strings.EqualFold(v.Name, "var") && len(v.Arguments) > 0 {
+				if name, ok := v.Arguments[0].(*ast.Identifier); ok {
+					names = append(names, name.Value)
+				}
+			}
+			names = referencedVariables(v.Arguments, names)
+		case *ast.Brackets:
+			names = referencedVariables(v.Values, names)
+		case *ast.MathParenthesizedExpression:
+			names = referencedVariables([]ast.Value{v.Value}, names)
+		case *ast.MathExpression:
+			names = referencedVariables([]ast.Value{v.Left, v.Right}, names)
+		}
+	}
+	return names
+}
+
 // resolveVariable returns the value of a custom property, in which other custom properties have been
 // substituted. It returns nil if there is no value.
 func (t *transformer) resolveVariable(name string) ([]ast.Value, error) {
@@ -906,34 +986,24 @@ func (t *transformer) resolveVariable(name string) ([]ast.Value, error) {
 		return nil, nil
 	}
 
-	for i, other := range t.resolving {
-		if other == v {
-			// Everything since the first use is part of the cycle.
-			for _, member := range t.resolving[i:] {
-				member.cyclic = true
-			}
-			return nil, nil
-		}
+	if v.cyclic {
+		return nil, nil
 	}
 
 	if !v.resolved {
-		if len(t.resolving) >= maxResolving {
+		if t.variableDepth >= maxResolving {
 			return nil, fmt.Errorf("too many custom properties depend on each other: %s", name)
 		}
 
 		useSource := t.OriginalSource
 		t.OriginalSource = v.source
-		t.resolving = append(t.resolving, v)
+		t.variableDepth++
 		v.values = t.transformValues(v.values)
 		v.resolved = true
-		t.resolving = t.resolving[:len(t.resolving)-1]
+		t.variableDepth--
 		t.OriginalSource = useSource
 	}
 
-	if v.cyclic {
-		return nil, nil
-	}
-
 	t.substituted += countValues(v.values)
 	if t.substituted > maxSubstituted {
 		return nil, fmt.Errorf("too many substitutions of custom properties: %s", name)
-- 
2.43.0


From 38726e62764090475d8c5e3de0ff9453af3b7135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:44 +0000
Subject: [PATCH 70/92] fix: keep uses of custom properties whose definition is
 not understood

A custom property that is defined with a value that cannot be parsed, e.g. --x:; or --x: {}, was treated
as undefined, so that the fallback was used. Such uses (and uses in such values) are now reported and left.
---
 internal/transformer/transformer.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 24ebeb3..e1a0207 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -95,6 +95,9 @@ type variable struct {
 
 	// cyclic is whether or not the custom property depends on itself, i.e. has no valid value.
 	cyclic bool
+
+	// raw is whether or not the value could not be parsed.
+	raw bool
 }
 
 // customMedia is a custom media query.
@@ -344,6 +347,12 @@ func (t *transformer) collectCustomProperties(node *ast.QualifiedRule) {
 				continue
 			}
 			newDecls = append(newDecls, d)
+		case *ast.Raw:
+			// The value is not understood, so the definition has to stay.
+			if name := rawCustomProperty(d); name != "" && t.variables != nil {
+				t.variables[name] = &variable{raw: true}
+			}
+			newDecls = append(newDecls, d)
 		default:
 			newDecls = append(newDecls, d)
 		}
@@ -353,6 +362,15 @@ func (t *transformer) collectCustomProperties(node *ast.QualifiedRule) {
 	declBlock.Declarations = newDecls
 }
 
+// rawCustomProperty returns the name of the custom property that a declaration that could not be parsed defines.
+func rawCustomProperty(raw *ast.Raw) string {
+	colon := strings.Index(raw.Value, ":")
+	if colon < 0 || !strings.HasPrefix(raw.Value, "--") {
+		return ""
+	}
+	return strings.TrimSpace(raw.Value[:colon])
+}
+
 func (t *transformer) collectCustomMedia(node *ast.AtRule) {
 	if t.customMedia == nil {
 		return
@@ -769,6 +787,11 @@ func (t *transformer) transformDeclarations(decls []ast.Declarationish) []ast.De
 		case *ast.Declaration:
 			d.Values = t.transformValues(d.Values)
 			newDecls = append(newDecls, d)
+		case *ast.Raw:
+			if t.variables != nil && strings.Contains(strings.ToLower(d.Value), "var(") {
+				t.addWarn(d, "cannot substitute custom properties in a value that is not supported")
+			}
+			newDecls = append(newDecls, d)
 		default:
 			newDecls = append(newDecls, d)
 		}
@@ -809,6 +832,11 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 					return
 				}
 
+				if defined, ok := t.variables[varName.Value]; ok && defined.raw {
+					t.addWarn(v, "cannot substitute custom property, because its value is not supported: %s", varName.Value)
+					return
+				}
+
 				vals, err := t.resolveVariable(varName.Value)
 				if err != nil {
 					t.addError(v, "%v", err)
-- 
2.43.0


From 21159be6873cfeb5548a78586284272b220bd8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:35 +0000
Subject: [PATCH 71/92] fix: recognize math functions whatever their case

CALC((1px + 2px) * 2) was carried through verbatim, without reduction or substitution of custom properties.
---
 internal/ast/value.go               | 4 +++-
 internal/transformer/transformer.go | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/ast/value.go b/internal/ast/value.go
index 4b90e1e..6a316de 100644
--- a/internal/ast/value.go
+++ b/internal/ast/value.go
@@ -1,5 +1,7 @@
 package ast
 
+import "strings"
+
 // Value is a css value, e.g. dimension, percentage, or number.
 type Value interface {
 	Node
@@ -75,7 +77,7 @@ type Function struct {
 // IsMath returns whether or not this function supports math expressions
 // as values.
 func (f Function) IsMath() bool {
-	_, ok := mathFunctions[f.Name]
+	_, ok := mathFunctions[strings.ToLower(f.Name)]
 	return ok
 }
 
diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index e1a0207..9064e3a 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -857,7 +857,7 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 			}()
 
 			func() {
-				if v.Name != "calc" {
+				if !strings.EqualFold(v.Name, "calc") {
 					return
 				}
 
-- 
2.43.0


From eb9d198ea83be891cc87f6194c35df379732ce75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:02 +0000
Subject: [PATCH 72/92] fix: find custom properties with a value that is not
 understood if a comment follows the name

---
 internal/transformer/transformer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 9064e3a..0e4b978 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -364,11 +364,13 @@ func (t *transformer) collectCustomProperties(node *ast.QualifiedRule) {
 
 // rawCustomProperty returns the name of the custom property that a declaration that could not be parsed defines.
 func rawCustomProperty(raw *ast.Raw) string {
-	colon := strings.Index(raw.Value, ":")
-	if colon < 0 || !strings.HasPrefix(raw.Value, "--") {
+	if !strings.HasPrefix(raw.Value, "--") {
 		return ""
 	}
-	return strings.TrimSpace(raw.Value[:colon])
+	if end := strings.IndexAny(raw.Value, ":/ \t\n\r\f"); end >= 0 {
+		return raw.Value[:end]
+	}
+	return ""
 }
 
 func (t *transformer) collectCustomMedia(node *ast.AtRule) {
-- 
2.43.0


From 8e0f3e793e5d71cd87d930c0df06374d700ff1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 73/92] fix: respect !important when a custom property
 definition is not understood

---
 internal/ast/value.go               | 3 +++
 internal/parser/parser.go           | 3 +++
 internal/transformer/transformer.go | 4 +++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/ast/value.go b/internal/ast/value.go
index 6a316de..ff94593 100644
--- a/internal/ast/value.go
+++ b/internal/ast/value.go
@@ -111,6 +111,9 @@ type Raw struct {
 	Span
 
 	Value string
+
+	// Important is whether or not a raw declaration ends in !important.
+	Important bool
 }
 
 // Comma is a single comma. Some declarations require commas,
diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index e1f2c3d..87badb1 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -173,6 +173,7 @@ func (p *parser) parseRaw() *ast.Raw {
 
 	// closers is the stack of tokens that close the currently open blocks.
 	var closers []lexer.Token
+	isBang := false
 	for {
 		switch p.lexer.Current {
 		case lexer.EOF:
@@ -208,6 +209,8 @@ func (p *parser) parseRaw() *ast.Raw {
 				return raw
 			}
 		}
+		raw.Important = isBang && p.lexer.Current == lexer.Ident && isImportantString(p.lexer.CurrentString)
+		isBang = p.lexer.Current == lexer.Delim && p.lexer.CurrentString == "!"
 		p.lexer.Next()
 	}
 }
diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 0e4b978..18503a0 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -350,7 +350,9 @@ func (t *transformer) collectCustomProperties(node *ast.QualifiedRule) {
 		case *ast.Raw:
 			// The value is not understood, so the definition has to stay.
 			if name := rawCustomProperty(d); name != "" && t.variables != nil {
-				t.variables[name] = &variable{raw: true}
+				if prev, ok := t.variables[name]; !ok || !prev.important || d.Important {
+					t.variables[name] = &variable{raw: true, important: d.Important}
+				}
 			}
 			newDecls = append(newDecls, d)
 		default:
-- 
2.43.0


From 5bcb02e53167793894724f6ae76d1e3c0287759b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 74/92] fix: refuse attribute selectors with an operator that
 is not one token sequence

`[a ^ = b]` and `[a "^"="b"]` are invalid, so browsers ignore the rule, but they
were printed as the valid `[a^=b]`.
---
 internal/parser/selectors.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 5bc8266..384cb00 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -223,18 +223,25 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 		return attr
 	}
 
-	switch p.lexer.CurrentString {
+	operator := ""
+	if p.lexer.Current == lexer.Delim {
+		operator = p.lexer.CurrentString
+	}
+	switch operator {
 	case "^", "~", "$", "*", "|":
-		attr.PreOperator = p.lexer.CurrentString
+		attr.PreOperator = operator
+		// There is no whitespace inside of an operator.
+		p.lexer.RetainWhitespace = true
 		p.lexer.Next()
+		p.lexer.RetainWhitespace = false
 
-		if p.lexer.CurrentString != "=" {
+		if p.lexer.Current != lexer.Delim || p.lexer.CurrentString != "=" {
 			p.lexer.Errorf("expected =, got %s: ", p.lexer.CurrentString)
 		}
 		p.lexer.Expect(lexer.Delim)
 	default:
-		if p.lexer.Current == lexer.Delim && p.lexer.CurrentString != "=" {
-			p.lexer.Errorf("unexpected delimeter: %s", p.lexer.CurrentString)
+		if p.lexer.Current == lexer.Delim && operator != "=" {
+			p.lexer.Errorf("unexpected delimeter: %s", operator)
 		}
 		p.lexer.Expect(lexer.Delim)
 	}
-- 
2.43.0


From 41612e216059385162a30977099be5f59fec7f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:47 +0000
Subject: [PATCH 75/92] fix: refuse lists of empty media queries

`@media , {}` never applies, but was printed as `@media{}`, which always does.
---
 internal/parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 87badb1..03ceee9 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -789,6 +789,7 @@ func (p *parser) parseMediaQueryList() *ast.MediaQueryList {
 		Span: p.lexer.TokenSpan(),
 	}
 
+	hasComma := false
 	for {
 		q := p.parseMediaQuery()
 		if q != nil {
@@ -796,6 +797,7 @@ func (p *parser) parseMediaQueryList() *ast.MediaQueryList {
 		}
 
 		if p.lexer.Current == lexer.Comma {
+			hasComma = true
 			p.lexer.Next()
 			continue
 		}
@@ -804,6 +806,10 @@ func (p *parser) parseMediaQueryList() *ast.MediaQueryList {
 	}
 
 	if len(l.Queries) == 0 {
+		if hasComma {
+			// Empty queries in a list never match, but an empty list always does.
+			p.lexer.Errorf("expected media query")
+		}
 		return nil
 	}
 
-- 
2.43.0


From 39c8e51b10d97acb804b88dc1009b196534d30f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:47 +0000
Subject: [PATCH 76/92] fix: refuse media range operators with whitespace
 inside

Browsers ignore `(width > = 5px)`, but it was printed as `(width>=5px)`.
---
 internal/parser/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 03ceee9..95c2d28 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -990,9 +990,14 @@ var (
 
 func (p *parser) parseMediaRangeOperator() string {
 	operator := p.lexer.CurrentString
+	// There is no whitespace inside of an operator.
+	p.lexer.RetainWhitespace = true
 	p.lexer.Next()
+	p.lexer.RetainWhitespace = false
 
-	if p.lexer.Current == lexer.Delim {
+	if p.lexer.Current == lexer.Whitespace {
+		p.lexer.Next()
+	} else if p.lexer.Current == lexer.Delim {
 		if p.lexer.CurrentString != "=" || (operator != "<" && operator != ">") {
 			p.lexer.Errorf("unexpected token: %s", p.lexer.Current.String())
 		}
-- 
2.43.0


From 7ca1f266aa920073481a7bd926629a90d9b546cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 77/92] fix: refuse type selectors that follow another simple
 selector

Browsers ignore `.a/**/b{}`, but without the comment it was printed as `.ab{}`.
---
 internal/parser/selectors.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 384cb00..63f55ac 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -67,6 +67,14 @@ func (p *parser) parseSelector() *ast.Selector {
 			s.Parts = append(s.Parts, whitespace)
 
 		case lexer.Ident:
+			// A comment can separate the name from what's before it, but that is not printed.
+			if len(s.Parts) > 0 {
+				switch s.Parts[len(s.Parts)-1].(type) {
+				case *ast.Whitespace, *ast.CombinatorSelector:
+				default:
+					p.lexer.Errorf("unexpected type selector: %s", p.lexer.CurrentString)
+				}
+			}
 			s.Parts = append(s.Parts, &ast.TypeSelector{
 				Span: p.lexer.TokenSpan(),
 				Name: p.lexer.CurrentString,
-- 
2.43.0


From 22dd0e799e9739b45ba835bbcf5577183803ff67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 78/92] fix: refuse An+B with several B parts

Browsers ignore `:nth-child(2n-1 +3)` and `:nth-child(2 +3)`, but they were
printed as `:nth-child(2n+3)` and `:nth-child(3)`.
---
 internal/parser/selectors.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 63f55ac..6a360f0 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -316,6 +316,7 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 
 		v.End = p.lexer.TokenEnd()
 		p.lexer.Next()
+		return v
 	} else if p.lexer.Current == lexer.Ident && p.lexer.CurrentString == "n" {
 		v.End = p.lexer.TokenEnd()
 		p.lexer.Expect(lexer.Ident)
@@ -345,6 +346,7 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 		}
 		v.End = p.lexer.TokenEnd()
 		p.lexer.Expect(lexer.Number)
+		return v
 	}
 
 	// If there was no whitespace, e.g. n+3, then the lexer will have given
-- 
2.43.0


From 8142adaea3768f8d103f039e3043562d1162f6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 79/92] fix: refuse sums without whitespace around the operator

Browsers ignore `calc(1px+ 2px)`, but it was reduced to `3px`.
---
 internal/lexer/lexer.go   | 7 +++++++
 internal/parser/parser.go | 5 ++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 458c9c5..3aa8241 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -51,6 +51,10 @@ type Lexer struct {
 	// some CSS that must be space disambiguated.
 	RetainWhitespace bool
 
+	// AfterWhitespace is whether or not there was whitespace, which was not retained,
+	// between the last token and the one before it.
+	AfterWhitespace bool
+
 	// RetainComments is settable by the caller of the lexer. When set,
 	// the lexer will emit comment tokens. Otherwise, they are skipped
 	// and ignored.
@@ -152,6 +156,8 @@ func (l *Lexer) Expect(token Token) {
 
 // Next consumes the most recent r.
 func (l *Lexer) Next() {
+	l.AfterWhitespace = false
+
 	// Run in a for-loop so that some types (e.g. whitespace) can use continue to
 	// move on to the next token. Other codepaths will end in a return statement
 	// at the end of a single iteration.
@@ -356,6 +362,7 @@ func (l *Lexer) Next() {
 			if isWhitespace(l.ch) {
 				if !l.RetainWhitespace {
 					l.step()
+					l.AfterWhitespace = true
 
 					// Don't return out because we only processed whitespace and
 					// there's nothing interesting for the caller yet. We don't emit
diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 95c2d28..7307838 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -351,8 +351,11 @@ func (p *parser) parseMathSum() ast.Value {
 	left := p.parseMathProduct()
 
 	for p.lexer.Current == lexer.Delim && (p.lexer.CurrentString == "+" || p.lexer.CurrentString == "-") {
-		op := p.lexer.CurrentString
+		op, afterWhitespace := p.lexer.CurrentString, p.lexer.AfterWhitespace
 		p.lexer.Expect(lexer.Delim)
+		if !afterWhitespace || !p.lexer.AfterWhitespace {
+			p.lexer.Errorf("expected whitespace on both sides of %s", op)
+		}
 
 		// Expressions are left-associative, so every operator makes the tree deeper.
 		p.enter()
-- 
2.43.0


From df253f5515f6d3bdf429631948fd96a58b1c8dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 80/92] fix: parse An+B in any case

---
 internal/parser/selectors.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 6a360f0..726d3eb 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -146,18 +146,19 @@ func (p *parser) parseSelector() *ast.Selector {
 			case lexer.FunctionStart:
 				p.lexer.Next()
 
-				if pc.Name == "nth-child" || pc.Name == "nth-last-child" || pc.Name == "nth-of-type" || pc.Name == "nth-last-of-type" {
+				if name := strings.ToLower(pc.Name); name == "nth-child" || name == "nth-last-child" || name == "nth-of-type" || name == "nth-last-of-type" {
 					p.skipWhitespace()
 					switch p.lexer.Current {
 					case lexer.Number, lexer.Dimension:
 						pc.Arguments = p.parseANPlusB()
 					case lexer.Ident:
-						if p.lexer.CurrentString == "n" || p.lexer.CurrentString == "-n" || isNMinus(p.lexer.CurrentString) {
+						name := strings.ToLower(p.lexer.CurrentString)
+						if name == "n" || name == "-n" || isNMinus(name) {
 							pc.Arguments = p.parseANPlusB()
 							break
 						}
 
-						if p.lexer.CurrentString != "even" && p.lexer.CurrentString != "odd" {
+						if name != "even" && name != "odd" {
 							p.lexer.Errorf("expected even, odd, or an+b syntax")
 						}
 						pc.Arguments = &ast.Identifier{
@@ -290,12 +291,13 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 	}()
 
 	v := &ast.ANPlusB{Span: p.lexer.TokenSpan()}
+	name := strings.ToLower(p.lexer.CurrentString)
 
-	if p.lexer.Current == lexer.Dimension && p.lexer.CurrentString == "n" {
+	if p.lexer.Current == lexer.Dimension && name == "n" {
 		v.A = p.lexer.CurrentNumeral
 		v.End = p.lexer.TokenEnd()
 		p.lexer.Next()
-	} else if p.lexer.Current == lexer.Dimension && strings.HasPrefix(p.lexer.CurrentString, "n") {
+	} else if p.lexer.Current == lexer.Dimension && strings.HasPrefix(name, "n") {
 		v.A = p.lexer.CurrentNumeral
 		v.End = p.lexer.TokenEnd()
 
@@ -317,20 +319,20 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 		v.End = p.lexer.TokenEnd()
 		p.lexer.Next()
 		return v
-	} else if p.lexer.Current == lexer.Ident && p.lexer.CurrentString == "n" {
+	} else if p.lexer.Current == lexer.Ident && name == "n" {
 		v.End = p.lexer.TokenEnd()
 		p.lexer.Expect(lexer.Ident)
-	} else if p.lexer.Current == lexer.Ident && p.lexer.CurrentString == "-n" {
+	} else if p.lexer.Current == lexer.Ident && name == "-n" {
 		v.A = "-1"
 		v.End = p.lexer.TokenEnd()
 		p.lexer.Expect(lexer.Ident)
-	} else if p.lexer.Current == lexer.Ident && isNMinus(p.lexer.CurrentString) {
+	} else if p.lexer.Current == lexer.Ident && isNMinus(name) {
 		// Something like n-3 is a single identifier.
-		if strings.HasPrefix(p.lexer.CurrentString, "-") {
+		if strings.HasPrefix(name, "-") {
 			v.A = "-1"
 		}
 		v.Operator = "-"
-		v.B = strings.TrimPrefix(strings.TrimPrefix(p.lexer.CurrentString, "-"), "n-")
+		v.B = strings.TrimPrefix(strings.TrimPrefix(name, "-"), "n-")
 		v.End = p.lexer.TokenEnd()
 		p.lexer.Expect(lexer.Ident)
 		return v
-- 
2.43.0


From 357abc11b7dc311cc55bc6ca4ce47b0710473c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 81/92] fix: parse An+B with whitespace after the minus sign or
 a plus sign before n

---
 internal/parser/selectors.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 726d3eb..bf28035 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -148,6 +148,13 @@ func (p *parser) parseSelector() *ast.Selector {
 
 				if name := strings.ToLower(pc.Name); name == "nth-child" || name == "nth-last-child" || name == "nth-of-type" || name == "nth-last-of-type" {
 					p.skipWhitespace()
+					if p.lexer.Current == lexer.Delim && p.lexer.CurrentString == "+" {
+						// The sign of e.g. +n or +n-3.
+						p.lexer.Next()
+						if p.lexer.Current != lexer.Ident || !strings.HasPrefix(strings.ToLower(p.lexer.CurrentString), "n") {
+							p.lexer.Errorf("expected n")
+						}
+					}
 					switch p.lexer.Current {
 					case lexer.Number, lexer.Dimension:
 						pc.Arguments = p.parseANPlusB()
@@ -273,14 +280,23 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 	return attr
 }
 
-// isNMinus returns whether or not an identifier is n- or -n- and a number, e.g. n-3.
+// parseANMinusB parses the number of An+B if whitespace separates it from the minus sign, e.g. in 2n- 3.
+func (p *parser) parseANMinusB(v *ast.ANPlusB) {
+	v.B = p.lexer.CurrentNumeral
+	if p.lexer.Current != lexer.Number || strings.Trim(v.B, "0123456789") != "" {
+		p.lexer.Errorf("expected number after operator")
+	}
+	v.End = p.lexer.TokenEnd()
+	p.lexer.Next()
+}
+
+// isNMinus returns whether or not an identifier is n- or -n-, and maybe a number, e.g. n-3.
 func isNMinus(ident string) bool {
 	digits := strings.TrimPrefix(ident, "-")
 	if !strings.HasPrefix(digits, "n-") {
 		return false
 	}
-	digits = digits[len("n-"):]
-	return digits != "" && strings.Trim(digits, "0123456789") == ""
+	return strings.Trim(digits[len("n-"):], "0123456789") == ""
 }
 
 func (p *parser) parseANPlusB() *ast.ANPlusB {
@@ -313,7 +329,9 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 
 		v.B = numeral[1:]
 		if len(v.B) == 0 {
-			p.lexer.Errorf("expected number after operator")
+			p.lexer.Next()
+			p.parseANMinusB(v)
+			return v
 		}
 
 		v.End = p.lexer.TokenEnd()
@@ -335,6 +353,9 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 		v.B = strings.TrimPrefix(strings.TrimPrefix(name, "-"), "n-")
 		v.End = p.lexer.TokenEnd()
 		p.lexer.Expect(lexer.Ident)
+		if v.B == "" {
+			p.parseANMinusB(v)
+		}
 		return v
 	} else if p.lexer.Current == lexer.Number {
 		v.A = "0"
-- 
2.43.0


From 2ae97e5d1e923768c31672087ab579298616f98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:41 +0000
Subject: [PATCH 82/92] fix: substitute many custom media queries of one query
 in linear time

---
 internal/transformer/transformer.go | 30 +++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 18503a0..535da9c 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -570,19 +570,14 @@ func isKeyword(p ast.MediaQueryPart, keyword string) bool {
 	return ok && strings.EqualFold(ident.Value, keyword)
 }
 
-// canSpliceAnd returns whether or not parts[index] can be replaced by several parts that
-// are joined by "and" without putting them in parenthesis.
-func canSpliceAnd(parts []ast.MediaQueryPart, index int) bool {
-	if index > 0 && isKeyword(parts[index-1], "not") {
-		return false
-	}
-
+// hasOr returns whether or not the parts are joined by "or".
+func hasOr(parts []ast.MediaQueryPart) bool {
 	for _, p := range parts {
 		if isKeyword(p, "or") {
-			return false
+			return true
 		}
 	}
-	return true
+	return false
 }
 
 // isAndOnly returns whether or not the parts are only joined by "and".
@@ -619,7 +614,7 @@ func parenthesizeNot(parts []ast.MediaQueryPart) []ast.MediaQueryPart {
 
 // spliceMediaType appends the replacement of parts[index], which has a media type, to newParts. Media types are only
 // allowed at the beginning of a query, where they can be negated, and not in parenthesis.
-func (t *transformer) spliceMediaType(newParts, parts []ast.MediaQueryPart, index int, replacement []ast.MediaQueryPart, nested bool) []ast.MediaQueryPart {
+func (t *transformer) spliceMediaType(newParts, parts []ast.MediaQueryPart, index int, replacement []ast.MediaQueryPart, andOnly, nested bool) []ast.MediaQueryPart {
 	if nested {
 		t.addError(parts[index], "custom media query with a media type cannot be used in this condition")
 		return append(newParts, parts[index])
@@ -630,7 +625,7 @@ func (t *transformer) spliceMediaType(newParts, parts []ast.MediaQueryPart, inde
 		return append(newParts, replacement...)
 	}
 
-	if isAndOnly(parts) && !hasMediaType(newParts) && !isKeyword(replacement[0], "not") {
+	if !isKeyword(replacement[0], "not") && andOnly && !hasMediaType(newParts) {
 		replacement = parenthesizeNot(replacement)
 		if index == 0 {
 			return append(newParts, replacement...)
@@ -712,6 +707,13 @@ func copyMediaParts(parts []ast.MediaQueryPart, span ast.Span) []ast.MediaQueryP
 // a condition in parenthesis.
 func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart, nested bool) []ast.MediaQueryPart {
 	newParts := make([]ast.MediaQueryPart, 0, len(parts))
+	andOnly, or := isAndOnly(parts), hasOr(parts)
+	// canSpliceAnd is whether or not a part can be replaced by several ones that are joined by "and"
+	// without putting them in parenthesis.
+	canSpliceAnd := func(index int) bool {
+		return !or && (index == 0 || !isKeyword(parts[index-1], "not"))
+	}
+
 	for i, p := range parts {
 		switch part := p.(type) {
 		case *ast.MediaFeaturePlain:
@@ -736,9 +738,9 @@ func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart, neste
 				newParts = append(newParts, replacement...)
 
 			case hasMediaType(replacement):
-				newParts = t.spliceMediaType(newParts, parts, i, replacement, nested)
+				newParts = t.spliceMediaType(newParts, parts, i, replacement, andOnly, nested)
 
-			case len(replacement) > 1 && !(isAndOnly(replacement) && canSpliceAnd(parts, i)):
+			case len(replacement) > 1 && !(isAndOnly(replacement) && canSpliceAnd(i)):
 				newParts = append(newParts, &ast.MediaInParens{Span: part.Span, Parts: replacement})
 
 			default:
@@ -747,7 +749,7 @@ func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart, neste
 
 		case *ast.MediaFeatureRange:
 			features := t.transformMediaFeatureRange(part)
-			if len(features) > 1 && !canSpliceAnd(parts, i) {
+			if len(features) > 1 && !canSpliceAnd(i) {
 				features = []ast.MediaQueryPart{&ast.MediaInParens{Span: part.Span, Parts: features}}
 			}
 			newParts = append(newParts, features...)
-- 
2.43.0


From a3c31a1efc00047a97bc9dabf207c29385e214de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 83/92] fix: put min and max of media ranges behind a vendor
 prefix

---
 internal/transformer/transformer.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 535da9c..a27bf74 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -495,6 +495,15 @@ func (t *transformer) addToValue(v ast.Value, diff float64) ast.Value {
 	}
 }
 
+// prefixFeature adds min or max to a media feature, which come after a vendor prefix.
+func prefixFeature(direction, feature string) string {
+	const vendor = "-webkit-"
+	if len(feature) > len(vendor) && strings.EqualFold(feature[:len(vendor)], vendor) {
+		return feature[:len(vendor)] + direction + "-" + feature[len(vendor):]
+	}
+	return fmt.Sprintf("%s-%s", direction, feature)
+}
+
 func (t *transformer) transformMediaFeatureRange(part *ast.MediaFeatureRange) []ast.MediaQueryPart {
 	asIs := []ast.MediaQueryPart{part}
 	if t.MediaFeatureRanges == transforms.MediaFeatureRangesPassthrough {
@@ -525,7 +534,7 @@ func (t *transformer) transformMediaFeatureRange(part *ast.MediaFeatureRange) []
 
 		newParts = append(newParts, &ast.MediaFeaturePlain{
 			// XXX: replace this allocation with a lookup.
-			Property: &ast.Identifier{Value: fmt.Sprintf("%s-%s", direction, part.Property.Value)},
+			Property: &ast.Identifier{Value: prefixFeature(direction, part.Property.Value)},
 			Value:    value,
 		})
 	}
@@ -557,7 +566,7 @@ func (t *transformer) transformMediaFeatureRange(part *ast.MediaFeatureRange) []
 
 		newParts = append(newParts, &ast.MediaFeaturePlain{
 			// XXX: replace this allocation with a lookup.
-			Property: &ast.Identifier{Value: fmt.Sprintf("%s-%s", direction, part.Property.Value)},
+			Property: &ast.Identifier{Value: prefixFeature(direction, part.Property.Value)},
 			Value:    value,
 		})
 	}
-- 
2.43.0


From abc3ad94192aefa431c8b300b5ae8812b89fd08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:53 +0000
Subject: [PATCH 84/92] fix: change exclusive bounds of integer media features
 by one

---
 internal/transformer/transformer.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index a27bf74..3298980 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -495,6 +495,22 @@ func (t *transformer) addToValue(v ast.Value, diff float64) ast.Value {
 	}
 }
 
+// boundDiff returns what to add to an exclusive bound, given what to add for most features. Integers are
+// the only values that some features take.
+func boundDiff(feature string, bound ast.Value, diff float64) float64 {
+	switch strings.ToLower(feature) {
+	case "color", "color-index", "monochrome", "horizontal-viewport-segments", "vertical-viewport-segments":
+		dimension, ok := bound.(*ast.Dimension)
+		if !ok || dimension.Unit != "" || diff == 0 {
+			return diff
+		}
+		if _, err := strconv.Atoi(dimension.Value); err == nil {
+			return math.Copysign(1, diff)
+		}
+	}
+	return diff
+}
+
 // prefixFeature adds min or max to a media feature, which come after a vendor prefix.
 func prefixFeature(direction, feature string) string {
 	const vendor = "-webkit-"
@@ -527,7 +543,7 @@ func (t *transformer) transformMediaFeatureRange(part *ast.MediaFeatureRange) []
 			direction = "min"
 		}
 
-		value := t.addToValue(part.LeftValue, diff)
+		value := t.addToValue(part.LeftValue, boundDiff(part.Property.Value, part.LeftValue, diff))
 		if value == nil {
 			return asIs
 		}
@@ -559,7 +575,7 @@ func (t *transformer) transformMediaFeatureRange(part *ast.MediaFeatureRange) []
 			direction = "max"
 		}
 
-		value := t.addToValue(part.RightValue, diff)
+		value := t.addToValue(part.RightValue, boundDiff(part.Property.Value, part.RightValue, diff))
 		if value == nil {
 			return asIs
 		}
-- 
2.43.0


From 2a812ffdf10240353374f0c378eecbfdf349a8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:19 +0000
Subject: [PATCH 85/92] fix: compare names by what their escapes stand for

Names kept their escapes, so --\61 b and --ab were different custom properties, and \63 alc(), v\61r(),
:\61ny-link or @\6dedia were not recognized. Names now have only the escapes that they need.
---
 internal/ast/value.go               |  6 ++
 internal/lexer/lexer.go             | 99 ++++++++++++++++++++++++++++-
 internal/parser/parser.go           | 65 +++----------------
 internal/transformer/transformer.go | 15 +----
 4 files changed, 114 insertions(+), 71 deletions(-)

diff --git a/internal/ast/value.go b/internal/ast/value.go
index ff94593..4ee7453 100644
--- a/internal/ast/value.go
+++ b/internal/ast/value.go
@@ -114,6 +114,12 @@ type Raw struct {
 
 	// Important is whether or not a raw declaration ends in !important.
 	Important bool
+
+	// Property is the property of a raw declaration.
+	Property string
+
+	// UsesVar is whether or not a raw declaration contains var().
+	UsesVar bool
 }
 
 // Comma is a single comma. Some declarations require commas,
diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 3aa8241..b2802d8 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -3,6 +3,10 @@
 package lexer
 
 import (
+	"fmt"
+	"strconv"
+	"strings"
+	"unicode"
 	"unicode/utf8"
 
 	"github.com/stephen/cssc/internal/ast"
@@ -226,7 +230,7 @@ func (l *Lexer) Next() {
 
 				start := l.lastPos
 				l.nextName()
-				l.CurrentString = l.source.Content[start:l.lastPos]
+				l.CurrentString = normalizeName(l.source.Content[start:l.lastPos])
 				return
 			}
 
@@ -452,6 +456,9 @@ func (l *Lexer) nextNumericToken() {
 		dimenStart := l.lastPos
 		l.nextName()
 		l.CurrentString = l.source.Content[dimenStart:l.lastPos]
+		if unit := normalizeName(l.CurrentString); !startsExponent(unit) {
+			l.CurrentString = unit
+		}
 		l.Current = Dimension
 	} else if l.ch == '%' {
 		l.Current = Percentage
@@ -461,6 +468,15 @@ func (l *Lexer) nextNumericToken() {
 	}
 }
 
+// startsExponent returns whether or not a unit would be taken for an exponent after a number.
+func startsExponent(unit string) bool {
+	if unit[0] != 'e' && unit[0] != 'E' {
+		return false
+	}
+	digits := strings.TrimPrefix(unit[1:], "-")
+	return digits != "" && isDigit(rune(digits[0]))
+}
+
 // isURLString is a case-insensitive comparison to see if a string is url.
 func isURLString(in string) bool {
 	return len(in) == 3 && (in[0] == 'u' || in[0] == 'U') && (in[1] == 'r' || in[1] == 'R') && (in[2] == 'l' || in[2] == 'L')
@@ -472,7 +488,7 @@ func isURLString(in string) bool {
 func (l *Lexer) nextIdentLikeToken() {
 	start := l.lastPos
 	l.nextName()
-	l.CurrentString = l.source.Content[start:l.lastPos]
+	l.CurrentString = normalizeName(l.source.Content[start:l.lastPos])
 
 	// Here, we need to special case the url function because it supports unquoted string content.
 	if isURLString(l.CurrentString) && l.ch == '(' {
@@ -591,6 +607,34 @@ func (l *Lexer) nextName() {
 	}
 }
 
+// normalizeName returns a name with only the escapes that it needs, so that names which are the same have the
+// same text. It roughly implements https://www.w3.org/TR/cssom-1/#serialize-an-identifier.
+func normalizeName(name string) string {
+	if strings.IndexByte(name, '\\') == -1 {
+		return name
+	}
+
+	value := Unescape(name)
+	if value == "--" {
+		// This could become a part of -->.
+		return "-\\-"
+	}
+
+	var b strings.Builder
+	for i, r := range value {
+		switch {
+		case r <= 0x1f || r == 0x7f || (isDigit(r) && (i == 0 || (i == 1 && value[0] == '-'))):
+			fmt.Fprintf(&b, "\\%x ", r)
+		case isNameCodePoint(r) && value != "-":
+			b.WriteRune(r)
+		default:
+			b.WriteByte('\\')
+			b.WriteRune(r)
+		}
+	}
+	return b.String()
+}
+
 // nextEscaped consumes and returns an escaped codepoint, stepping the lexer forward.
 // It implements https://www.w3.org/TR/css-syntax-3/#consume-escaped-code-point.
 //
@@ -613,6 +657,57 @@ func (l *Lexer) nextEscaped() {
 	}
 }
 
+// Unescape returns the value of a name, string or url, in which the escapes are replaced by what they stand for. See
+// https://www.w3.org/TR/css-syntax-3/#consume-escaped-code-point.
+func Unescape(s string) string {
+	if !strings.Contains(s, "\\") {
+		return s
+	}
+
+	var b strings.Builder
+	for i := 0; i < len(s); i++ {
+		if s[i] != '\\' {
+			b.WriteByte(s[i])
+			continue
+		}
+		if i+1 == len(s) {
+			break
+		}
+
+		i++
+		digits := 0
+		for digits < 6 && i+digits < len(s) && strings.IndexByte("0123456789abcdefABCDEF", s[i+digits]) >= 0 {
+			digits++
+		}
+
+		switch {
+		case digits > 0:
+			code, _ := strconv.ParseUint(s[i:i+digits], 16, 32)
+			if code == 0 || code > unicode.MaxRune || (code >= 0xD800 && code <= 0xDFFF) {
+				code = unicode.ReplacementChar
+			}
+			b.WriteRune(rune(code))
+			i += digits
+			// A single whitespace ends the escape.
+			if i < len(s) && s[i] == '\r' && i+1 < len(s) && s[i+1] == '\n' {
+				i++
+			} else if i == len(s) || strings.IndexByte(" \t\n\r\f", s[i]) < 0 {
+				i--
+			}
+
+		case s[i] == '\r' && i+1 < len(s) && s[i+1] == '\n':
+			// An escaped newline is not part of the value.
+			i++
+
+		case s[i] == '\n' || s[i] == '\r' || s[i] == '\f':
+
+		default:
+			b.WriteByte(s[i])
+		}
+	}
+	return b.String()
+}
+
 // LocationErrorf sends up a lexer panic with a custom location.
 func (l *Lexer) LocationErrorf(span ast.Span, f string, args ...interface{}) {
 	panic(&Error{logging.LocationErrorf(l.source, span, f, args...)})
diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 7307838..fc9bbd0 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -1,9 +1,7 @@
 package parser
 
 import (
-	"strconv"
 	"strings"
-	"unicode"
 
 	"github.com/stephen/cssc/internal/ast"
 	"github.com/stephen/cssc/internal/lexer"
@@ -170,6 +168,9 @@ func (p *parser) parseRaw() *ast.Raw {
 	raw := &ast.Raw{
 		Span: p.lexer.TokenSpan(),
 	}
+	if p.lexer.Current == lexer.Ident {
+		raw.Property = p.lexer.CurrentString
+	}
 
 	// closers is the stack of tokens that close the currently open blocks.
 	var closers []lexer.Token
@@ -209,6 +210,9 @@ func (p *parser) parseRaw() *ast.Raw {
 				return raw
 			}
 		}
+		if p.lexer.Current == lexer.FunctionStart && strings.EqualFold(p.lexer.CurrentString, "var") {
+			raw.UsesVar = true
+		}
 		raw.Important = isBang && p.lexer.Current == lexer.Ident && isImportantString(p.lexer.CurrentString)
 		isBang = p.lexer.Current == lexer.Delim && p.lexer.CurrentString == "!"
 		p.lexer.Next()
@@ -571,57 +575,6 @@ func (p *parser) parseAtRule() *ast.AtRule {
 	}
 }
 
-// unescape returns the value of a string or url, in which the escapes are replaced by what they stand for. See
-// https://www.w3.org/TR/css-syntax-3/#consume-escaped-code-point.
-func unescape(s string) string {
-	if !strings.Contains(s, "\\") {
-		return s
-	}
-
-	var b strings.Builder
-	for i := 0; i < len(s); i++ {
-		if s[i] != '\\' {
-			b.WriteByte(s[i])
-			continue
-		}
-		if i+1 == len(s) {
-			break
-		}
-
-		i++
-		digits := 0
-		for digits < 6 && i+digits < len(s) && strings.IndexByte("0123456789abcdefABCDEF", s[i+digits]) >= 0 {
-			digits++
-		}
-
-		switch {
-		case digits > 0:
-			code, _ := strconv.ParseUint(s[i:i+digits], 16, 32)
-			if code == 0 || code > unicode.MaxRune || (code >= 0xD800 && code <= 0xDFFF) {
-				code = unicode.ReplacementChar
-			}
-			b.WriteRune(rune(code))
-			i += digits
-			// A single whitespace ends the escape.
-			if i < len(s) && s[i] == '\r' && i+1 < len(s) && s[i+1] == '\n' {
-				i++
-			} else if i == len(s) || strings.IndexByte(" \t\n\r\f", s[i]) < 0 {
-				i--
-			}
-
-		case s[i] == '\r' && i+1 < len(s) && s[i+1] == '\n':
-			// An escaped newline is not part of the value.
-			i++
-
-		case s[i] == '\n' || s[i] == '\r' || s[i] == '\f':
-
-		default:
-			b.WriteByte(s[i])
-		}
-	}
-	return b.String()
-}
-
 // parseImportAtRule parses an import at rule. It roughly implements
 // https://www.w3.org/TR/css-cascade-4/#at-import.
 func (p *parser) parseImportAtRule() *ast.AtRule {
@@ -639,7 +592,7 @@ func (p *parser) parseImportAtRule() *ast.AtRule {
 		prelude.Span = p.lexer.TokenSpan()
 		prelude.Value = p.lexer.CurrentString
 		p.ss.Imports = append(p.ss.Imports, ast.ImportSpecifier{
-			Value:  unescape(prelude.Value),
+			Value:  lexer.Unescape(prelude.Value),
 			AtRule: imp,
 		})
 		p.lexer.Next()
@@ -653,7 +606,7 @@ func (p *parser) parseImportAtRule() *ast.AtRule {
 
 		prelude.Value = p.lexer.CurrentString
 		p.ss.Imports = append(p.ss.Imports, ast.ImportSpecifier{
-			Value:  unescape(prelude.Value),
+			Value:  lexer.Unescape(prelude.Value),
 			AtRule: imp,
 		})
 		p.lexer.Expect(lexer.String)
@@ -664,7 +617,7 @@ func (p *parser) parseImportAtRule() *ast.AtRule {
 		prelude.Span = p.lexer.TokenSpan()
 		prelude.Value = p.lexer.CurrentString
 		p.ss.Imports = append(p.ss.Imports, ast.ImportSpecifier{
-			Value:  unescape(prelude.Value),
+			Value:  lexer.Unescape(prelude.Value),
 			AtRule: imp,
 		})
 		p.lexer.Expect(lexer.String)
diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 3298980..2c5e2c3 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -349,7 +349,7 @@ func (t *transformer) collectCustomProperties(node *ast.QualifiedRule) {
 			newDecls = append(newDecls, d)
 		case *ast.Raw:
 			// The value is not understood, so the definition has to stay.
-			if name := rawCustomProperty(d); name != "" && t.variables != nil {
+			if name := d.Property; strings.HasPrefix(name, "--") && t.variables != nil {
 				if prev, ok := t.variables[name]; !ok || !prev.important || d.Important {
 					t.variables[name] = &variable{raw: true, important: d.Important}
 				}
@@ -364,17 +364,6 @@ func (t *transformer) collectCustomProperties(node *ast.QualifiedRule) {
 	declBlock.Declarations = newDecls
 }
 
-// rawCustomProperty returns the name of the custom property that a declaration that could not be parsed defines.
-func rawCustomProperty(raw *ast.Raw) string {
-	if !strings.HasPrefix(raw.Value, "--") {
-		return ""
-	}
-	if end := strings.IndexAny(raw.Value, ":/ \t\n\r\f"); end >= 0 {
-		return raw.Value[:end]
-	}
-	return ""
-}
-
 func (t *transformer) collectCustomMedia(node *ast.AtRule) {
 	if t.customMedia == nil {
 		return
@@ -819,7 +808,7 @@ func (t *transformer) transformDeclarations(decls []ast.Declarationish) []ast.De
 			d.Values = t.transformValues(d.Values)
 			newDecls = append(newDecls, d)
 		case *ast.Raw:
-			if t.variables != nil && strings.Contains(strings.ToLower(d.Value), "var(") {
+			if t.variables != nil && d.UsesVar {
 				t.addWarn(d, "cannot substitute custom properties in a value that is not supported")
 			}
 			newDecls = append(newDecls, d)
-- 
2.43.0


From f66d17bf5a7ec92976362762b78bf4336559efc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:05 +0000
Subject: [PATCH 86/92] fix: treat root custom properties that are set to a
 CSS-wide keyword as undefined

:root{--x: initial} makes var(--x, 1px) use its fallback instead of the keyword.
---
 internal/transformer/transformer.go | 30 +++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 2c5e2c3..9c3f3b5 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -96,6 +96,9 @@ type variable struct {
 	// cyclic is whether or not the custom property depends on itself, i.e. has no valid value.
 	cyclic bool
 
+	// invalid is whether or not the custom property was set to have no valid value.
+	invalid bool
+
 	// raw is whether or not the value could not be parsed.
 	raw bool
 }
@@ -343,7 +346,12 @@ func (t *transformer) collectCustomProperties(node *ast.QualifiedRule) {
 				if prev, ok := t.variables[d.Property]; ok && prev.important && !d.Important {
 					continue
 				}
-				t.variables[d.Property] = &variable{values: d.Values, important: d.Important, source: t.OriginalSource}
+				t.variables[d.Property] = &variable{
+					values:    d.Values,
+					important: d.Important,
+					source:    t.OriginalSource,
+					invalid:   isWideKeyword(d.Values),
+				}
 				continue
 			}
 			newDecls = append(newDecls, d)
@@ -364,6 +372,24 @@ func (t *transformer) collectCustomProperties(node *ast.QualifiedRule) {
 	declBlock.Declarations = newDecls
 }
 
+// isWideKeyword returns whether or not a value is one of the keywords that work for every property. On the root
+// element, there is nothing to inherit, so these make a custom property invalid. See
+// https://www.w3.org/TR/css-variables-1/#defining-variables.
+func isWideKeyword(values []ast.Value) bool {
+	if len(values) != 1 {
+		return false
+	}
+	ident, ok := values[0].(*ast.Identifier)
+	if !ok {
+		return false
+	}
+	switch strings.ToLower(ident.Value) {
+	case "initial", "inherit", "unset", "revert", "revert-layer":
+		return true
+	}
+	return false
+}
+
 func (t *transformer) collectCustomMedia(node *ast.AtRule) {
 	if t.customMedia == nil {
 		return
@@ -1034,7 +1060,7 @@ func (t *transformer) resolveVariable(name string) ([]ast.Value, error) {
 		return nil, nil
 	}
 
-	if v.cyclic {
+	if v.cyclic || v.invalid {
 		return nil, nil
 	}
 
-- 
2.43.0


From fd2a93777df181b13b087472e62ec39a9e2da964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 87/92] fix: keep an escape at the end of the file a part of
 its name

A name that ends in a backslash at the end of the file lost it, so a unit could become empty.
---
 internal/lexer/lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index b2802d8..acb6df1 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -615,6 +615,10 @@ func normalizeName(name string) string {
 	}
 
 	value := Unescape(name)
+	if trailing := len(name) - len(strings.TrimRight(name, "\\")); trailing%2 == 1 {
+		// An escape at the end of the file.
+		value += string(unicode.ReplacementChar)
+	}
 	if value == "--" {
 		// This could become a part of -->.
 		return "-\\-"
-- 
2.43.0


From 10cc3c748327fa4d32391f5e578645fd4f7bb72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:57 +0000
Subject: [PATCH 88/92] fix: limit the alternatives of :any-link inside of
 arguments as well

Nested lists were printed once for each alternative of the selector around them, so that the output grew
exponentially with the nesting.
---
 internal/transformer/transformer.go | 86 ++++++++++++++++++-----------
 1 file changed, 55 insertions(+), 31 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 9c3f3b5..bf3fd8a 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -144,7 +144,8 @@ func (t *transformer) withImportSource(imp *ast.AtRule, f func()) {
 	f()
 }
 
-// maxAlternatives limits how many selectors a single selector can be expanded into.
+// maxAlternatives limits how many selectors a single selector can be expanded into, including
+// the ones inside of its arguments.
 const maxAlternatives = 1024
 
 func (t *transformer) transformSelectors(nodes []*ast.Selector) []*ast.Selector {
@@ -152,25 +153,42 @@ func (t *transformer) transformSelectors(nodes []*ast.Selector) []*ast.Selector
 		return nodes
 	}
 
+	newNodes, _ := t.expandSelectors(nodes)
+	return newNodes
+}
+
+// expandSelectors returns the selectors that match the same elements as nodes without any use of :any-link, and how
+// many alternatives are among them, including the ones inside of arguments.
+func (t *transformer) expandSelectors(nodes []*ast.Selector) ([]*ast.Selector, int) {
+	count := 0
 	newNodes := make([]*ast.Selector, 0, len(nodes))
 	for _, n := range nodes {
-		alternatives := t.expandSelector(n)
+		alternatives, inside := t.expandSelector(n)
 		if alternatives == nil {
 			t.addError(n, "too many uses of :any-link in a selector")
-			newNodes = append(newNodes, n)
-			continue
+			alternatives = []*ast.Selector{n}
+		}
+		if len(alternatives) > 1 || inside > 0 {
+			count += len(alternatives) * (1 + inside)
 		}
 		newNodes = append(newNodes, alternatives...)
 	}
-	return newNodes
+	return newNodes, count
 }
 
 // expandSelector returns the selectors that together match the same elements as n, with every :any-link
-// replaced by either :visited or :link. It returns nil if there would be too many of them.
-func (t *transformer) expandSelector(n *ast.Selector) []*ast.Selector {
+// replaced by either :visited or :link, and how many alternatives are inside of the arguments of each of them. It
+// returns nil if there would be too many of them.
+func (t *transformer) expandSelector(n *ast.Selector) ([]*ast.Selector, int) {
+	inside := 0
 	alternatives := []*ast.Selector{{Span: n.Span, Parts: make([]ast.SelectorPart, 0, len(n.Parts))}}
 	for _, part := range n.Parts {
-		options := t.expandSelectorPart(part)
+		options, insidePart := t.expandSelectorPart(part)
+		inside += insidePart
+		if len(options) == 0 || tooManyAlternatives(len(options)*len(alternatives), inside) {
+			return nil, inside
+		}
+
 		if len(options) == 1 {
 			for _, alt := range alternatives {
 				alt.Parts = append(alt.Parts, options[0])
@@ -178,10 +196,6 @@ func (t *transformer) expandSelector(n *ast.Selector) []*ast.Selector {
 			continue
 		}
 
-		if len(options) == 0 || len(options)*len(alternatives) > maxAlternatives {
-			return nil
-		}
-
 		newAlternatives := make([]*ast.Selector, 0, len(options)*len(alternatives))
 		for _, alt := range alternatives {
 			for _, option := range options {
@@ -192,62 +206,76 @@ func (t *transformer) expandSelector(n *ast.Selector) []*ast.Selector {
 		}
 		alternatives = newAlternatives
 	}
-	return alternatives
+	return alternatives, inside
+}
+
+// tooManyAlternatives returns whether or not there are too many alternatives, if there are more inside of each of them.
+func tooManyAlternatives(count, inside int) bool {
+	return count > 1 && count*(1+inside) > maxAlternatives
 }
 
 // expandSelectorPart is like expandSelector, but for a single part of it.
-func (t *transformer) expandSelectorPart(p ast.SelectorPart) []ast.SelectorPart {
+func (t *transformer) expandSelectorPart(p ast.SelectorPart) ([]ast.SelectorPart, int) {
 	switch part := p.(type) {
 	case *ast.PseudoClassSelector:
 		if strings.EqualFold(part.Name, "any-link") && part.Arguments == nil {
 			return []ast.SelectorPart{
 				&ast.PseudoClassSelector{Span: part.Span, Name: "visited"},
 				&ast.PseudoClassSelector{Span: part.Span, Name: "link"},
-			}
+			}, 0
 		}
 
 		args, ok := part.Arguments.(*ast.SelectorList)
 		if !ok {
-			return []ast.SelectorPart{p}
+			return []ast.SelectorPart{p}, 0
 		}
 
 		switch strings.ToLower(part.Name) {
 		case "is", "where", "not", "has", "matches", "-webkit-any", "-moz-any":
 			// These take a list, so the alternatives can stay inside.
-			args.Selectors = t.transformSelectors(args.Selectors)
-			return []ast.SelectorPart{p}
+			var count int
+			args.Selectors, count = t.expandSelectors(args.Selectors)
+			return []ast.SelectorPart{p}, count
 		}
 
 		var rv []ast.SelectorPart
-		for _, list := range t.expandArguments(args) {
+		lists, inside := t.expandArguments(args)
+		for _, list := range lists {
 			rv = append(rv, &ast.PseudoClassSelector{Span: part.Span, Name: part.Name, Arguments: list})
 		}
-		return rv
+		return rv, inside
 
 	case *ast.PseudoElementSelector:
 		args, ok := part.Inner.Arguments.(*ast.SelectorList)
 		if !ok {
-			return []ast.SelectorPart{p}
+			return []ast.SelectorPart{p}, 0
 		}
 
 		var rv []ast.SelectorPart
-		for _, list := range t.expandArguments(args) {
+		lists, inside := t.expandArguments(args)
+		for _, list := range lists {
 			inner := &ast.PseudoClassSelector{Span: part.Inner.Span, Name: part.Inner.Name, Arguments: list}
 			rv = append(rv, &ast.PseudoElementSelector{Span: part.Span, Inner: inner})
 		}
-		return rv
+		return rv, inside
 
 	default:
-		return []ast.SelectorPart{p}
+		return []ast.SelectorPart{p}, 0
 	}
 }
 
 // expandArguments is like expandSelector, but for the arguments of selectors that don't
 // necessarily take a list of alternatives, e.g. ::slotted(:any-link).
-func (t *transformer) expandArguments(args *ast.SelectorList) []*ast.SelectorList {
+func (t *transformer) expandArguments(args *ast.SelectorList) ([]*ast.SelectorList, int) {
+	inside := 0
 	alternatives := []*ast.SelectorList{{Span: args.Span}}
 	for _, n := range args.Selectors {
-		options := t.expandSelector(n)
+		options, insideSelector := t.expandSelector(n)
+		inside += insideSelector
+		if len(options) == 0 || tooManyAlternatives(len(options)*len(alternatives), inside) {
+			return nil, inside
+		}
+
 		if len(options) == 1 {
 			for _, alt := range alternatives {
 				alt.Selectors = append(alt.Selectors, options[0])
@@ -255,10 +283,6 @@ func (t *transformer) expandArguments(args *ast.SelectorList) []*ast.SelectorLis
 			continue
 		}
 
-		if len(options) == 0 || len(options)*len(alternatives) > maxAlternatives {
-			return nil
-		}
-
 		newAlternatives := make([]*ast.SelectorList, 0, len(options)*len(alternatives))
 		for _, alt := range alternatives {
 			for _, option := range options {
@@ -269,7 +293,7 @@ func (t *transformer) expandArguments(args *ast.SelectorList) []*ast.SelectorLis
 		}
 		alternatives = newAlternatives
 	}
-	return alternatives
+	return alternatives, inside
 }
 
 // isRoot returns whether or not the selector list is exactly :root.
-- 
2.43.0


From 856b703e77265311c2f837ede4afcbece0081e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:25 +0000
Subject: [PATCH 89/92] fix: limit how much is inlined into a file

Files that import another one twice, or each other, could be inlined exponentially often.
---
 api.go | 45 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/api.go b/api.go
index fadd234..ba3aa1c 100644
--- a/api.go
+++ b/api.go
@@ -211,6 +211,13 @@ func (c *compilation) parseFile(file string, hasOutput bool) {
 			sources:      make(map[*ast.AtRule]*sources.Source),
 		}
 		c.parseImports(ss, source, nil, &imports)
+		if imports.size > maxInlinedSize {
+			imports.replacements = make(map[*ast.AtRule]*ast.Stylesheet)
+			imports.errs = []error{oops.Errorf("cannot inline the imports of %s, because they are too large", source.Path)}
+		}
+		for _, err := range imports.errs {
+			c.addError(err)
+		}
 		opts.ImportReplacements = imports.replacements
 		opts.ImportSources = imports.sources
 	} else {
@@ -243,17 +250,43 @@ func (c *compilation) followImports(ss *ast.Stylesheet, source *sources.Source)
 	wg.Wait()
 }
 
+// maxInlinedSize limits how much is inlined into a single file, because the size can grow exponentially with the
+// number of files that are imported. An import counts as inlinedSize in addition to its content.
+const (
+	maxInlinedSize = 1 << 25
+	inlinedSize    = 1 << 9
+)
+
 // importedFiles is the set of files to inline into another one.
 type importedFiles struct {
 	mu           sync.Mutex
 	replacements map[*ast.AtRule]*ast.Stylesheet
 	sources      map[*ast.AtRule]*sources.Source
+	errs         []error
+	size         int
+}
+
+func (i *importedFiles) addError(err error) {
+	i.mu.Lock()
+	defer i.mu.Unlock()
+	i.errs = append(i.errs, err)
+}
+
+// addSize returns false if there is too much to inline.
+func (i *importedFiles) addSize(size int) bool {
+	i.mu.Lock()
+	defer i.mu.Unlock()
+	i.size += size
+	return i.size <= maxInlinedSize
 }
 
 // parseImports parses the files imported by the stylesheet (and the ones imported by those) and adds them to
 // imports. Files are parsed once for every @import, since the transformer modifies the parsed result. importers
 // is the chain of files that leads to the stylesheet.
 func (c *compilation) parseImports(ss *ast.Stylesheet, source *sources.Source, importers []string, imports *importedFiles) {
+	if !imports.addSize(len(ss.Imports) * inlinedSize) {
+		return
+	}
 	chain := append(append(make([]string, 0, len(importers)+1), importers...), source.Path)
 
 	var wg errgroup.Group
@@ -262,13 +295,13 @@ func (c *compilation) parseImports(ss *ast.Stylesheet, source *sources.Source, i
 		wg.Go(func() error {
 			rel, err := c.resolver.Resolve(imp.Value, filepath.Dir(source.Path))
 			if err != nil {
-				c.addError(err)
+				imports.addError(err)
 				return nil
 			}
 
 			idx, err := c.addSource(rel)
 			if err != nil {
-				c.addError(err)
+				imports.addError(err)
 				return nil
 			}
 
@@ -278,14 +311,18 @@ func (c *compilation) parseImports(ss *ast.Stylesheet, source *sources.Source, i
 			imported := &sources.Source{Path: cached.Path, Content: cached.Content}
 			for _, path := range chain {
 				if path == imported.Path {
-					c.addError(oops.Errorf("cannot inline %s, because it imports itself: imported by %s", path, source.Path))
+					imports.addError(oops.Errorf("cannot inline %s, because it imports itself: imported by %s", path, source.Path))
 					return nil
 				}
 			}
 
+			if !imports.addSize(len(imported.Content)) {
+				return nil
+			}
+
 			importedSS, err := parser.Parse(imported)
 			if err != nil {
-				c.addError(err)
+				imports.addError(err)
 				return nil
 			}
 
-- 
2.43.0


From 3ffaba2f4f57530f12280a3a766e24d99ab3f795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:01 +0000
Subject: [PATCH 90/92] fix: limit how many files are read at the same time

Compiling more files than can be open at once failed for some of them, depending on the schedule.
---
 api.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/api.go b/api.go
index ba3aa1c..8673cb8 100644
--- a/api.go
+++ b/api.go
@@ -38,6 +38,7 @@ func newCompilation(opts Options) *compilation {
 	c := &compilation{
 		sources:        make(map[string]int),
 		sourcesByIndex: make(map[int]*sources.Source),
+		reads:          make(chan struct{}, maxReads),
 		outputsByIndex: make(map[int]struct{}),
 		astsByIndex:    make(map[int]*ast.Stylesheet),
 		result:         newResult(),
@@ -69,6 +70,9 @@ type compilation struct {
 	sourcesByIndexMu sync.RWMutex
 	sourcesByIndex   map[int]*sources.Source
 
+	// reads limits how many files are open at the same time.
+	reads chan struct{}
+
 	astsByIndexMu sync.RWMutex
 	astsByIndex   map[int]*ast.Stylesheet
 
@@ -85,6 +89,9 @@ type compilation struct {
 	resolver Resolver
 }
 
+// maxReads is how many files are read at the same time, because the number of open files is limited.
+const maxReads = 16
+
 // addSource will read in a path and assign it a source index. If
 // it's already been loaded, the cached source is returned.
 func (c *compilation) addSource(path string) (int, error) {
@@ -100,7 +107,9 @@ func (c *compilation) addSource(path string) (int, error) {
 	}
 	c.sourcesMu.RUnlock()
 
+	c.reads <- struct{}{}
 	in, err := ioutil.ReadFile(abs)
+	<-c.reads
 	if err != nil {
 		return 0, oops.Wrapf(err, "failed to read file: %s", path)
 	}
-- 
2.43.0


From bcc10a45e1c1c4218ab2f1ffec5ba515636227ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:01 +0000
Subject: [PATCH 91/92] fix: do not treat a package.json that cannot be read as
 missing

---
 resolver/node_resolver.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/resolver/node_resolver.go b/resolver/node_resolver.go
index afa6446..d60c8ee 100644
--- a/resolver/node_resolver.go
+++ b/resolver/node_resolver.go
@@ -103,11 +103,20 @@ func (r *NodeResolver) resolve(absPath string) (string, error) {
 	return "", oops.Wrapf(err, "could not resolve path: %s", absPath)
 }
 
+// reads limits how many files are read at the same time, because the number of open files is limited.
+var reads = make(chan struct{}, 16)
+
 // resolveAsDir takes a directory path and resolves its css entry point.
 func (r *NodeResolver) resolveAsDir(path string) (string, error) {
 	pkgPath := filepath.Join(path, "package.json")
+	reads <- struct{}{}
 	pkg, err := ioutil.ReadFile(pkgPath)
+	<-reads
 	if err != nil {
+		if info, statErr := os.Stat(pkgPath); statErr == nil && !info.IsDir() {
+			return "", oops.Wrapf(err, "failed to read package.json: %s", pkgPath)
+		}
+
 		// If there is no package.json, then try resolving an index.css file.
 		indexPath := filepath.Join(path, "index.css")
 		if info, err := os.Stat(indexPath); err != nil || info.IsDir() {
-- 
2.43.0


From 9f8654ab250594a499aa4d94b20ee1ac506072b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:29 +0000
Subject: [PATCH 92/92] fix: refuse An+B whose number after the sign is not one
 without a sign

---
 internal/parser/selectors.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index bf28035..fb4030f 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -280,8 +280,8 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 	return attr
 }
 
-// parseANMinusB parses the number of An+B if whitespace separates it from the minus sign, e.g. in 2n- 3.
-func (p *parser) parseANMinusB(v *ast.ANPlusB) {
+// parseBAfterSign parses the number of An+B if whitespace separates it from the sign, e.g. in 2n- 3 or 2n + 3.
+func (p *parser) parseBAfterSign(v *ast.ANPlusB) {
 	v.B = p.lexer.CurrentNumeral
 	if p.lexer.Current != lexer.Number || strings.Trim(v.B, "0123456789") != "" {
 		p.lexer.Errorf("expected number after operator")
@@ -330,9 +330,12 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 		v.B = numeral[1:]
 		if len(v.B) == 0 {
 			p.lexer.Next()
-			p.parseANMinusB(v)
+			p.parseBAfterSign(v)
 			return v
 		}
+		if strings.Trim(v.B, "0123456789") != "" {
+			p.lexer.Errorf("expected number after operator")
+		}
 
 		v.End = p.lexer.TokenEnd()
 		p.lexer.Next()
@@ -354,7 +357,7 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 		v.End = p.lexer.TokenEnd()
 		p.lexer.Expect(lexer.Ident)
 		if v.B == "" {
-			p.parseANMinusB(v)
+			p.parseBAfterSign(v)
 		}
 		return v
 	} else if p.lexer.Current == lexer.Number {
@@ -388,10 +391,7 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 	} else if p.lexer.Current == lexer.Delim && (p.lexer.CurrentString == "+" || p.lexer.CurrentString == "-") {
 		v.Operator = p.lexer.CurrentString
 		p.lexer.Next()
-
-		v.B = p.lexer.CurrentNumeral
-		v.End = p.lexer.TokenEnd()
-		p.lexer.Expect(lexer.Number)
+		p.parseBAfterSign(v)
 	}
 	return v
 }
-- 
2.43.0

