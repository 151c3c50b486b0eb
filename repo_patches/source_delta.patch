From d0beb26e4db487028592bf164099dfcf90716f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 01/50] fix: count every newline once, and treat CR and FF as
 newlines

---
 internal/lexer/lexer.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index d6b5193..90c5003 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -3,6 +3,7 @@
 package lexer
 
 import (
+	"strings"
 	"unicode"
 	"unicode/utf8"
 
@@ -71,7 +72,7 @@ func NewLexer(source *sources.Source) *Lexer {
 // step consumes the next unicode rune and stores it.
 func (l *Lexer) step() {
 	if l.pos == 0 {
-		l.source.Lines = append(l.source.Lines, l.pos)
+		l.addLine(0)
 	}
 
 	cp, size := utf8.DecodeRuneInString(l.source.Content[l.pos:])
@@ -83,20 +84,20 @@ func (l *Lexer) step() {
 	}
 
 	// "Convert" to newline. https://www.w3.org/TR/css-syntax-3/#newline
-	if cp == '\r' {
-		next, nextSize := utf8.DecodeRuneInString(l.source.Content[l.pos+size:])
-		if next == '\n' {
-			l.source.Lines = append(l.source.Lines, l.pos+size+nextSize)
+	switch cp {
+	case '\r':
+		// \r\n is a single newline.
+		if strings.HasPrefix(l.source.Content[l.pos+size:], "\n") {
+			size++
 		}
+		cp = '\n'
+		l.addLine(l.pos + size)
 
-		l.ch = next
-		l.lastPos = l.pos
-		l.pos += size + nextSize
-		return
-	}
+	case '\n':
+		l.addLine(l.pos + size)
 
-	if cp == '\n' {
-		l.source.Lines = append(l.source.Lines, l.pos+size)
+	case '\f':
+		cp = '\n'
 	}
 
 	l.ch = cp
@@ -104,6 +105,14 @@ func (l *Lexer) step() {
 	l.pos += size
 }
 
+// addLine records the offset of the beginning of a line. Backtracking makes the lexer
+// step over the same newline again, so offsets that are already known are ignored.
+func (l *Lexer) addLine(offset int) {
+	if n := len(l.source.Lines); n == 0 || l.source.Lines[n-1] < offset {
+		l.source.Lines = append(l.source.Lines, offset)
+	}
+}
+
 // peek returns the next ith unconsumed rune but does not consume it.
 // i is 0-indexed (0 is one ahead, 1 is two ahead, etc.)
 func (l *Lexer) peek(i int) rune {
-- 
2.43.0


From d17194126f963c29dae63c464be8dc6e946aca0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 02/50] fix: lex escapes as CSS Syntax defines them

---
 internal/lexer/lexer.go | 72 ++++++++++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 26 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 90c5003..ff17d57 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -116,15 +116,29 @@ func (l *Lexer) addLine(offset int) {
 // peek returns the next ith unconsumed rune but does not consume it.
 // i is 0-indexed (0 is one ahead, 1 is two ahead, etc.)
 func (l *Lexer) peek(i int) rune {
-	if l.pos+i > len(l.source.Content) {
-		return -1
-	}
+	pos := l.pos
+	for {
+		cp, size := utf8.DecodeRuneInString(l.source.Content[pos:])
+		if size == 0 {
+			return -1
+		}
 
-	cp, size := utf8.DecodeRuneInString(l.source.Content[l.pos+i:])
-	if size == 0 {
-		return -1
+		switch cp {
+		case '\r':
+			if strings.HasPrefix(l.source.Content[pos+size:], "\n") {
+				size++
+			}
+			cp = '\n'
+		case '\f':
+			cp = '\n'
+		}
+
+		if i == 0 {
+			return cp
+		}
+		i--
+		pos += size
 	}
-	return cp
 }
 
 // TokenEnd returns the end location of the current token.
@@ -187,7 +201,7 @@ func (l *Lexer) Next() {
 				return
 			}
 
-			if startsIdentifier(l.peek(0), l.peek(1), l.peek(2)) {
+			if startsIdentifier(l.ch, l.peek(0), l.peek(1)) {
 				l.nextIdentLikeToken()
 				return
 			}
@@ -321,17 +335,15 @@ func (l *Lexer) Next() {
 				case '\n':
 					l.Errorf("unclosed string: unexpected newline")
 				case '\\':
-					l.step()
-
-					switch l.ch {
+					switch l.peek(0) {
 					case '\n':
 						l.step()
+						l.step()
 					case -1:
+						l.step()
 						l.Errorf("unexpected EOF")
 					default:
-						if startsEscape(l.ch, l.peek(0)) {
-							l.nextEscaped()
-						}
+						l.nextEscaped()
 					}
 				case -1:
 					l.Errorf("unexpected EOF")
@@ -381,14 +393,10 @@ func (l *Lexer) Next() {
 
 // startsIdentifier implements https://www.w3.org/TR/css-syntax-3/#would-start-an-identifier.
 func startsIdentifier(p0, p1, p2 rune) bool {
-	switch p0 {
-	case '-':
-		return p1 == '-' || isNameCodePoint(p1) || startsEscape(p1, p2)
-	case '\n':
-		return false
-	default:
-		return isNameCodePoint(p0)
+	if p0 == '-' {
+		return p1 == '-' || isNameStartCodePoint(p1) || startsEscape(p1, p2)
 	}
+	return isNameStartCodePoint(p0) || startsEscape(p0, p1)
 }
 
 // startsEscape implements https://www.w3.org/TR/css-syntax-3/#starts-with-a-valid-escape
@@ -577,12 +585,24 @@ func (l *Lexer) nextName() {
 // Note that we do not need to interpret the codepoint for our purposes - we can record
 // the byte offsets as-is for transformation.
 func (l *Lexer) nextEscaped() {
-	l.step()
-	for i := 0; i < 5 && isHexDigit(l.ch); i++ {
+	l.step() // Consume the backslash.
+
+	if l.ch == -1 {
+		return
+	}
+
+	if !isHexDigit(l.ch) {
+		l.step()
+		return
+	}
+
+	for i := 0; i < 6 && isHexDigit(l.ch); i++ {
+		l.step()
+	}
+
+	// A single whitespace terminates the hex digits and is part of the escape.
+	if isWhitespace(l.ch) {
 		l.step()
-		if isWhitespace(l.ch) {
-			l.step()
-		}
 	}
 }
 
-- 
2.43.0


From b92f25135dc2fb798be5355f03af9a9f6fa7818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 03/50] fix: only ASCII digits start numbers, and .+ and .. do
 not

---
 internal/lexer/lexer.go  | 25 ++++++++++++-------------
 internal/lexer/tokens.go |  9 ++++++---
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index ff17d57..4646930 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -4,7 +4,6 @@ package lexer
 
 import (
 	"strings"
-	"unicode"
 	"unicode/utf8"
 
 	"github.com/stephen/cssc/internal/ast"
@@ -272,7 +271,7 @@ func (l *Lexer) Next() {
 			l.step()
 
 		case '.':
-			if startsNumber(l.peek(0), l.peek(1), l.peek(2)) {
+			if startsNumber(l.ch, l.peek(0), l.peek(1)) {
 				l.nextNumericToken()
 				return
 			}
@@ -373,7 +372,7 @@ func (l *Lexer) Next() {
 				return
 			}
 
-			if unicode.IsDigit(l.ch) {
+			if isDigit(l.ch) {
 				l.nextNumericToken()
 				return
 			}
@@ -415,22 +414,22 @@ func startsEscape(p0, p1 rune) bool {
 // startsNumber implements https://www.w3.org/TR/css-syntax-3/#starts-with-a-number.
 func startsNumber(p0, p1, p2 rune) bool {
 	if p0 == '+' || p0 == '-' {
-		if unicode.IsDigit(p1) {
+		if isDigit(p1) {
 			return true
 		}
 
-		if p1 == '.' && unicode.IsDigit(p2) {
+		if p1 == '.' && isDigit(p2) {
 			return true
 		}
 
 		return false
 	}
 
-	if p0 == '.' && unicode.IsDigit(p1) {
+	if p0 == '.' && isDigit(p1) {
 		return true
 	}
 
-	return unicode.IsDigit(p0)
+	return isDigit(p0)
 }
 
 // nextNumericToken implements https://www.w3.org/TR/css-syntax-3/#consume-a-numeric-token
@@ -531,27 +530,27 @@ func (l *Lexer) nextNumber() {
 		l.step()
 	}
 
-	for unicode.IsDigit(l.ch) {
+	for isDigit(l.ch) {
 		l.step()
 	}
 
-	if l.ch == '.' && unicode.IsDigit(l.peek(0)) {
+	if l.ch == '.' && isDigit(l.peek(0)) {
 		l.step()
 		l.step()
 
-		for unicode.IsDigit(l.ch) {
+		for isDigit(l.ch) {
 			l.step()
 		}
 	}
 
-	if p0, p1 := l.peek(0), l.peek(1); (l.ch == 'e' || l.ch == 'E') && (unicode.IsDigit(p0) ||
-		((p0 == '+' || p0 == '-') && unicode.IsDigit(p1))) {
+	if p0, p1 := l.peek(0), l.peek(1); (l.ch == 'e' || l.ch == 'E') && (isDigit(p0) ||
+		((p0 == '+' || p0 == '-') && isDigit(p1))) {
 		l.step()
 		if l.ch == '+' || l.ch == '-' {
 			l.step()
 		}
 
-		for unicode.IsDigit(l.ch) {
+		for isDigit(l.ch) {
 			l.step()
 		}
 	}
diff --git a/internal/lexer/tokens.go b/internal/lexer/tokens.go
index 693353f..44c46f8 100644
--- a/internal/lexer/tokens.go
+++ b/internal/lexer/tokens.go
@@ -1,7 +1,5 @@
 package lexer
 
-import "unicode"
-
 // Token is the set of lexical tokens in CSS.
 type Token int
 
@@ -79,9 +77,14 @@ var tokens = [...]string{
 	RCurly: "}",
 }
 
+// isDigit implements https://www.w3.org/TR/css-syntax-3/#digit.
+func isDigit(r rune) bool {
+	return r >= '0' && r <= '9'
+}
+
 // isHexDigit implements https://www.w3.org/TR/css-syntax-3/#hex-digit.
 func isHexDigit(r rune) bool {
-	return unicode.IsDigit(r) || (r >= 'A' && r <= 'F') || (r >= 'a' && r <= 'f')
+	return isDigit(r) || (r >= 'A' && r <= 'F') || (r >= 'a' && r <= 'f')
 }
 
 // isWhitespace implements https://www.w3.org/TR/css-syntax-3/#whitespace.
-- 
2.43.0


From b873a761da1fba51fa877309280660aaca76b1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 04/50] fix: consume CDO and CDC tokens instead of lexing them
 forever

---
 internal/lexer/lexer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 4646930..afacb9c 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -197,6 +197,9 @@ func (l *Lexer) Next() {
 
 			if p0, p1 := l.peek(0), l.peek(1); p0 == '-' && p1 == '>' {
 				l.Current = CDC
+				l.step()
+				l.step()
+				l.step()
 				return
 			}
 
@@ -210,6 +213,10 @@ func (l *Lexer) Next() {
 		case '<':
 			if p0, p1, p2 := l.peek(0), l.peek(1), l.peek(2); p0 == '!' && p1 == '-' && p2 == '-' {
 				l.Current = CDO
+				l.step()
+				l.step()
+				l.step()
+				l.step()
 				return
 			}
 
-- 
2.43.0


From 8709250a4b670bd6687e6cdea44bb81cf251d614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 05/50] fix: preprocess byte order marks and NUL like CSS
 Syntax

---
 internal/lexer/lexer.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index afacb9c..86770ad 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -72,6 +72,11 @@ func NewLexer(source *sources.Source) *Lexer {
 func (l *Lexer) step() {
 	if l.pos == 0 {
 		l.addLine(0)
+
+		// A byte order mark is not part of the stylesheet.
+		if strings.HasPrefix(l.source.Content, "\uFEFF") {
+			l.pos = len("\uFEFF")
+		}
 	}
 
 	cp, size := utf8.DecodeRuneInString(l.source.Content[l.pos:])
@@ -97,6 +102,9 @@ func (l *Lexer) step() {
 
 	case '\f':
 		cp = '\n'
+
+	case 0:
+		cp = utf8.RuneError
 	}
 
 	l.ch = cp
@@ -130,6 +138,9 @@ func (l *Lexer) peek(i int) rune {
 			cp = '\n'
 		case '\f':
 			cp = '\n'
+
+		case 0:
+			cp = utf8.RuneError
 		}
 
 		if i == 0 {
-- 
2.43.0


From b56b74cac30867eb8f4c45e3b2f0775a4ce6425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 06/50] fix: do not make trailing whitespace part of an
 unquoted url

---
 internal/lexer/lexer.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 86770ad..0177658 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -516,7 +516,16 @@ func (l *Lexer) nextIdentLikeToken() {
 				l.Errorf("unexpected token: %c", l.ch)
 			default:
 				if isWhitespace(l.ch) {
-					l.step()
+					// Whitespace before the closing paren is not part of the url.
+					urlEnd := l.lastPos
+					for isWhitespace(l.ch) {
+						l.step()
+					}
+					if l.ch == ')' {
+						l.CurrentString = l.source.Content[urlStart:urlEnd]
+						l.step()
+						return
+					}
 					continue
 				}
 
-- 
2.43.0


From 2bd5eaf24e0793c79f78362e6a8e79f1cb182e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 07/50] fix: end a malformed declaration where it ends, or fail
 at EOF

---
 internal/parser/parser.go           | 45 +++++++++++++++++++++++++++--
 internal/printer/printer.go         | 12 ++++++--
 internal/transformer/transformer.go |  6 ++++
 3 files changed, 57 insertions(+), 6 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index fb568a9..6b8040d 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -139,22 +139,61 @@ func (p *parser) parseDeclarationOrFallback() (rv ast.Declarationish) {
 	return p.parseDeclaration()
 }
 
+// parseRaw consumes a malformed declaration as-is. It ends before the semicolon or the
+// end of the block that contains the declaration, whichever comes first. A stray semicolon
+// is a raw of its own, without a value.
 func (p *parser) parseRaw() *ast.Raw {
 	raw := &ast.Raw{
 		Span: p.lexer.TokenSpan(),
 	}
 
-	for p.lexer.Current != lexer.Semicolon {
+	if p.lexer.Current == lexer.Semicolon {
 		p.lexer.Next()
+		return raw
 	}
-	raw.End = p.lexer.TokenEnd()
-	p.lexer.Next()
 
+	raw.End = p.skipUntil(lexer.Semicolon, lexer.RCurly)
 	raw.Value = p.source.Content[raw.Start:raw.End]
 
 	return raw
 }
 
+// skipUntil skips tokens until one of the given tokens is found outside of any brackets, and
+// returns the end of the last skipped token.
+func (p *parser) skipUntil(stops ...lexer.Token) int {
+	end := p.lexer.TokenSpan().Start
+
+	// closers are the tokens that close the brackets that are currently open.
+	var closers []lexer.Token
+	for {
+		if len(closers) == 0 {
+			for _, stop := range stops {
+				if p.lexer.Current == stop {
+					return end
+				}
+			}
+		} else if p.lexer.Current == closers[len(closers)-1] {
+			closers = closers[:len(closers)-1]
+			end = p.lexer.TokenEnd()
+			p.lexer.Next()
+			continue
+		}
+
+		switch p.lexer.Current {
+		case lexer.EOF:
+			p.lexer.Errorf("unexpected EOF")
+		case lexer.LParen, lexer.FunctionStart:
+			closers = append(closers, lexer.RParen)
+		case lexer.LBracket:
+			closers = append(closers, lexer.RBracket)
+		case lexer.LCurly:
+			closers = append(closers, lexer.RCurly)
+		}
+		end = p.lexer.TokenEnd()
+		p.lexer.Next()
+	}
+}
+
 func (p *parser) parseDeclaration() *ast.Declaration {
 	var prefix string
 	if p.lexer.Current == lexer.Delim {
diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index b0a43a9..299a6a2 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -182,12 +182,18 @@ func (p *printer) print(in ast.Node) {
 		}
 
 	case *ast.DeclarationBlock:
-		for i, d := range node.Declarations {
-			p.print(d)
+		wrote := false
+		for _, d := range node.Declarations {
+			if raw, ok := d.(*ast.Raw); ok && raw.Value == "" {
+				// Stray semicolon.
+				continue
+			}
 
-			if i+1 < len(node.Declarations) {
+			if wrote {
 				p.s.WriteRune(';')
 			}
+			wrote = true
+			p.print(d)
 		}
 
 	case *ast.Declaration:
diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 771bca2..0acf5ce 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -388,6 +388,12 @@ func (t *transformer) transformDeclarations(decls []ast.Declarationish) []ast.De
 		case *ast.Declaration:
 			d.Values = t.transformValues(d.Values)
 			newDecls = append(newDecls, d)
+		case *ast.Raw:
+			if d.Value == "" {
+				// Stray semicolon.
+				continue
+			}
+			newDecls = append(newDecls, d)
 		default:
 			newDecls = append(newDecls, d)
 		}
-- 
2.43.0


From b302d0b9fbc6c32e2df528cde3929264044b412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 08/50] fix: carry declarations with unreadable values as-is

---
 internal/parser/parser.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 6b8040d..b4370d6 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -136,7 +136,11 @@ func (p *parser) parseDeclarationOrFallback() (rv ast.Declarationish) {
 		}
 	}()
 
-	return p.parseDeclaration()
+	decl := p.parseDeclaration()
+	if p.lexer.Current != lexer.Semicolon && p.lexer.Current != lexer.RCurly {
+		p.lexer.Errorf("unexpected token: %s", p.lexer.Current.String())
+	}
+	return decl
 }
 
 // parseRaw consumes a malformed declaration as-is. It ends before the semicolon or the
@@ -234,13 +238,17 @@ func (p *parser) parseDeclaration() *ast.Declaration {
 			}
 			p.lexer.Next()
 
-			if !isImportantString(p.lexer.CurrentString) {
+			if p.lexer.Current != lexer.Ident || !isImportantString(p.lexer.CurrentString) {
 				p.lexer.Errorf("expected !important, unexpected token: %s", p.lexer.CurrentString)
 			}
 			decl.End = p.lexer.TokenEnd()
 			p.lexer.Next()
 			decl.Important = true
 
+			if p.lexer.Current != lexer.Semicolon && p.lexer.Current != lexer.RCurly {
+				p.lexer.Errorf("expected !important at the end, unexpected token: %s", p.lexer.Current.String())
+			}
+
 		default:
 			val := p.parseValue()
 			if val == nil {
@@ -360,7 +368,11 @@ func (p *parser) parseMathProduct() ast.Value {
 
 func (p *parser) parseMathParenthesizedExpression() ast.Value {
 	if p.lexer.Current != lexer.LParen {
-		return p.parseValue()
+		val := p.parseValue()
+		if val == nil {
+			p.lexer.Errorf("expected value in math expression, unexpected token: %s", p.lexer.Current.String())
+		}
+		return val
 	}
 
 	loc := p.lexer.TokenSpan()
@@ -479,10 +491,15 @@ func (p *parser) parseValue() ast.Value {
 					fn.Arguments = append(fn.Arguments, p.parseMathExpression())
 					continue
 				}
+				if p.lexer.Current == lexer.Delim && p.lexer.CurrentString != "!" {
+					fn.Arguments = append(fn.Arguments, &ast.Raw{Span: p.lexer.TokenSpan(), Value: p.lexer.CurrentString})
+					p.lexer.Next()
+					continue
+				}
+
 				val := p.parseValue()
 				if val == nil {
-					// XXX: there's probably some backtracking to do here?
-					break arguments
+					p.lexer.Errorf("unexpected token in function arguments: %s", p.lexer.Current.String())
 				}
 
 				fn.Arguments = append(fn.Arguments, val)
-- 
2.43.0


From 2e998c71f4a0098e00ab378431c100e77e4d159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 09/50] fix: keep the whitespace between function arguments

---
 internal/printer/printer.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 299a6a2..be52c71 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -123,6 +123,23 @@ func (p *printer) addMapping(loc ast.Span) {
 	p.lastWritten = p.s.Len()
 }
 
+// printValues prints a list of values.
+func (p *printer) printValues(values []ast.Value) {
+	for i, val := range values {
+		p.print(val)
+
+		// Print space if we're not the last value and the previous or current
+		// value was not a comma.
+		if i+1 < len(values) {
+			if _, nextIsComma := values[i+1].(*ast.Comma); !nextIsComma {
+				if _, isComma := val.(*ast.Comma); !isComma {
+					p.s.WriteRune(' ')
+				}
+			}
+		}
+	}
+}
+
 // print prints the current ast node to the printer output.
 func (p *printer) print(in ast.Node) {
 	switch node := in.(type) {
@@ -199,19 +216,7 @@ func (p *printer) print(in ast.Node) {
 	case *ast.Declaration:
 		p.s.WriteString(node.Property)
 		p.s.WriteRune(':')
-		for i, val := range node.Values {
-			p.print(val)
-
-			// Print space if we're not the last value and the previous or current
-			// value was not a comma.
-			if i+1 < len(node.Values) {
-				if _, nextIsComma := node.Values[i+1].(*ast.Comma); !nextIsComma {
-					if _, isComma := val.(*ast.Comma); !isComma {
-						p.s.WriteRune(' ')
-					}
-				}
-			}
-		}
+		p.printValues(node.Values)
 
 		if node.Important {
 			p.s.WriteString("!important")
@@ -239,9 +244,7 @@ func (p *printer) print(in ast.Node) {
 	case *ast.Function:
 		p.s.WriteString(node.Name)
 		p.s.WriteRune('(')
-		for _, arg := range node.Arguments {
-			p.print(arg)
-		}
+		p.printValues(node.Arguments)
 		p.s.WriteRune(')')
 
 	case *ast.Brackets:
-- 
2.43.0


From 439963ec27cf399cd6dd9e0447a07312a6688c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:37 +0000
Subject: [PATCH 10/50] fix: report parser failures instead of crashing the
 process

---
 internal/parser/parser.go | 40 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index b4370d6..68015b9 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -9,7 +9,7 @@ import (
 
 // Parse parses an input stylesheet.
 func Parse(source *sources.Source) (ss *ast.Stylesheet, err error) {
-	p := newParser(source)
+	var p *parser
 	defer func() {
 		if rErr := recover(); rErr != nil {
 			if errI, ok := rErr.(*lexer.Error); ok {
@@ -17,15 +17,16 @@ func Parse(source *sources.Source) (ss *ast.Stylesheet, err error) {
 				return
 			}
 
-			if errI, ok := rErr.(error); ok {
-				panic(logging.LocationErrorf(source, p.lexer.TokenSpan(), "%v", errI))
+			// Anything else is a bug in the parser, but it should not take the process down.
+			var span ast.Span
+			if p != nil {
+				span = p.lexer.TokenSpan()
 			}
-
-			// Re-panic unknown issues.
-			panic(err)
+			ss, err = nil, logging.LocationErrorf(source, span, "%v", rErr)
 		}
 	}()
 
+	p = newParser(source)
 	p.parse()
 	return p.ss, nil
 }
@@ -86,25 +87,18 @@ func (p *parser) parseQualifiedRule(isKeyframes bool) *ast.QualifiedRule {
 		Span: p.lexer.TokenSpan(),
 	}
 
-	for {
-		switch p.lexer.Current {
-		case lexer.EOF:
-			p.lexer.Errorf("unexpected EOF")
-
-		case lexer.LCurly:
-			r.Block = p.parseDeclarationBlock()
-			r.End = r.Block.Location().End
-			return r
-
-		default:
-			if isKeyframes {
-				r.Prelude = p.parseKeyframeSelectorList()
-				continue
-			}
+	if isKeyframes {
+		r.Prelude = p.parseKeyframeSelectorList()
+	} else {
+		r.Prelude = p.parseSelectorList()
+	}
 
-			r.Prelude = p.parseSelectorList()
-		}
+	if p.lexer.Current != lexer.LCurly {
+		p.lexer.Errorf("expected %s, but got %s instead", lexer.LCurly, p.lexer.Current)
 	}
+	r.Block = p.parseDeclarationBlock()
+	r.End = r.Block.Location().End
+	return r
 }
 
 // parseDeclarationBlock parses a {} block with declarations, e.g.
-- 
2.43.0


From a0ad6f30f4b9a5b6bbc6daf777d2d6b50d273024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:50 +0000
Subject: [PATCH 11/50] fix: do not crash on or make up missing media queries
 and values

---
 internal/parser/parser.go           | 25 ++++++++++++++++++++-----
 internal/transformer/transformer.go |  6 ++++--
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 68015b9..40037e4 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -645,7 +645,10 @@ func (p *parser) parseMediaAtRule() {
 	}
 	p.lexer.Next()
 
-	r.Preludes = []ast.AtPrelude{p.parseMediaQueryList()}
+	// A @media rule without a query applies to everything.
+	if queries := p.parseMediaQueryList(); queries != nil {
+		r.Preludes = append(r.Preludes, queries)
+	}
 
 	block := &ast.QualifiedRuleBlock{
 		Span: p.lexer.TokenSpan(),
@@ -757,7 +760,7 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 			p.lexer.Errorf("expected identifier in non-range media feature")
 		}
 
-		secondValue := p.parseValue()
+		secondValue := p.parseMediaFeatureValue()
 
 		plain := &ast.MediaFeaturePlain{
 			Span:     startLoc,
@@ -774,9 +777,12 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 			Span:      startLoc,
 			LeftValue: firstValue,
 		}
+		if firstValue == nil {
+			p.lexer.Errorf("expected value in media feature, unexpected token: %s", p.lexer.Current.String())
+		}
 		r.Operator = p.parseMediaRangeOperator()
 
-		secondValue := p.parseValue()
+		secondValue := p.parseMediaFeatureValue()
 
 		maybeIdent, ok := secondValue.(*ast.Identifier)
 		if !ok {
@@ -805,7 +811,7 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 			if op != r.Operator {
 				p.lexer.Errorf("operators in a range must be the same")
 			}
-			r.RightValue = p.parseValue()
+			r.RightValue = p.parseMediaFeatureValue()
 		}
 
 		r.End = p.lexer.TokenEnd()
@@ -817,6 +823,15 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 	return nil
 }
 
+// parseMediaFeatureValue parses a value that a media feature cannot do without.
+func (p *parser) parseMediaFeatureValue() ast.Value {
+	val := p.parseValue()
+	if val == nil {
+		p.lexer.Errorf("expected value in media feature, unexpected token: %s", p.lexer.Current.String())
+	}
+	return val
+}
+
 var (
 	mediaOperatorLT  = "<"
 	mediaOperatorLTE = "<="
@@ -874,7 +889,7 @@ func (p *parser) parseCustomMediaAtRule() {
 
 	r.Preludes = append(r.Preludes, name)
 	queries := p.parseMediaQueryList()
-	if len(queries.Queries) != 1 {
+	if queries == nil || len(queries.Queries) != 1 {
 		p.lexer.Errorf("@custom-media rule requires a single media query argument")
 	}
 	r.Preludes = append(r.Preludes, queries.Queries[0])
diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 0acf5ce..1a0986b 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -219,8 +219,10 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 				}()
 
 			case "media":
-				mq := node.Preludes[0].(*ast.MediaQueryList)
-				mq.Queries = t.transformMediaQueries(mq.Queries)
+				if len(node.Preludes) > 0 {
+					mq := node.Preludes[0].(*ast.MediaQueryList)
+					mq.Queries = t.transformMediaQueries(mq.Queries)
+				}
 				rv = append(rv, node)
 
 			default:
-- 
2.43.0


From 18d714b9d63c8afba4d69b99d3f55c5d0ba10356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 12/50] fix: keep the whitespace after attribute selectors, and
 only one of a run

---
 internal/parser/selectors.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 45b875d..48f0050 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -51,7 +51,13 @@ func (p *parser) parseSelector() *ast.Selector {
 			p.lexer.Errorf("unexpected EOF")
 
 		case lexer.Whitespace:
-			s.Parts = append(s.Parts, &ast.Whitespace{Span: p.lexer.TokenSpan()})
+			// Whitespace before a selector means nothing, and whitespace on both
+			// sides of a comment is the same as whitespace on one.
+			if n := len(s.Parts); n > 0 {
+				if _, ok := s.Parts[n-1].(*ast.Whitespace); !ok {
+					s.Parts = append(s.Parts, &ast.Whitespace{Span: p.lexer.TokenSpan()})
+				}
+			}
 			p.lexer.Next()
 
 		case lexer.Ident:
@@ -174,6 +180,14 @@ func (p *parser) parseSelector() *ast.Selector {
 			if len(s.Parts) == 0 {
 				p.lexer.Errorf("expected selector")
 			}
+			if n := len(s.Parts); n > 1 {
+				_, isWhitespace := s.Parts[n-1].(*ast.Whitespace)
+				_, isAttribute := s.Parts[n-2].(*ast.AttributeSelector)
+				if isWhitespace && isAttribute {
+					// The selector ends with the attribute.
+					s.Parts = s.Parts[:n-1]
+				}
+			}
 			s.End = s.Parts[len(s.Parts)-1].Location().End
 			return s
 		}
@@ -197,6 +211,7 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 	p.lexer.Expect(lexer.Ident)
 	if p.lexer.Current == lexer.RBracket {
 		attr.End = p.lexer.TokenEnd()
+		p.lexer.RetainWhitespace = prev
 		p.lexer.Next()
 		return attr
 	}
@@ -210,8 +225,10 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 			p.lexer.Errorf("expected =, got %s: ", p.lexer.CurrentString)
 		}
 		p.lexer.Expect(lexer.Delim)
-	default:
+	case "=":
 		p.lexer.Expect(lexer.Delim)
+	default:
+		p.lexer.Errorf("expected attribute operator, got %s", p.lexer.CurrentString)
 	}
 
 	attr.Value = p.parseValue()
@@ -221,12 +238,14 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 
 	attr.End = p.lexer.TokenEnd()
 
-	if p.lexer.Current == lexer.Ident && (p.lexer.CurrentString == "s" || p.lexer.CurrentString == "i") {
+	if p.lexer.Current == lexer.Ident && (strings.EqualFold(p.lexer.CurrentString, "s") || strings.EqualFold(p.lexer.CurrentString, "i")) {
 		attr.Modifier = p.lexer.CurrentString
 		attr.End = p.lexer.TokenEnd()
 		p.lexer.Next()
 	}
 
+	// The whitespace after the selector is significant again.
+	p.lexer.RetainWhitespace = prev
 	p.lexer.Expect(lexer.RBracket)
 	return attr
 }
-- 
2.43.0


From 7cbf6bff8b5b8ab6e539b1155f54689bcc9c45c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 13/50] fix: parse and print An+B as CSS Syntax defines it

---
 internal/parser/selectors.go | 210 +++++++++++++++++++++--------------
 internal/printer/printer.go  |   6 +-
 2 files changed, 134 insertions(+), 82 deletions(-)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 48f0050..74595c8 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -130,28 +130,14 @@ func (p *parser) parseSelector() *ast.Selector {
 				p.lexer.Next()
 
 			case lexer.FunctionStart:
-				p.lexer.Next()
-
-				if pc.Name == "nth-child" || pc.Name == "nth-last-child" || pc.Name == "nth-of-type" || pc.Name == "nth-last-of-type" {
-					switch p.lexer.Current {
-					case lexer.Number, lexer.Dimension:
-						pc.Arguments = p.parseANPlusB()
-					case lexer.Ident:
-						if p.lexer.CurrentString == "n" || p.lexer.CurrentString == "-n" {
-							pc.Arguments = p.parseANPlusB()
-							break
-						}
-
-						if p.lexer.CurrentString != "even" && p.lexer.CurrentString != "odd" {
-							p.lexer.Errorf("expected even, odd, or an+b syntax")
-						}
-						pc.Arguments = &ast.Identifier{
-							Span:  p.lexer.TokenSpan(),
-							Value: p.lexer.CurrentString,
-						}
-						p.lexer.Next()
-					}
+				if isNthPseudoClass(pc.Name) {
+					// Whitespace only matters again after the closing paren.
+					p.lexer.RetainWhitespace = false
+					p.lexer.Next()
+					pc.Arguments = p.parseNthArguments()
+					p.lexer.RetainWhitespace = true
 				} else {
+					p.lexer.Next()
 					pc.Arguments = p.parseSelectorList()
 				}
 				pc.End = p.lexer.TokenEnd()
@@ -250,81 +236,143 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 	return attr
 }
 
-func (p *parser) parseANPlusB() *ast.ANPlusB {
-	prev := p.lexer.RetainWhitespace
-	p.lexer.RetainWhitespace = false
-	defer func() {
-		p.lexer.RetainWhitespace = prev
-	}()
-
-	v := &ast.ANPlusB{Span: p.lexer.TokenSpan()}
+func isNthPseudoClass(name string) bool {
+	switch strings.ToLower(name) {
+	case "nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type":
+		return true
+	default:
+		return false
+	}
+}
 
-	if p.lexer.Current == lexer.Dimension && p.lexer.CurrentString == "n" {
-		v.A = p.lexer.CurrentNumeral
-		v.End = p.lexer.TokenEnd()
+// parseNthArguments parses the arguments of a nth-* pseudo class. Callers should not
+// retain whitespace.
+func (p *parser) parseNthArguments() ast.PseudoClassArguments {
+	if p.lexer.Current == lexer.Ident && (strings.EqualFold(p.lexer.CurrentString, "even") || strings.EqualFold(p.lexer.CurrentString, "odd")) {
+		ident := &ast.Identifier{
+			Span:  p.lexer.TokenSpan(),
+			Value: p.lexer.CurrentString,
+		}
 		p.lexer.Next()
-	} else if p.lexer.Current == lexer.Dimension && strings.HasPrefix(p.lexer.CurrentString, "n") {
-		v.A = p.lexer.CurrentNumeral
-		v.End = p.lexer.TokenEnd()
+		return ident
+	}
 
-		numeral := p.lexer.CurrentString[1:]
+	return p.parseANPlusB()
+}
 
-		if strings.HasPrefix(numeral, "-") {
-			v.Operator = "-"
-		} else if strings.HasPrefix(numeral, "+") {
-			v.Operator = "+"
-		} else {
-			p.lexer.Errorf("expected +/- as part of An+B")
+// parseANPlusB implements https://www.w3.org/TR/css-syntax-3/#anb-microsyntax.
+func (p *parser) parseANPlusB() *ast.ANPlusB {
+	v := &ast.ANPlusB{Span: p.lexer.TokenSpan()}
+
+	// name is what comes after the coefficient, e.g. n or n-3.
+	var name string
+	switch p.lexer.Current {
+	case lexer.Number:
+		v.A = "0"
+		p.parseANPlusBSigned(v)
+		if v.Operator == "" {
+			v.B = p.parseANPlusBInteger(v)
+		}
+		return v
+
+	case lexer.Dimension:
+		v.A = p.lexer.CurrentNumeral
+		if !isDigits(strings.TrimLeft(v.A, "+-")) {
+			p.lexer.Errorf("expected integer as part of An+B, got %s", v.A)
 		}
+		name = p.lexer.CurrentString
 
-		v.B = numeral[1:]
-		if len(v.B) == 0 {
-			p.lexer.Errorf("expected number after operator")
+	case lexer.Ident:
+		name = p.lexer.CurrentString
+		if strings.HasPrefix(name, "-") {
+			v.A = "-1"
+			name = name[1:]
 		}
 
-		v.End = p.lexer.TokenEnd()
+	case lexer.Delim:
+		end := p.lexer.TokenEnd()
+		if p.lexer.CurrentString != "+" {
+			p.lexer.Errorf("expected even, odd, or an+b syntax")
+		}
 		p.lexer.Next()
-	} else if p.lexer.Current == lexer.Ident && p.lexer.CurrentString == "n" {
-		v.End = p.lexer.TokenEnd()
-		p.lexer.Expect(lexer.Ident)
-	} else if p.lexer.Current == lexer.Ident && p.lexer.CurrentString == "-n" {
-		v.A = "-1"
-		v.End = p.lexer.TokenEnd()
-		p.lexer.Expect(lexer.Ident)
-	} else if p.lexer.Current == lexer.Number {
-		v.A = "0"
-		v.B = p.lexer.CurrentNumeral
-		if strings.HasPrefix(p.lexer.CurrentNumeral, "-") {
-			v.Operator = "-"
-			v.B = v.B[1:]
-		} else if strings.HasPrefix(p.lexer.CurrentNumeral, "+") {
-			v.Operator = "+"
-			v.B = v.B[1:]
+		if p.lexer.Current != lexer.Ident || p.lexer.TokenSpan().Start != end {
+			p.lexer.Errorf("expected n after + as part of An+B")
 		}
-		v.End = p.lexer.TokenEnd()
-		p.lexer.Expect(lexer.Number)
+		name = p.lexer.CurrentString
+
+	default:
+		p.lexer.Errorf("expected even, odd, or an+b syntax")
 	}
 
-	// If there was no whitespace, e.g. n+3, then the lexer will have given
-	// us a number. Otherwise, it'll be n + 3 with a delimiter.
-	if p.lexer.Current == lexer.Number {
-		if strings.HasPrefix(p.lexer.CurrentNumeral, "-") {
-			v.Operator = "-"
-		} else if strings.HasPrefix(p.lexer.CurrentNumeral, "+") {
-			v.Operator = "+"
-		} else {
-			p.lexer.Errorf("expected +/- as part of An+B")
+	if !strings.HasPrefix(name, "n") && !strings.HasPrefix(name, "N") {
+		p.lexer.Errorf("expected even, odd, or an+b syntax")
+	}
+	v.End = p.lexer.TokenEnd()
+
+	switch rest := name[1:]; {
+	case rest == "":
+		p.lexer.Next()
+		if p.lexer.Current == lexer.Number {
+			// There was no whitespace after the operator, e.g. n+3 or n +3.
+			p.parseANPlusBSigned(v)
+			if v.Operator == "" {
+				p.lexer.Errorf("expected +/- as part of An+B")
+			}
+		} else if p.lexer.Current == lexer.Delim && (p.lexer.CurrentString == "+" || p.lexer.CurrentString == "-") {
+			v.Operator = p.lexer.CurrentString
+			p.lexer.Next()
+			v.B = p.parseANPlusBInteger(v)
 		}
-		v.B = p.lexer.CurrentNumeral[1:]
-		v.End = p.lexer.TokenEnd()
-		p.lexer.Expect(lexer.Number)
-	} else if p.lexer.Current == lexer.Delim && (p.lexer.CurrentString == "+" || p.lexer.CurrentString == "-") {
-		v.Operator = p.lexer.CurrentString
+
+	case rest == "-":
+		v.Operator = "-"
+		p.lexer.Next()
+		v.B = p.parseANPlusBInteger(v)
+
+	case rest[0] == '-' && isDigits(rest[1:]):
+		v.Operator = "-"
+		v.B = rest[1:]
 		p.lexer.Next()
 
-		v.B = p.lexer.CurrentNumeral
-		v.End = p.lexer.TokenEnd()
-		p.lexer.Expect(lexer.Number)
+	default:
+		p.lexer.Errorf("expected even, odd, or an+b syntax")
 	}
+
 	return v
 }
+
+// parseANPlusBSigned parses a number like +3 or -3. It does nothing if
+// the number has no sign.
+func (p *parser) parseANPlusBSigned(v *ast.ANPlusB) {
+	numeral := p.lexer.CurrentNumeral
+	if numeral[0] != '+' && numeral[0] != '-' {
+		return
+	}
+	if !isDigits(numeral[1:]) {
+		p.lexer.Errorf("expected integer as part of An+B, got %s", numeral)
+	}
+	v.Operator = numeral[:1]
+	v.B = numeral[1:]
+	v.End = p.lexer.TokenEnd()
+	p.lexer.Next()
+}
+
+// parseANPlusBInteger parses a number without a sign.
+func (p *parser) parseANPlusBInteger(v *ast.ANPlusB) string {
+	numeral := p.lexer.CurrentNumeral
+	if p.lexer.Current == lexer.Number && !isDigits(numeral) {
+		p.lexer.Errorf("expected integer as part of An+B, got %s", numeral)
+	}
+	v.End = p.lexer.TokenEnd()
+	p.lexer.Expect(lexer.Number)
+	return numeral
+}
+
+func isDigits(in string) bool {
+	for _, ch := range in {
+		if ch < '0' || ch > '9' {
+			return false
+		}
+	}
+	return len(in) > 0
+}
diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index be52c71..47088b7 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -337,10 +337,14 @@ func (p *printer) print(in ast.Node) {
 			wrote = true
 		}
 		if node.B != "" && node.B != "0" {
-			if wrote {
+			if wrote || node.Operator == "-" {
 				p.s.WriteString(node.Operator)
 			}
 			p.s.WriteString(node.B)
+			wrote = true
+		}
+		if !wrote {
+			p.s.WriteRune('0')
 		}
 
 	case *ast.MediaQueryList:
-- 
2.43.0


From 6886890bc3ef00bc4b0f8e66934eec94475723b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 14/50] fix: carry at-rules that are not interpreted, and nest
 them

---
 internal/ast/ast.go       |  3 +-
 internal/ast/atrule.go    |  2 +
 internal/parser/parser.go | 96 +++++++++++++++++++++++++++------------
 3 files changed, 71 insertions(+), 30 deletions(-)

diff --git a/internal/ast/ast.go b/internal/ast/ast.go
index d73017f..4fe3b62 100644
--- a/internal/ast/ast.go
+++ b/internal/ast/ast.go
@@ -66,7 +66,8 @@ type Declarationish interface {
 type QualifiedRuleBlock struct {
 	Span
 
-	Rules []*QualifiedRule
+	// Rules are the rules of the block, i.e. qualified rules or nested at-rules.
+	Rules []Node
 }
 
 func (DeclarationBlock) isBlock()   {}
diff --git a/internal/ast/atrule.go b/internal/ast/atrule.go
index 243243a..11e5890 100644
--- a/internal/ast/atrule.go
+++ b/internal/ast/atrule.go
@@ -13,9 +13,11 @@ type AtRule struct {
 
 func (String) isAtPrelude()     {}
 func (Identifier) isAtPrelude() {}
+func (Raw) isAtPrelude()        {}
 
 var _ AtPrelude = String{}
 var _ AtPrelude = Identifier{}
+var _ AtPrelude = Raw{}
 
 // AtPrelude is the set of arguments for an at-rule.
 // The interface is only used for type discrimination.
diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 40037e4..ed6adce 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -1,6 +1,8 @@
 package parser
 
 import (
+	"strings"
+
 	"github.com/stephen/cssc/internal/ast"
 	"github.com/stephen/cssc/internal/lexer"
 	"github.com/stephen/cssc/internal/logging"
@@ -49,7 +51,7 @@ func (p *parser) parse() {
 	for p.lexer.Current != lexer.EOF {
 		switch p.lexer.Current {
 		case lexer.At:
-			p.parseAtRule()
+			p.ss.Nodes = append(p.ss.Nodes, p.parseAtRule(true))
 
 		case lexer.Semicolon:
 			p.lexer.Next()
@@ -506,28 +508,30 @@ func (p *parser) parseValue() ast.Value {
 	}
 }
 
-func (p *parser) parseAtRule() {
-	switch p.lexer.CurrentString {
-	case "import":
-		p.parseImportAtRule()
+// parseAtRule parses an at rule. @import and @custom-media only have a meaning when
+// they are at the top level of a stylesheet.
+func (p *parser) parseAtRule(isTopLevel bool) *ast.AtRule {
+	switch name := strings.ToLower(p.lexer.CurrentString); {
+	case name == "import" && isTopLevel:
+		return p.parseImportAtRule()
 
-	case "media":
-		p.parseMediaAtRule()
+	case name == "media":
+		return p.parseMediaAtRule()
 
-	case "keyframes", "-webkit-keyframes", "-o-keyframes":
-		p.parseKeyframes()
+	case name == "keyframes", name == "-webkit-keyframes", name == "-moz-keyframes", name == "-o-keyframes":
+		return p.parseKeyframes()
 
-	case "custom-media":
-		p.parseCustomMediaAtRule()
+	case name == "custom-media" && isTopLevel:
+		return p.parseCustomMediaAtRule()
 
 	default:
-		p.parseGenericAtRule()
+		return p.parseGenericAtRule()
 	}
 }
 
 // parseImportAtRule parses an import at rule. It roughly implements
 // https://www.w3.org/TR/css-cascade-4/#at-import.
-func (p *parser) parseImportAtRule() {
+func (p *parser) parseImportAtRule() *ast.AtRule {
 	prelude := &ast.String{}
 
 	imp := &ast.AtRule{
@@ -582,13 +586,17 @@ func (p *parser) parseImportAtRule() {
 		imp.Preludes = append(imp.Preludes, mq)
 	}
 
+	if p.lexer.Current != lexer.Semicolon {
+		p.lexer.Errorf("unexpected token in @import: %s", p.lexer.Current.String())
+	}
+
 	imp.End = imp.Preludes[len(imp.Preludes)-1].Location().End
-	p.ss.Nodes = append(p.ss.Nodes, imp)
+	return imp
 }
 
 // parseKeyframes parses a keyframes at rule. It roughly implements
 // https://www.w3.org/TR/css-animations-1/#keyframes
-func (p *parser) parseKeyframes() {
+func (p *parser) parseKeyframes() *ast.AtRule {
 	r := &ast.AtRule{
 		Span: p.lexer.TokenSpan(),
 		Name: p.lexer.CurrentString,
@@ -624,11 +632,10 @@ func (p *parser) parseKeyframes() {
 			p.lexer.Errorf("unexpected EOF")
 
 		case lexer.RCurly:
-			p.ss.Nodes = append(p.ss.Nodes, r)
 			block.End = p.lexer.TokenEnd()
 			r.End = block.End
 			p.lexer.Next()
-			return
+			return r
 
 		default:
 			block.Rules = append(block.Rules, p.parseQualifiedRule(true))
@@ -638,7 +645,7 @@ func (p *parser) parseKeyframes() {
 
 // parseMediaAtRule parses a media at rule. It roughly implements
 // https://www.w3.org/TR/mediaqueries-4/#media.
-func (p *parser) parseMediaAtRule() {
+func (p *parser) parseMediaAtRule() *ast.AtRule {
 	r := &ast.AtRule{
 		Span: p.lexer.TokenSpan(),
 		Name: p.lexer.CurrentString,
@@ -650,10 +657,16 @@ func (p *parser) parseMediaAtRule() {
 		r.Preludes = append(r.Preludes, queries)
 	}
 
+	r.Block = p.parseRuleBlock()
+	r.End = r.Block.Location().End
+	return r
+}
+
+// parseRuleBlock parses a {} block with rules, e.g. the one of a @media rule.
+func (p *parser) parseRuleBlock() *ast.QualifiedRuleBlock {
 	block := &ast.QualifiedRuleBlock{
 		Span: p.lexer.TokenSpan(),
 	}
-	r.Block = block
 	p.lexer.Expect(lexer.LCurly)
 	for {
 		switch p.lexer.Current {
@@ -661,11 +674,15 @@ func (p *parser) parseMediaAtRule() {
 			p.lexer.Errorf("unexpected EOF")
 
 		case lexer.RCurly:
-			p.ss.Nodes = append(p.ss.Nodes, r)
 			block.End = p.lexer.TokenEnd()
-			r.End = block.End
 			p.lexer.Next()
-			return
+			return block
+
+		case lexer.At:
+			block.Rules = append(block.Rules, p.parseAtRule(false))
+
+		case lexer.Semicolon:
+			p.lexer.Next()
 
 		default:
 			block.Rules = append(block.Rules, p.parseQualifiedRule(false))
@@ -873,7 +890,7 @@ func (p *parser) parseMediaRangeOperator() string {
 
 // parseCustomMediaAtRule parses a @custom-media rule.
 // See: https://www.w3.org/TR/mediaqueries-5/#custom-mq.
-func (p *parser) parseCustomMediaAtRule() {
+func (p *parser) parseCustomMediaAtRule() *ast.AtRule {
 	r := &ast.AtRule{
 		Span: p.lexer.TokenSpan(),
 		Name: p.lexer.CurrentString,
@@ -895,19 +912,40 @@ func (p *parser) parseCustomMediaAtRule() {
 	r.Preludes = append(r.Preludes, queries.Queries[0])
 	r.End = queries.Queries[0].End
 
-	p.ss.Nodes = append(p.ss.Nodes, r)
+	if p.lexer.Current != lexer.Semicolon {
+		p.lexer.Errorf("unexpected token in @custom-media: %s", p.lexer.Current.String())
+	}
+	return r
 }
 
-// parseGenericAtRule parses a generic atrule like @font-face.
-func (p *parser) parseGenericAtRule() {
+// parseGenericAtRule parses an at rule that does not need to be interpreted, like @font-face,
+// @charset, or @supports.
+func (p *parser) parseGenericAtRule() *ast.AtRule {
 	r := &ast.AtRule{
 		Span: p.lexer.TokenSpan(),
 		Name: p.lexer.CurrentString,
 	}
 	p.lexer.Next()
 
-	r.Block = p.parseDeclarationBlock()
-	r.End = r.Block.Location().End
+	// Everything up to the block or the end of the rule is carried as-is.
+	prelude := &ast.Raw{Span: p.lexer.TokenSpan()}
+	prelude.End = p.skipUntil(lexer.LCurly, lexer.Semicolon, lexer.RCurly)
+	prelude.Value = p.source.Content[prelude.Start:prelude.End]
+	r.End = prelude.End
+	if prelude.Value != "" {
+		r.Preludes = append(r.Preludes, prelude)
+	}
+
+	if p.lexer.Current != lexer.LCurly {
+		return r
+	}
 
-	p.ss.Nodes = append(p.ss.Nodes, r)
+	switch strings.ToLower(r.Name) {
+	case "supports", "layer", "container", "scope", "starting-style", "document", "-moz-document":
+		r.Block = p.parseRuleBlock()
+	default:
+		r.Block = p.parseDeclarationBlock()
+	}
+	r.End = r.Block.Location().End
+	return r
 }
-- 
2.43.0


From 8026986e6bfb61671f1341b6fcc14801782a649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 15/50] fix: limit the nesting depth instead of overflowing the
 stack

---
 internal/parser/parser.go    | 40 ++++++++++++++++++++++++++++++++++++
 internal/parser/selectors.go |  3 +++
 2 files changed, 43 insertions(+)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index ed6adce..4d4c8b4 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -45,6 +45,26 @@ type parser struct {
 	source *sources.Source
 	lexer  *lexer.Lexer
 	ss     *ast.Stylesheet
+
+	// depth is how many nested constructs we are currently in.
+	depth int
+}
+
+// maxDepth is how deep constructs can nest, so that neither the parser nor anyone who
+// walks the AST runs out of stack.
+const maxDepth = 1000
+
+// enter should be called when parsing a construct that can contain itself,
+// and leave should be called when done with it.
+func (p *parser) enter() {
+	p.depth++
+	if p.depth > maxDepth {
+		p.lexer.Errorf("nested too deep")
+	}
+}
+
+func (p *parser) leave() {
+	p.depth--
 }
 
 func (p *parser) parse() {
@@ -320,6 +340,10 @@ func (p *parser) parseMathSum() ast.Value {
 	left := p.parseMathProduct()
 
 	for p.lexer.Current == lexer.Delim && (p.lexer.CurrentString == "+" || p.lexer.CurrentString == "-") {
+		// The expression on the left gets deeper with every operator.
+		p.enter()
+		defer p.leave()
+
 		op := p.lexer.CurrentString
 		p.lexer.Expect(lexer.Delim)
 
@@ -343,6 +367,10 @@ func (p *parser) parseMathProduct() ast.Value {
 	left := p.parseMathParenthesizedExpression()
 
 	for p.lexer.Current == lexer.Delim && (p.lexer.CurrentString == "*" || p.lexer.CurrentString == "/") {
+		// The expression on the left gets deeper with every operator.
+		p.enter()
+		defer p.leave()
+
 		op := p.lexer.CurrentString
 		p.lexer.Expect(lexer.Delim)
 
@@ -371,6 +399,9 @@ func (p *parser) parseMathParenthesizedExpression() ast.Value {
 		return val
 	}
 
+	p.enter()
+	defer p.leave()
+
 	loc := p.lexer.TokenSpan()
 	p.lexer.Expect(lexer.LParen)
 	expr := &ast.MathParenthesizedExpression{
@@ -397,6 +428,9 @@ func (p *parser) parseValue() ast.Value {
 		}
 
 	case lexer.LBracket:
+		p.enter()
+		defer p.leave()
+
 		b := &ast.Brackets{
 			Span: p.lexer.TokenSpan(),
 		}
@@ -464,6 +498,9 @@ func (p *parser) parseValue() ast.Value {
 		}
 
 	case lexer.FunctionStart:
+		p.enter()
+		defer p.leave()
+
 		fn := &ast.Function{
 			Span: p.lexer.TokenSpan(),
 			Name: p.lexer.CurrentString,
@@ -664,6 +701,9 @@ func (p *parser) parseMediaAtRule() *ast.AtRule {
 
 // parseRuleBlock parses a {} block with rules, e.g. the one of a @media rule.
 func (p *parser) parseRuleBlock() *ast.QualifiedRuleBlock {
+	p.enter()
+	defer p.leave()
+
 	block := &ast.QualifiedRuleBlock{
 		Span: p.lexer.TokenSpan(),
 	}
diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 74595c8..0d966c6 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -35,6 +35,9 @@ func (p *parser) parseSelectorList() *ast.SelectorList {
 }
 
 func (p *parser) parseSelector() *ast.Selector {
+	p.enter()
+	defer p.leave()
+
 	s := &ast.Selector{
 		Span: p.lexer.TokenSpan(),
 	}
-- 
2.43.0


From d3113e097eecbe03bd6324073105401895cb3fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:54 +0000
Subject: [PATCH 16/50] fix: carry unicode-range as-is, accept keyframe
 selectors in any case

---
 internal/parser/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 4d4c8b4..ea5d345 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -237,6 +237,11 @@ func (p *parser) parseDeclaration() *ast.Declaration {
 	p.lexer.Expect(lexer.Ident)
 	p.lexer.Expect(lexer.Colon)
 
+	if strings.EqualFold(property, "unicode-range") {
+		// Ranges like U+26 are not made of the usual tokens.
+		p.lexer.Errorf("unicode-range is carried as-is")
+	}
+
 	for {
 		switch p.lexer.Current {
 		case lexer.EOF:
@@ -301,7 +306,7 @@ func (p *parser) parseKeyframeSelectorList() *ast.KeyframeSelectorList {
 			})
 
 		case lexer.Ident:
-			if p.lexer.CurrentString != "from" && p.lexer.CurrentString != "to" {
+			if !strings.EqualFold(p.lexer.CurrentString, "from") && !strings.EqualFold(p.lexer.CurrentString, "to") {
 				p.lexer.Errorf("unexpected string: %s. keyframe selector can only be from, to, or a percentage", p.lexer.CurrentString)
 			}
 			l.Selectors = append(l.Selectors, &ast.Identifier{
-- 
2.43.0


From ddd4b64ccdc1d67e3c4e4a579371b1ef7abe3bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 17/50] fix: print attribute operators and modifiers

---
 internal/printer/printer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 47088b7..be8f6dd 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -284,9 +284,14 @@ func (p *printer) print(in ast.Node) {
 		p.s.WriteRune('[')
 		p.s.WriteString(node.Property)
 		if node.Value != nil {
+			p.s.WriteString(node.PreOperator)
 			p.s.WriteRune('=')
 			p.print(node.Value)
 		}
+		if node.Modifier != "" {
+			p.s.WriteRune(' ')
+			p.s.WriteString(node.Modifier)
+		}
 		p.s.WriteRune(']')
 
 	case *ast.TypeSelector:
-- 
2.43.0


From dcc560ce06c07c0f343cc8877ed09df03d645219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:56 +0000
Subject: [PATCH 18/50] fix: print commas between keyframe selectors

---
 internal/printer/printer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index be8f6dd..77fe079 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -181,8 +181,12 @@ func (p *printer) print(in ast.Node) {
 		}
 
 	case *ast.KeyframeSelectorList:
-		for _, s := range node.Selectors {
+		for i, s := range node.Selectors {
 			p.print(s)
+
+			if i+1 < len(node.Selectors) {
+				p.s.WriteRune(',')
+			}
 		}
 
 	case *ast.QualifiedRule:
-- 
2.43.0


From a39746cb47eafcf215f8dfb11f8cb61d8fb8baff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 19/50] fix: print strings that contain double quotes

---
 internal/printer/printer.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 77fe079..9653fa6 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -140,6 +140,19 @@ func (p *printer) printValues(values []ast.Value) {
 	}
 }
 
+// hasUnescaped returns whether or not ch is in value without a backslash before it.
+func hasUnescaped(value string, ch byte) bool {
+	for i := 0; i < len(value); i++ {
+		switch value[i] {
+		case '\\':
+			i++
+		case ch:
+			return true
+		}
+	}
+	return false
+}
+
 // print prints the current ast node to the printer output.
 func (p *printer) print(in ast.Node) {
 	switch node := in.(type) {
@@ -238,9 +251,15 @@ func (p *printer) print(in ast.Node) {
 		p.s.WriteRune('%')
 
 	case *ast.String:
-		p.s.WriteRune('"')
+		// The value is the text between the quotes in the source, so it has at most
+		// one kind of quote in it that is not escaped.
+		quote := '"'
+		if hasUnescaped(node.Value, '"') {
+			quote = '\''
+		}
+		p.s.WriteRune(quote)
 		p.s.WriteString(node.Value)
-		p.s.WriteRune('"')
+		p.s.WriteRune(quote)
 
 	case *ast.Identifier:
 		p.s.WriteString(node.Value)
-- 
2.43.0


From 7ed6300ccc468c5d070b88c48e372dca96aa87b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:07 +0000
Subject: [PATCH 20/50] fix: restore the nesting depth after a construct that
 is too deep

---
 internal/parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index ea5d345..353e2a8 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -57,10 +57,10 @@ const maxDepth = 1000
 // enter should be called when parsing a construct that can contain itself,
 // and leave should be called when done with it.
 func (p *parser) enter() {
-	p.depth++
-	if p.depth > maxDepth {
+	if p.depth >= maxDepth {
 		p.lexer.Errorf("nested too deep")
 	}
+	p.depth++
 }
 
 func (p *parser) leave() {
-- 
2.43.0


From ebae3e5a9897f2bab6f99a1be07b9ea656cecbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 21/50] fix: write valid JSON source maps for every path

---
 internal/printer/printer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 9653fa6..2fc85a3 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -62,10 +62,14 @@ func (p *printer) printMapping() {
 	}
 
 	b := strings.Builder{}
-	b.WriteString(`{"version": 3,"file":"`)
-	b.WriteString(p.options.OriginalSource.Path)
+	b.WriteString(`{"version": 3,"file":`)
+	file, err := json.Marshal(p.options.OriginalSource.Path)
+	if err != nil {
+		panic(err)
+	}
+	b.Write(file)
 	// XXX: sources content and names.
-	b.WriteString(`","sourceRoot":"", "sources": ["source.css"], "sourcesContent":[`)
+	b.WriteString(`,"sourceRoot":"", "sources": ["source.css"], "sourcesContent":[`)
 	out, err := json.Marshal(p.options.OriginalSource.Content)
 	if err != nil {
 		panic(err)
-- 
2.43.0


From f938bb40798a3265dd1f29a0db06378d44e6d981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:22 +0000
Subject: [PATCH 22/50] fix: count source map columns in UTF-16 code units, and
 every newline

---
 internal/printer/printer.go | 45 +++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 2fc85a3..a76673c 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -18,6 +18,11 @@ type printer struct {
 	sourceMappings   strings.Builder
 	lastWritten      int
 	lastMappingState mappingState
+
+	// lastOriginalOffset and lastOriginalColumn are the position in the original
+	// source that utf16Column was last called for.
+	lastOriginalOffset int
+	lastOriginalColumn int32
 }
 
 type mappingState struct {
@@ -94,25 +99,23 @@ func (p *printer) addMapping(loc ast.Span) {
 	newState := p.lastMappingState
 
 	line, col := p.options.OriginalSource.LineAndCol(loc)
-	newState.originalLine, newState.originalColumn = line-1, col-1
+	newState.originalLine, newState.originalColumn = line-1, p.utf16Column(loc.Start, loc.Start-int(col-1))
 
 	// Note that String() here does not reallocate the string.
-	for _, ch := range p.s.String()[p.lastWritten:] {
-		if ch == '\n' {
+	written := p.s.String()[p.lastWritten:]
+	for i, ch := range written {
+		if ch == '\n' || (ch == '\r' && !strings.HasPrefix(written[i+1:], "\n")) {
 			p.lastMappingState.generatedColumn = 0
 			newState.generatedColumn = 0
 			p.sourceMappings.WriteRune(';')
 			continue
 		}
 
-		newState.generatedColumn++
+		newState.generatedColumn += utf16Len(ch)
 	}
 
-	if p.s.Len() > 0 {
-		lastByte := p.sourceMappings.String()[p.sourceMappings.Len()-1]
-		if lastByte != ';' {
-			p.sourceMappings.WriteRune(',')
-		}
+	if mappings := p.sourceMappings.String(); len(mappings) > 0 && mappings[len(mappings)-1] != ';' {
+		p.sourceMappings.WriteRune(',')
 	}
 
 	p.sourceMappings.Write(VLQEncode(newState.generatedColumn - p.lastMappingState.generatedColumn))
@@ -127,6 +130,30 @@ func (p *printer) addMapping(loc ast.Span) {
 	p.lastWritten = p.s.Len()
 }
 
+// utf16Column returns the column of offset in the original source, given the offset of
+// the beginning of its line. Columns in a source map are in UTF-16 code units.
+func (p *printer) utf16Column(offset, lineStart int) int32 {
+	// Usually, there is already something mapped that comes earlier on the same line. Starting
+	// there avoids scanning (possibly very long) lines over and over.
+	if lineStart > p.lastOriginalOffset || offset < p.lastOriginalOffset {
+		p.lastOriginalOffset, p.lastOriginalColumn = lineStart, 0
+	}
+
+	for _, ch := range p.options.OriginalSource.Content[p.lastOriginalOffset:offset] {
+		p.lastOriginalColumn += utf16Len(ch)
+	}
+	p.lastOriginalOffset = offset
+	return p.lastOriginalColumn
+}
+
+// utf16Len returns how many UTF-16 code units it takes to encode ch.
+func utf16Len(ch rune) int32 {
+	if ch >= 0x10000 {
+		return 2
+	}
+	return 1
+}
+
 // printValues prints a list of values.
 func (p *printer) printValues(values []ast.Value) {
 	for i, val := range values {
-- 
2.43.0


From 95b477c6e587950c60b62252905a5c421fc6e394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 23/50] fix: end the lines of error messages at a carriage
 return

---
 internal/sources/source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/sources/source.go b/internal/sources/source.go
index 3160d7b..d213835 100644
--- a/internal/sources/source.go
+++ b/internal/sources/source.go
@@ -38,7 +38,7 @@ func (s *Source) FullLine(loc ast.Span) ast.Span {
 
 	lineEnd := len(s.Content)
 	for i, ch := range s.Content[loc.Start:] {
-		if ch == '\n' {
+		if ch == '\n' || ch == '\r' {
 			lineEnd = i + loc.Start
 			break
 		}
-- 
2.43.0


From efe2b2ceedcb5c17a22b966a3161a049dcdb687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:38 +0000
Subject: [PATCH 24/50] fix: do not print imports twice

---
 internal/transformer/transformer.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 1a0986b..6460c97 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -179,10 +179,6 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 		case *ast.AtRule:
 			switch node.Name {
 			case "import":
-				if t.ImportReplacements == nil {
-					rv = append(rv, node)
-				}
-
 				imported, ok := t.ImportReplacements[node]
 				if !ok {
 					rv = append(rv, node)
-- 
2.43.0


From 54be229564b3843f56a85a9e17b61192875447e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:39 +0000
Subject: [PATCH 25/50] fix: transform rules and declarations inside at-rules

---
 internal/transformer/transformer.go | 54 ++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 6460c97..5c12338 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -166,7 +166,9 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 
 			selList, ok := node.Prelude.(*ast.SelectorList)
 			if !ok {
-				t.addError(node.Prelude, "expected selector list for qualified rule")
+				t.addError(node, "expected selector list for qualified rule")
+				rv = append(rv, node)
+				continue
 			}
 			selList.Selectors = t.transformSelectors(selList.Selectors)
 			node.Block = t.transformBlock(node.Block)
@@ -177,10 +179,11 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 			rv = append(rv, node)
 
 		case *ast.AtRule:
-			switch node.Name {
+			switch strings.ToLower(node.Name) {
 			case "import":
 				imported, ok := t.ImportReplacements[node]
 				if !ok {
+					t.transformAtRule(node)
 					rv = append(rv, node)
 					break
 				}
@@ -214,14 +217,8 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 					t.customMedia[name.Value] = query
 				}()
 
-			case "media":
-				if len(node.Preludes) > 0 {
-					mq := node.Preludes[0].(*ast.MediaQueryList)
-					mq.Queries = t.transformMediaQueries(mq.Queries)
-				}
-				rv = append(rv, node)
-
 			default:
+				t.transformAtRule(node)
 				rv = append(rv, node)
 			}
 
@@ -232,6 +229,37 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 	return rv
 }
 
+// transformAtRule transforms the media queries and the block of an at-rule in place.
+func (t *transformer) transformAtRule(node *ast.AtRule) {
+	for _, prelude := range node.Preludes {
+		if mq, ok := prelude.(*ast.MediaQueryList); ok {
+			mq.Queries = t.transformMediaQueries(mq.Queries)
+		}
+	}
+
+	switch block := node.Block.(type) {
+	case *ast.DeclarationBlock:
+		block.Declarations = t.transformDeclarations(block.Declarations)
+
+	case *ast.QualifiedRuleBlock:
+		for _, r := range block.Rules {
+			switch rule := r.(type) {
+			case *ast.AtRule:
+				t.transformAtRule(rule)
+
+			case *ast.QualifiedRule:
+				// Keyframes have other preludes.
+				if selList, ok := rule.Prelude.(*ast.SelectorList); ok {
+					selList.Selectors = t.transformSelectors(selList.Selectors)
+				}
+				if decls, ok := rule.Block.(*ast.DeclarationBlock); ok {
+					decls.Declarations = t.transformDeclarations(decls.Declarations)
+				}
+			}
+		}
+	}
+}
+
 func (t *transformer) transformMediaQueries(queries []*ast.MediaQuery) []*ast.MediaQuery {
 	newQueries := make([]*ast.MediaQuery, 0, len(queries))
 	for _, q := range queries {
@@ -358,14 +386,6 @@ func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart) []ast
 
 func (t *transformer) transformBlock(block ast.Block) ast.Block {
 	switch node := block.(type) {
-	case *ast.QualifiedRuleBlock:
-		// 	for _, d := range node.Rules {
-		// 		// t.transform(d)
-		// 	}
-		if len(node.Rules) == 0 {
-			return nil
-		}
-
 	case *ast.DeclarationBlock:
 		node.Declarations = t.transformDeclarations(node.Declarations)
 		if len(node.Declarations) == 0 {
-- 
2.43.0


From 9f7e2ff1955ceabc6270678f025ffff7ced5c0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:40 +0000
Subject: [PATCH 26/50] fix: expand :any-link to every choice of :link and
 :visited

---
 internal/transformer/transformer.go | 66 +++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 18 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 5c12338..23ff6ab 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -74,40 +74,70 @@ func (t *transformer) addWarn(loc ast.Node, fmt string, args ...interface{}) {
 	t.Reporter.AddError(logging.LocationWarnf(t.OriginalSource, loc.Location(), fmt, args...))
 }
 
+// maxSelectors is how many selectors a single selector can turn into.
+const maxSelectors = 4096
+
+// transformSelectors replaces each selector that uses :any-link with one selector for every
+// choice of :visited and :link.
 func (t *transformer) transformSelectors(nodes []*ast.Selector) []*ast.Selector {
+	if t.AnyLink == transforms.AnyLinkPassthrough {
+		return nodes
+	}
+
 	newNodes := make([]*ast.Selector, 0, len(nodes))
 	for _, n := range nodes {
-		newParts := make([]ast.SelectorPart, 0, len(n.Parts))
-		for index, p := range n.Parts {
+		newParts := [][]ast.SelectorPart{make([]ast.SelectorPart, 0, len(n.Parts))}
+		for _, p := range n.Parts {
 			switch part := p.(type) {
 			case *ast.PseudoClassSelector:
-				if part.Name != "any-link" || t.AnyLink == transforms.AnyLinkPassthrough {
-					newParts = append(newParts, p)
-					break
+				if strings.EqualFold(part.Name, "any-link") && part.Arguments == nil {
+					duplicates := make([][]ast.SelectorPart, 0, 2*len(newParts))
+					for _, name := range []string{"visited", "link"} {
+						for _, parts := range newParts {
+							duplicates = append(duplicates, append(parts[:len(parts):len(parts)], &ast.PseudoClassSelector{
+								Span: part.Span,
+								Name: name,
+							}))
+						}
+					}
+					newParts = duplicates
+					continue
 				}
+				t.transformSelectorArguments(part)
 
-				// Replace one of them with :link.
-				newParts = append(
-					newParts,
-					&ast.PseudoClassSelector{Name: "link"},
-				)
+			case *ast.PseudoElementSelector:
+				t.transformSelectorArguments(part.Inner)
+			}
 
-				// Make a duplicate with :visited.
-				duplicate := *n
-				duplicate.Parts[index] = &ast.PseudoClassSelector{Name: "visited"}
-				newNodes = append(newNodes, &duplicate)
+			for i := range newParts {
+				newParts[i] = append(newParts[i], p)
+			}
 
-			default:
-				newParts = append(newParts, p)
+			if len(newParts) > maxSelectors {
+				break
 			}
 		}
 
-		n.Parts = newParts
-		newNodes = append(newNodes, n)
+		if len(newParts) > maxSelectors {
+			t.addError(n, "too many uses of :any-link in a selector")
+			newNodes = append(newNodes, n)
+			continue
+		}
+
+		for _, parts := range newParts {
+			newNodes = append(newNodes, &ast.Selector{Span: n.Span, Parts: parts})
+		}
 	}
 	return newNodes
 }
 
+// transformSelectorArguments transforms the selectors inside of e.g. :not().
+func (t *transformer) transformSelectorArguments(node *ast.PseudoClassSelector) {
+	if selList, ok := node.Arguments.(*ast.SelectorList); ok {
+		selList.Selectors = t.transformSelectors(selList.Selectors)
+	}
+}
+
 func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 	rv := make([]ast.Node, 0, len(nodes))
 	for _, value := range nodes {
-- 
2.43.0


From da016d3f9449201507706dfdf3ac8fa69adbe736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 27/50] fix: use definitions of custom properties and media
 wherever they are, and only those of :root

---
 internal/transformer/transformer.go | 89 +++++++++++++++++------------
 1 file changed, 54 insertions(+), 35 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 23ff6ab..2698a5e 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -52,7 +52,7 @@ func Transform(s *ast.Stylesheet, opts Options) *ast.Stylesheet {
 		t.Reporter.AddError(fmt.Errorf("ImportRules is set to ImportRulesInline, but ImportReplacements is not set"))
 	}
 
-	s.Nodes = t.transformNodes(s.Nodes)
+	s.Nodes = t.transformNodes(t.collectDefinitions(s.Nodes))
 
 	return s
 }
@@ -138,7 +138,27 @@ func (t *transformer) transformSelectorArguments(node *ast.PseudoClassSelector)
 	}
 }
 
-func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
+// isPlainRoot returns whether or not the selector is just :root.
+func isPlainRoot(sel *ast.Selector) bool {
+	parts := sel.Parts
+	for len(parts) > 0 {
+		if _, ok := parts[len(parts)-1].(*ast.Whitespace); !ok {
+			break
+		}
+		parts = parts[:len(parts)-1]
+	}
+
+	if len(parts) != 1 {
+		return false
+	}
+
+	rootSel, ok := parts[0].(*ast.PseudoClassSelector)
+	return ok && strings.EqualFold(rootSel.Name, "root") && rootSel.Arguments == nil
+}
+
+// collectDefinitions replaces imports, and takes the definitions of custom properties and custom media
+// queries out of the nodes. It runs before any other transform because a definition may follow its use.
+func (t *transformer) collectDefinitions(nodes []ast.Node) []ast.Node {
 	rv := make([]ast.Node, 0, len(nodes))
 	for _, value := range nodes {
 		switch node := value.(type) {
@@ -149,24 +169,7 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 					return
 				}
 
-				isRoot := false
-				for _, sel := range selList.Selectors {
-					if len(sel.Parts) != 1 {
-						isRoot = true
-						break
-					}
-				}
-
-				if !isRoot {
-					return
-				}
-
-				rootSel, ok := selList.Selectors[0].Parts[0].(*ast.PseudoClassSelector)
-				if !ok {
-					return
-				}
-
-				if rootSel.Name != "root" {
+				if len(selList.Selectors) != 1 || !isPlainRoot(selList.Selectors[0]) {
 					return
 				}
 
@@ -194,18 +197,6 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 				declBlock.Declarations = newDecls
 			}()
 
-			selList, ok := node.Prelude.(*ast.SelectorList)
-			if !ok {
-				t.addError(node, "expected selector list for qualified rule")
-				rv = append(rv, node)
-				continue
-			}
-			selList.Selectors = t.transformSelectors(selList.Selectors)
-			node.Block = t.transformBlock(node.Block)
-
-			if node.Block == nil {
-				continue
-			}
 			rv = append(rv, node)
 
 		case *ast.AtRule:
@@ -213,7 +204,6 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 			case "import":
 				imported, ok := t.ImportReplacements[node]
 				if !ok {
-					t.transformAtRule(node)
 					rv = append(rv, node)
 					break
 				}
@@ -222,7 +212,7 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 					t.addWarn(node, "@import transform does not yet support @supports or media queries")
 				}
 
-				rv = append(rv, t.transformNodes(imported.Nodes)...)
+				rv = append(rv, t.collectDefinitions(imported.Nodes)...)
 
 			case "custom-media":
 				func() {
@@ -248,7 +238,6 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 				}()
 
 			default:
-				t.transformAtRule(node)
 				rv = append(rv, node)
 			}
 
@@ -259,6 +248,36 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 	return rv
 }
 
+func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
+	rv := make([]ast.Node, 0, len(nodes))
+	for _, value := range nodes {
+		switch node := value.(type) {
+		case *ast.QualifiedRule:
+			selList, ok := node.Prelude.(*ast.SelectorList)
+			if !ok {
+				t.addError(node, "expected selector list for qualified rule")
+				rv = append(rv, node)
+				continue
+			}
+			selList.Selectors = t.transformSelectors(selList.Selectors)
+			node.Block = t.transformBlock(node.Block)
+
+			if node.Block == nil {
+				continue
+			}
+			rv = append(rv, node)
+
+		case *ast.AtRule:
+			t.transformAtRule(node)
+			rv = append(rv, node)
+
+		default:
+			rv = append(rv, value)
+		}
+	}
+	return rv
+}
+
 // transformAtRule transforms the media queries and the block of an at-rule in place.
 func (t *transformer) transformAtRule(node *ast.AtRule) {
 	for _, prelude := range node.Preludes {
-- 
2.43.0


From cffdfe4de998ea99def26916fde36ec251076f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:34 +0000
Subject: [PATCH 28/50] fix: substitute custom properties inside other values
 and definitions

---
 internal/ast/value.go               |  11 +++
 internal/ast/walk.go                |   5 +
 internal/printer/printer.go         |   3 +
 internal/transformer/transformer.go | 136 ++++++++++++++++++++++++----
 4 files changed, 138 insertions(+), 17 deletions(-)

diff --git a/internal/ast/value.go b/internal/ast/value.go
index 4b90e1e..75b543d 100644
--- a/internal/ast/value.go
+++ b/internal/ast/value.go
@@ -61,6 +61,15 @@ type Brackets struct {
 	Values []Value
 }
 
+// ValueList is several values in the place of a single one, e.g. for a custom property
+// that is substituted in a math expression.
+type ValueList struct {
+	Span
+
+	// Values is the values, space-separated.
+	Values []Value
+}
+
 // Function is a css function.
 type Function struct {
 	Span
@@ -120,6 +129,7 @@ type Comma struct {
 func (String) isValue()                      {}
 func (Dimension) isValue()                   {}
 func (Brackets) isValue()                    {}
+func (ValueList) isValue()                   {}
 func (Function) isValue()                    {}
 func (MathExpression) isValue()              {}
 func (MathParenthesizedExpression) isValue() {}
@@ -131,6 +141,7 @@ func (Raw) isValue()                         {}
 var _ Value = String{}
 var _ Value = Dimension{}
 var _ Value = Brackets{}
+var _ Value = ValueList{}
 var _ Value = Function{}
 var _ Value = MathExpression{}
 var _ Value = MathParenthesizedExpression{}
diff --git a/internal/ast/walk.go b/internal/ast/walk.go
index 562ed02..1a2abbd 100644
--- a/internal/ast/walk.go
+++ b/internal/ast/walk.go
@@ -91,6 +91,11 @@ func Walk(start Node, visit func(n Node)) {
 			Walk(arg, visit)
 		}
 
+	case *ValueList:
+		for _, v := range s.Values {
+			Walk(v, visit)
+		}
+
 	case *PseudoElementSelector:
 		Walk(s.Inner, visit)
 
diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index a76673c..f3a6d18 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -312,6 +312,9 @@ func (p *printer) print(in ast.Node) {
 		}
 		p.s.WriteRune(']')
 
+	case *ast.ValueList:
+		p.printValues(node.Values)
+
 	case *ast.MathParenthesizedExpression:
 		p.s.WriteRune('(')
 		p.print(node.Value)
diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 2698a5e..a666d33 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -63,6 +63,7 @@ type transformer struct {
 	Options
 
 	variables   map[string][]ast.Value
+	substituted int
 	customMedia map[string]*ast.MediaQuery
 }
 
@@ -453,7 +454,7 @@ func (t *transformer) transformDeclarations(decls []ast.Declarationish) []ast.De
 	for _, decl := range decls {
 		switch d := decl.(type) {
 		case *ast.Declaration:
-			d.Values = t.transformValues(d.Values)
+			d.Values = t.transformValues(t.substitute(d.Values, nil))
 			newDecls = append(newDecls, d)
 		case *ast.Raw:
 			if d.Value == "" {
@@ -469,47 +470,148 @@ func (t *transformer) transformDeclarations(decls []ast.Declarationish) []ast.De
 	return newDecls
 }
 
-func (t *transformer) transformValues(values []ast.Value) []ast.Value {
+// maxSubstituted is how many values custom properties can be substituted with, over all, and
+// maxSubstitutionDepth is how deep the definitions can refer to each other.
+const (
+	maxSubstituted       = 1 << 20
+	maxSubstitutionDepth = 1000
+)
+
+// use is the use of a custom property, whose definition is substituted.
+type use struct {
+	// name is the name of the custom property.
+	name string
+
+	// span is where the value is used, in the declaration that is transformed.
+	span ast.Span
+
+	// outer is the use that the definition of this custom property is substituted for, if any.
+	outer *use
+
+	depth int
+}
+
+// contains returns whether or not the definition of name is already being substituted.
+func (u *use) contains(name string) bool {
+	for ; u != nil; u = u.outer {
+		if u.name == name {
+			return true
+		}
+	}
+	return false
+}
+
+// spanOf returns the location of a value. Values from a definition are located where they are used.
+func (u *use) spanOf(v ast.Node) ast.Span {
+	if u == nil {
+		return v.Location()
+	}
+	return u.span
+}
+
+// substitute returns a copy of the values of a declaration, or of a definition that is used in it, with
+// custom properties replaced.
+func (t *transformer) substitute(values []ast.Value, inside *use) []ast.Value {
+	if t.variables == nil {
+		return values
+	}
+
 	rv := make([]ast.Value, 0, len(values))
 	for _, value := range values {
+		if inside != nil {
+			t.substituted++
+		}
+
 		switch v := value.(type) {
 		case *ast.Function:
+			if !strings.EqualFold(v.Name, "var") {
+				rv = append(rv, &ast.Function{Span: inside.spanOf(v), Name: v.Name, Arguments: t.substitute(v.Arguments, inside)})
+				break
+			}
+
 			newValues := []ast.Value{v}
 			func() {
-				if v.Name != "var" {
-					return
-				}
-
-				if t.variables == nil {
-					return
-				}
-
 				if len(v.Arguments) == 0 {
-					t.addError(v, "expected at least one argument to var()")
+					t.addError(inside.spanOf(v), "expected at least one argument to var()")
 					return
 				}
 
 				varName, ok := v.Arguments[0].(*ast.Identifier)
 				if !ok {
-					t.addError(v, "expected identifier as argument to var()")
+					t.addError(inside.spanOf(v), "expected identifier as argument to var()")
 					return
 				}
 
+				hasFallback := false
+				if len(v.Arguments) > 2 {
+					_, hasFallback = v.Arguments[1].(*ast.Comma)
+				}
+
 				vals, ok := t.variables[varName.Value]
-				if !ok {
+				if !ok || inside.contains(varName.Value) {
 					// The first argument is the value, the second is a comma.
-					if len(v.Arguments) > 2 {
-						newValues = v.Arguments[2:]
+					if hasFallback {
+						newValues = t.substitute(v.Arguments[2:], inside)
 						return
 					}
 
-					t.addWarn(v, "use of undefined variable without fallback: %s", varName.Value)
+					t.addWarn(inside.spanOf(v), "use of undefined variable without fallback: %s", varName.Value)
+					return
+				}
+
+				u := &use{name: varName.Value, span: inside.spanOf(v), outer: inside}
+				if inside != nil {
+					u.depth = inside.depth + 1
+				}
+				if t.substituted > maxSubstituted || u.depth > maxSubstitutionDepth {
+					t.addError(u.span, "too many substitutions of custom properties: %s", varName.Value)
 					return
 				}
 
-				newValues = vals
+				newValues = t.substitute(vals, u)
 			}()
+			rv = append(rv, newValues...)
+
+		case *ast.Brackets:
+			rv = append(rv, &ast.Brackets{Span: inside.spanOf(v), Values: t.substitute(v.Values, inside)})
 
+		case *ast.MathExpression:
+			rv = append(rv, &ast.MathExpression{
+				Span:     inside.spanOf(v),
+				Operator: v.Operator,
+				Left:     t.substituteOne(v.Left, inside),
+				Right:    t.substituteOne(v.Right, inside),
+			})
+
+		case *ast.MathParenthesizedExpression:
+			rv = append(rv, &ast.MathParenthesizedExpression{Span: inside.spanOf(v), Value: t.substituteOne(v.Value, inside)})
+
+		case *ast.Dimension:
+			rv = append(rv, &ast.Dimension{Span: inside.spanOf(v), Value: v.Value, Unit: v.Unit})
+
+		default:
+			rv = append(rv, v)
+		}
+	}
+
+	return rv
+}
+
+// substituteOne is like substitute, for a part of a math expression.
+func (t *transformer) substituteOne(value ast.Value, inside *use) ast.Value {
+	values := t.substitute([]ast.Value{value}, inside)
+	if len(values) == 1 {
+		return values[0]
+	}
+	return &ast.ValueList{Span: inside.spanOf(value), Values: values}
+}
+
+func (t *transformer) transformValues(values []ast.Value) []ast.Value {
+	rv := make([]ast.Value, 0, len(values))
+	for _, value := range values {
+		switch v := value.(type) {
+		case *ast.Function:
+			newValues := []ast.Value{v}
 			func() {
 				if v.Name != "calc" {
 					return
-- 
2.43.0


From a1974874886cd1751f979cb36f8d0dbda1b56e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 29/50] fix: expand custom media queries in definitions

---
 internal/transformer/transformer.go | 50 +++++++++++++++++++----------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index a666d33..c17c41a 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -313,7 +313,7 @@ func (t *transformer) transformAtRule(node *ast.AtRule) {
 func (t *transformer) transformMediaQueries(queries []*ast.MediaQuery) []*ast.MediaQuery {
 	newQueries := make([]*ast.MediaQuery, 0, len(queries))
 	for _, q := range queries {
-		q.Parts = t.transformMediaQueryParts(q.Parts)
+		q.Parts = t.transformMediaQueryParts(q.Parts, nil)
 		newQueries = append(newQueries, q)
 	}
 	return newQueries
@@ -321,7 +321,7 @@ func (t *transformer) transformMediaQueries(queries []*ast.MediaQuery) []*ast.Me
 
 // addToValue takes an ast.Value and adds diff to it.
 // XXX: change this out to only operate on ast.Dimension, since there are no other valid number types now.
-func (t *transformer) addToValue(v ast.Value, diff float64) ast.Value {
+func (t *transformer) addToValue(v ast.Value, diff float64, inside *use) ast.Value {
 	if diff == 0 {
 		return v
 	}
@@ -330,18 +330,18 @@ func (t *transformer) addToValue(v ast.Value, diff float64) ast.Value {
 	case *ast.Dimension:
 		f, err := strconv.ParseFloat(oldValue.Value, 10)
 		if err != nil {
-			t.addError(oldValue, "could not parse dimension value to lower media range: %s", oldValue.Value)
+			t.addError(inside.spanOf(oldValue), "could not parse dimension value to lower media range: %s", oldValue.Value)
 			return oldValue
 		}
 		return &ast.Dimension{Value: strconv.FormatFloat(f+diff, 'f', -1, 64), Unit: oldValue.Unit}
 
 	default:
-		t.addError(oldValue, "tried to modify non-numeric value. expected dimension, percentage, or number, but got: %s", reflect.TypeOf(v).String())
+		t.addError(inside.spanOf(oldValue), "tried to modify non-numeric value. expected dimension, percentage, or number, but got: %s", reflect.TypeOf(v).String())
 		return v
 	}
 }
 
-func (t *transformer) transformMediaFeatureRange(part *ast.MediaFeatureRange) []ast.MediaQueryPart {
+func (t *transformer) transformMediaFeatureRange(part *ast.MediaFeatureRange, inside *use) []ast.MediaQueryPart {
 	asIs := []ast.MediaQueryPart{part}
 	if t.MediaFeatureRanges == transforms.MediaFeatureRangesPassthrough {
 		return asIs
@@ -367,7 +367,7 @@ func (t *transformer) transformMediaFeatureRange(part *ast.MediaFeatureRange) []
 		newParts = append(newParts, &ast.MediaFeaturePlain{
 			// XXX: replace this allocation with a lookup.
 			Property: &ast.Identifier{Value: fmt.Sprintf("%s-%s", direction, part.Property.Value)},
-			Value:    t.addToValue(part.LeftValue, diff),
+			Value:    t.addToValue(part.LeftValue, diff, inside),
 		})
 	}
 
@@ -394,16 +394,22 @@ func (t *transformer) transformMediaFeatureRange(part *ast.MediaFeatureRange) []
 		newParts = append(newParts, &ast.MediaFeaturePlain{
 			// XXX: replace this allocation with a lookup.
 			Property: &ast.Identifier{Value: fmt.Sprintf("%s-%s", direction, part.Property.Value)},
-			Value:    t.addToValue(part.RightValue, diff),
+			Value:    t.addToValue(part.RightValue, diff, inside),
 		})
 	}
 
 	return newParts
 }
 
-func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart) []ast.MediaQueryPart {
+// transformMediaQueryParts transforms the parts of a media query, or of the definition of a custom
+// media query that is used in one.
+func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart, inside *use) []ast.MediaQueryPart {
 	newParts := make([]ast.MediaQueryPart, 0, len(parts))
 	for _, p := range parts {
+		if inside != nil {
+			t.substituted++
+		}
+
 		switch part := p.(type) {
 		case *ast.MediaFeaturePlain:
 			if part.Value != nil || !strings.HasPrefix(part.Property.Value, "--") {
@@ -417,15 +423,25 @@ func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart) []ast
 			}
 
 			replacement, ok := t.customMedia[part.Property.Value]
-			if !ok {
+			if !ok || inside.contains(part.Property.Value) {
+				newParts = append(newParts, p)
+				break
+			}
+
+			u := &use{name: part.Property.Value, span: inside.spanOf(part), outer: inside}
+			if inside != nil {
+				u.depth = inside.depth + 1
+			}
+			if t.substituted > maxSubstituted || u.depth > maxSubstitutionDepth {
+				t.addError(u.span, "too many substitutions of custom media queries: %s", part.Property.Value)
 				newParts = append(newParts, p)
 				break
 			}
 
-			newParts = append(newParts, replacement.Parts...)
+			newParts = append(newParts, t.transformMediaQueryParts(replacement.Parts, u)...)
 
 		case *ast.MediaFeatureRange:
-			newParts = append(newParts, t.transformMediaFeatureRange(part)...)
+			newParts = append(newParts, t.transformMediaFeatureRange(part, inside)...)
 
 		default:
 			newParts = append(newParts, p)
@@ -470,22 +486,22 @@ func (t *transformer) transformDeclarations(decls []ast.Declarationish) []ast.De
 	return newDecls
 }
 
-// maxSubstituted is how many values custom properties can be substituted with, over all, and
-// maxSubstitutionDepth is how deep the definitions can refer to each other.
+// maxSubstituted is how many values custom properties and media queries can be substituted with,
+// over all, and maxSubstitutionDepth is how deep the definitions can refer to each other.
 const (
 	maxSubstituted       = 1 << 20
 	maxSubstitutionDepth = 1000
 )
 
-// use is the use of a custom property, whose definition is substituted.
+// use is the use of a custom property or media query, whose definition is substituted.
 type use struct {
-	// name is the name of the custom property.
+	// name is the name of the definition.
 	name string
 
-	// span is where the value is used, in the declaration that is transformed.
+	// span is where it is used, in what is transformed.
 	span ast.Span
 
-	// outer is the use that the definition of this custom property is substituted for, if any.
+	// outer is the use of the definition that this use is a part of, if any.
 	outer *use
 
 	depth int
-- 
2.43.0


From ed87ddc6cae1eb2c7736e79f3a3107dd6cacb266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 30/50] fix: evaluate calc() in values and with parentheses,
 and do not report valid expressions

---
 internal/ast/value.go               |   4 +-
 internal/transformer/transformer.go | 120 ++++++++++++++++------------
 2 files changed, 71 insertions(+), 53 deletions(-)

diff --git a/internal/ast/value.go b/internal/ast/value.go
index 75b543d..ab72e02 100644
--- a/internal/ast/value.go
+++ b/internal/ast/value.go
@@ -1,5 +1,7 @@
 package ast
 
+import "strings"
+
 // Value is a css value, e.g. dimension, percentage, or number.
 type Value interface {
 	Node
@@ -84,7 +86,7 @@ type Function struct {
 // IsMath returns whether or not this function supports math expressions
 // as values.
 func (f Function) IsMath() bool {
-	_, ok := mathFunctions[f.Name]
+	_, ok := mathFunctions[strings.ToLower(f.Name)]
 	return ok
 }
 
diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index c17c41a..c5c49d4 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -1,7 +1,9 @@
 package transformer
 
 import (
+	"errors"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -623,17 +625,20 @@ func (t *transformer) substituteOne(value ast.Value, inside *use) ast.Value {
 }
 
 func (t *transformer) transformValues(values []ast.Value) []ast.Value {
+	if t.CalcReduction == transforms.CalcReductionPassthrough {
+		return values
+	}
+
 	rv := make([]ast.Value, 0, len(values))
 	for _, value := range values {
 		switch v := value.(type) {
 		case *ast.Function:
 			newValues := []ast.Value{v}
 			func() {
-				if v.Name != "calc" {
-					return
-				}
-
-				if t.CalcReduction == transforms.CalcReductionPassthrough {
+				if !strings.EqualFold(v.Name, "calc") {
+					if !v.IsMath() {
+						v.Arguments = t.transformValues(v.Arguments)
+					}
 					return
 				}
 
@@ -642,28 +647,7 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 					return
 				}
 
-				args := t.transformValues([]ast.Value{v.Arguments[0]})
-				if len(args) != 1 {
-					t.addWarn(v, "expected single argument for calc()")
-					return
-				}
-
-				arg, ok := args[0].(*ast.MathExpression)
-				if !ok {
-					return
-				}
-
-				l, r := t.transformValues([]ast.Value{arg.Left}), t.transformValues([]ast.Value{arg.Right})
-				if len(l) != 1 {
-					t.addWarn(arg.Left, "expected left-hand side of math expression to be a single value")
-					return
-				}
-				if len(r) != 1 {
-					t.addWarn(arg.Right, "expected right-hand side of math expression to be a single value")
-					return
-				}
-
-				newValue := t.evaluateMathExpression(l[0], r[0], arg.Operator)
+				newValue := t.evaluate(v.Arguments[0])
 				if newValue == nil {
 					return
 				}
@@ -673,6 +657,10 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 
 			rv = append(rv, newValues...)
 
+		case *ast.Brackets:
+			v.Values = t.transformValues(v.Values)
+			rv = append(rv, v)
+
 		default:
 			rv = append(rv, v)
 		}
@@ -681,14 +669,48 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 	return rv
 }
 
+// evaluate returns the value of an expression inside of calc(), or nil if it has none that is
+// known. It does not change the expression.
+func (t *transformer) evaluate(value ast.Value) ast.Value {
+	switch v := value.(type) {
+	case *ast.MathExpression:
+		return t.evaluateMathExpression(v.Left, v.Right, v.Operator)
+
+	case *ast.MathParenthesizedExpression:
+		return t.evaluate(v.Value)
+
+	case *ast.Function:
+		if strings.EqualFold(v.Name, "calc") && len(v.Arguments) == 1 {
+			return t.evaluate(v.Arguments[0])
+		}
+
+	case *ast.Dimension:
+		return v
+	}
+	return nil
+}
+
+// newDimension returns the value of an expression at loc, or nil if it is too large to be known.
+func newDimension(loc ast.Node, value float64, unit string) ast.Value {
+	if math.IsInf(value, 0) || math.IsNaN(value) {
+		return nil
+	}
+
+	return &ast.Dimension{
+		Span:  loc.Location(),
+		Value: strconv.FormatFloat(value, 'f', -1, 64),
+		Unit:  unit,
+	}
+}
+
 func (t *transformer) doMath(left, right, op string) (float64, error) {
 	leftValue, err := strconv.ParseFloat(left, 10)
-	if err != nil {
+	if err != nil && !errors.Is(err, strconv.ErrRange) {
 		return 0, fmt.Errorf("could not parse dimension value: %s", left)
 	}
 
 	rightValue, err := strconv.ParseFloat(right, 10)
-	if err != nil {
+	if err != nil && !errors.Is(err, strconv.ErrRange) {
 		return 0, fmt.Errorf("could not parse dimension value: %s", right)
 	}
 	switch op {
@@ -712,16 +734,12 @@ func (t *transformer) doMath(left, right, op string) (float64, error) {
 // instead. For sum to succeed, both l and r must be of the same type.
 // See notes from https://www.w3.org/TR/css-values-3/#calc-type-checking.
 func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Value {
-	if expr, ok := l.(*ast.MathExpression); ok {
-		if evaluated := t.evaluateMathExpression(expr.Left, expr.Right, expr.Operator); evaluated != nil {
-			l = evaluated
-		}
+	if evaluated := t.evaluate(l); evaluated != nil {
+		l = evaluated
 	}
 
-	if expr, ok := r.(*ast.MathExpression); ok {
-		if evaluated := t.evaluateMathExpression(expr.Left, expr.Right, expr.Operator); evaluated != nil {
-			r = evaluated
-		}
+	if evaluated := t.evaluate(r); evaluated != nil {
+		r = evaluated
 	}
 
 	switch op {
@@ -754,10 +772,7 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 				return nil
 			}
 
-			return &ast.Dimension{
-				Value: strconv.FormatFloat(newValue, 'f', -1, 64),
-				Unit:  left.Unit,
-			}
+			return newDimension(l, newValue, left.Unit)
 
 		// case *ast.MathExpression:
 		// if left.op is not + or -, return nil
@@ -769,7 +784,6 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 		// left.Left.Unit case: doMath on left.Left.Value and right.Value and return left with Left = [the result of doMath]
 
 		default:
-			t.addError(l, "cannot perform %s on this type", op)
 			return nil
 		}
 
@@ -798,18 +812,24 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 			return nil
 		}
 
-		return &ast.Dimension{
-			Value: strconv.FormatFloat(newValue, 'f', -1, 64),
-			Unit:  maybeWithUnit.Unit,
-		}
+		return newDimension(l, newValue, maybeWithUnit.Unit)
 
 	case "/":
 		rightAsDimension, rightIsDimension := r.(*ast.Dimension)
-		if !rightIsDimension || rightAsDimension.Unit != "" {
+		if !rightIsDimension {
+			return nil
+		}
+
+		if rightAsDimension.Unit != "" {
 			t.addError(l, "right side of division must be a number (non-percentage/dimension)")
 			return nil
 		}
 
+		if _, err := t.doMath("1", rightAsDimension.Value, op); err != nil {
+			t.addError(l, err.Error())
+			return nil
+		}
+
 		switch left := l.(type) {
 		case *ast.Dimension:
 			newValue, err := t.doMath(left.Value, rightAsDimension.Value, op)
@@ -818,15 +838,11 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 				return nil
 			}
 
-			return &ast.Dimension{
-				Value: strconv.FormatFloat(newValue, 'f', -1, 64),
-				Unit:  left.Unit,
-			}
+			return newDimension(l, newValue, left.Unit)
 
 			// case *ast.MathExpression
 
 		default:
-			t.addError(l, "cannot perform %s on this type", op)
 			return nil
 		}
 
-- 
2.43.0


From b83f9b0855bd4f21fb1fac66014c32107063d70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 31/50] fix: locate errors and mappings of inlined rules in
 their own source

---
 internal/printer/printer.go         | 20 +++++++++-----
 internal/transformer/transformer.go | 41 ++++++++++++++++++++++++++++-
 2 files changed, 53 insertions(+), 8 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index f3a6d18..c74a32a 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -98,8 +98,12 @@ func (p *printer) addMapping(loc ast.Span) {
 
 	newState := p.lastMappingState
 
-	line, col := p.options.OriginalSource.LineAndCol(loc)
-	newState.originalLine, newState.originalColumn = line-1, p.utf16Column(loc.Start, loc.Start-int(col-1))
+	// Nodes that come from another source are not mapped.
+	isMapped := loc.Start >= 0
+	if isMapped {
+		line, col := p.options.OriginalSource.LineAndCol(loc)
+		newState.originalLine, newState.originalColumn = line-1, p.utf16Column(loc.Start, loc.Start-int(col-1))
+	}
 
 	// Note that String() here does not reallocate the string.
 	written := p.s.String()[p.lastWritten:]
@@ -119,12 +123,14 @@ func (p *printer) addMapping(loc ast.Span) {
 	}
 
 	p.sourceMappings.Write(VLQEncode(newState.generatedColumn - p.lastMappingState.generatedColumn))
-	// XXX: figure out what to do for multiple sources.
-	p.sourceMappings.Write(VLQEncode(0))
+	if isMapped {
+		// XXX: figure out what to do for multiple sources.
+		p.sourceMappings.Write(VLQEncode(0))
 
-	p.sourceMappings.Write(VLQEncode(newState.originalLine - p.lastMappingState.originalLine))
-	p.sourceMappings.Write(VLQEncode(newState.originalColumn - p.lastMappingState.originalColumn))
-	// XXX: 5th item for "names" mapping
+		p.sourceMappings.Write(VLQEncode(newState.originalLine - p.lastMappingState.originalLine))
+		p.sourceMappings.Write(VLQEncode(newState.originalColumn - p.lastMappingState.originalColumn))
+		// XXX: 5th item for "names" mapping
+	}
 
 	p.lastMappingState = newState
 	p.lastWritten = p.s.Len()
diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index c5c49d4..e81ae1f 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -29,13 +29,18 @@ type Options struct {
 	// ImportReplacements is the set of import references to inline. ImportReplacements must be non-nil
 	// if ImportRules is set to ImportRulesInline.
 	ImportReplacements map[*ast.AtRule]*ast.Stylesheet
+
+	// ImportSources is the set of sources that the ImportReplacements come from. Rules that
+	// are replaced from another source than OriginalSource have no location in the output.
+	ImportSources map[*ast.AtRule]*sources.Source
 }
 
 // Transform takes a pass over the input AST and runs various
 // transforms.
 func Transform(s *ast.Stylesheet, opts Options) *ast.Stylesheet {
 	t := &transformer{
-		Options: opts,
+		Options:     opts,
+		nodeSources: make(map[ast.Node]*sources.Source),
 	}
 
 	if opts.Reporter == nil {
@@ -56,6 +61,12 @@ func Transform(s *ast.Stylesheet, opts Options) *ast.Stylesheet {
 
 	s.Nodes = t.transformNodes(t.collectDefinitions(s.Nodes))
 
+	for _, n := range s.Nodes {
+		if t.nodeSources[n] != opts.OriginalSource {
+			clearLocation(n)
+		}
+	}
+
 	return s
 }
 
@@ -67,6 +78,25 @@ type transformer struct {
 	variables   map[string][]ast.Value
 	substituted int
 	customMedia map[string]*ast.MediaQuery
+
+	// nodeSources is the source of each top-level node.
+	nodeSources map[ast.Node]*sources.Source
+}
+
+// clearLocation removes the location of rules that are not from the original source.
+func clearLocation(n ast.Node) {
+	switch node := n.(type) {
+	case *ast.QualifiedRule:
+		node.Span = ast.Span{Start: -1, End: -1}
+
+	case *ast.AtRule:
+		node.Span = ast.Span{Start: -1, End: -1}
+		if block, ok := node.Block.(*ast.QualifiedRuleBlock); ok {
+			for _, r := range block.Rules {
+				clearLocation(r)
+			}
+		}
+	}
 }
 
 func (t *transformer) addError(loc ast.Node, fmt string, args ...interface{}) {
@@ -164,6 +194,8 @@ func isPlainRoot(sel *ast.Selector) bool {
 func (t *transformer) collectDefinitions(nodes []ast.Node) []ast.Node {
 	rv := make([]ast.Node, 0, len(nodes))
 	for _, value := range nodes {
+		t.nodeSources[value] = t.OriginalSource
+
 		switch node := value.(type) {
 		case *ast.QualifiedRule:
 			func() {
@@ -215,7 +247,12 @@ func (t *transformer) collectDefinitions(nodes []ast.Node) []ast.Node {
 					t.addWarn(node, "@import transform does not yet support @supports or media queries")
 				}
 
+				importer := t.OriginalSource
+				if source, ok := t.ImportSources[node]; ok {
+					t.OriginalSource = source
+				}
 				rv = append(rv, t.collectDefinitions(imported.Nodes)...)
+				t.OriginalSource = importer
 
 			case "custom-media":
 				func() {
@@ -254,6 +291,8 @@ func (t *transformer) collectDefinitions(nodes []ast.Node) []ast.Node {
 func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 	rv := make([]ast.Node, 0, len(nodes))
 	for _, value := range nodes {
+		t.OriginalSource = t.nodeSources[value]
+
 		switch node := value.(type) {
 		case *ast.QualifiedRule:
 			selList, ok := node.Prelude.(*ast.SelectorList)
-- 
2.43.0


From 73ebabeeabaac07b0f452e9680be12aeab4e677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 32/50] fix: load each file once, report each failure once, and
 inline imports per output

---
 api.go | 312 +++++++++++++++++++++++++++++++++------------------------
 1 file changed, 183 insertions(+), 129 deletions(-)

diff --git a/api.go b/api.go
index f559852..fe26c7c 100644
--- a/api.go
+++ b/api.go
@@ -35,14 +35,12 @@ type Options struct {
 
 func newCompilation(opts Options) *compilation {
 	c := &compilation{
-		sources:        make(map[string]int),
-		sourcesByIndex: make(map[int]*sources.Source),
-		outputsByIndex: make(map[int]struct{}),
-		astsByIndex:    make(map[int]*ast.Stylesheet),
-		result:         newResult(),
-		reporter:       logging.DefaultReporter,
-		transforms:     opts.Transforms,
-		resolver:       &resolver.NodeResolver{},
+		files:      make(map[string]*file),
+		reading:    make(chan struct{}, maxReading),
+		result:     newResult(),
+		reporter:   logging.DefaultReporter,
+		transforms: opts.Transforms,
+		resolver:   &resolver.NodeResolver{},
 	}
 
 	if opts.Reporter != nil {
@@ -56,23 +54,47 @@ func newCompilation(opts Options) *compilation {
 	return c
 }
 
+const (
+	// maxReading is how many files are read at the same time.
+	maxReading = 64
+
+	// maxInlined is how many imports can be inlined in an output, and maxInlinedSize is how
+	// many bytes they can have. A file that is imported twice is inlined twice, so without a
+	// limit, outputs could be exponentially larger than their sources.
+	maxInlined     = 1 << 16
+	maxInlinedSize = 1 << 25
+)
+
+// file is a source file of the compilation. Other than hasOutput, its fields
+// must not be used until all of the files of the compilation are loaded.
+type file struct {
+	// hasOutput is whether or not to write an output for the file. It's synchronized
+	// by filesMu.
+	hasOutput bool
+
+	source *sources.Source
+
+	// ast is the parsed source. It's nil if there was a problem reading or parsing the file.
+	ast *ast.Stylesheet
+
+	// imports is the files that ast.Imports resolve to, in the same order. It's nil for
+	// imports that could not be resolved.
+	imports []*file
+}
+
 type compilation struct {
 	// mu synchronizes other globals like the error reporter.
 	mu sync.Mutex
 
-	// sourcesMu synchronizes assignment for new source indices.
-	sourcesMu sync.RWMutex
-	sources   map[string]int
-	nextIndex int
+	// filesMu synchronizes the set of files, which are identified by absolute path.
+	filesMu sync.Mutex
+	files   map[string]*file
 
-	sourcesByIndexMu sync.RWMutex
-	sourcesByIndex   map[int]*sources.Source
+	// loading is the files that are being loaded.
+	loading sync.WaitGroup
 
-	astsByIndexMu sync.RWMutex
-	astsByIndex   map[int]*ast.Stylesheet
-
-	// outputsByIndex is the set of sources to write outputs for.
-	outputsByIndex map[int]struct{}
+	// reading limits how many files are read at the same time.
+	reading chan struct{}
 
 	result *Result
 
@@ -83,42 +105,32 @@ type compilation struct {
 	resolver Resolver
 }
 
-// addSource will read in a path and assign it a source index. If
-// it's already been loaded, the cached source is returned.
-func (c *compilation) addSource(path string) (int, error) {
+// addFile returns the file for a path, and starts loading it if it is new. hasOutput
+// should be set if the file should be included in the compilation output.
+func (c *compilation) addFile(path string, hasOutput bool) *file {
 	abs, err := filepath.Abs(path)
 	if err != nil {
-		return 0, oops.Wrapf(err, "failed to make path absolute: %s", path)
+		c.addError(oops.Wrapf(err, "failed to make path absolute: %s", path))
+		return nil
 	}
 
-	c.sourcesMu.RLock()
-	if _, ok := c.sources[abs]; ok {
-		defer c.sourcesMu.RUnlock()
-		return c.sources[abs], nil
-	}
-	c.sourcesMu.RUnlock()
+	c.filesMu.Lock()
+	defer c.filesMu.Unlock()
 
-	in, err := ioutil.ReadFile(abs)
-	if err != nil {
-		return 0, oops.Wrapf(err, "failed to read file: %s", path)
-	}
+	f, ok := c.files[abs]
+	if !ok {
+		f = &file{source: &sources.Source{Path: abs}}
+		c.files[abs] = f
 
-	source := &sources.Source{
-		Content: string(in),
-		Path:    abs,
+		c.loading.Add(1)
+		go func() {
+			defer c.loading.Done()
+			c.loadFile(f)
+		}()
 	}
 
-	c.sourcesMu.Lock()
-	i := c.nextIndex
-	c.sources[abs] = i
-	c.sourcesMu.Unlock()
-
-	c.sourcesByIndexMu.Lock()
-	c.sourcesByIndex[i] = source
-	c.sourcesByIndexMu.Unlock()
-
-	c.nextIndex++
-	return i, nil
+	f.hasOutput = f.hasOutput || hasOutput
+	return f
 }
 
 func newResult() *Result {
@@ -139,123 +151,165 @@ func (c *compilation) addError(err error) {
 	c.reporter.AddError(err)
 }
 
-// parseFile assigns the file a source index and parses the source. It also
-// looks at imported files and adds them to the compilation. hasOutput should
-// be called if the file should be included in compilation output.
-//
-// parseFile also runs the last transformation pass on the output. Note that we
-// don't make this function print the output as well so that we can make the current
-// file available to any callers as a dependency.
-func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
-	// Assign the file a source index.
-	idx, err := c.addSource(file)
-	if err != nil {
-		c.addError(err)
-		return nil
-	}
-
-	if hasOutput {
-		c.outputsByIndex[idx] = struct{}{}
-	}
-
-	c.astsByIndexMu.RLock()
-	if ss, ok := c.astsByIndex[idx]; ok {
-		c.astsByIndexMu.RUnlock()
-		return ss
-	}
-	c.astsByIndexMu.RUnlock()
+// AddError implements Reporter, so that other packages can report errors too.
+func (c *compilation) AddError(err error) {
+	c.addError(err)
+}
 
-	c.sourcesByIndexMu.RLock()
-	source := c.sourcesByIndex[idx]
-	c.sourcesByIndexMu.RUnlock()
-	ss, err := parser.Parse(source)
+// loadFile reads and parses the file. It also looks at imported files and adds
+// them to the compilation.
+func (c *compilation) loadFile(f *file) {
+	ss, err := c.parseFile(f)
 	if err != nil {
 		c.addError(err)
-		return nil
+		return
 	}
 
-	// Immediately look at the imports from the file and feed those dependencies
-	// into parseFile as well. If we're set to inline imports, then we'll use
-	// collect those dependency ASTs to let the transformer replace them.
-	var mu sync.Mutex
-	replacements := make(map[*ast.AtRule]*ast.Stylesheet)
+	f.ast = ss
+	f.imports = make([]*file, len(ss.Imports))
+
 	var wg errgroup.Group
-	for _, imp := range ss.Imports {
+	for i, imp := range ss.Imports {
+		i, imp := i, imp
 		wg.Go(func() error {
-			rel, err := c.resolver.Resolve(imp.Value, filepath.Dir(source.Path))
+			rel, err := c.resolver.Resolve(imp.Value, filepath.Dir(f.source.Path))
 			if err != nil {
 				c.addError(err)
 				return nil
 			}
 
 			// If import follow is on, then every referenced file makes it to the output.
-			imported := c.parseFile(rel, c.transforms.ImportRules == transforms.ImportRulesFollow)
-
-			mu.Lock()
-			defer mu.Unlock()
-			if imported != nil {
-				replacements[imp.AtRule] = imported
-			}
+			f.imports[i] = c.addFile(rel, c.transforms.ImportRules == transforms.ImportRulesFollow)
 			return nil
 		})
 	}
 	wg.Wait()
+}
 
+// parseFile reads the source of the file and parses it.
+func (c *compilation) parseFile(f *file) (*ast.Stylesheet, error) {
+	c.reading <- struct{}{}
+	defer func() { <-c.reading }()
+
+	in, err := ioutil.ReadFile(f.source.Path)
+	if err != nil {
+		return nil, oops.Wrapf(err, "failed to read file: %s", f.source.Path)
+	}
+
+	f.source.Content = string(in)
+	return parser.Parse(f.source)
+}
+
+// inliner collects the imports to inline into an output. Since every replacement is
+// transformed as a part of that output, it needs its own AST.
+type inliner struct {
+	replacements map[*ast.AtRule]*ast.Stylesheet
+	sources      map[*ast.AtRule]*sources.Source
+
+	// importers is the files that contain the current import.
+	importers map[*file]struct{}
+
+	count int
+	size  int
+}
+
+// addImports adds the imports of the file, whose AST is ss.
+func (l *inliner) addImports(f *file, ss *ast.Stylesheet) error {
+	l.importers[f] = struct{}{}
+	defer delete(l.importers, f)
+
+	for i, imported := range f.imports {
+		if imported == nil || imported.ast == nil {
+			// There was a problem with this import, so it stays as is.
+			continue
+		}
+
+		atRule := ss.Imports[i].AtRule
+		l.sources[atRule] = imported.source
+
+		if _, ok := l.importers[imported]; ok {
+			// The import closes a cycle.
+			l.replacements[atRule] = &ast.Stylesheet{}
+			continue
+		}
+
+		l.count++
+		l.size += len(imported.source.Content)
+		if l.count > maxInlined || l.size > maxInlinedSize {
+			return logging.LocationErrorf(f.source, atRule.Location(), "too many imports to inline")
+		}
+
+		replacement, err := parser.Parse(&sources.Source{
+			Path:    imported.source.Path,
+			Content: imported.source.Content,
+		})
+		if err != nil {
+			return err
+		}
+		l.replacements[atRule] = replacement
+
+		if err := l.addImports(imported, replacement); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// compileFile transforms and prints the file.
+func (c *compilation) compileFile(f *file) {
 	opts := transformer.Options{
 		Options:        c.transforms,
-		OriginalSource: source,
-		Reporter:       c.reporter,
+		OriginalSource: f.source,
+		Reporter:       c,
 	}
 
 	if c.transforms.ImportRules == transforms.ImportRulesInline {
-		opts.ImportReplacements = replacements
+		l := &inliner{
+			replacements: make(map[*ast.AtRule]*ast.Stylesheet),
+			sources:      make(map[*ast.AtRule]*sources.Source),
+			importers:    make(map[*file]struct{}),
+		}
+		if err := l.addImports(f, f.ast); err != nil {
+			c.addError(err)
+		}
+
+		opts.ImportReplacements = l.replacements
+		opts.ImportSources = l.sources
+	}
+
+	out, err := printer.Print(transformer.Transform(f.ast, opts), printer.Options{
+		OriginalSource: f.source,
+	})
+	if err != nil {
+		c.addError(err)
+		return
 	}
 
-	ss = transformer.Transform(ss, opts)
-	c.astsByIndexMu.Lock()
-	c.astsByIndex[idx] = ss
-	c.astsByIndexMu.Unlock()
-	return ss
+	c.result.mu.Lock()
+	defer c.result.mu.Unlock()
+	c.result.Files[f.source.Path] = out
 }
 
 // Compile runs a compilation with the specified Options.
 func Compile(opts Options) *Result {
 	c := newCompilation(opts)
 
-	var wg errgroup.Group
-
 	for _, e := range opts.Entry {
-		wg.Go(func() error {
-			c.parseFile(e, true)
-			return nil
-		})
+		c.addFile(e, true)
 	}
-	wg.Wait()
+	c.loading.Wait()
 
-	wg = errgroup.Group{}
-	for i := range c.outputsByIndex {
-		idx := i
+	var wg errgroup.Group
+	for _, f := range c.files {
+		if !f.hasOutput || f.ast == nil {
+			// Skip attempting to print if there was a problem reading/parsing this file
+			// in the first place.
+			continue
+		}
+
+		f := f
 		wg.Go(func() error {
-			// XXX: this is the wrong file name
-			source := c.sourcesByIndex[idx]
-			ast := c.astsByIndex[idx]
-			if source == nil || ast == nil {
-				// Skip attempting to print if there was a problem reading/parsing this file
-				// in the first place.
-				return nil
-			}
-
-			out, err := printer.Print(ast, printer.Options{
-				OriginalSource: source,
-			})
-			if err != nil {
-				c.addError(err)
-				return nil
-			}
-
-			c.result.mu.Lock()
-			defer c.result.mu.Unlock()
-			c.result.Files[source.Path] = out
+			c.compileFile(f)
 			return nil
 		})
 	}
-- 
2.43.0


From 05ecb9cb9cbdd56f555048dfae54616de5aa8174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:03 +0000
Subject: [PATCH 33/50] fix: fail to resolve entry points of packages that are
 directories

---
 resolver/node_resolver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resolver/node_resolver.go b/resolver/node_resolver.go
index 2c491a7..b8838b6 100644
--- a/resolver/node_resolver.go
+++ b/resolver/node_resolver.go
@@ -105,7 +105,7 @@ func (r *NodeResolver) resolveAsDir(path string) (string, error) {
 		// If there is no package.json, then try resolving an index.css file.
 		indexPath := filepath.Join(path, "index.css")
 		if info, err := os.Stat(indexPath); err != nil || info.IsDir() {
-			if os.IsNotExist(err) {
+			if err == nil || os.IsNotExist(err) {
 				return "", oops.Wrapf(ErrNotFound, "could not resolve as directory: %s", path)
 			}
 			return "", oops.Wrapf(err, "failure during resolution")
@@ -126,7 +126,7 @@ func (r *NodeResolver) resolveAsDir(path string) (string, error) {
 
 	stylePath := filepath.Join(path, pkgContent.Style)
 	if info, err := os.Stat(stylePath); err != nil || info.IsDir() {
-		if os.IsNotExist(err) {
+		if err == nil || os.IsNotExist(err) {
 			return "", oops.Wrapf(ErrNotFound, "package.json has style attribute, but it cannot be resolved: %s (to %s)", pkgContent.Style, stylePath)
 		}
 		return "", oops.Wrapf(err, "failure during resolution")
-- 
2.43.0


From 597dd12dbc99f671f9f4ec5e90e991ce8c99abc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:04 +0000
Subject: [PATCH 34/50] fix: look for node_modules in every ancestor of
 relative directories, and in the root

---
 resolver/node_resolver.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/resolver/node_resolver.go b/resolver/node_resolver.go
index b8838b6..fd53ed3 100644
--- a/resolver/node_resolver.go
+++ b/resolver/node_resolver.go
@@ -137,15 +137,23 @@ func (r *NodeResolver) resolveAsDir(path string) (string, error) {
 
 // resolveAsNodeModule walks directories from fromDir to find node_modules paths.
 func (r *NodeResolver) resolveFromNodeModules(module, fromDir string) (string, error) {
-	currentDir := fromDir
-	for currentDir != "/" {
+	currentDir, err := filepath.Abs(fromDir)
+	if err != nil {
+		return "", oops.Wrapf(err, "failed to make path absolute: %s", fromDir)
+	}
+
+	for {
 		modulePkgPath := filepath.Join(currentDir, "node_modules", module)
 
 		if res, err := r.resolve(modulePkgPath); err == nil {
 			return res, nil
 		}
 
-		currentDir = filepath.Dir(currentDir)
+		parentDir := filepath.Dir(currentDir)
+		if parentDir == currentDir {
+			break
+		}
+		currentDir = parentDir
 	}
 
 	return "", oops.Wrapf(ErrNotFound, "could not find absolute path in node_modules")
-- 
2.43.0


From d4562bb66a171d55085e5625c03297e976a2d57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 35/50] fix: report errors to esbuild once, with their line and
 column

---
 esbuildplugin/plugin.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/esbuildplugin/plugin.go b/esbuildplugin/plugin.go
index 36d62ee..f92e522 100644
--- a/esbuildplugin/plugin.go
+++ b/esbuildplugin/plugin.go
@@ -28,19 +28,20 @@ func (r *csscReporter) toEsbuild() []api.Message {
 
 		if lErr, ok := err.(locationError); ok {
 			source, span := lErr.Location()
-			_, colNumber := source.LineAndCol(span)
+			lineNumber, colNumber := source.LineAndCol(span)
 			lineSpan := source.FullLine(span)
 
 			errs = append(errs, api.Message{
 				Text: err.Error(),
 				Location: &api.Location{
 					File:     source.Path,
-					Column:   int(colNumber),
-					Line:     lineSpan.Start,
+					Column:   int(colNumber) - 1,
+					Line:     int(lineNumber),
 					Length:   lineSpan.End - lineSpan.Start,
 					LineText: source.Content[lineSpan.Start:lineSpan.End],
 				},
 			})
+			continue
 		}
 
 		errs = append(errs, api.Message{
-- 
2.43.0


From 682a6fa428b3460b6e527ea8b3c67b3f89971aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:21 +0000
Subject: [PATCH 36/50] fix: resolve import targets that contain escapes

---
 internal/ast/ast.go       |  1 +
 internal/lexer/lexer.go   | 61 +++++++++++++++++++++++++++++++++++++++
 internal/parser/parser.go |  8 ++---
 3 files changed, 66 insertions(+), 4 deletions(-)

diff --git a/internal/ast/ast.go b/internal/ast/ast.go
index 4fe3b62..594a7d9 100644
--- a/internal/ast/ast.go
+++ b/internal/ast/ast.go
@@ -26,6 +26,7 @@ type Stylesheet struct {
 
 // ImportSpecifier is a pointer to an import at rule.
 type ImportSpecifier struct {
+	// Value is the import target, without escapes.
 	Value string
 
 	// AtRule is a pointer to the at rule that specified this import.
diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 0177658..5754311 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -3,7 +3,9 @@
 package lexer
 
 import (
+	"strconv"
 	"strings"
+	"unicode"
 	"unicode/utf8"
 
 	"github.com/stephen/cssc/internal/ast"
@@ -632,6 +634,65 @@ func (l *Lexer) nextEscaped() {
 	}
 }
 
+// Unescape returns the value of the content of a string, url or name token,
+// which CurrentString has as it is written in the source.
+func Unescape(content string) string {
+	if !strings.ContainsRune(content, '\\') {
+		return content
+	}
+
+	var s strings.Builder
+	for i := 0; i < len(content); {
+		if content[i] != '\\' {
+			s.WriteByte(content[i])
+			i++
+			continue
+		}
+		i++ // Consume the backslash.
+
+		digits := i
+		for i < len(content) && i-digits < 6 && isHexDigit(rune(content[i])) {
+			i++
+		}
+		if i == digits {
+			if n := newlineLength(content[i:]); n > 0 {
+				// An escaped newline in a string continues it on the next line.
+				i += n
+			} else if i < len(content) {
+				_, n := utf8.DecodeRuneInString(content[i:])
+				s.WriteString(content[i : i+n])
+				i += n
+			}
+			continue
+		}
+
+		ch, _ := strconv.ParseUint(content[digits:i], 16, 32)
+		if ch == 0 || ch > unicode.MaxRune {
+			ch = utf8.RuneError
+		}
+		s.WriteRune(rune(ch))
+
+		if n := newlineLength(content[i:]); n > 0 {
+			i += n
+		} else if i < len(content) && isWhitespace(rune(content[i])) {
+			i++
+		}
+	}
+	return s.String()
+}
+
+// newlineLength returns how many bytes the newline at the start of content has.
+func newlineLength(content string) int {
+	switch {
+	case strings.HasPrefix(content, "\r\n"):
+		return 2
+	case content != "" && strings.ContainsRune("\n\r\f", rune(content[0])):
+		return 1
+	default:
+		return 0
+	}
+}
+
 // LocationErrorf sends up a lexer panic with a custom location.
 func (l *Lexer) LocationErrorf(span ast.Span, f string, args ...interface{}) {
 	panic(&Error{logging.LocationErrorf(l.source, span, f, args...)})
diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 353e2a8..091879b 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -588,21 +588,21 @@ func (p *parser) parseImportAtRule() *ast.AtRule {
 		prelude.Span = p.lexer.TokenSpan()
 		prelude.Value = p.lexer.CurrentString
 		p.ss.Imports = append(p.ss.Imports, ast.ImportSpecifier{
-			Value:  prelude.Value,
+			Value:  lexer.Unescape(prelude.Value),
 			AtRule: imp,
 		})
 		p.lexer.Next()
 
 	case lexer.FunctionStart:
 		prelude.Span = p.lexer.TokenSpan()
-		if p.lexer.CurrentString != "url" {
+		if !strings.EqualFold(p.lexer.CurrentString, "url") {
 			p.lexer.Errorf("@import target must be a url or string")
 		}
 		p.lexer.Next()
 
 		prelude.Value = p.lexer.CurrentString
 		p.ss.Imports = append(p.ss.Imports, ast.ImportSpecifier{
-			Value:  prelude.Value,
+			Value:  lexer.Unescape(prelude.Value),
 			AtRule: imp,
 		})
 		p.lexer.Expect(lexer.String)
@@ -613,7 +613,7 @@ func (p *parser) parseImportAtRule() *ast.AtRule {
 		prelude.Span = p.lexer.TokenSpan()
 		prelude.Value = p.lexer.CurrentString
 		p.ss.Imports = append(p.ss.Imports, ast.ImportSpecifier{
-			Value:  prelude.Value,
+			Value:  lexer.Unescape(prelude.Value),
 			AtRule: imp,
 		})
 		p.lexer.Expect(lexer.String)
-- 
2.43.0


From 5f721273f7496c04250f7ace22d747b35dda9f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 37/50] fix: report a problem in a substituted definition once
 where it is used

---
 internal/transformer/transformer.go | 34 +++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index e81ae1f..eb66e3c 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -41,6 +41,7 @@ func Transform(s *ast.Stylesheet, opts Options) *ast.Stylesheet {
 	t := &transformer{
 		Options:     opts,
 		nodeSources: make(map[ast.Node]*sources.Source),
+		reports:     make(map[report]bool),
 	}
 
 	if opts.Reporter == nil {
@@ -79,10 +80,20 @@ type transformer struct {
 	substituted int
 	customMedia map[string]*ast.MediaQuery
 
+	// reports are the errors and warnings reported so far.
+	reports map[report]bool
+
 	// nodeSources is the source of each top-level node.
 	nodeSources map[ast.Node]*sources.Source
 }
 
+// report is an error or warning at a location.
+type report struct {
+	source  *sources.Source
+	span    ast.Span
+	message string
+}
+
 // clearLocation removes the location of rules that are not from the original source.
 func clearLocation(n ast.Node) {
 	switch node := n.(type) {
@@ -99,12 +110,27 @@ func clearLocation(n ast.Node) {
 	}
 }
 
-func (t *transformer) addError(loc ast.Node, fmt string, args ...interface{}) {
-	t.Reporter.AddError(logging.LocationErrorf(t.OriginalSource, loc.Location(), fmt, args...))
+func (t *transformer) addError(loc ast.Node, format string, args ...interface{}) {
+	if t.report(loc, fmt.Sprintf(format, args...)) {
+		t.Reporter.AddError(logging.LocationErrorf(t.OriginalSource, loc.Location(), format, args...))
+	}
 }
 
-func (t *transformer) addWarn(loc ast.Node, fmt string, args ...interface{}) {
-	t.Reporter.AddError(logging.LocationWarnf(t.OriginalSource, loc.Location(), fmt, args...))
+func (t *transformer) addWarn(loc ast.Node, format string, args ...interface{}) {
+	if t.report(loc, fmt.Sprintf(format, args...)) {
+		t.Reporter.AddError(logging.LocationWarnf(t.OriginalSource, loc.Location(), format, args...))
+	}
+}
+
+// report returns whether or not the message is new at this location. A definition that is substituted
+// can contain many values with the same problem, which are all located at its use.
+func (t *transformer) report(loc ast.Node, message string) bool {
+	r := report{source: t.OriginalSource, span: loc.Location(), message: message}
+	if t.reports[r] {
+		return false
+	}
+	t.reports[r] = true
+	return true
 }
 
 // maxSelectors is how many selectors a single selector can turn into.
-- 
2.43.0


From 99db29c2ea27a377c94a693a407ca6585106a7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 38/50] fix: keep the end of an escape that a comment follows

---
 internal/lexer/lexer.go | 43 ++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 5754311..92c6d11 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -241,9 +241,7 @@ func (l *Lexer) Next() {
 				l.step() // Consume @.
 				l.Current = At
 
-				start := l.lastPos
-				l.nextName()
-				l.CurrentString = l.source.Content[start:l.lastPos]
+				l.CurrentString = l.nextName()
 				return
 			}
 
@@ -254,9 +252,7 @@ func (l *Lexer) Next() {
 				l.Current = Hash
 
 				l.step()
-				start := l.lastPos
-				l.nextName()
-				l.CurrentString = l.source.Content[start:l.lastPos]
+				l.CurrentString = l.nextName()
 				return
 			}
 
@@ -460,9 +456,7 @@ func (l *Lexer) nextNumericToken() {
 	l.CurrentNumeral = l.source.Content[start:l.lastPos]
 
 	if startsIdentifier(l.ch, l.peek(0), l.peek(1)) {
-		dimenStart := l.lastPos
-		l.nextName()
-		l.CurrentString = l.source.Content[dimenStart:l.lastPos]
+		l.CurrentString = l.nextName()
 		l.Current = Dimension
 	} else if l.ch == '%' {
 		l.Current = Percentage
@@ -481,9 +475,7 @@ func isURLString(in string) bool {
 // The spec tells us to return a bad-url-token, but we
 // are uninterested in best-effort interpretation for compilation.
 func (l *Lexer) nextIdentLikeToken() {
-	start := l.lastPos
-	l.nextName()
-	l.CurrentString = l.source.Content[start:l.lastPos]
+	l.CurrentString = l.nextName()
 
 	// Here, we need to special case the url function because it supports unquoted string content.
 	if isURLString(l.CurrentString) && l.ch == '(' {
@@ -595,16 +587,27 @@ func (l *Lexer) nextDelimToken() {
 
 // nextName implements https://www.w3.org/TR/css-syntax-3/#consume-a-name.
 // It consumes and returns a name, stepping the lexer forward.
-func (l *Lexer) nextName() {
+func (l *Lexer) nextName() string {
+	start := l.lastPos
+	open := false
 	for {
 		if isNameCodePoint(l.ch) {
+			open = false
 			l.step()
 		} else if startsEscape(l.ch, l.peek(0)) {
-			l.nextEscaped()
+			open = l.nextEscaped()
 		} else {
-			return
+			break
 		}
 	}
+
+	name := l.source.Content[start:l.lastPos]
+	if open && l.ch == '/' && l.peek(0) == '*' {
+		// The comment ends the escape, but is not printed. Without it, whitespace after
+		// the name would be a part of the escape.
+		name += " "
+	}
+	return name
 }
 
 // nextEscaped consumes and returns an escaped codepoint, stepping the lexer forward.
@@ -612,16 +615,18 @@ func (l *Lexer) nextName() {
 //
 // Note that we do not need to interpret the codepoint for our purposes - we can record
 // the byte offsets as-is for transformation.
-func (l *Lexer) nextEscaped() {
+//
+// It returns whether or not a whitespace after it would be a part of the escape.
+func (l *Lexer) nextEscaped() bool {
 	l.step() // Consume the backslash.
 
 	if l.ch == -1 {
-		return
+		return false
 	}
 
 	if !isHexDigit(l.ch) {
 		l.step()
-		return
+		return false
 	}
 
 	for i := 0; i < 6 && isHexDigit(l.ch); i++ {
@@ -631,7 +636,9 @@ func (l *Lexer) nextEscaped() {
 	// A single whitespace terminates the hex digits and is part of the escape.
 	if isWhitespace(l.ch) {
 		l.step()
+		return false
 	}
+	return true
 }
 
 // Unescape returns the value of the content of a string, url or name token,
-- 
2.43.0


From 7c3e9659d58f6b836ed68268133bcf43f07c6c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 39/50] fix: match names of custom properties and media that
 are written with escapes

---
 internal/transformer/transformer.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index eb66e3c..81919f3 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -9,6 +9,7 @@ import (
 	"strings"
 
 	"github.com/stephen/cssc/internal/ast"
+	"github.com/stephen/cssc/internal/lexer"
 	"github.com/stephen/cssc/internal/logging"
 	"github.com/stephen/cssc/internal/sources"
 	"github.com/stephen/cssc/transforms"
@@ -244,8 +245,8 @@ func (t *transformer) collectDefinitions(nodes []ast.Node) []ast.Node {
 					switch d := decl.(type) {
 					case *ast.Declaration:
 
-						if strings.HasPrefix(d.Property, "--") && t.variables != nil {
-							t.variables[d.Property] = d.Values
+						if name := lexer.Unescape(d.Property); strings.HasPrefix(name, "--") && t.variables != nil {
+							t.variables[name] = d.Values
 							continue
 						}
 						newDecls = append(newDecls, d)
@@ -300,7 +301,7 @@ func (t *transformer) collectDefinitions(nodes []ast.Node) []ast.Node {
 						return
 					}
 
-					t.customMedia[name.Value] = query
+					t.customMedia[lexer.Unescape(name.Value)] = query
 				}()
 
 			default:
@@ -479,7 +480,8 @@ func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart, insid
 
 		switch part := p.(type) {
 		case *ast.MediaFeaturePlain:
-			if part.Value != nil || !strings.HasPrefix(part.Property.Value, "--") {
+			name := lexer.Unescape(part.Property.Value)
+			if part.Value != nil || !strings.HasPrefix(name, "--") {
 				newParts = append(newParts, p)
 				break
 			}
@@ -489,13 +491,13 @@ func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart, insid
 				break
 			}
 
-			replacement, ok := t.customMedia[part.Property.Value]
-			if !ok || inside.contains(part.Property.Value) {
+			replacement, ok := t.customMedia[name]
+			if !ok || inside.contains(name) {
 				newParts = append(newParts, p)
 				break
 			}
 
-			u := &use{name: part.Property.Value, span: inside.spanOf(part), outer: inside}
+			u := &use{name: name, span: inside.spanOf(part), outer: inside}
 			if inside != nil {
 				u.depth = inside.depth + 1
 			}
@@ -630,8 +632,9 @@ func (t *transformer) substitute(values []ast.Value, inside *use) []ast.Value {
 					_, hasFallback = v.Arguments[1].(*ast.Comma)
 				}
 
-				vals, ok := t.variables[varName.Value]
-				if !ok || inside.contains(varName.Value) {
+				name := lexer.Unescape(varName.Value)
+				vals, ok := t.variables[name]
+				if !ok || inside.contains(name) {
 					// The first argument is the value, the second is a comma.
 					if hasFallback {
 						newValues = t.substitute(v.Arguments[2:], inside)
@@ -642,7 +645,7 @@ func (t *transformer) substitute(values []ast.Value, inside *use) []ast.Value {
 					return
 				}
 
-				u := &use{name: varName.Value, span: inside.spanOf(v), outer: inside}
+				u := &use{name: name, span: inside.spanOf(v), outer: inside}
 				if inside != nil {
 					u.depth = inside.depth + 1
 				}
-- 
2.43.0


From 7c527abd8631e91ef49f52c4d3cb031a5ae6cb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 40/50] fix: print An+B with an explicit plus like the one
 without

---
 internal/printer/printer.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index c74a32a..6fe115b 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -390,17 +390,16 @@ func (p *printer) print(in ast.Node) {
 
 	case *ast.ANPlusB:
 		wrote := false
-		if node.A != "" && node.A != "1" && node.A != "0" {
-			if node.A == "-1" {
+		a := strings.TrimPrefix(node.A, "+")
+		if a != "" && a != "1" && a != "0" {
+			if a == "-1" {
 				p.s.WriteString("-")
-			} else if strings.HasPrefix(node.A, "+") {
-				p.s.WriteString(node.A[1:])
 			} else {
-				p.s.WriteString(node.A)
+				p.s.WriteString(a)
 			}
 			wrote = true
 		}
-		if node.A != "0" {
+		if a != "0" {
 			p.s.WriteRune('n')
 			wrote = true
 		}
-- 
2.43.0


From ea32d5539b3e2897bfe7c555dcbc7a20765aa4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:12 +0000
Subject: [PATCH 41/50] fix: give esbuild the location of errors that are
 wrapped, like those of the parser

---
 esbuildplugin/plugin.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/esbuildplugin/plugin.go b/esbuildplugin/plugin.go
index f92e522..d7c3fe8 100644
--- a/esbuildplugin/plugin.go
+++ b/esbuildplugin/plugin.go
@@ -2,6 +2,7 @@ package esbuildplugin
 
 import (
 	"context"
+	"errors"
 	"runtime/pprof"
 
 	"github.com/evanw/esbuild/pkg/api"
@@ -26,7 +27,8 @@ func (r *csscReporter) toEsbuild() []api.Message {
 	var errs []api.Message
 	for _, err := range *r {
 
-		if lErr, ok := err.(locationError); ok {
+		var lErr locationError
+		if errors.As(err, &lErr) {
 			source, span := lErr.Location()
 			lineNumber, colNumber := source.LineAndCol(span)
 			lineSpan := source.FullLine(span)
-- 
2.43.0


From 9d6329d13638529833604de9026a86a4439a85d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:54 +0000
Subject: [PATCH 42/50] fix: a media query list of empty queries never applies

---
 internal/parser/parser.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 091879b..cb2c8b8 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -740,6 +740,7 @@ func (p *parser) parseMediaQueryList() *ast.MediaQueryList {
 		Span: p.lexer.TokenSpan(),
 	}
 
+	sawComma := false
 	for {
 		if p.lexer.Current == lexer.EOF {
 			p.lexer.Errorf("unexpected EOF")
@@ -751,6 +752,7 @@ func (p *parser) parseMediaQueryList() *ast.MediaQueryList {
 		}
 
 		if p.lexer.Current == lexer.Comma {
+			sawComma = true
 			p.lexer.Next()
 			continue
 		}
@@ -759,7 +761,18 @@ func (p *parser) parseMediaQueryList() *ast.MediaQueryList {
 	}
 
 	if len(l.Queries) == 0 {
-		return nil
+		if !sawComma {
+			return nil
+		}
+
+		// A list of nothing but empty queries never applies.
+		l.Queries = append(l.Queries, &ast.MediaQuery{
+			Span: l.Span,
+			Parts: []ast.MediaQueryPart{
+				&ast.Identifier{Span: l.Span, Value: "not"},
+				&ast.Identifier{Span: l.Span, Value: "all"},
+			},
+		})
 	}
 
 	l.End = l.Queries[len(l.Queries)-1].End
-- 
2.43.0


From 99adb8c9dc6f8e927bb9c6f0d8edc94441a5f8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:55 +0000
Subject: [PATCH 43/50] fix: match names of at-rules and :any-link without
 Unicode case folding

---
 internal/ast/ast.go                 | 13 +++++++++++++
 internal/parser/parser.go           |  4 ++--
 internal/transformer/transformer.go |  4 ++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/internal/ast/ast.go b/internal/ast/ast.go
index 594a7d9..99fa319 100644
--- a/internal/ast/ast.go
+++ b/internal/ast/ast.go
@@ -1,5 +1,7 @@
 package ast
 
+import "strings"
+
 // Node is any top-level stylesheet rule.
 type Node interface {
 	Location() Span
@@ -96,3 +98,14 @@ func (Raw) isDeclaration()         {}
 
 var _ Declarationish = Declaration{}
 var _ Declarationish = Raw{}
+
+// LowerName returns name in lower case. Names in css only match regardless of case
+// for ASCII letters.
+func LowerName(name string) string {
+	return strings.Map(func(ch rune) rune {
+		if 'A' <= ch && ch <= 'Z' {
+			return ch + 'a' - 'A'
+		}
+		return ch
+	}, name)
+}
diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index cb2c8b8..7551fa6 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -553,7 +553,7 @@ func (p *parser) parseValue() ast.Value {
 // parseAtRule parses an at rule. @import and @custom-media only have a meaning when
 // they are at the top level of a stylesheet.
 func (p *parser) parseAtRule(isTopLevel bool) *ast.AtRule {
-	switch name := strings.ToLower(p.lexer.CurrentString); {
+	switch name := ast.LowerName(p.lexer.CurrentString); {
 	case name == "import" && isTopLevel:
 		return p.parseImportAtRule()
 
@@ -998,7 +998,7 @@ func (p *parser) parseGenericAtRule() *ast.AtRule {
 		return r
 	}
 
-	switch strings.ToLower(r.Name) {
+	switch ast.LowerName(r.Name) {
 	case "supports", "layer", "container", "scope", "starting-style", "document", "-moz-document":
 		r.Block = p.parseRuleBlock()
 	default:
diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 81919f3..43595e9 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -150,7 +150,7 @@ func (t *transformer) transformSelectors(nodes []*ast.Selector) []*ast.Selector
 		for _, p := range n.Parts {
 			switch part := p.(type) {
 			case *ast.PseudoClassSelector:
-				if strings.EqualFold(part.Name, "any-link") && part.Arguments == nil {
+				if ast.LowerName(part.Name) == "any-link" && part.Arguments == nil {
 					duplicates := make([][]ast.SelectorPart, 0, 2*len(newParts))
 					for _, name := range []string{"visited", "link"} {
 						for _, parts := range newParts {
@@ -262,7 +262,7 @@ func (t *transformer) collectDefinitions(nodes []ast.Node) []ast.Node {
 			rv = append(rv, node)
 
 		case *ast.AtRule:
-			switch strings.ToLower(node.Name) {
+			switch ast.LowerName(node.Name) {
 			case "import":
 				imported, ok := t.ImportReplacements[node]
 				if !ok {
-- 
2.43.0


From b83a1faca0d7f8f8162caed49f6edb2ac7b71635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:51 +0000
Subject: [PATCH 44/50] fix: reject type selectors that are only separated by a
 comment from a name before them

---
 internal/parser/selectors.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 0d966c6..7e5179f 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -64,6 +64,10 @@ func (p *parser) parseSelector() *ast.Selector {
 			p.lexer.Next()
 
 		case lexer.Ident:
+			if n := len(s.Parts); n > 0 && endsWithName(s.Parts[n-1]) {
+				// There was only a comment in between.
+				p.lexer.Errorf("unexpected type selector: %s", p.lexer.CurrentString)
+			}
 			s.Parts = append(s.Parts, &ast.TypeSelector{
 				Span: p.lexer.TokenSpan(),
 				Name: p.lexer.CurrentString,
@@ -183,6 +187,22 @@ func (p *parser) parseSelector() *ast.Selector {
 	}
 }
 
+// endsWithName returns whether or not the part would run into a name after it.
+func endsWithName(part ast.SelectorPart) bool {
+	switch part := part.(type) {
+	case *ast.ClassSelector, *ast.IDSelector:
+		return true
+	case *ast.TypeSelector:
+		return part.Name != "*"
+	case *ast.PseudoClassSelector:
+		return part.Arguments == nil
+	case *ast.PseudoElementSelector:
+		return part.Inner.Arguments == nil
+	default:
+		return false
+	}
+}
+
 func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 	prev := p.lexer.RetainWhitespace
 	p.lexer.RetainWhitespace = false
-- 
2.43.0


From 9b59d0b0056ae28cdd0020fbbcf0f6efc6326259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:54 +0000
Subject: [PATCH 45/50] fix: recognize url( that is written with escapes

---
 internal/lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 92c6d11..6641352 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -478,7 +478,7 @@ func (l *Lexer) nextIdentLikeToken() {
 	l.CurrentString = l.nextName()
 
 	// Here, we need to special case the url function because it supports unquoted string content.
-	if isURLString(l.CurrentString) && l.ch == '(' {
+	if l.ch == '(' && isURLString(Unescape(l.CurrentString)) {
 		l.step()
 		for i := l.lastPos; i < len(l.source.Content) && isWhitespace(l.ch); i++ {
 			l.step()
-- 
2.43.0


From 118db986a3823299b1ebf52c55b1b52fa969f6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:56 +0000
Subject: [PATCH 46/50] fix: carry declarations with whitespace between the *
 and the property as they are

---
 internal/parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 7551fa6..2019053 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -220,7 +220,11 @@ func (p *parser) parseDeclaration() *ast.Declaration {
 		// Hack: support old browser declarations like *letter-spacing.
 		if p.lexer.CurrentString == "*" {
 			prefix = p.lexer.CurrentString
+			end := p.lexer.TokenEnd()
 			p.lexer.Next()
+			if p.lexer.TokenSpan().Start != end {
+				p.lexer.Errorf("expected property after *")
+			}
 		}
 	}
 
-- 
2.43.0


From 653485ed2125612c4ac9ae80fec6b0a2764a8a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:29 +0000
Subject: [PATCH 47/50] fix: keep a space between a name that ends in -- and >

---
 internal/printer/printer.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 6fe115b..cbfd0fe 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -369,7 +369,7 @@ func (p *printer) print(in ast.Node) {
 		p.s.WriteString(node.Name)
 
 	case *ast.CombinatorSelector:
-		p.s.WriteString(node.Operator)
+		p.printOperator(node.Operator)
 
 	case *ast.PseudoElementSelector:
 		p.s.WriteRune(':')
@@ -445,11 +445,11 @@ func (p *printer) print(in ast.Node) {
 		p.s.WriteRune('(')
 		if node.LeftValue != nil {
 			p.print(node.LeftValue)
-			p.s.WriteString(node.Operator)
+			p.printOperator(node.Operator)
 		}
 		p.print(node.Property)
 		if node.RightValue != nil {
-			p.s.WriteString(node.Operator)
+			p.printOperator(node.Operator)
 			p.print(node.RightValue)
 		}
 		p.s.WriteRune(')')
@@ -462,3 +462,12 @@ func (p *printer) print(in ast.Node) {
 	}
 
 }
+
+// printOperator prints an operator. There is a space between the name -- and >, because --> would
+// be the end of an HTML comment.
+func (p *printer) printOperator(op string) {
+	if strings.HasPrefix(op, ">") && strings.HasSuffix(p.s.String(), "--") {
+		p.s.WriteRune(' ')
+	}
+	p.s.WriteString(op)
+}
-- 
2.43.0


From 8350c6506935ec58b49627c48e458e209b31450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:11 +0000
Subject: [PATCH 48/50] fix: limit the expansion of adjacent :any-link too

---
 internal/transformer/transformer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 43595e9..639e8c2 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -148,6 +148,10 @@ func (t *transformer) transformSelectors(nodes []*ast.Selector) []*ast.Selector
 	for _, n := range nodes {
 		newParts := [][]ast.SelectorPart{make([]ast.SelectorPart, 0, len(n.Parts))}
 		for _, p := range n.Parts {
+			if len(newParts) > maxSelectors {
+				break
+			}
+
 			switch part := p.(type) {
 			case *ast.PseudoClassSelector:
 				if ast.LowerName(part.Name) == "any-link" && part.Arguments == nil {
@@ -172,10 +176,6 @@ func (t *transformer) transformSelectors(nodes []*ast.Selector) []*ast.Selector
 			for i := range newParts {
 				newParts[i] = append(newParts[i], p)
 			}
-
-			if len(newParts) > maxSelectors {
-				break
-			}
 		}
 
 		if len(newParts) > maxSelectors {
-- 
2.43.0


From 7676199503b77a5d76c44a2a8c405931fab19da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:09 +0000
Subject: [PATCH 49/50] fix: limit the size of expanded selectors and
 substituted values, not only their number

---
 internal/transformer/transformer.go | 62 +++++++++++++++++++++++++----
 1 file changed, 54 insertions(+), 8 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 639e8c2..23649cc 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -78,9 +78,12 @@ type transformer struct {
 	Options
 
 	variables   map[string][]ast.Value
-	substituted int
 	customMedia map[string]*ast.MediaQuery
 
+	// substituted and selectorSize are how much has been substituted, and expanded, so far.
+	substituted  int
+	selectorSize int
+
 	// reports are the errors and warnings reported so far.
 	reports map[report]bool
 
@@ -134,8 +137,12 @@ func (t *transformer) report(loc ast.Node, message string) bool {
 	return true
 }
 
-// maxSelectors is how many selectors a single selector can turn into.
-const maxSelectors = 4096
+// maxSelectors is how many selectors a single selector can turn into, and maxSelectorSize is the
+// size that selectors can turn into, over all.
+const (
+	maxSelectors    = 4096
+	maxSelectorSize = 1 << 25
+)
 
 // transformSelectors replaces each selector that uses :any-link with one selector for every
 // choice of :visited and :link.
@@ -178,7 +185,10 @@ func (t *transformer) transformSelectors(nodes []*ast.Selector) []*ast.Selector
 			}
 		}
 
-		if len(newParts) > maxSelectors {
+		if len(newParts) > 1 && t.selectorSize <= maxSelectorSize {
+			t.selectorSize += len(newParts) * sizeOfSelector(newParts[0])
+		}
+		if len(newParts) > maxSelectors || (len(newParts) > 1 && t.selectorSize > maxSelectorSize) {
 			t.addError(n, "too many uses of :any-link in a selector")
 			newNodes = append(newNodes, n)
 			continue
@@ -191,6 +201,28 @@ func (t *transformer) transformSelectors(nodes []*ast.Selector) []*ast.Selector
 	return newNodes
 }
 
+// sizeOfSelector returns roughly how much it takes to repeat a selector.
+func sizeOfSelector(parts []ast.SelectorPart) int {
+	size := 0
+	for _, p := range parts {
+		class, ok := p.(*ast.PseudoClassSelector)
+		if element, isElement := p.(*ast.PseudoElementSelector); isElement {
+			class, ok = element.Inner, true
+		}
+		if ok {
+			if selList, ok := class.Arguments.(*ast.SelectorList); ok {
+				for _, sel := range selList.Selectors {
+					size += sizeOfSelector(sel.Parts)
+				}
+				size += 16 + len(class.Name)
+				continue
+			}
+		}
+		size += sizeOf(p)
+	}
+	return size
+}
+
 // transformSelectorArguments transforms the selectors inside of e.g. :not().
 func (t *transformer) transformSelectorArguments(node *ast.PseudoClassSelector) {
 	if selList, ok := node.Arguments.(*ast.SelectorList); ok {
@@ -475,7 +507,7 @@ func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart, insid
 	newParts := make([]ast.MediaQueryPart, 0, len(parts))
 	for _, p := range parts {
 		if inside != nil {
-			t.substituted++
+			t.substituted += sizeOf(p)
 		}
 
 		switch part := p.(type) {
@@ -555,13 +587,19 @@ func (t *transformer) transformDeclarations(decls []ast.Declarationish) []ast.De
 	return newDecls
 }
 
-// maxSubstituted is how many values custom properties and media queries can be substituted with,
+// maxSubstituted is the size that custom properties and media queries can be substituted with,
 // over all, and maxSubstitutionDepth is how deep the definitions can refer to each other.
 const (
-	maxSubstituted       = 1 << 20
+	maxSubstituted       = 1 << 25
 	maxSubstitutionDepth = 1000
 )
 
+// sizeOf returns roughly how much it takes to repeat a node.
+func sizeOf(node ast.Node) int {
+	loc := node.Location()
+	return 16 + loc.End - loc.Start
+}
+
 // use is the use of a custom property or media query, whose definition is substituted.
 type use struct {
 	// name is the name of the definition.
@@ -604,7 +642,15 @@ func (t *transformer) substitute(values []ast.Value, inside *use) []ast.Value {
 	rv := make([]ast.Value, 0, len(values))
 	for _, value := range values {
 		if inside != nil {
-			t.substituted++
+			// What is inside of a value is counted on its own.
+			switch v := value.(type) {
+			case *ast.Function:
+				t.substituted += 16 + len(v.Name)
+			case *ast.Brackets, *ast.MathExpression, *ast.MathParenthesizedExpression:
+				t.substituted += 16
+			default:
+				t.substituted += sizeOf(value)
+			}
 		}
 
 		switch v := value.(type) {
-- 
2.43.0


From 675a0296f6c2e63947c3a420a7c452e16021c79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:26 +0000
Subject: [PATCH 50/50] fix: do not accept whitespace inside of operators like
 <= and ^=

---
 internal/parser/parser.go    | 8 +++++++-
 internal/parser/selectors.go | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 2019053..c9e2006 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -920,9 +920,15 @@ var (
 
 func (p *parser) parseMediaRangeOperator() string {
 	operator := p.lexer.CurrentString
+
+	p.lexer.RetainWhitespace = true
 	p.lexer.Next()
+	p.lexer.RetainWhitespace = false
 
-	if p.lexer.Current == lexer.Delim {
+	if p.lexer.Current == lexer.Whitespace {
+		// There is no whitespace in an operator, so it ends here.
+		p.lexer.Next()
+	} else if p.lexer.Current == lexer.Delim {
 		if p.lexer.CurrentString != "=" || (operator != "<" && operator != ">") {
 			p.lexer.Errorf("unexpected token: %s", p.lexer.Current.String())
 		}
diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 7e5179f..d2b90a2 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -228,7 +228,11 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 	switch p.lexer.CurrentString {
 	case "^", "~", "$", "*", "|":
 		attr.PreOperator = p.lexer.CurrentString
+
+		// There is no whitespace in an operator.
+		p.lexer.RetainWhitespace = true
 		p.lexer.Next()
+		p.lexer.RetainWhitespace = false
 
 		if p.lexer.CurrentString != "=" {
 			p.lexer.Errorf("expected =, got %s: ", p.lexer.CurrentString)
-- 
2.43.0

