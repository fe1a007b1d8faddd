From e971e5082453f90ab56b5a31395c133826b2b4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 01/56] fix: lexer: advance over invalid UTF-8 and U+FFFD
 instead of looping forever

---
 lexer/lexer.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 0e7eb38..4b0178e 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -201,9 +201,6 @@ func (l *Lexer) next() {
 		return
 	}
 	ch, w := utf8.DecodeRune(l.src[l.rdOffset:])
-	if ch == utf8.RuneError {
-		return
-	}
 	l.chr = ch
 	l.offset = l.rdOffset
 	l.rdOffset += w
-- 
2.43.0


From d2097c4b70acad4d5bca1440ecc773017945c706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 02/56] fix: lexer: keep all of an unterminated text literal
 and give its error a full position

---
 lexer/lexer.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 4b0178e..85540cc 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -183,16 +183,21 @@ func (l *Lexer) Scan() (tok token.Token, pos token.Position, lit string) {
 			lit = ""
 		}
 	}
+	pos = l.position(startOffset)
+
+	return
+
+}
+
+// position returns the position of an offset on the current line
+func (l *Lexer) position(offset int) token.Position {
 	lenLines := len(l.lineOffsets)
 
-	pos = token.Position{
-		Offset: startOffset,
+	return token.Position{
+		Offset: offset,
 		Line:   lenLines,
-		Column: startOffset - l.lineOffsets[lenLines-1],
+		Column: offset - l.lineOffsets[lenLines-1],
 	}
-
-	return
-
 }
 
 func (l *Lexer) next() {
@@ -316,17 +321,14 @@ func (l *Lexer) scanOctalDigits() (tok token.Token, lit string) {
 func (l *Lexer) scanString() string {
 	offsetPre := l.offset
 
-	for {
+	for l.chr != '"' {
 		if l.chr < 0 || l.chr == '\n' {
 			l.error(l.offset, "unexpected newline character before string termination")
-			break
-		}
-		if l.chr == '"' {
-			l.next()
-			break
+			return string(l.src[offsetPre:l.offset])
 		}
 		l.next()
 	}
+	l.next() // consume the closing quote
 
 	return string(l.src[offsetPre : l.offset-1])
 }
@@ -381,7 +383,7 @@ func isIdentifierBodyChar(x rune) bool {
 }
 
 func (l *Lexer) error(offset int, message string) {
-	l.Errors = append(l.Errors, Error{Pos: token.Position{Offset: offset}, Msg: message})
+	l.Errors = append(l.Errors, Error{Pos: l.position(offset), Msg: message})
 	l.ErrCount += 1
 }
 
-- 
2.43.0


From d79265c5047da14efdc0ac74853c14361de2a067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 03/56] fix: lexer: do not write into the spare capacity of the
 caller's buffer

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 85540cc..586d0e6 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -50,7 +50,7 @@ func (l *Lexer) addLineOffset(offset int) {
 
 // NewLexer returns a new Lexer given code sourcce in bytes
 func NewLexer(src []byte) *Lexer {
-	src = append(src, 32) // Hack:: trailing byte ignored without adding an ignorable byte
+	src = append(src[:len(src):len(src)], 32) // (never into the caller's spare capacity) Hack:: trailing byte ignored without adding an ignorable byte
 	l := &Lexer{
 		src:      src,
 		offset:   0,
-- 
2.43.0


From 91bd5cc6c4246f25f79e017a08e3ebb969fbf41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 04/56] fix: lexer: a number is a float only if a digit follows
 the point

---
 lexer/lexer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 586d0e6..7fc90b8 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -285,11 +285,11 @@ func (l *Lexer) scanNumber() (token.Token, string) {
 	tok = token.INT
 
 	// TODO : Add support for all number types, int, floats
-	for unicode.IsDigit(l.chr) || l.chr == '.' && unicode.IsDigit(rune(l.peek())) {
-		l.next()
-		if l.chr == '.' && l.peek() != '.' { // check that its not part of a bound .., ...
+	for isDigit(l.chr) || l.chr == '.' && isDigit(rune(l.peek())) {
+		if l.chr == '.' { // followed by a digit, so not part of a bound .., ... or of a control operator
 			tok = token.FLOAT
 		}
+		l.next()
 	}
 	return tok, string(l.src[offsetPre:l.offset])
 }
-- 
2.43.0


From d04c14e2129e2a8b31bf0abc11acb2fa310c9aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 05/56] fix: token: text_literal and internal markers are not
 reserved words

---
 token/token.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/token/token.go b/token/token.go
index 03a6316..d3c94f0 100644
--- a/token/token.go
+++ b/token/token.go
@@ -312,6 +312,9 @@ func init() {
 	keywords = make(map[string]Token)
 	// skip the IDENT literal
 	for i := Token(INT); i < literal_end; i++ {
+		if i == numeric_end || i == TEXT_LITERAL { // have no spelling of their own
+			continue
+		}
 		v := tokens[i]
 		keywords[v] = i
 	}
-- 
2.43.0


From 35d351bfb59cdc1c6e67279f69a3dd4add0572f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 06/56] fix: lexer: unknown control operators are illegal, not
 identifiers

---
 lexer/lexer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 7fc90b8..2bfe135 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -166,12 +166,15 @@ func (l *Lexer) Scan() (tok token.Token, pos token.Position, lit string) {
 				l.next()
 				tok = token.INCLUSIVE_BOUND
 				lit = ".."
-			} else if unicode.IsLetter(l.chr) {
+			} else if isLetter(l.chr) {
 				// Scan for control operators
 				copString := l.scanControlOp()
 				lit = fmt.Sprintf("%s%s", string(chr), copString)
 
 				tok = token.Lookup(lit)
+				if !tok.IsControlOp() {
+					tok = token.ILLEGAL
+				}
 			} else {
 				tok = token.PERIOD
 			}
-- 
2.43.0


From e560d877669667e0074fca373fbfefc44c9de8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 07/56] fix: parser: report lexer errors instead of dropping
 them together with the tree

---
 parser/parser.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e9fb87a..2c022ed 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -79,11 +79,6 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 	cddl := &ast.CDDL{}
 	cddl.Rules = []ast.CDDLEntry{}
 
-	// Don't parse if lexer errors are non zero
-	if len(p.lexer.Errors) != 0 {
-		return nil, nil
-	}
-
 	for p.currToken != token.EOF {
 		cddlEntry, err := p.parseRule()
 		if err != nil {
@@ -95,6 +90,15 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 		p.next()
 	}
 
+	// the whole source has been scanned, report what the lexer complained about first
+	lexErrors := ErrorList{}
+	for _, lexErr := range p.lexer.Errors {
+		err := NewError(lexErr.Msg, lexErr.Pos, lexErr.Pos)
+		err.Prefix = "lexer"
+		lexErrors = append(lexErrors, err)
+	}
+	p.errors = append(lexErrors, p.errors...)
+
 	for _, task := range p.tasks {
 		err := task()
 		if err != nil {
-- 
2.43.0


From a1b03b2f63bdf68212041a795a53634c7323a157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 08/56] fix: parser: a trailing comment does not swallow the
 name of the next rule

---
 parser/parser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2c022ed..97e74bd 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -177,7 +177,6 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 	if p.peekToken == token.COMMENT && isSameLineTokens(p.pos, p.peekPos) {
 		p.next()
 		rule.TrailingComment = p.parseInnerComment()
-		p.next()
 	}
 
 	return rule, nil
-- 
2.43.0


From 4acd949adf60df0c339583260d69173f412396c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 09/56] fix: parser: .regexp on a base other than text is an
 error, not a panic

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 97e74bd..6aee923 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -570,7 +570,7 @@ func (p *Parser) parseRegexp(left ast.Node) (ast.Node, errors.Diagnostic) {
 	if b, ok := left.(*ast.TstrType); ok {
 		base = b
 	} else {
-		return nil, p.errorUnsupportedTypes(b.Pos, p.currliteral, token.TSTR)
+		return nil, p.errorUnsupportedTypes(p.pos, p.currliteral, token.TSTR)
 	}
 	r := &ast.Regexp{
 		Pos:   p.pos,
-- 
2.43.0


From 2a0d2b5fe7c4c72ada21ad81466b72042cc9a615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 10/56] fix: parser: an unparsable .bits constraint is an
 error, not a panic

---
 parser/parser.go | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 6aee923..38a08da 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -599,7 +599,6 @@ func (p *Parser) parseBits(left ast.Node) (ast.Node, errors.Diagnostic) {
 	p.next()
 	constraint, err := p.parseEntry(p.currToken.Precedence())
 	if err != nil {
-		b.Base = wrapBadNode(constraint)
 		return b, err
 	}
 	b.Contstraint = constraint
@@ -653,14 +652,6 @@ func isSameLineTokens(tok1, tok2 token.Position) bool {
 	return tok1.Line == tok2.Line
 }
 
-func wrapBadNode(node ast.Node) *ast.BadNode {
-	return &ast.BadNode{
-		Pos:    node.Start(),
-		Base:   node,
-		EndPos: node.End(),
-	}
-}
-
 func (p *Parser) parseMap() (ast.Node, errors.Diagnostic) {
 	g := &ast.Map{}
 	g.Pos = p.pos
-- 
2.43.0


From 121e0a7a15940c6b057cf5fe6d050a25e7fb5269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 11/56] fix: parser: report a tag item that is not closed by a
 parenthesis

---
 parser/parser.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 38a08da..029c73a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -110,13 +110,12 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 
 }
 
-func (p *Parser) expectPeek(tok token.Token) bool {
+func (p *Parser) expectPeek(tok token.Token) errors.Diagnostic {
 	if p.peekToken != tok {
-		p.errorTokenExpected(p.peekPos, tok)
-		return false
+		return p.errorTokenExpected(p.peekPos, tok)
 	}
 	p.next()
-	return false
+	return nil
 }
 
 func (p *Parser) Errors() ErrorList {
@@ -451,7 +450,9 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 		if err != nil {
 			return tagBase, err
 		}
-		p.expectPeek(token.RPAREN)
+		if err := p.expectPeek(token.RPAREN); err != nil {
+			return tagBase, err
+		}
 	}
 	return tagBase, nil
 }
-- 
2.43.0


From 741696284a2dd3a1e784dfde2a9208b804f2fd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 12/56] fix: parser: comparison operators keep their base,
 accept nint and report a non-numeric operand

---
 parser/parser.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 029c73a..b38835d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -721,10 +721,8 @@ func (p *Parser) parseInnerComment() *ast.Comment {
 }
 
 func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic) {
-	var leftI *ast.IntegerType
-
 	switch left.(type) {
-	case *ast.UintType, *ast.IntegerType, *ast.FloatType:
+	case *ast.UintType, *ast.IntegerType, *ast.NegativeIntegerType, *ast.FloatType:
 	default:
 		return nil, p.errorUnsupportedTypes(p.pos, p.currliteral, token.INT, token.FLOAT, token.UINT)
 	}
@@ -732,17 +730,17 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 	op := &ast.ComparatorOpControl{
 		Pos:      p.pos,
 		Token:    p.currToken,
-		Left:     leftI,
+		Left:     left,
 		Operator: p.currliteral,
 	}
-	if !p.peekToken.IsNumeric() {
-		p.errorUnsupportedType(p.peekPos, p.currliteral, token.INT)
+	if !p.peekToken.IsNumeric() && p.peekToken != token.IDENT {
+		return nil, p.errorUnsupportedType(p.peekPos, p.currliteral, token.INT)
 	}
 	p.next()
 
 	right, err := p.parseEntry(p.currToken.Precedence())
 	if err != nil {
-		return &ast.BadNode{Base: leftI, Token: p.currToken}, err
+		return &ast.BadNode{Base: left, Token: p.currToken}, err
 	}
 	op.Right = right
 
-- 
2.43.0


From 5dbbc8662006cea4e4e99710b3e6d0b2a14a8f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 13/56] fix: parser: comparison operators accept an identifier
 that resolves to a number

---
 parser/parser.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index b38835d..7ca4d5a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -721,8 +721,18 @@ func (p *Parser) parseInnerComment() *ast.Comment {
 }
 
 func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic) {
-	switch left.(type) {
+	switch val := left.(type) {
 	case *ast.UintType, *ast.IntegerType, *ast.NegativeIntegerType, *ast.FloatType:
+	case *ast.Identifier: // must not resolve to something that is not a number
+		pos, operator := p.pos, p.currliteral
+		p.tasks = append(p.tasks, func() errors.Diagnostic {
+			switch p.environment.Get(val.Name).(type) {
+			case *ast.TstrType, *ast.TextLiteral, *ast.BstrType, *ast.BytesType, *ast.BooleanType,
+				*ast.BooleanLiteral, *ast.NullType, *ast.Array, *ast.Map, *ast.Group:
+				return p.errorUnsupportedTypes(pos, operator, token.INT, token.FLOAT, token.UINT)
+			}
+			return nil
+		})
 	default:
 		return nil, p.errorUnsupportedTypes(p.pos, p.currliteral, token.INT, token.FLOAT, token.UINT)
 	}
-- 
2.43.0


From fa40bebd2a61e2315f22b9eeca799f13432bc4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 14/56] fix: ast: End of occurrences without upper bound and of
 tags without item; tag numbers know their position

---
 ast/occurrence.go |  2 +-
 ast/tag.go        | 10 +++++++++-
 parser/parser.go  |  4 ++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ast/occurrence.go b/ast/occurrence.go
index 56b6a77..a60cda6 100644
--- a/ast/occurrence.go
+++ b/ast/occurrence.go
@@ -31,7 +31,7 @@ func (nm *NMOccurrence) Start() token.Position {
 }
 
 func (nm *NMOccurrence) End() token.Position {
-	return nm.M.End()
+	return nm.Item.End()
 }
 
 func (nm *NMOccurrence) groupEntry() {}
diff --git a/ast/tag.go b/ast/tag.go
index 85aba74..703e65f 100644
--- a/ast/tag.go
+++ b/ast/tag.go
@@ -14,5 +14,13 @@ func (t *Tag) Start() token.Position {
 }
 
 func (t *Tag) End() token.Position {
-	return t.Item.End().To(1) // add )
+	switch {
+	case t.Item != nil:
+		return t.Item.End().To(1) // add )
+	case t.TagNumber != nil:
+		return t.TagNumber.End()
+	case t.Major != nil:
+		return t.Major.End()
+	}
+	return t.Pos.To(1) // length of `#`
 }
diff --git a/parser/parser.go b/parser/parser.go
index 7ca4d5a..0d9d1f2 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -432,7 +432,7 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 		if err != nil {
 			return nil, p.error("failed to parse tag major", p.pos, p.pos)
 		}
-		tagBase.Major = &ast.UintLiteral{Literal: major}
+		tagBase.Major = &ast.UintLiteral{Pos: p.pos, Token: p.currToken, Literal: major}
 	case token.FLOAT:
 		p.next()
 		tagB, err := p.parseFloatTag()
@@ -497,7 +497,7 @@ func (p *Parser) parseFloatTag() (*ast.Tag, errors.Diagnostic) {
 	}
 
 	tag.Major = &ast.UintLiteral{Pos: p.pos, Token: p.currToken, Literal: majorUint}
-	tag.TagNumber = &ast.UintLiteral{Pos: p.pos, Token: p.currToken, Literal: numberUint}
+	tag.TagNumber = &ast.UintLiteral{Pos: p.pos.To(len(sections[0]) + 1), Token: p.currToken, Literal: numberUint}
 
 	return tag, nil
 }
-- 
2.43.0


From f16ecb141e6b312b81463f3adf50a0505d2bf36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 15/56] fix: parser: report range bounds that are not numbers
 of one kind, whatever their spelling

---
 parser/parser.go | 64 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 21 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0d9d1f2..a466e01 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -726,7 +726,7 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 	case *ast.Identifier: // must not resolve to something that is not a number
 		pos, operator := p.pos, p.currliteral
 		p.tasks = append(p.tasks, func() errors.Diagnostic {
-			switch p.environment.Get(val.Name).(type) {
+			switch p.resolve(val).(type) {
 			case *ast.TstrType, *ast.TextLiteral, *ast.BstrType, *ast.BytesType, *ast.BooleanType,
 				*ast.BooleanLiteral, *ast.NullType, *ast.Array, *ast.Map, *ast.Group:
 				return p.errorUnsupportedTypes(pos, operator, token.INT, token.FLOAT, token.UINT)
@@ -767,10 +767,24 @@ func (p *Parser) parseBound(left ast.Node) (bound ast.Node, err errors.Diagnosti
 		bound, err = p.parseFloatBound(val)
 	case *ast.Identifier:
 		bound, err = p.parseIdentBound(val)
+	default:
+		return nil, p.errorUnsupportedTypes(p.pos, p.currliteral, token.INT, token.FLOAT, token.IDENT)
 	}
 	return bound, err
 }
 
+// resolve follows names to the node they finally stand for, nil if there is none
+func (p *Parser) resolve(node ast.Node) ast.Node {
+	for i := 0; i < 100; i++ { // names may be defined by each other
+		ident, ok := node.(*ast.Identifier)
+		if !ok {
+			return node
+		}
+		node = p.environment.Get(ident.Name)
+	}
+	return nil
+}
+
 func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 	occ := &ast.NMOccurrence{
 		Pos:   p.pos,
@@ -833,19 +847,27 @@ func (p *Parser) parseIdentBound(left *ast.Identifier) (*ast.Range, errors.Diagn
 	}
 	b.To = to
 
+	switch to.(type) {
+	case *ast.Identifier, *ast.IntegerLiteral, *ast.FloatLiteral:
+	default:
+		return b, p.error("expected numeric upper bound", to.Start(), to.Start())
+	}
+
 	p.tasks = append(p.tasks, func() errors.Diagnostic {
-		valLeft := p.environment.Get(left.Name)
-		to := b.To
-		switch val := to.(type) {
-		case *ast.Identifier:
-			valRight := p.environment.Get(val.Name)
-			if !(reflect.TypeOf(valLeft) == reflect.TypeOf(valRight)) {
-				return p.error(
-					fmt.Sprintf("operator %s expected same type min, max values. The values of %s and %s resolve to %+v and %+v", b.Token, left.Name, val.Name, valLeft, valRight),
-					left.Pos, val.Pos)
+		valLeft := p.resolve(left)
+		valRight := p.resolve(b.To)
+		if valLeft == nil || valRight == nil { // undefined, which is reported where the name is used
+			return nil
+		}
+		switch valLeft.(type) {
+		case *ast.IntegerLiteral, *ast.FloatLiteral:
+			if reflect.TypeOf(valLeft) == reflect.TypeOf(valRight) {
+				return nil
 			}
 		}
-		return nil
+		return p.error(
+			fmt.Sprintf("operator %s expected same type numeric min, max values. The values of %s and the upper bound resolve to %T and %T", b.Token, left.Name, valLeft, valRight),
+			left.Pos, b.To.Start())
 	})
 	return b, nil
 }
@@ -871,16 +893,14 @@ func (p *Parser) parseIntBound(left *ast.IntegerLiteral) (*ast.Range, errors.Dia
 		return b, p.error("cannot use float literal as upper bound to int range", right.Start(), right.End())
 	case *ast.Identifier:
 		b.To = right
-		ident := right.Name
 		identStart := right.Start()
 		identEnd := right.End()
 
 		p.tasks = append(p.tasks, func() errors.Diagnostic {
-			if !p.environment.Exists(right.Name) {
-				return p.error(fmt.Sprintf("identifier %s referenced does not exist", ident), identStart, identEnd)
-			}
-			val := p.environment.Get(ident)
+			val := p.resolve(right)
 			switch val.(type) {
+			case nil:
+				// undefined, which is reported where the name is used
 			case *ast.IntegerLiteral:
 				// pass
 			case *ast.FloatLiteral:
@@ -890,6 +910,8 @@ func (p *Parser) parseIntBound(left *ast.IntegerLiteral) (*ast.Range, errors.Dia
 			}
 			return nil
 		})
+	default:
+		return b, p.error("expected integer upper bound", to.Start(), to.Start())
 	}
 
 	return b, nil
@@ -916,16 +938,14 @@ func (p *Parser) parseFloatBound(left *ast.FloatLiteral) (*ast.Range, errors.Dia
 		return b, p.error("cannot use integer literal as upper bound to float range", right.Start(), right.End())
 	case *ast.Identifier:
 		b.To = right
-		ident := right.Name
 		identStart := right.Start()
 		identEnd := right.End()
 
 		p.tasks = append(p.tasks, func() errors.Diagnostic {
-			if !p.environment.Exists(right.Name) {
-				return p.error(fmt.Sprintf("identifier %s referenced does not exist", ident), identStart, identEnd)
-			}
-			val := p.environment.Get(ident)
+			val := p.resolve(right)
 			switch val.(type) {
+			case nil:
+				// undefined, which is reported where the name is used
 			case *ast.FloatLiteral:
 				// pass
 			case *ast.IntegerLiteral:
@@ -935,6 +955,8 @@ func (p *Parser) parseFloatBound(left *ast.FloatLiteral) (*ast.Range, errors.Dia
 			}
 			return nil
 		})
+	default:
+		return b, p.error("expected float upper bound", to.Start(), to.Start())
 	}
 
 	return b, nil
-- 
2.43.0


From f3073eb403fcb79157f6cf7ff0087690857e942a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 16/56] fix: astutils: walk every kind of node the parser
 produces

---
 ast/astutils/walk.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/ast/astutils/walk.go b/ast/astutils/walk.go
index 1768294..9512ca7 100644
--- a/ast/astutils/walk.go
+++ b/ast/astutils/walk.go
@@ -22,9 +22,25 @@ func Walk(v Visitor, node ast.Node) {
 			Walk(v, rule)
 		}
 
+	case *ast.BadNode:
+		if n.Base != nil {
+			Walk(v, n.Base)
+		}
+
+	case *ast.Bits:
+		if n.Base != nil {
+			Walk(v, n.Base)
+		}
+		if n.Contstraint != nil {
+			Walk(v, n.Contstraint)
+		}
+
 	case *ast.BooleanType:
 		// pass
 
+	case *ast.BooleanLiteral:
+		// pass
+
 	case *ast.BytesType:
 		// pass
 
@@ -39,6 +55,11 @@ func Walk(v Visitor, node ast.Node) {
 	case *ast.Comment:
 		// pass
 
+	case *ast.CommentGroup:
+		for _, comment := range n.List {
+			Walk(v, comment)
+		}
+
 	case *ast.ComparatorOpControl:
 		if n.Left != nil {
 			Walk(v, n.Left)
@@ -63,6 +84,11 @@ func Walk(v Visitor, node ast.Node) {
 			Walk(v, n.Size)
 		}
 
+	case *ast.Enumeration:
+		if n.Value != nil {
+			Walk(v, n.Value)
+		}
+
 	case *ast.Entry:
 		if n.Name != nil {
 			Walk(v, n.Name)
@@ -173,6 +199,9 @@ func Walk(v Visitor, node ast.Node) {
 			Walk(v, n.Second)
 		}
 
+	case *ast.UintType:
+		// pass
+
 	case *ast.UintLiteral:
 		// pass
 
-- 
2.43.0


From a301de177bab2757233eeb14a7bb44d4bbcf6c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 17/56] fix: parser: an integer key starts at its digits, not
 at the colon

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index a466e01..46d3676 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -342,7 +342,7 @@ func (p *Parser) parseColon(left ast.Node) (ast.Node, errors.Diagnostic) {
 		ident = val
 	case *ast.IntegerLiteral:
 		ident = &ast.Identifier{
-			Pos:  p.pos,
+			Pos:  val.Pos,
 			Name: fmt.Sprintf("%d", val.Literal),
 		}
 	default:
-- 
2.43.0


From d2a1349ff3e484144131474a8d0d19ff7712fde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 18/56] fix: parser: the item of an n*m occurrence is what
 follows m, not m itself

---
 parser/parser.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 46d3676..0cff9a3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -818,10 +818,8 @@ func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 		if val, ok := rightN.(*ast.UintLiteral); ok {
 			right = val
 		}
-	} else {
-		// assume no upper limit. Advance
-		p.next()
 	}
+	p.next() // to the item
 
 	occ.N = leftU
 	occ.M = right
-- 
2.43.0


From dfa7dd6033665088ec7cf248571b3c4368a62418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 19/56] fix: parser: operands are grouped by their operator's
 precedence, not by that of their own first token

---
 parser/parser.go | 38 +++++++++++++++++++-------------------
 token/token.go   |  2 +-
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0cff9a3..fe5620b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -148,7 +148,7 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 	switch tok {
 	case token.ASSIGN:
 		p.next()
-		entry, err = p.parseEntry(p.currToken.Precedence())
+		entry, err = p.parseEntry(token.LOWEST)
 		if err != nil {
 			return rule, err
 		}
@@ -355,7 +355,7 @@ func (p *Parser) parseColon(left ast.Node) (ast.Node, errors.Diagnostic) {
 	}
 	p.next()
 
-	val, err := p.parseEntry(p.currToken.Precedence())
+	val, err := p.parseEntry(token.GROUP_CHOICE.Precedence())
 	if err != nil {
 		return val, err
 	}
@@ -379,7 +379,7 @@ func (p *Parser) parseTypeChoice(left ast.Node) (ast.Node, errors.Diagnostic) {
 		First: left,
 	}
 	p.next()
-	sec, err := p.parseEntry(p.currToken.Precedence()) // TODO: Check is type
+	sec, err := p.parseEntry(tc.Token.Precedence() - 1) // TODO: Check is type
 	if err != nil {
 		return sec, err
 	}
@@ -394,7 +394,7 @@ func (p *Parser) parseGroupChoice(left ast.Node) (ast.Node, errors.Diagnostic) {
 		First: left,
 	}
 	p.next()
-	sec, err := p.parseEntry(p.currToken.Precedence()) // TODO: Check is group
+	sec, err := p.parseEntry(gc.Token.Precedence() - 1) // TODO: Check is group
 	if err != nil {
 		return sec, err
 	}
@@ -410,7 +410,7 @@ func (p *Parser) parseUnwrap() (ast.Node, errors.Diagnostic) {
 	}
 
 	p.next()
-	item, err := p.parseEntry(p.currToken.Precedence())
+	item, err := p.parseEntry(un.Token.Precedence())
 	if err != nil {
 		return item, err
 	}
@@ -445,7 +445,7 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 	if p.peekToken == token.LPAREN {
 		p.next()
 		p.next()
-		item, err := p.parseEntry(p.currToken.Precedence())
+		item, err := p.parseEntry(token.COMMA.Precedence())
 		tagBase.Item = item
 		if err != nil {
 			return tagBase, err
@@ -465,7 +465,7 @@ func (p *Parser) parseEnumeration() (ast.Node, errors.Diagnostic) {
 
 	p.next()
 
-	value, err := p.parseEntry(p.currToken.Precedence())
+	value, err := p.parseEntry(enum.Token.Precedence())
 	if err != nil {
 		bn := &ast.BadNode{
 			Base: value,
@@ -509,7 +509,7 @@ func (p *Parser) parseOptional() (ast.Node, errors.Diagnostic) {
 	}
 	p.next()
 
-	item, err := p.parseEntry(p.currToken.Precedence())
+	item, err := p.parseEntry(tc.Token.Precedence())
 	if err != nil {
 		return item, err
 	}
@@ -555,7 +555,7 @@ func (p *Parser) parseSizeOperator(left ast.Node) (ast.Node, errors.Diagnostic)
 	}
 	p.next()
 
-	right, err := p.parseEntry(p.currToken.Precedence())
+	right, err := p.parseEntry(sop.Token.Precedence())
 	if err != nil {
 		return sop, err
 	}
@@ -582,7 +582,7 @@ func (p *Parser) parseRegexp(left ast.Node) (ast.Node, errors.Diagnostic) {
 		return r, p.errorTokenExpected(p.pos, token.TEXT_LITERAL)
 	}
 	p.next()
-	regex, err := p.parseEntry(p.currToken.Precedence())
+	regex, err := p.parseEntry(r.Token.Precedence())
 	if err != nil {
 		return r, err
 	}
@@ -598,7 +598,7 @@ func (p *Parser) parseBits(left ast.Node) (ast.Node, errors.Diagnostic) {
 	}
 
 	p.next()
-	constraint, err := p.parseEntry(p.currToken.Precedence())
+	constraint, err := p.parseEntry(b.Token.Precedence())
 	if err != nil {
 		return b, err
 	}
@@ -631,7 +631,7 @@ func (p *Parser) parseGroup() (ast.Node, errors.Diagnostic) {
 	p.next()
 
 	for p.currToken != token.RPAREN {
-		rawEntry, err := p.parseEntry(p.currToken.Precedence())
+		rawEntry, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return g, err
 		}
@@ -659,7 +659,7 @@ func (p *Parser) parseMap() (ast.Node, errors.Diagnostic) {
 	p.next()
 
 	for p.currToken != token.RBRACE {
-		rule, err := p.parseEntry(p.currToken.Precedence())
+		rule, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return g, err
 		}
@@ -677,7 +677,7 @@ func (p *Parser) parseArray() (ast.Node, errors.Diagnostic) {
 	p.next()
 
 	for p.currToken != token.RBRACK {
-		rawEntry, err := p.parseEntry(p.currToken.Precedence())
+		rawEntry, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return arr, err
 		}
@@ -748,7 +748,7 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 	}
 	p.next()
 
-	right, err := p.parseEntry(p.currToken.Precedence())
+	right, err := p.parseEntry(op.Token.Precedence())
 	if err != nil {
 		return &ast.BadNode{Base: left, Token: p.currToken}, err
 	}
@@ -823,7 +823,7 @@ func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 
 	occ.N = leftU
 	occ.M = right
-	item, err := p.parseEntry(p.currToken.Precedence())
+	item, err := p.parseEntry(token.ZERO_OR_MORE.Precedence())
 	if err != nil {
 		return &ast.BadNode{Base: occ, Token: p.currToken}, err
 	}
@@ -839,7 +839,7 @@ func (p *Parser) parseIdentBound(left *ast.Identifier) (*ast.Range, errors.Diagn
 	}
 
 	p.next()
-	to, err := p.parseEntry(p.currToken.Precedence())
+	to, err := p.parseEntry(b.Token.Precedence())
 	if err != nil {
 		return b, err
 	}
@@ -878,7 +878,7 @@ func (p *Parser) parseIntBound(left *ast.IntegerLiteral) (*ast.Range, errors.Dia
 	}
 
 	p.next()
-	to, err := p.parseEntry(p.currToken.Precedence())
+	to, err := p.parseEntry(b.Token.Precedence())
 	if err != nil {
 		return b, err
 	}
@@ -923,7 +923,7 @@ func (p *Parser) parseFloatBound(left *ast.FloatLiteral) (*ast.Range, errors.Dia
 	}
 
 	p.next()
-	to, err := p.parseEntry(p.currToken.Precedence())
+	to, err := p.parseEntry(b.Token.Precedence())
 	if err != nil {
 		return b, err
 	}
diff --git a/token/token.go b/token/token.go
index d3c94f0..89ad92a 100644
--- a/token/token.go
+++ b/token/token.go
@@ -261,7 +261,7 @@ func Lookup(str string) Token {
 // Precedence returns the token's precedence used to built the ast in parsing
 func (t Token) Precedence() int {
 	switch t {
-	case EQ, TYPE_CHOICE_ASSIGN, GROUP_CHOICE_ASSIGN:
+	case ASSIGN, TYPE_CHOICE_ASSIGN, GROUP_CHOICE_ASSIGN:
 		return 1
 	case GROUP_CHOICE:
 		return 2
-- 
2.43.0


From c862c840de01876e490341f647f86829b2e9c95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 20/56] fix: ast: arrays and groups keep entries that are plain
 types instead of dropping them

---
 ast/group.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/ast/group.go b/ast/group.go
index 54d6d41..49bc5cf 100644
--- a/ast/group.go
+++ b/ast/group.go
@@ -24,3 +24,28 @@ func (g *Group) End() token.Position {
 }
 
 func (g *Group) groupEntry() {}
+
+// Any type may stand for an entry on its own i.e. [int, tstr]
+func (*Array) groupEntry()               {}
+func (*Bits) groupEntry()                {}
+func (*BooleanLiteral) groupEntry()      {}
+func (*BooleanType) groupEntry()         {}
+func (*BstrType) groupEntry()            {}
+func (*BytesType) groupEntry()           {}
+func (*ComparatorOpControl) groupEntry() {}
+func (*FloatLiteral) groupEntry()        {}
+func (*FloatType) groupEntry()           {}
+func (*IntegerLiteral) groupEntry()      {}
+func (*IntegerType) groupEntry()         {}
+func (*Map) groupEntry()                 {}
+func (*NegativeIntegerType) groupEntry() {}
+func (*NullType) groupEntry()            {}
+func (*Regexp) groupEntry()              {}
+func (*SizeOperatorControl) groupEntry() {}
+func (*Tag) groupEntry()                 {}
+func (*TextLiteral) groupEntry()         {}
+func (*TstrType) groupEntry()            {}
+func (*TypeChoice) groupEntry()          {}
+func (*UintLiteral) groupEntry()         {}
+func (*UintType) groupEntry()            {}
+func (*Unwrap) groupEntry()              {}
-- 
2.43.0


From 5840f9754f1d2ac21c62be130a89c2f5c0980686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 21/56] fix: parser: accept comments before any entry and
 before a closing delimiter

---
 parser/parser.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index fe5620b..2a00390 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -208,7 +208,7 @@ func (p *Parser) parseEntry(precedence int) (ast.Node, errors.Diagnostic) {
 		return exp, err
 	}
 
-	for p.currToken != token.COMMA && precedence < p.peekToken.Precedence() {
+	for p.currToken != token.COMMA && p.currToken != token.COMMENT && precedence < p.peekToken.Precedence() {
 		ledFn := p.leds[p.peekToken]
 		if ledFn == nil {
 			return exp, nil
@@ -450,6 +450,9 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 		if err != nil {
 			return tagBase, err
 		}
+		for p.peekToken == token.COMMENT {
+			p.next()
+		}
 		if err := p.expectPeek(token.RPAREN); err != nil {
 			return tagBase, err
 		}
@@ -630,7 +633,7 @@ func (p *Parser) parseGroup() (ast.Node, errors.Diagnostic) {
 	g.Pos = p.pos
 	p.next()
 
-	for p.currToken != token.RPAREN {
+	for p.skipComments(); p.currToken != token.RPAREN; p.skipComments() {
 		rawEntry, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return g, err
@@ -649,6 +652,13 @@ func (p *Parser) parseGroup() (ast.Node, errors.Diagnostic) {
 	return g, nil
 }
 
+// skipComments advances over comments between the entries of a collection
+func (p *Parser) skipComments() {
+	for p.currToken == token.COMMENT {
+		p.next()
+	}
+}
+
 func isSameLineTokens(tok1, tok2 token.Position) bool {
 	return tok1.Line == tok2.Line
 }
@@ -658,7 +668,7 @@ func (p *Parser) parseMap() (ast.Node, errors.Diagnostic) {
 	g.Pos = p.pos
 	p.next()
 
-	for p.currToken != token.RBRACE {
+	for p.skipComments(); p.currToken != token.RBRACE; p.skipComments() {
 		rule, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return g, err
@@ -676,7 +686,7 @@ func (p *Parser) parseArray() (ast.Node, errors.Diagnostic) {
 	arr.Pos = p.pos
 	p.next()
 
-	for p.currToken != token.RBRACK {
+	for p.skipComments(); p.currToken != token.RBRACK; p.skipComments() {
 		rawEntry, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return arr, err
-- 
2.43.0


From 7e51f1cb569ca4705c22d09aaa17a5c1a2a9cc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:56 +0000
Subject: [PATCH 22/56] fix: parser: a name defined only by /= or //= is not
 undefined

---
 environment/environment.go | 16 +++++++++++++++-
 parser/parser.go           |  3 ++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/environment/environment.go b/environment/environment.go
index 77a0163..58a52fe 100644
--- a/environment/environment.go
+++ b/environment/environment.go
@@ -14,6 +14,19 @@ var (
 
 type Environment struct {
 	symbols map[string]ast.Node
+
+	// names that are only extended, by /= or //=, so far
+	extended map[string]bool
+}
+
+// Extend records that the choices of a name are extended. This neither adds nor redefines the symbol.
+func (e *Environment) Extend(ident string) {
+	e.extended[ident] = true
+}
+
+// Declared checks whether the symbol exists or was at least extended
+func (e *Environment) Declared(ident string) bool {
+	return e.extended[ident] || e.Exists(ident)
 }
 
 // Add a new symbol to the symbol table with a pointer to its Node
@@ -41,6 +54,7 @@ func (e *Environment) Get(ident string) ast.Node {
 // NewEnvironment returns a new Environment
 func NewEnvironment() *Environment {
 	return &Environment{
-		symbols: make(map[string]ast.Node),
+		symbols:  make(map[string]ast.Node),
+		extended: make(map[string]bool),
 	}
 }
diff --git a/parser/parser.go b/parser/parser.go
index 2a00390..3be1e39 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -169,6 +169,7 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 		if err != nil {
 			return rule, err
 		}
+		p.environment.Extend(rule.Name.Name)
 	default:
 		return nil, p.error(fmt.Sprintf("expected assigment operators =, /= or //= after identifer `%s`", rule.Name.Name), rule.Name.Pos, rule.Name.Pos)
 	}
@@ -233,7 +234,7 @@ func (p *Parser) parseNamedIdentifier() (ast.Node, errors.Diagnostic) {
 	pos := p.pos
 	if literal[0] != '$' {
 		p.tasks = append(p.tasks, func() errors.Diagnostic {
-			if !p.environment.Exists(literal) {
+			if !p.environment.Declared(literal) {
 				return p.error(fmt.Sprintf("identifier %s referenced does not exist", literal), pos, pos)
 			}
 			return nil
-- 
2.43.0


From 848206feb1e081e6f5da41aadf3ebe64f1b686ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 23/56] fix: parser: limit the nesting depth instead of
 overflowing the stack

---
 parser/parser.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 3be1e39..69bbf8b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -15,6 +15,9 @@ import (
 	env "github.com/HannesKimara/cddlc/environment"
 )
 
+// maxDepth limits the nesting of entries, and with it the use of the stack
+const maxDepth = 10000
+
 type taskFn func() errors.Diagnostic
 
 type nudParseFn func() (ast.Node, errors.Diagnostic)
@@ -69,6 +72,9 @@ type Parser struct {
 	// the error handling function
 	errorHandler func(err errors.Diagnostic)
 
+	// how deep the entry being parsed is nested
+	depth int
+
 	// hold tasks to be run after the completed ast build.
 	// used mostly to check types in type specific operators that may not exist in the environment at first pass
 	tasks []taskFn
@@ -186,6 +192,12 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 // TODO(HannesKimara): func(p *Parser) parseEntryShould(precedence, should ast.Node) (ast.Node, error)
 
 func (p *Parser) parseEntry(precedence int) (ast.Node, errors.Diagnostic) {
+	p.depth++
+	defer func() { p.depth-- }()
+	if p.depth > maxDepth {
+		return nil, p.error("nested too deeply", p.pos, p.pos)
+	}
+
 	// TODO(HannesKimara): in error handling return an ast.BadNode that encapsulates the section when returning the error
 	var exp ast.Node
 	if p.currToken == token.COMMENT { // TODO(HannesKimara): use this :- commentgroup, preceding and trailing comments
-- 
2.43.0


From 1cf1b0300fa6ffe8a3c6371c041c9d8b24031a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 24/56] fix: codegen: name the receiver self, rule names need
 not be Go identifiers

---
 transforms/codegen/golang/gen_grouped.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 7357b25..7d91b0e 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -6,7 +6,6 @@ import (
 	gast "go/ast"
 	"go/token"
 	"log"
-	"strings"
 
 	"github.com/HannesKimara/cddlc/ast"
 )
@@ -74,7 +73,7 @@ func (g *Generator) Visit(node ast.Node) *Generator {
 }
 
 func (g *Generator) bundleValidators(validators []gast.CallExpr, rule *ast.Rule) *gast.FuncDecl {
-	selfIdent := gast.NewIdent(strings.ToLower(rule.Name.Name))
+	selfIdent := gast.NewIdent("self")
 
 	funcDecl := &gast.FuncDecl{
 		Doc: &gast.CommentGroup{
-- 
2.43.0


From 805ea4e64b79f4dd1401f5b129b52a6bcc08cfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 25/56] fix: codegen: quote text literals and keep whole floats
 floats

---
 transforms/codegen/golang/gen_literals.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/transforms/codegen/golang/gen_literals.go b/transforms/codegen/golang/gen_literals.go
index 1cd01b4..1358348 100644
--- a/transforms/codegen/golang/gen_literals.go
+++ b/transforms/codegen/golang/gen_literals.go
@@ -4,6 +4,7 @@ import (
 	gast "go/ast"
 	"go/token"
 	"strconv"
+	"strings"
 
 	"github.com/HannesKimara/cddlc/ast"
 )
@@ -11,14 +12,18 @@ import (
 func (g *Generator) transpileTextLiteral(tl *ast.TextLiteral) *gast.BasicLit {
 	return &gast.BasicLit{
 		Kind:  token.STRING,
-		Value: tl.Literal,
+		Value: strconv.Quote(tl.Literal),
 	}
 }
 
 func (g *Generator) transpileFloatLiteral(fl *ast.FloatLiteral) *gast.BasicLit {
+	value := strconv.FormatFloat(fl.Literal, 'f', -1, 64)
+	if !strings.Contains(value, ".") { // would be an integer in Go
+		value += ".0"
+	}
 	return &gast.BasicLit{
 		Kind:  token.FLOAT,
-		Value: strconv.FormatFloat(fl.Literal, 'f', -1, 64),
+		Value: value,
 	}
 }
 
-- 
2.43.0


From ef10305a76dc18f3bc490958713bc1b28e891d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 26/56] fix: codegen: null is not generated as the type nil,
 which does not exist

---
 transforms/codegen/golang/gen_base_types.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/transforms/codegen/golang/gen_base_types.go b/transforms/codegen/golang/gen_base_types.go
index b64f11f..19fa2c7 100644
--- a/transforms/codegen/golang/gen_base_types.go
+++ b/transforms/codegen/golang/gen_base_types.go
@@ -20,9 +20,10 @@ func (g *Generator) transpileBytesType(bt *ast.BytesType) *gast.ArrayType {
 	}
 }
 
-func (g *Generator) transpileNullType(nt *ast.NullType) *gast.Ident {
-	return &gast.Ident{
-		Name: "nil",
+// nil is not a type in Go, a type with a single value comes closest
+func (g *Generator) transpileNullType(nt *ast.NullType) *gast.StructType {
+	return &gast.StructType{
+		Fields: &gast.FieldList{},
 	}
 }
 
-- 
2.43.0


From 86c778fd01d1d86ace3512388937d6847c2cbb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 27/56] fix: codegen: generate the primitives bstr, nint and
 float instead of panicking

---
 transforms/codegen/golang/gen_base_types.go | 27 +++++++++++++++++++++
 transforms/codegen/golang/gen_grouped.go    |  6 +++++
 2 files changed, 33 insertions(+)

diff --git a/transforms/codegen/golang/gen_base_types.go b/transforms/codegen/golang/gen_base_types.go
index 19fa2c7..01cd3bc 100644
--- a/transforms/codegen/golang/gen_base_types.go
+++ b/transforms/codegen/golang/gen_base_types.go
@@ -4,6 +4,7 @@ import (
 	gast "go/ast"
 
 	"github.com/HannesKimara/cddlc/ast"
+	"github.com/HannesKimara/cddlc/token"
 )
 
 func (g *Generator) transpileTstrType(tstr *ast.TstrType) *gast.Ident {
@@ -44,3 +45,29 @@ func (g *Generator) transpileBoolType(bt *ast.BooleanType) *gast.Ident {
 		Name: "bool",
 	}
 }
+
+func (g *Generator) transpileBstrType(bt *ast.BstrType) *gast.ArrayType {
+	return &gast.ArrayType{
+		Elt: &gast.Ident{
+			Name: "byte",
+		},
+	}
+}
+
+func (g *Generator) transpileNegativeIntegerType(nt *ast.NegativeIntegerType) *gast.Ident {
+	return &gast.Ident{
+		Name: "int",
+	}
+}
+
+func (g *Generator) transpileFloatType(ft *ast.FloatType) *gast.Ident {
+	switch ft.Token {
+	case token.FLOAT16, token.FLOAT32: // Go has no float16
+		return &gast.Ident{
+			Name: "float32",
+		}
+	}
+	return &gast.Ident{
+		Name: "float64",
+	}
+}
diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 7d91b0e..23f2637 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -242,6 +242,12 @@ func (g *Generator) transpileNode(node ast.Node) (*structure, error) {
 		return newStructure(g.transpileTstrType(val)), nil
 	case *ast.BytesType:
 		return newStructure(g.transpileBytesType(val)), nil
+	case *ast.BstrType:
+		return newStructure(g.transpileBstrType(val)), nil
+	case *ast.FloatType:
+		return newStructure(g.transpileFloatType(val)), nil
+	case *ast.NegativeIntegerType:
+		return newStructure(g.transpileNegativeIntegerType(val)), nil
 	case *ast.Comment:
 		return newStructure(g.transpileComment(val)), nil
 	case *ast.NullType:
-- 
2.43.0


From a792c470cef68ab9d8100a040eca1df5192e995e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 28/56] fix: codegen: no Valid method on the variable of a
 literal rule

---
 transforms/codegen/golang/gen_grouped.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 23f2637..b37cff7 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -61,6 +61,9 @@ func (g *Generator) Visit(node ast.Node) *Generator {
 
 		log.Println("Len("+val.Name.Name+"): ", len(stct.validators))
 
+		if declToken == token.VAR { // has no methods
+			break
+		}
 		valDecl := g.bundleValidators(stct.validators, val)
 		g.file.Decls = append(g.file.Decls, valDecl)
 	case *ast.CDDL:
-- 
2.43.0


From bcc9537e2bf096ea5a8ce9784d8a0602f8465d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 29/56] fix: codegen: generate optional embedded members
 instead of failing

---
 transforms/codegen/golang/gen_grouped.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index b37cff7..217d18a 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -148,12 +148,15 @@ func (g *Generator) transpileGroupLike(entries []ast.GroupEntry) (*structure, er
 			if err != nil {
 				return nil, err
 			}
-			if cast, ok := stct.node.(*gast.Field); ok {
-				cast.Tag = &gast.BasicLit{Kind: token.STRING, Value: "`cbor:\",omitempty\"`"}
+			switch cast := stct.node.(type) {
+			case *gast.Field:
 				field = cast
-			} else {
-				return nil, err
+			case *gast.Ident: // embedded
+				field = &gast.Field{Type: cast}
+			default:
+				return nil, fmt.Errorf("unexpected optional member %T", val.Item)
 			}
+			field.Tag = &gast.BasicLit{Kind: token.STRING, Value: "`cbor:\",omitempty\"`"}
 		case *ast.Identifier:
 			field = &gast.Field{
 				Type: g.transpileIdentifier(val),
-- 
2.43.0


From 6996c3e2aad1739de77ff49665ac9e6aa335ab9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 30/56] fix: codegen: a member with a literal value has the
 type of the literal

---
 transforms/codegen/golang/gen_grouped.go  |  3 +++
 transforms/codegen/golang/gen_literals.go | 15 +++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 217d18a..b4f6543 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -220,6 +220,9 @@ func (g *Generator) transpileEntry(entry *ast.Entry) (*structure, error) {
 		Names: []*gast.Ident{ident},
 		Type:  stct.node.(gast.Expr),
 	}
+	if literalType := g.typeOfLiteral(entry.Value); literalType != nil {
+		field.Type = literalType
+	}
 
 	stctRet := newStructure(field)
 
diff --git a/transforms/codegen/golang/gen_literals.go b/transforms/codegen/golang/gen_literals.go
index 1358348..2c0c81a 100644
--- a/transforms/codegen/golang/gen_literals.go
+++ b/transforms/codegen/golang/gen_literals.go
@@ -45,3 +45,18 @@ func (g *Generator) transpileBoolLiteral(bl *ast.BooleanLiteral) *gast.Ident {
 		Name: strconv.FormatBool(bl.Bool),
 	}
 }
+
+// typeOfLiteral returns the type that holds a literal value, nil if the node is no literal
+func (g *Generator) typeOfLiteral(node ast.Node) gast.Expr {
+	switch node.(type) {
+	case *ast.TextLiteral:
+		return gast.NewIdent("string")
+	case *ast.FloatLiteral:
+		return gast.NewIdent("float64")
+	case *ast.IntegerLiteral:
+		return gast.NewIdent("int")
+	case *ast.BooleanLiteral:
+		return gast.NewIdent("bool")
+	}
+	return nil
+}
-- 
2.43.0


From a964c87e870b5f1b29357ba9316875ba2198ed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 31/56] fix: codegen: no trailing blank in the comment of
 Valid, which gofmt removes

---
 transforms/codegen/golang/gen_grouped.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index b4f6543..4afa895 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -82,7 +82,7 @@ func (g *Generator) bundleValidators(validators []gast.CallExpr, rule *ast.Rule)
 		Doc: &gast.CommentGroup{
 			List: []*gast.Comment{
 				{
-					Text: "\n// Valid evaluates type constraints on " + rule.Name.Name + " and returns nil if valid \n// else it returns a list of validation errors",
+					Text: "\n// Valid evaluates type constraints on " + rule.Name.Name + " and returns nil if valid\n// else it returns a list of validation errors",
 				},
 			},
 		},
-- 
2.43.0


From 504622a3d264448de465ee800dfcf29f9385a497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 32/56] fix: config: the default build names a package, without
 one the generated code has none

---
 config/config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/config/config.go b/config/config.go
index 3c40856..1782a42 100644
--- a/config/config.go
+++ b/config/config.go
@@ -87,6 +87,7 @@ func NewDefaultConfig() *Config {
 
 func newDefaultBuildConfig() *BuildConfig {
 	return &BuildConfig{
+		Package:   "dist",
 		SourceDir: ".",
 		OutDir:    "dist/",
 	}
-- 
2.43.0


From 0799b1a37e5b135ed1d0a9e314bedf916096b6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 33/56] fix: generate: look for the configuration by name,
 other files may be called cddlc.* too

---
 cmd/cddlc/commands/generate.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index 90c0eb9..d7632c7 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -97,16 +97,16 @@ func GenerateCmd(cCtx *cli.Context) error {
 }
 
 func loadConfigFromDir(dir string) (*config.Config, error) {
-	files, err := filepath.Glob(filepath.Join(dir, "cddlc.*"))
-	if err != nil {
-		return nil, err
-	}
-
-	if len(files) == 0 {
-		return nil, errNoConfiguration
+	for _, name := range []string{"cddlc.json", "cddlc.yaml"} {
+		path := filepath.Join(dir, name)
+		if _, err := os.Stat(path); err == nil {
+			return config.LoadConfig(path)
+		} else if !errors.Is(err, os.ErrNotExist) {
+			return nil, err
+		}
 	}
 
-	return config.LoadConfig(files[0])
+	return nil, errNoConfiguration
 }
 
 func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
-- 
2.43.0


From 9a72a5f8697383f503c7e22bae706c956ddaca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 34/56] fix: generate: keep the previous output and report an
 error when a schema cannot be generated

---
 cmd/cddlc/commands/generate.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index d7632c7..4e6849f 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -10,6 +10,7 @@ import (
 	"path/filepath"
 	"strings"
 
+	"github.com/HannesKimara/cddlc/ast"
 	"github.com/HannesKimara/cddlc/config"
 	"github.com/HannesKimara/cddlc/lexer"
 	"github.com/HannesKimara/cddlc/parser"
@@ -116,13 +117,6 @@ func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
 		return err
 	}
 
-	// check if output file can be opened/created before generating. Fail otherwise
-	out, err := os.OpenFile(outPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
-	if err != nil {
-		return err
-	}
-	defer out.Close()
-
 	lex := lexer.NewLexer(src)
 	p := parser.NewParser(lex)
 	cddl, errs := p.ParseFile()
@@ -136,13 +130,30 @@ func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
 		return errors.New("parser failed with errors above")
 	}
 
-	gen.Visit(cddl)
+	if err := visit(gen, cddl); err != nil {
+		return fmt.Errorf("failed to generate code for `%s`: %w", filepath, err)
+	}
 
+	// only touch the output file once all of its content is known
+	out := &bytes.Buffer{}
 	err = addBuildHeader(out)
 	if err != nil {
 		return err
 	}
-	gen.String(out)
+	if err := gen.String(out); err != nil {
+		return fmt.Errorf("failed to generate code for `%s`: %w", filepath, err)
+	}
+	return os.WriteFile(outPath, out.Bytes(), 0666)
+}
+
+// visit turns the panic of the generator on a construct it does not support into an error
+func visit(gen *gogen.Generator, cddl *ast.CDDL) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%v", r)
+		}
+	}()
+	gen.Visit(cddl)
 	return nil
 }
 
-- 
2.43.0


From b5e5da7fd0c7387d8c2107218e7e28cf10040f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 35/56] fix: config: garbage after the JSON value is an error

---
 config/config.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/config/config.go b/config/config.go
index 1782a42..fd9f211 100644
--- a/config/config.go
+++ b/config/config.go
@@ -3,6 +3,7 @@
 package config
 
 import (
+	"bytes"
 	"encoding/json"
 	"errors"
 	"os"
@@ -95,16 +96,16 @@ func newDefaultBuildConfig() *BuildConfig {
 
 func LoadConfig(path string) (*Config, error) {
 	base := filepath.Base(path)
-	fh, err := os.Open(path)
+	src, err := os.ReadFile(path)
 	if err != nil {
 		return nil, err
 	}
 	config := &Config{}
 	switch base {
 	case cDDLC_JSON:
-		err = json.NewDecoder(fh).Decode(config)
+		err = json.Unmarshal(src, config)
 	case cDDLC_YAML:
-		err = yaml.NewDecoder(fh).Decode(config)
+		err = yaml.NewDecoder(bytes.NewReader(src)).Decode(config)
 	default:
 		err = errors.New("unknown config file base: " + base)
 	}
-- 
2.43.0


From a062cc4fd17f3a05ebc9cf34180f30bdfeee2cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 36/56] fix: repl: a long line does not end the session

---
 cmd/cddlc/commands/repl.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/cddlc/commands/repl.go b/cmd/cddlc/commands/repl.go
index e8e4644..b590d9e 100644
--- a/cmd/cddlc/commands/repl.go
+++ b/cmd/cddlc/commands/repl.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"errors"
 	"fmt"
+	"math"
 	"os"
 	"strings"
 
@@ -21,6 +22,7 @@ const PROMPT string = ">>>"
 
 func Repl(cCtx *cli.Context) error {
 	scanner := bufio.NewScanner(os.Stdin)
+	scanner.Buffer(nil, math.MaxInt) // lines may be of any length
 	parseVerbose := false
 
 	fmt.Println("Welcome to the cddlc quick repl.")
-- 
2.43.0


From 41694b1afe4d9fc7dba05982e37e90dde4a2695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 37/56] fix: validators: CheckSize measures the content of
 strings and slices, also behind pointers

---
 runtime/validators/validators.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/runtime/validators/validators.go b/runtime/validators/validators.go
index b59223b..9d2d241 100644
--- a/runtime/validators/validators.go
+++ b/runtime/validators/validators.go
@@ -44,7 +44,22 @@ func RegexpMatches(regex *regexp.Regexp, input string) bool {
 
 // CheckSize returns whether the size of the value in bytes is less than the upper bound
 func CheckSize(val interface{}, size uint) bool {
-	return reflect.TypeOf(val).Size() < uintptr(size)
+	v := reflect.ValueOf(val)
+	for v.Kind() == reflect.Pointer {
+		v = v.Elem()
+	}
+	if !v.IsValid() { // nil
+		return false
+	}
+
+	bytes := v.Type().Size()
+	switch v.Kind() {
+	case reflect.String:
+		bytes = uintptr(v.Len())
+	case reflect.Slice:
+		bytes = uintptr(v.Len()) * v.Type().Elem().Size()
+	}
+	return bytes < uintptr(size)
 }
 
 func MustBool(out bool) {
-- 
2.43.0


From 01fd76b2b9d65e9fae590d14de095438269b0ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 38/56] fix: init: an existing cddlc.yaml is not shadowed by a
 new cddlc.json

---
 cmd/cddlc/commands/generate.go |  2 +-
 cmd/cddlc/commands/init.go     | 25 ++++++++++++++-----------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index 4e6849f..0065717 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -98,7 +98,7 @@ func GenerateCmd(cCtx *cli.Context) error {
 }
 
 func loadConfigFromDir(dir string) (*config.Config, error) {
-	for _, name := range []string{"cddlc.json", "cddlc.yaml"} {
+	for _, name := range configFiles {
 		path := filepath.Join(dir, name)
 		if _, err := os.Stat(path); err == nil {
 			return config.LoadConfig(path)
diff --git a/cmd/cddlc/commands/init.go b/cmd/cddlc/commands/init.go
index 6b36cc6..1569e18 100644
--- a/cmd/cddlc/commands/init.go
+++ b/cmd/cddlc/commands/init.go
@@ -13,23 +13,26 @@ import (
 
 const configFile string = "cddlc.json"
 
+// configFiles are the names of a configuration, in the order they are looked for
+var configFiles = []string{configFile, "cddlc.yaml"}
+
 func getFileHandle(name string) (io.Writer, error) {
 	root, err := os.Getwd()
 	if err != nil {
 		return nil, err
 	}
-	fp := filepath.Join(root, configFile)
-
-	_, err = os.Stat(fp)
-	switch {
-	case err == nil:
-		// file exists
-		return nil, errors.New("existing configuration for project found in " + fp)
-	case os.IsNotExist(err):
-		return os.OpenFile(fp, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0666)
-	default:
-		return nil, err
+
+	// a configuration under either of the names generate looks for is kept
+	for _, existing := range configFiles {
+		fp := filepath.Join(root, existing)
+		if _, err := os.Stat(fp); err == nil {
+			return nil, errors.New("existing configuration for project found in " + fp)
+		} else if !os.IsNotExist(err) {
+			return nil, err
+		}
 	}
+
+	return os.OpenFile(filepath.Join(root, name), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0666)
 }
 
 func InitCmd(cCtx *cli.Context) error {
-- 
2.43.0


From 63a925e2b4d923f1f8ccc0f830f0444f0c6fb24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:29 +0000
Subject: [PATCH 39/56] fix: marker under the offending column in lines with
 multi-byte characters

---
 cmd/cddlc/commands.go          | 11 ++++++++++-
 cmd/cddlc/commands/generate.go | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/cmd/cddlc/commands.go b/cmd/cddlc/commands.go
index ec2dc4e..7655498 100644
--- a/cmd/cddlc/commands.go
+++ b/cmd/cddlc/commands.go
@@ -8,6 +8,7 @@ import (
 	"io/ioutil"
 	"os"
 	"runtime"
+	"unicode/utf8"
 
 	"github.com/HannesKimara/cddlc/lexer"
 	"github.com/HannesKimara/cddlc/parser"
@@ -119,9 +120,17 @@ func errorStringer(src []byte, errs parser.ErrorList) []string {
 			line := string(lines[pos.Line-1])
 			lPrefix := fmt.Sprintf("%s%d | ", TAB, pos.Line)
 			outs = append(outs,
-				fmt.Sprintf("%s\n%s%s\n%*s", err, lPrefix, line, pos.Column+len(lPrefix), "˜"),
+				fmt.Sprintf("%s\n%s%s\n%*s", err, lPrefix, line, charColumn(line, pos.Column)+len(lPrefix), "˜"),
 			)
 		}
 	}
 	return outs
 }
+
+// charColumn converts a column counted in bytes into one counted in characters
+func charColumn(line string, column int) int {
+	if column < 1 || column > len(line)+1 {
+		return column
+	}
+	return utf8.RuneCountInString(line[:column-1]) + 1
+}
diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index 0065717..901d3e9 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/HannesKimara/cddlc/ast"
 	"github.com/HannesKimara/cddlc/config"
@@ -179,9 +180,17 @@ func errorStringer(src []byte, errs parser.ErrorList) []string {
 			line := string(lines[pos.Line-1])
 			lPrefix := fmt.Sprintf("%s%d | ", TAB, pos.Line)
 			outs = append(outs,
-				fmt.Sprintf("%s\n%s%s\n%*s", err, lPrefix, line, pos.Column+len(lPrefix), "˜"),
+				fmt.Sprintf("%s\n%s%s\n%*s", err, lPrefix, line, charColumn(line, pos.Column)+len(lPrefix), "˜"),
 			)
 		}
 	}
 	return outs
 }
+
+// charColumn converts a column counted in bytes into one counted in characters
+func charColumn(line string, column int) int {
+	if column < 1 || column > len(line)+1 {
+		return column
+	}
+	return utf8.RuneCountInString(line[:column-1]) + 1
+}
-- 
2.43.0


From d4cb6b9b15c0d352374832352592ac95c438c40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:30 +0000
Subject: [PATCH 40/56] fix: config: a null build or plugin is an error

---
 config/config.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/config/config.go b/config/config.go
index fd9f211..ff55e1d 100644
--- a/config/config.go
+++ b/config/config.go
@@ -6,6 +6,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"errors"
+	"fmt"
 	"os"
 	"path/filepath"
 
@@ -114,5 +115,16 @@ func LoadConfig(path string) (*Config, error) {
 		return nil, err
 	}
 
+	for i, plugin := range config.Plugins {
+		if plugin == nil {
+			return nil, fmt.Errorf("%s: plugins[%d] is empty", base, i)
+		}
+	}
+	for i, build := range config.Builds {
+		if build == nil {
+			return nil, fmt.Errorf("%s: builds[%d] is empty", base, i)
+		}
+	}
+
 	return config, nil
 }
-- 
2.43.0


From 56629e1896223a96854748be9aa0bd5c4961c5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:11 +0000
Subject: [PATCH 41/56] fix: config: garbage after the YAML document is an
 error

---
 config/config.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index ff55e1d..bd87264 100644
--- a/config/config.go
+++ b/config/config.go
@@ -7,6 +7,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 
@@ -106,7 +107,14 @@ func LoadConfig(path string) (*Config, error) {
 	case cDDLC_JSON:
 		err = json.Unmarshal(src, config)
 	case cDDLC_YAML:
-		err = yaml.NewDecoder(bytes.NewReader(src)).Decode(config)
+		dec := yaml.NewDecoder(bytes.NewReader(src))
+		err = dec.Decode(config)
+		if err == nil {
+			// the decoder stops at the end of the first document, what follows may be malformed
+			if e := dec.Decode(&yaml.MapSlice{}); e != nil && e != io.EOF {
+				err = e
+			}
+		}
 	default:
 		err = errors.New("unknown config file base: " + base)
 	}
-- 
2.43.0


From 24630548bb65c735b256fe1d0b1d84f0dac4dad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:20 +0000
Subject: [PATCH 42/56] fix: parser: limit the nesting to what can be exported
 as JSON

---
 parser/parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 69bbf8b..2a1e4fb 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -15,8 +15,9 @@ import (
 	env "github.com/HannesKimara/cddlc/environment"
 )
 
-// maxDepth limits the nesting of entries, and with it the use of the stack
-const maxDepth = 10000
+// maxDepth limits the nesting of entries, and with it the use of the stack and
+// the depth of the JSON export, which encoding/json limits to 10000 levels
+const maxDepth = 1000
 
 type taskFn func() errors.Diagnostic
 
-- 
2.43.0


From f1e3ed98ad0a0edbf08b1fa87e8b965ca5978356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 43/56] fix: ast: End of nil, bstr, sized floats and text
 literals

---
 ast/bytes.go | 2 +-
 ast/float.go | 2 +-
 ast/null.go  | 2 +-
 ast/text.go  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ast/bytes.go b/ast/bytes.go
index 38ac0cc..ab0b7ac 100644
--- a/ast/bytes.go
+++ b/ast/bytes.go
@@ -27,5 +27,5 @@ func (b *BstrType) Start() token.Position {
 }
 
 func (b *BstrType) End() token.Position {
-	return b.Pos.To(5) // length of `bytes`
+	return b.Pos.To(4) // length of `bstr`
 }
diff --git a/ast/float.go b/ast/float.go
index db4952c..127242b 100644
--- a/ast/float.go
+++ b/ast/float.go
@@ -16,7 +16,7 @@ func (ft *FloatType) Start() token.Position {
 }
 
 func (ft *FloatType) End() token.Position {
-	return ft.Pos.To(5) // TODO: support bases float64, 32, 16
+	return ft.Pos.To(len(ft.Token.String())) // `float` or one of its bases
 }
 
 // FloatLiteral represesnts the AST Node for float type token i.e. 3.412
diff --git a/ast/null.go b/ast/null.go
index 6768003..0f63c37 100644
--- a/ast/null.go
+++ b/ast/null.go
@@ -13,5 +13,5 @@ func (nt *NullType) Start() token.Position {
 }
 
 func (nt *NullType) End() token.Position {
-	return nt.Pos.To(4) // lenth of `null`
+	return nt.Pos.To(len(nt.Token.String())) // `null` or `nil`
 }
diff --git a/ast/text.go b/ast/text.go
index c182d6a..e9f189c 100644
--- a/ast/text.go
+++ b/ast/text.go
@@ -14,7 +14,7 @@ func (tl *TextLiteral) Start() token.Position {
 }
 
 func (tl *TextLiteral) End() token.Position {
-	return tl.Pos.To(len(tl.Literal))
+	return tl.Pos.To(len(tl.Literal) + 2) // add quotes
 }
 
 // TstrType represents the AST Node for the `tstr` type definition token
-- 
2.43.0


From 6c8337aba385d771b194b055f1843f0f310df6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 44/56] fix: ast: End of integers that are not spelled in plain
 decimal

---
 ast/identifier.go   |  5 +++++
 ast/integer.go      |  5 +++++
 ast/uint_literal.go |  5 +++++
 parser/parser.go    | 14 +++++++++-----
 4 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/ast/identifier.go b/ast/identifier.go
index 3139dd6..af12113 100644
--- a/ast/identifier.go
+++ b/ast/identifier.go
@@ -10,6 +10,8 @@ import (
 type Identifier struct {
 	Pos  token.Position
 	Name string
+	// Length of the spelling of an integer key, zero if the name is the spelling
+	Length int `json:"-"`
 }
 
 func (i *Identifier) String() string {
@@ -21,6 +23,9 @@ func (i *Identifier) Start() token.Position {
 }
 
 func (i *Identifier) End() token.Position {
+	if i.Length > 0 {
+		return i.Pos.To(i.Length)
+	}
 	return i.Pos.To(len(i.Name))
 }
 
diff --git a/ast/integer.go b/ast/integer.go
index 3c1ac8b..0921a6b 100644
--- a/ast/integer.go
+++ b/ast/integer.go
@@ -38,6 +38,8 @@ type IntegerLiteral struct {
 	Pos     token.Position
 	Token   token.Token
 	Literal int64
+	// Length of the spelling, which tells 0x10 from 16, zero if unknown
+	Length int `json:"-"`
 }
 
 func (il *IntegerLiteral) Start() token.Position {
@@ -45,5 +47,8 @@ func (il *IntegerLiteral) Start() token.Position {
 }
 
 func (il *IntegerLiteral) End() token.Position {
+	if il.Length > 0 {
+		return il.Pos.To(il.Length)
+	}
 	return il.Pos.To(len(fmt.Sprintf("%d", il.Literal)))
 }
diff --git a/ast/uint_literal.go b/ast/uint_literal.go
index 01995e5..39640b0 100644
--- a/ast/uint_literal.go
+++ b/ast/uint_literal.go
@@ -11,6 +11,8 @@ type UintLiteral struct {
 	Pos     token.Position
 	Token   token.Token
 	Literal uint64
+	// Length of the spelling, which tells 0x10 from 16, zero if unknown
+	Length int `json:"-"`
 }
 
 func (ul *UintLiteral) Start() token.Position {
@@ -18,5 +20,8 @@ func (ul *UintLiteral) Start() token.Position {
 }
 
 func (ul *UintLiteral) End() token.Position {
+	if ul.Length > 0 {
+		return ul.Pos.To(ul.Length)
+	}
 	return ul.Pos.To(len(fmt.Sprintf("%d", ul.Literal)))
 }
diff --git a/parser/parser.go b/parser/parser.go
index 2a1e4fb..b232158 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -321,6 +321,7 @@ func (p *Parser) parseUintLiteral() (*ast.UintLiteral, errors.Diagnostic) {
 			Pos:     p.pos,
 			Token:   p.currToken,
 			Literal: lit,
+			Length:  len(p.currliteral),
 		}, nil
 	}
 	return nil, p.error("expected uint literal", p.pos, p.pos)
@@ -356,8 +357,9 @@ func (p *Parser) parseColon(left ast.Node) (ast.Node, errors.Diagnostic) {
 		ident = val
 	case *ast.IntegerLiteral:
 		ident = &ast.Identifier{
-			Pos:  val.Pos,
-			Name: fmt.Sprintf("%d", val.Literal),
+			Pos:    val.Pos,
+			Name:   fmt.Sprintf("%d", val.Literal),
+			Length: val.Length,
 		}
 	default:
 		err := p.errorUnsupportedTypes(p.pos, p.currliteral, token.IDENT, token.INT)
@@ -446,7 +448,7 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 		if err != nil {
 			return nil, p.error("failed to parse tag major", p.pos, p.pos)
 		}
-		tagBase.Major = &ast.UintLiteral{Pos: p.pos, Token: p.currToken, Literal: major}
+		tagBase.Major = &ast.UintLiteral{Pos: p.pos, Token: p.currToken, Literal: major, Length: len(p.currliteral)}
 	case token.FLOAT:
 		p.next()
 		tagB, err := p.parseFloatTag()
@@ -513,8 +515,8 @@ func (p *Parser) parseFloatTag() (*ast.Tag, errors.Diagnostic) {
 		return nil, p.error(err.Error(), p.pos, p.pos)
 	}
 
-	tag.Major = &ast.UintLiteral{Pos: p.pos, Token: p.currToken, Literal: majorUint}
-	tag.TagNumber = &ast.UintLiteral{Pos: p.pos.To(len(sections[0]) + 1), Token: p.currToken, Literal: numberUint}
+	tag.Major = &ast.UintLiteral{Pos: p.pos, Token: p.currToken, Literal: majorUint, Length: len(sections[0])}
+	tag.TagNumber = &ast.UintLiteral{Pos: p.pos.To(len(sections[0]) + 1), Token: p.currToken, Literal: numberUint, Length: len(sections[1])}
 
 	return tag, nil
 }
@@ -633,6 +635,7 @@ func (p *Parser) parseIntegerLiteral() (*ast.IntegerLiteral, errors.Diagnostic)
 			Pos:     p.pos,
 			Token:   p.currToken,
 			Literal: lit,
+			Length:  len(p.currliteral),
 		}, nil
 	}
 	return nil, p.error("expected integer literal", p.pos, p.pos)
@@ -827,6 +830,7 @@ func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 			Pos:     val.Pos,
 			Token:   token.UINT,
 			Literal: uint64(val.Literal),
+			Length:  val.Length,
 		}
 	default:
 		return nil, p.error(fmt.Sprintf("unexpected lower bound type for operator %s, should be uint", occ.Token), left.Start(), left.End())
-- 
2.43.0


From b1f7ae97c51b354001e62f725b64cc8b21a2cc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 45/56] fix: ast: an empty collection has an end, diagnostics
 showed line 0

---
 ast/array.go | 2 +-
 ast/group.go | 2 +-
 ast/map.go   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ast/array.go b/ast/array.go
index 17d0cf6..8cfc7dd 100644
--- a/ast/array.go
+++ b/ast/array.go
@@ -15,7 +15,7 @@ func (a *Array) Start() token.Position {
 
 func (a *Array) End() token.Position {
 	if len(a.Rules) == 0 {
-		return token.Position{Offset: -1}
+		return a.Pos.To(1) // length of the opening delimiter
 	}
 	return a.Rules[len(a.Rules)-1].End()
 }
diff --git a/ast/group.go b/ast/group.go
index 49bc5cf..bf49d42 100644
--- a/ast/group.go
+++ b/ast/group.go
@@ -18,7 +18,7 @@ func (g *Group) Start() token.Position {
 
 func (g *Group) End() token.Position {
 	if len(g.Entries) == 0 {
-		return token.Position{Offset: -1}
+		return g.Pos.To(1) // length of the opening delimiter
 	}
 	return g.Entries[len(g.Entries)-1].End()
 }
diff --git a/ast/map.go b/ast/map.go
index 8461b02..16055e5 100644
--- a/ast/map.go
+++ b/ast/map.go
@@ -14,7 +14,7 @@ func (m *Map) Start() token.Position {
 
 func (m *Map) End() token.Position {
 	if len(m.Rules) == 0 {
-		return token.Position{Offset: -1}
+		return m.Pos.To(1) // length of the opening delimiter
 	}
 	return m.Rules[len(m.Rules)-1].End()
 }
-- 
2.43.0


From 90e06a5269e3818a70681ebaa9a9a2d25400d3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:12 +0000
Subject: [PATCH 46/56] fix: codegen: code of size-limited types imports the
 validators, once and only if it uses them

---
 transforms/codegen/golang/gen.go          | 18 ++++++++++++------
 transforms/codegen/golang/gen_grouped.go  |  1 +
 transforms/codegen/golang/gen_operator.go |  4 +++-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/transforms/codegen/golang/gen.go b/transforms/codegen/golang/gen.go
index 0693237..39eef2d 100644
--- a/transforms/codegen/golang/gen.go
+++ b/transforms/codegen/golang/gen.go
@@ -68,20 +68,20 @@ type Generator struct {
 
 // String flushes the generated tree to an output
 func (g *Generator) String(output io.Writer) (err error) {
-	g.file.Imports = append(g.file.Imports, g.imports...)
-	gast.SortImports(g.fset, g.file)
+	file := *g.file // stays as it is, to be visited and flushed again
 
-	if len(g.file.Imports) > 0 {
+	if len(g.imports) > 0 {
 		importDecl := &gast.GenDecl{Specs: []gast.Spec{}, Tok: token.IMPORT}
 
-		for _, spec := range g.file.Imports {
+		for _, spec := range g.imports {
 			importDecl.Specs = append(importDecl.Specs, spec)
 		}
 
-		g.file.Decls = append([]gast.Decl{importDecl}, g.file.Decls...)
+		file.Decls = append([]gast.Decl{importDecl}, file.Decls...)
 	}
+	gast.SortImports(g.fset, &file)
 
-	return format.Node(output, g.fset, g.file)
+	return format.Node(output, g.fset, &file)
 }
 
 // Package returns the name of the generated golang package
@@ -90,6 +90,12 @@ func (g *Generator) Package() string {
 }
 
 func (g *Generator) addImport(value string, name string) {
+	for _, im := range g.imports {
+		if im.Path.Value == "\""+value+"\"" { // once is enough
+			return
+		}
+	}
+
 	var ident *gast.Ident
 	if name != "" { // nullable ident to prevent space on generated output
 		ident = gast.NewIdent(name)
diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 4afa895..2d50a55 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -111,6 +111,7 @@ func (g *Generator) bundleValidators(validators []gast.CallExpr, rule *ast.Rule)
 	}
 
 	if len(validators) > 0 {
+		g.addImport(VALIDATOR_PKG, "") // only where it is used
 		for _, validator := range validators {
 			ex := &gast.ExprStmt{
 				X: &validator,
diff --git a/transforms/codegen/golang/gen_operator.go b/transforms/codegen/golang/gen_operator.go
index 5b861d0..0ea89b8 100644
--- a/transforms/codegen/golang/gen_operator.go
+++ b/transforms/codegen/golang/gen_operator.go
@@ -2,6 +2,7 @@ package gogen
 
 import (
 	"errors"
+	"fmt"
 	gast "go/ast"
 	"log"
 
@@ -18,6 +19,8 @@ func (g *Generator) transformSizeOp(op *ast.SizeOperatorControl) (*structure, er
 	case *ast.Identifier:
 		// TODO: resolve and cast
 		panic("ident literal size not implemented")
+	default:
+		return nil, fmt.Errorf("unexpected size %T", val)
 	}
 
 	baseStct, err := g.transpileNode(op.Type)
@@ -38,7 +41,6 @@ func (g *Generator) transformSizeOp(op *ast.SizeOperatorControl) (*structure, er
 	default:
 		panic("fix later")
 	}
-	g.addImport(VALIDATOR_PKG, "")
 
 	log.Println("Len validators: ", len(stct.validators))
 
-- 
2.43.0


From 0550c972e8f985a0a6c4bb93d5ef486c28e4b1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 47/56] fix: codegen: refuse repeated members instead of
 writing invalid Go

---
 transforms/codegen/golang/gen_grouped.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 2d50a55..1e93248 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -162,10 +162,8 @@ func (g *Generator) transpileGroupLike(entries []ast.GroupEntry) (*structure, er
 			field = &gast.Field{
 				Type: g.transpileIdentifier(val),
 			}
-		case *ast.NMOccurrence:
-			field = &gast.Field{
-				Type: g.transpileNMOccurence(val),
-			}
+		case *ast.NMOccurrence: // has no name, and a slice cannot be embedded
+			return nil, fmt.Errorf("unexpected repeated member %T", val.Item)
 		default:
 			panic(fmt.Sprintf("What was that? %T: `%+v`", val, val))
 		}
-- 
2.43.0


From f6af786ed93323f742d891759ff66db80262793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 48/56] fix: codegen: repeated literals become slices of their
 type

---
 transforms/codegen/golang/gen_operator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transforms/codegen/golang/gen_operator.go b/transforms/codegen/golang/gen_operator.go
index 0ea89b8..e7a5a9d 100644
--- a/transforms/codegen/golang/gen_operator.go
+++ b/transforms/codegen/golang/gen_operator.go
@@ -52,8 +52,12 @@ func (g *Generator) transpileNMOccurence(nm *ast.NMOccurrence) *gast.ArrayType {
 	if err != nil {
 		panic("fix later")
 	}
+	elem := stct.node.(gast.Expr)
+	if literalType := g.typeOfLiteral(nm.Item); literalType != nil {
+		elem = literalType
+	}
 	return &gast.ArrayType{
-		Elt: stct.node.(gast.Expr),
+		Elt: elem,
 	}
 }
 
-- 
2.43.0


From 0a1764e8fdb5226ad9962fbf0d47253d687198cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 49/56] fix: parser: refuse a comma behind a keyed tag content

---
 parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index b232158..ad832f8 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -466,6 +466,9 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 		if err != nil {
 			return tagBase, err
 		}
+		if p.currToken == token.COMMA { // behind a keyed content
+			return tagBase, p.errorUnexpectedPrefix(p.pos, p.currToken)
+		}
 		for p.peekToken == token.COMMENT {
 			p.next()
 		}
-- 
2.43.0


From 3ca5e21960ede7c70289e9e3d1c268aa3af3094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 50/56] fix: operands behind more than a hundred names escaped
 the operand checks

---
 parser/parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index ad832f8..5ac5e67 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -805,14 +805,18 @@ func (p *Parser) parseBound(left ast.Node) (bound ast.Node, err errors.Diagnosti
 
 // resolve follows names to the node they finally stand for, nil if there is none
 func (p *Parser) resolve(node ast.Node) ast.Node {
-	for i := 0; i < 100; i++ { // names may be defined by each other
+	seen := map[string]bool{} // names may be defined by each other
+	for {
 		ident, ok := node.(*ast.Identifier)
 		if !ok {
 			return node
 		}
+		if seen[ident.Name] {
+			return nil
+		}
+		seen[ident.Name] = true
 		node = p.environment.Get(ident.Name)
 	}
-	return nil
 }
 
 func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
-- 
2.43.0


From bec4a9aeeee2a5c19ae86f652c94a2be37555d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:00 +0000
Subject: [PATCH 51/56] fix: choices of a thousand alternatives were refused as
 nested too deeply, longer chains could not be exported

---
 parser/parser.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 5ac5e67..325f7ef 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -17,7 +17,7 @@ import (
 
 // maxDepth limits the nesting of entries, and with it the use of the stack and
 // the depth of the JSON export, which encoding/json limits to 10000 levels
-const maxDepth = 1000
+const maxDepth = 9900
 
 type taskFn func() errors.Diagnostic
 
@@ -76,6 +76,9 @@ type Parser struct {
 	// how deep the entry being parsed is nested
 	depth int
 
+	// how many levels of the tree are below the entry being parsed
+	height int
+
 	// hold tasks to be run after the completed ast build.
 	// used mostly to check types in type specific operators that may not exist in the environment at first pass
 	tasks []taskFn
@@ -193,8 +196,13 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 // TODO(HannesKimara): func(p *Parser) parseEntryShould(precedence, should ast.Node) (ast.Node, error)
 
 func (p *Parser) parseEntry(precedence int) (ast.Node, errors.Diagnostic) {
+	outer := p.height
+	p.height = 0
 	p.depth++
-	defer func() { p.depth-- }()
+	defer func() {
+		p.depth--
+		p.height = max(outer, p.height+1)
+	}()
 	if p.depth > maxDepth {
 		return nil, p.error("nested too deeply", p.pos, p.pos)
 	}
@@ -227,12 +235,18 @@ func (p *Parser) parseEntry(precedence int) (ast.Node, errors.Diagnostic) {
 		if ledFn == nil {
 			return exp, nil
 		}
+		left := p.height
+		p.height = 0
 		p.next()
 		expR, err := ledFn(exp)
 		exp = expR
 		if err != nil {
 			return exp, err
 		}
+		p.height = max(left+1, p.height)
+	}
+	if p.height > maxDepth {
+		return exp, p.error("nested too deeply", p.pos, p.pos)
 	}
 
 	return exp, nil
@@ -669,6 +683,7 @@ func (p *Parser) parseGroup() (ast.Node, errors.Diagnostic) {
 		}
 		p.next()
 	}
+	p.height++ // of the list
 	return g, nil
 }
 
@@ -698,6 +713,7 @@ func (p *Parser) parseMap() (ast.Node, errors.Diagnostic) {
 		}
 		p.next()
 	}
+	p.height++ // of the list
 	return g, nil
 }
 
@@ -723,6 +739,7 @@ func (p *Parser) parseArray() (ast.Node, errors.Diagnostic) {
 		}
 		p.next()
 	}
+	p.height++ // of the list
 
 	return arr, nil
 }
-- 
2.43.0


From 66b6245da51af6f655e4794f64abe33ec6430c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:59 +0000
Subject: [PATCH 52/56] fix: fill the table of case conversions, so that
 options naming one are valid

---
 transforms/codegen/golang/gen_identifiers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transforms/codegen/golang/gen_identifiers.go b/transforms/codegen/golang/gen_identifiers.go
index 71eed8d..104ae11 100644
--- a/transforms/codegen/golang/gen_identifiers.go
+++ b/transforms/codegen/golang/gen_identifiers.go
@@ -37,7 +37,7 @@ func (g *Generator) transpileIdentifier(ident *ast.Identifier) *gast.Ident {
 }
 
 func init() {
-	converters := make(map[string]stringConverter)
+	converters = make(map[string]stringConverter)
 
 	converters["camelcase"] = strcase.ToCamel
 	converters["snakecase"] = strcase.ToSnake
-- 
2.43.0


From 1f8be0dc51c2558fa3ff102757a8dd96cc2a4245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:09 +0000
Subject: [PATCH 53/56] fix: keep the previous output when writing the new one
 fails midway

---
 cmd/cddlc/commands/generate.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index 901d3e9..c665bec 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -144,7 +144,25 @@ func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
 	if err := gen.String(out); err != nil {
 		return fmt.Errorf("failed to generate code for `%s`: %w", filepath, err)
 	}
-	return os.WriteFile(outPath, out.Bytes(), 0666)
+	return writeOutput(outPath, out.Bytes())
+}
+
+// writeOutput writes an output file. When that fails midway, for lack of space for instance,
+// the file gets back what it had.
+func writeOutput(path string, content []byte) error {
+	previous, readErr := os.ReadFile(path)
+	_, statErr := os.Lstat(path)
+
+	err := os.WriteFile(path, content, 0666)
+	if err == nil {
+		return nil
+	}
+	if readErr == nil {
+		_ = os.WriteFile(path, previous, 0666)
+	} else if errors.Is(statErr, os.ErrNotExist) {
+		_ = os.Remove(path)
+	}
+	return err
 }
 
 // visit turns the panic of the generator on a construct it does not support into an error
-- 
2.43.0


From 6ed9dd41d6ce5e8b3374b2c74d31f6228fd4d688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:11 +0000
Subject: [PATCH 54/56] fix: leave no incomplete configuration when init cannot
 write it

---
 cmd/cddlc/commands/init.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/cddlc/commands/init.go b/cmd/cddlc/commands/init.go
index 1569e18..a76bcbf 100644
--- a/cmd/cddlc/commands/init.go
+++ b/cmd/cddlc/commands/init.go
@@ -45,6 +45,7 @@ func InitCmd(cCtx *cli.Context) error {
 	enc.SetIndent("", "	")
 
 	if err := enc.Encode(conf); err != nil {
+		_ = os.Remove(configFile) // an incomplete one does not load
 		return err
 	}
 	return nil
-- 
2.43.0


From 8da2408f91e1fe91f4328a05bd5865390f936fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:12 +0000
Subject: [PATCH 55/56] fix: a command line with */ in it ended the header
 comment of generated files early

---
 cmd/cddlc/commands/generate.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index c665bec..3424e1c 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -177,7 +177,9 @@ func visit(gen *gogen.Generator, cddl *ast.CDDL) (err error) {
 }
 
 func addBuildHeader(f io.Writer) error {
-	header := "/*\n  File generated using `" + filepath.Base(os.Args[0]) + " " + strings.Join(os.Args[1:], " ") + "`. DO NOT EDIT\n*/\n\n"
+	command := filepath.Base(os.Args[0]) + " " + strings.Join(os.Args[1:], " ")
+	command = strings.ReplaceAll(command, "*/", "* /") // would end the comment
+	header := "/*\n  File generated using `" + command + "`. DO NOT EDIT\n*/\n\n"
 
 	_, err := f.Write([]byte(header))
 	if err != nil {
-- 
2.43.0


From 1e6a217083d09ba7165acd96c9e63a1b7cbf6c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:03 +0000
Subject: [PATCH 56/56] fix: parser: refuse a comma behind a keyed tag content
 with a comment too

---
 parser/parser.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 325f7ef..0a3402e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -40,6 +40,10 @@ type Parser struct {
 	// diagnostics contains the slice of errors and warnings in order
 	errors ErrorList
 
+	// previous position and token
+	prevPos   token.Position
+	prevToken token.Token
+
 	// current position
 	pos token.Position
 
@@ -480,8 +484,11 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 		if err != nil {
 			return tagBase, err
 		}
-		if p.currToken == token.COMMA { // behind a keyed content
+		switch { // a comma behind a keyed content, with its comment
+		case p.currToken == token.COMMA:
 			return tagBase, p.errorUnexpectedPrefix(p.pos, p.currToken)
+		case p.currToken == token.COMMENT && p.prevToken == token.COMMA:
+			return tagBase, p.errorUnexpectedPrefix(p.prevPos, p.prevToken)
 		}
 		for p.peekToken == token.COMMENT {
 			p.next()
@@ -1036,6 +1043,8 @@ func (p *Parser) errorUnexpectedPrefix(pos token.Position, tok token.Token) erro
 }
 
 func (p *Parser) next() {
+	p.prevToken = p.currToken
+	p.prevPos = p.pos
 	p.currToken = p.peekToken
 	p.currliteral = p.peekLiteral
 	p.pos = p.peekPos
-- 
2.43.0

