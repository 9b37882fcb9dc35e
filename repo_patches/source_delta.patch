From 21d1fea1d350047040919bd68abf430f95a0268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:45 +0000
Subject: [PATCH 01/64] fix: JSON parser panics when recovering past an invalid
 character

---
 hcl/json/peeker.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/hcl/json/peeker.go b/hcl/json/peeker.go
index fc7bbf5..6a86a97 100644
--- a/hcl/json/peeker.go
+++ b/hcl/json/peeker.go
@@ -1,11 +1,27 @@
 package json
 
+import (
+	"github.com/hashicorp/hcl2/hcl"
+)
+
 type peeker struct {
 	tokens []token
 	pos    int
 }
 
 func newPeeker(tokens []token) *peeker {
+	// The scanner stops early, without an EOF token, when it encounters an
+	// invalid character. The parser's recovery can read past that, so we must
+	// always have an EOF token for it to stop at.
+	if l := len(tokens); l == 0 || tokens[l-1].Type != tokenEOF {
+		eof := token{Type: tokenEOF}
+		if l > 0 {
+			last := tokens[l-1].Range
+			eof.Range = hcl.Range{Filename: last.Filename, Start: last.End, End: last.End}
+		}
+		tokens = append(tokens, eof)
+	}
+
 	return &peeker{
 		tokens: tokens,
 		pos:    0,
-- 
2.43.0


From 42c551e1b3cfd9677179b2e371b3b0942ef04c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:48 +0000
Subject: [PATCH 02/64] fix: give the placeholder for an invalid JSON root
 value a close range

---
 hcl/json/public.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hcl/json/public.go b/hcl/json/public.go
index 2728aa1..5576b1c 100644
--- a/hcl/json/public.go
+++ b/hcl/json/public.go
@@ -46,9 +46,10 @@ func Parse(src []byte, filename string) (*hcl.File, hcl.Diagnostics) {
 			End:      fakePos,
 		}
 		rootNode = &objectVal{
-			Attrs:     []*objectAttr{},
-			SrcRange:  fakeRange,
-			OpenRange: fakeRange,
+			Attrs:      []*objectAttr{},
+			SrcRange:   fakeRange,
+			OpenRange:  fakeRange,
+			CloseRange: fakeRange,
 		}
 	}
 
-- 
2.43.0


From 0ce4de4d85e9836e23d90e067a03f3c5615ebaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:13 +0000
Subject: [PATCH 03/64] fix: object keys written in parentheses are
 expressions, not literal names

---
 hcl/hclsyntax/expression.go | 9 ++++++++-
 hcl/hclsyntax/parser.go     | 5 ++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index d3f7a74..2a27afe 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -805,9 +805,16 @@ func (e *ObjectConsExpr) ExprMap() []hcl.KeyValuePair {
 // must be interpreted as a literal string rather than evaluated directly.
 type ObjectConsKeyExpr struct {
 	Wrapped Expression
+
+	// ForceNonLiteral is set if the key was written in parentheses, in which
+	// case it is always a normal expression and never a literal name.
+	ForceNonLiteral bool
 }
 
 func (e *ObjectConsKeyExpr) literalName() string {
+	if e.ForceNonLiteral {
+		return ""
+	}
 	// This is our logic for deciding whether to behave like a literal string.
 	// We lean on our AbsTraversalForExpr implementation here, which already
 	// deals with some awkward cases like the expression being the result
@@ -834,7 +841,7 @@ func (e *ObjectConsKeyExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnost
 	// (This is handled at evaluation time rather than parse time because
 	// an application using static analysis _can_ accept a naked multi-step
 	// traversal here, if desired.)
-	if travExpr, isTraversal := e.Wrapped.(*ScopeTraversalExpr); isTraversal && len(travExpr.Traversal) > 1 {
+	if travExpr, isTraversal := e.Wrapped.(*ScopeTraversalExpr); isTraversal && len(travExpr.Traversal) > 1 && !e.ForceNonLiteral {
 		var diags hcl.Diagnostics
 		diags = append(diags, &hcl.Diagnostic{
 			Severity: hcl.DiagError,
diff --git a/hcl/hclsyntax/parser.go b/hcl/hclsyntax/parser.go
index 772ebae..66d0c75 100644
--- a/hcl/hclsyntax/parser.go
+++ b/hcl/hclsyntax/parser.go
@@ -1293,6 +1293,9 @@ func (p *parser) parseObjectCons() (Expression, hcl.Diagnostics) {
 
 		var key Expression
 		var keyDiags hcl.Diagnostics
+		// Parentheses are not represented in the AST, but here they distinguish
+		// a reference used as a key from a literal key name.
+		forceNonLiteral := p.Peek().Type == TokenOParen
 		key, keyDiags = p.ParseExpression()
 		diags = append(diags, keyDiags...)
 
@@ -1307,7 +1310,7 @@ func (p *parser) parseObjectCons() (Expression, hcl.Diagnostics) {
 		// We wrap up the key expression in a special wrapper that deals
 		// with our special case that naked identifiers as object keys
 		// are interpreted as literal strings.
-		key = &ObjectConsKeyExpr{Wrapped: key}
+		key = &ObjectConsKeyExpr{Wrapped: key, ForceNonLiteral: forceNonLiteral}
 
 		next = p.Peek()
 		if next.Type != TokenEqual && next.Type != TokenColon {
-- 
2.43.0


From 5ec87ea93c96be3eb62ee55191e97f0fa39b838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:18 +0000
Subject: [PATCH 04/64] fix: source range of an attribute-only splat with no
 traversal steps

---
 hcl/hclsyntax/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hcl/hclsyntax/parser.go b/hcl/hclsyntax/parser.go
index 66d0c75..ef79256 100644
--- a/hcl/hclsyntax/parser.go
+++ b/hcl/hclsyntax/parser.go
@@ -670,6 +670,7 @@ Traversal:
 				trav := make(hcl.Traversal, 0, 1)
 				var firstRange, lastRange hcl.Range
 				firstRange = p.NextRange()
+				lastRange = marker.Range // in case there are no traversal steps
 				for p.Peek().Type == TokenDot {
 					dot := p.Read()
 
-- 
2.43.0


From 629d6957eb633f29cb78dd2bd1bf965c928acc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:02 +0000
Subject: [PATCH 05/64] fix: expanding an unknown argument of unknown type
 yields an unknown result

---
 hcl/hclsyntax/expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 2a27afe..5eca12e 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -287,6 +287,9 @@ func (e *FunctionCallExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnosti
 				})
 			}
 			args = newArgs
+		case expandVal.Type() == cty.DynamicPseudoType && !expandVal.IsKnown():
+			// We can't say anything about the arguments until the type is known.
+			return cty.DynamicVal, diags
 		default:
 			diags = append(diags, &hcl.Diagnostic{
 				Severity:    hcl.DiagError,
-- 
2.43.0


From d017dba500a57f194d092ae7cedc2f60aed6cf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:06 +0000
Subject: [PATCH 06/64] fix: report function argument errors against the
 expanded arguments

---
 hcl/hclsyntax/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 5eca12e..236235c 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -396,7 +396,7 @@ func (e *FunctionCallExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnosti
 			} else {
 				param = varParam
 			}
-			argExpr := e.Args[i]
+			argExpr := args[i]
 
 			// TODO: we should also unpick a PathError here and show the
 			// path to the deep value where the error was detected.
-- 
2.43.0


From 5cbd3f59b7abcb0577cee7ad8e29d921b5652027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:11 +0000
Subject: [PATCH 07/64] fix: JustAttributes on a native syntax body must not
 report hidden blocks

---
 hcl/hclsyntax/structure.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hcl/hclsyntax/structure.go b/hcl/hclsyntax/structure.go
index 476025d..2e8c302 100644
--- a/hcl/hclsyntax/structure.go
+++ b/hcl/hclsyntax/structure.go
@@ -251,8 +251,10 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 	attrs := make(hcl.Attributes)
 	var diags hcl.Diagnostics
 
-	if len(b.Blocks) > 0 {
-		example := b.Blocks[0]
+	for _, example := range b.Blocks {
+		if _, hidden := b.hiddenBlocks[example.Type]; hidden {
+			continue
+		}
 		diags = append(diags, &hcl.Diagnostic{
 			Severity: hcl.DiagError,
 			Summary:  fmt.Sprintf("Unexpected %q block", example.Type),
@@ -262,6 +264,7 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 		// we will continue processing anyway, and return the attributes
 		// we are able to find so that certain analyses can still be done
 		// in the face of errors.
+		break
 	}
 
 	if b.Attributes == nil {
-- 
2.43.0


From a081531c459d9bdb74b70645c3196a40c4674d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:42 +0000
Subject: [PATCH 08/64] fix: RangeScanner for a fragment must index its buffer
 from zero

---
 hcl/pos_scanner.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hcl/pos_scanner.go b/hcl/pos_scanner.go
index 17c0d7c..de5bfb8 100644
--- a/hcl/pos_scanner.go
+++ b/hcl/pos_scanner.go
@@ -23,6 +23,7 @@ type RangeScanner struct {
 	b        []byte
 	cb       bufio.SplitFunc
 
+	ofs int    // byte offset of the first byte of b
 	pos Pos    // position of next byte to process in b
 	cur Range  // latest range
 	tok []byte // slice of b that is covered by cur
@@ -51,12 +52,13 @@ func NewRangeScannerFragment(b []byte, filename string, start Pos, cb bufio.Spli
 		filename: filename,
 		b:        b,
 		cb:       cb,
+		ofs:      start.Byte,
 		pos:      start,
 	}
 }
 
 func (sc *RangeScanner) Scan() bool {
-	if sc.pos.Byte >= len(sc.b) || sc.err != nil {
+	if sc.pos.Byte-sc.ofs >= len(sc.b) || sc.err != nil {
 		// All done
 		return false
 	}
@@ -64,7 +66,7 @@ func (sc *RangeScanner) Scan() bool {
 	// Since we're operating on an in-memory buffer, we always pass the whole
 	// remainder of the buffer to our SplitFunc and set isEOF to let it know
 	// that it has the whole thing.
-	advance, token, err := sc.cb(sc.b[sc.pos.Byte:], true)
+	advance, token, err := sc.cb(sc.b[sc.pos.Byte-sc.ofs:], true)
 
 	// Since we are setting isEOF to true this should never happen, but
 	// if it does we will just abort and assume the SplitFunc is misbehaving.
@@ -92,7 +94,7 @@ func (sc *RangeScanner) Scan() bool {
 	// we're being asked to skip over by the SplitFunc.
 	// adv is a slice covering any additional bytes we are skipping over, based
 	// on what the SplitFunc told us to do with advance.
-	adv := sc.b[sc.pos.Byte : sc.pos.Byte+advance]
+	adv := sc.b[sc.pos.Byte-sc.ofs : sc.pos.Byte-sc.ofs+advance]
 
 	// We now need to scan over our token to count the grapheme clusters
 	// so we can correctly advance Column, and count the newlines so we
-- 
2.43.0


From 984b9c5c5188cce4aacd760b2a98fc8951c1d5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:44 +0000
Subject: [PATCH 09/64] fix: do not register a JSON file that could not be read

---
 hclparse/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hclparse/parser.go b/hclparse/parser.go
index 6d47f12..680a461 100644
--- a/hclparse/parser.go
+++ b/hclparse/parser.go
@@ -89,6 +89,10 @@ func (p *Parser) ParseJSONFile(filename string) (*hcl.File, hcl.Diagnostics) {
 	}
 
 	file, diags := json.ParseFile(filename)
+	if file == nil {
+		// The file could not be read, so there is nothing to remember.
+		return nil, diags
+	}
 	p.files[filename] = file
 	return file, diags
 }
-- 
2.43.0


From 13bc723e12a3b26cc9fa1a652035355de9ab0d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:23 +0000
Subject: [PATCH 10/64] fix: attributes of expanded bodies see iterators and
 prior partial decoding

---
 ext/dynblock/expand_body.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/ext/dynblock/expand_body.go b/ext/dynblock/expand_body.go
index dd30822..ea19850 100644
--- a/ext/dynblock/expand_body.go
+++ b/ext/dynblock/expand_body.go
@@ -252,9 +252,32 @@ func (b *expandBody) expandChild(child hcl.Body, i *iteration) hcl.Body {
 
 func (b *expandBody) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 	// blocks aren't allowed in JustAttributes mode and this body can
-	// only produce blocks, so we'll just pass straight through to our
-	// underlying body here.
-	return b.original.JustAttributes()
+	// only produce blocks, so we need only prepare the attributes from
+	// our underlying body here.
+	if len(b.hiddenAttrs) == 0 && len(b.hiddenBlocks) == 0 {
+		attrs, diags := b.original.JustAttributes()
+		return b.prepareAttributes(attrs), diags
+	}
+
+	// Items already consumed by PartialContent must be neither returned nor
+	// reported, so we ask only for what remains without them.
+	content, remain, _ := b.original.PartialContent(b.extendSchema(&hcl.BodySchema{}))
+	attrs, diags := remain.JustAttributes()
+	for _, block := range content.Blocks {
+		if block.Type != "dynamic" {
+			continue
+		}
+		if _, hidden := b.hiddenBlocks[block.Labels[0]]; !hidden {
+			diags = append(diags, &hcl.Diagnostic{
+				Severity: hcl.DiagError,
+				Summary:  fmt.Sprintf("Unexpected %q block", block.Type),
+				Detail:   "Blocks are not allowed here.",
+				Subject:  &block.TypeRange,
+			})
+			break
+		}
+	}
+	return b.prepareAttributes(attrs), diags
 }
 
 func (b *expandBody) MissingItemRange() hcl.Range {
-- 
2.43.0


From b8fd36a37f536ced73e3bf0fe09ad0d238609965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:25 +0000
Subject: [PATCH 11/64] fix: keep the missing item range when forcing a body to
 be unknown

---
 ext/dynblock/unknown_body.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/dynblock/unknown_body.go b/ext/dynblock/unknown_body.go
index 932f6a3..e89f061 100644
--- a/ext/dynblock/unknown_body.go
+++ b/ext/dynblock/unknown_body.go
@@ -56,7 +56,7 @@ func (b unknownBody) MissingItemRange() hcl.Range {
 }
 
 func (b unknownBody) fixupContent(got *hcl.BodyContent) *hcl.BodyContent {
-	ret := &hcl.BodyContent{}
+	ret := &hcl.BodyContent{MissingItemRange: got.MissingItemRange}
 	ret.Attributes = b.fixupAttrs(got.Attributes)
 	if len(got.Blocks) > 0 {
 		ret.Blocks = make(hcl.Blocks, 0, len(got.Blocks))
-- 
2.43.0


From d0d3dfe59b41fdd9d6a5faa96a19a36edde1b59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:27 +0000
Subject: [PATCH 12/64] fix: report errors in include blocks and ignore nil
 included bodies

---
 ext/include/transformer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ext/include/transformer.go b/ext/include/transformer.go
index 15c513f..864eb2c 100644
--- a/ext/include/transformer.go
+++ b/ext/include/transformer.go
@@ -76,10 +76,14 @@ func (t *transformer) TransformBody(in hcl.Body) hcl.Body {
 		}
 
 		incBody, incDiags := t.Resolver.ResolveBodyPath(path, pathExpr.Range())
+		if incBody == nil && !incDiags.HasErrors() {
+			diags = append(diags, incDiags...)
+			continue
+		}
 		bodies = append(bodies, transform.BodyWithDiagnostics(incBody, incDiags))
 	}
 
-	return hcl.MergeBodies(bodies)
+	return transform.BodyWithDiagnostics(hcl.MergeBodies(bodies), diags)
 }
 
 var includeBlockSchema = &hcl.BodySchema{
-- 
2.43.0


From cdb4d7b08160eba829b057a3bf1468f3285aeff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:29 +0000
Subject: [PATCH 13/64] fix: include file resolver panics for a file that
 cannot be read

---
 ext/include/file_resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ext/include/file_resolver.go b/ext/include/file_resolver.go
index c79a094..0e63597 100644
--- a/ext/include/file_resolver.go
+++ b/ext/include/file_resolver.go
@@ -48,5 +48,8 @@ func (r fileResolver) ResolveBodyPath(path string, refRange hcl.Range) (hcl.Body
 		f, diags = r.Parser.ParseHCLFile(targetFile)
 	}
 
+	if f == nil {
+		return nil, diags
+	}
 	return f.Body, diags
 }
-- 
2.43.0


From 2e4d4e60885369d3bc598864845fc0790c6ae7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:32 +0000
Subject: [PATCH 14/64] fix: body remaining from an error body must also report
 the error

---
 ext/transform/error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/transform/error.go b/ext/transform/error.go
index d7de418..0505eb9 100644
--- a/ext/transform/error.go
+++ b/ext/transform/error.go
@@ -67,7 +67,7 @@ func (b diagBody) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diagnos
 
 func (b diagBody) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Body, hcl.Diagnostics) {
 	if b.Diags.HasErrors() {
-		return b.emptyContent(), b.Wrapped, b.Diags
+		return b.emptyContent(), b, b.Diags
 	}
 
 	content, remain, wrappedDiags := b.Wrapped.PartialContent(schema)
-- 
2.43.0


From b9a171321110c5c9c100eef3b677fedb9f22db82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:34 +0000
Subject: [PATCH 15/64] fix: deep transform must also apply to blocks in the
 remaining body

---
 ext/transform/transform.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ext/transform/transform.go b/ext/transform/transform.go
index 30e9eed..de8c5da 100644
--- a/ext/transform/transform.go
+++ b/ext/transform/transform.go
@@ -45,6 +45,10 @@ func (w deepWrapper) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diag
 func (w deepWrapper) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Body, hcl.Diagnostics) {
 	content, remain, diags := w.Transformed.PartialContent(schema)
 	content = w.transformContent(content)
+	remain = deepWrapper{
+		Transformed: remain,
+		Transformer: w.Transformer,
+	}
 	return content, remain, diags
 }
 
-- 
2.43.0


From bbeb13a3e677aff18fd24156dc88b988645f1412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:47 +0000
Subject: [PATCH 16/64] fix: bounds check when unpacking a packed source range

---
 hclpack/positions_packed.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hclpack/positions_packed.go b/hclpack/positions_packed.go
index 29c7144..0cce9fc 100644
--- a/hclpack/positions_packed.go
+++ b/hclpack/positions_packed.go
@@ -172,10 +172,10 @@ func packRange(rng hcl.Range, pos map[string]map[hcl.Pos]posOfs) rangePacked {
 func (rp rangePacked) Unpack(fns []string, poss []position) hcl.Range {
 	startIdx := rp.Start.Index()
 	endIdx := rp.End.Index()
-	if startIdx < 0 && startIdx >= len(poss) {
+	if startIdx < 0 || startIdx >= len(poss) {
 		return hcl.Range{} // out of bounds, so invalid
 	}
-	if endIdx < 0 && endIdx >= len(poss) {
+	if endIdx < 0 || endIdx >= len(poss) {
 		return hcl.Range{} // out of bounds, so invalid
 	}
 	startPos := poss[startIdx]
-- 
2.43.0


From 12fd13c6263795c525670038e07bf0a9cf48bab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:32 +0000
Subject: [PATCH 17/64] fix: hclwrite expression tokens must include
 parentheses and index operands

---
 hclwrite/parser.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index 0e8952d..751724c 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -254,7 +254,16 @@ func parseAttribute(nativeAttr *hclsyntax.Attribute, from, leadComments, lineCom
 	children.AppendUnstructuredTokens(before.Tokens())
 	children.AppendUnstructuredTokens(equalsTokens.Tokens())
 
-	before, exprTokens, from := from.Partition(nativeAttr.Expr.Range())
+	// The range of an expression doesn't always cover all of its tokens: it
+	// excludes parentheses and the operand of an index or splat. Since the
+	// expression always ends the attribute, we take everything that remains
+	// after any comments that follow the equals sign.
+	exprStart := 0
+	for exprStart < from.Len() && from.nativeTokens[exprStart].Type == hclsyntax.TokenComment {
+		exprStart++
+	}
+	before = from.Slice(0, exprStart)
+	exprTokens := from.Slice(exprStart, from.Len())
 	{
 		children.AppendUnstructuredTokens(before.Tokens())
 		exprNode := parseExpression(nativeAttr.Expr, exprTokens)
@@ -270,9 +279,6 @@ func parseAttribute(nativeAttr *hclsyntax.Attribute, from, leadComments, lineCom
 
 	children.AppendUnstructuredTokens(newline.Tokens())
 
-	// Collect any stragglers, though there shouldn't be any
-	children.AppendUnstructuredTokens(from.Tokens())
-
 	return newNode(attr)
 }
 
-- 
2.43.0


From b983d1ac069a47c3eddde728a7c9ae741e24214c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:35 +0000
Subject: [PATCH 18/64] fix: hclwrite parser panics or loses tokens for unusual
 index keys

---
 hclwrite/parser.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index 751724c..4680011 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -410,6 +410,15 @@ func parseTraversalStep(nativeStep hcl.Traverser, from inputTokens) (before inpu
 		children = step.inTree.children
 		before, from, after = from.Partition(nativeStep.SourceRange())
 
+		if tokens := from.Tokens(); len(tokens) > 0 && tokens[0].Type == hclsyntax.TokenDot {
+			// Legacy index syntax, like foo.0
+			inBefore, token, inAfter := from.PartitionTypeSingle(hclsyntax.TokenNumberLit)
+			children.AppendUnstructuredTokens(inBefore.Tokens())
+			step.key = children.Append(newNumber(token))
+			children.AppendUnstructuredTokens(inAfter.Tokens())
+			return before, newNode(step), after
+		}
+
 		var inBefore, oBrack, keyTokens, cBrack inputTokens
 		inBefore, oBrack, from = from.PartitionType(hclsyntax.TokenOBrack)
 		children.AppendUnstructuredTokens(inBefore.Tokens())
@@ -427,6 +436,10 @@ func parseTraversalStep(nativeStep hcl.Traverser, from inputTokens) (before inpu
 			key := newNumber(valToken)
 			step.key = children.Append(key)
 			children.AppendUnstructuredTokens(valAfter.Tokens())
+		default:
+			// Other literals, like foo[true], are not valid keys but are
+			// still syntactically valid.
+			children.AppendUnstructuredTokens(keyTokens.Tokens())
 		}
 
 		children.AppendUnstructuredTokens(cBrack.Tokens())
-- 
2.43.0


From cee967e3fdf9ed317720a2de2152e1d99fb57fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:38 +0000
Subject: [PATCH 19/64] fix: TokensForTraversal must return the traversal's
 tokens

---
 hclwrite/generate.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hclwrite/generate.go b/hclwrite/generate.go
index d249cfd..ebd318f 100644
--- a/hclwrite/generate.go
+++ b/hclwrite/generate.go
@@ -159,12 +159,12 @@ func appendTokensForValue(val cty.Value, toks Tokens) Tokens {
 
 func appendTokensForTraversal(traversal hcl.Traversal, toks Tokens) Tokens {
 	for _, step := range traversal {
-		appendTokensForTraversalStep(step, toks)
+		toks = appendTokensForTraversalStep(step, toks)
 	}
 	return toks
 }
 
-func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) {
+func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) Tokens {
 	switch ts := step.(type) {
 	case hcl.TraverseRoot:
 		toks = append(toks, &Token{
@@ -188,7 +188,7 @@ func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) {
 			Type:  hclsyntax.TokenOBrack,
 			Bytes: []byte{'['},
 		})
-		appendTokensForValue(ts.Key, toks)
+		toks = appendTokensForValue(ts.Key, toks)
 		toks = append(toks, &Token{
 			Type:  hclsyntax.TokenCBrack,
 			Bytes: []byte{']'},
@@ -196,6 +196,8 @@ func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) {
 	default:
 		panic(fmt.Sprintf("unsupported traversal step type %T", step))
 	}
+
+	return toks
 }
 
 func escapeQuotedStringLit(s string) []byte {
-- 
2.43.0


From 5aad167ad1a498e190b8b6658817308f0aa25e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:41 +0000
Subject: [PATCH 20/64] fix: SetAttributeValue and SetAttributeTraversal must
 return a new attribute

---
 hclwrite/ast_body.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index cf69fee..9438a93 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -96,7 +96,7 @@ func (b *Body) SetAttributeValue(name string, val cty.Value) *Attribute {
 	if attr != nil {
 		attr.expr = attr.expr.ReplaceWith(expr)
 	} else {
-		attr := newAttribute()
+		attr = newAttribute()
 		attr.init(name, expr)
 		b.appendItem(attr)
 	}
@@ -117,7 +117,7 @@ func (b *Body) SetAttributeTraversal(name string, traversal hcl.Traversal) *Attr
 	if attr != nil {
 		attr.expr = attr.expr.ReplaceWith(expr)
 	} else {
-		attr := newAttribute()
+		attr = newAttribute()
 		attr.init(name, expr)
 		b.appendItem(attr)
 	}
-- 
2.43.0


From e26c2f00dcd348a75549940971b19026c4c8e454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:44 +0000
Subject: [PATCH 21/64] fix: clearing a hclwrite body must also forget its
 items

---
 hclwrite/ast_body.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index 9438a93..e7777aa 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -35,6 +35,7 @@ func (b *Body) appendItemNode(nn *node) *node {
 // Clear removes all of the items from the body, making it empty.
 func (b *Body) Clear() {
 	b.children.Clear()
+	b.items = newNodeSet()
 }
 
 func (b *Body) AppendUnstructuredTokens(ts Tokens) {
-- 
2.43.0


From 4d33620dc354e3de597d5a69007d570414f0120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:48 +0000
Subject: [PATCH 22/64] fix: return hclwrite blocks in source order

---
 hclwrite/ast_body.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index e7777aa..c390136 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -59,7 +59,7 @@ func (b *Body) Attributes() map[string]*Attribute {
 // Blocks returns a new slice of all the blocks in the body.
 func (b *Body) Blocks() []*Block {
 	ret := make([]*Block, 0, len(b.items))
-	for n := range b.items {
+	for _, n := range b.items.List() {
 		if block, isBlock := n.content.(*Block); isBlock {
 			ret = append(ret, block)
 		}
-- 
2.43.0


From b290b87feb0cb2780f6fefdb244a471433d7f088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:51 +0000
Subject: [PATCH 23/64] fix: quote an object key that would be read as the for
 keyword

---
 hclwrite/generate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hclwrite/generate.go b/hclwrite/generate.go
index ebd318f..4c3b311 100644
--- a/hclwrite/generate.go
+++ b/hclwrite/generate.go
@@ -129,7 +129,8 @@ func appendTokensForValue(val cty.Value, toks Tokens) Tokens {
 				})
 			}
 			eKey, eVal := it.Element()
-			if hclsyntax.ValidIdentifier(eKey.AsString()) {
+			// (a leading "for" would introduce a for expression instead)
+			if hclsyntax.ValidIdentifier(eKey.AsString()) && eKey.AsString() != "for" {
 				toks = append(toks, &Token{
 					Type:  hclsyntax.TokenIdent,
 					Bytes: []byte(eKey.AsString()),
-- 
2.43.0


From 3ef1520b8d39f881a84b24d219709781279c0c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:22 +0000
Subject: [PATCH 24/64] fix: start a new line before appending an item to a
 hclwrite body

---
 hclwrite/ast_body.go | 44 ++++++++++++++++++++++++++++++++++++++++++++
 hclwrite/node.go     | 13 +++++++++++++
 hclwrite/parser.go   |  1 +
 3 files changed, 58 insertions(+)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index c390136..c7246c2 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -10,6 +10,10 @@ type Body struct {
 	inTree
 
 	items nodeSet
+
+	// afterBrace is set if the body immediately follows its block's opening
+	// brace, and so must itself provide the newline that precedes any items.
+	afterBrace bool
 }
 
 func newBody() *Body {
@@ -20,6 +24,7 @@ func newBody() *Body {
 }
 
 func (b *Body) appendItem(c nodeContent) *node {
+	b.prepareForAppend()
 	nn := b.children.Append(c)
 	b.items.Add(nn)
 	return nn
@@ -32,6 +37,45 @@ func (b *Body) appendItemNode(nn *node) *node {
 	return nn
 }
 
+// prepareForAppend inserts whatever newlines are needed for the body to be
+// ready to have a new item, which must be on a line of its own, added at the
+// end of it.
+func (b *Body) prepareForAppend() {
+	tokens := b.children.BuildTokens(nil)
+	endsLine := func(t *Token) bool {
+		return len(t.Bytes) > 0 && t.Bytes[len(t.Bytes)-1] == '\n'
+	}
+
+	if b.afterBrace {
+		i := 0
+		for i < len(tokens) && tokens[i].Type == hclsyntax.TokenComment && !endsLine(tokens[i]) {
+			i++
+		}
+		if i == len(tokens) || !endsLine(tokens[i]) {
+			b.children.Prepend(newlineTokens())
+		}
+	}
+
+	for i := len(tokens) - 1; i >= 0; i-- {
+		if tokens[i].Type == hclsyntax.TokenEOF {
+			continue
+		}
+		if !endsLine(tokens[i]) {
+			b.AppendNewline()
+		}
+		break
+	}
+}
+
+func newlineTokens() Tokens {
+	return Tokens{
+		{
+			Type:  hclsyntax.TokenNewline,
+			Bytes: []byte{'\n'},
+		},
+	}
+}
+
 // Clear removes all of the items from the body, making it empty.
 func (b *Body) Clear() {
 	b.children.Clear()
diff --git a/hclwrite/node.go b/hclwrite/node.go
index 71fd00f..d41a04a 100644
--- a/hclwrite/node.go
+++ b/hclwrite/node.go
@@ -118,6 +118,19 @@ func (ns *nodes) Append(c nodeContent) *node {
 	return n
 }
 
+func (ns *nodes) Prepend(c nodeContent) *node {
+	n := newNode(c)
+	n.list = ns
+	n.after = ns.first
+	if ns.first != nil {
+		ns.first.before = n
+	} else {
+		ns.last = n
+	}
+	ns.first = n
+	return n
+}
+
 func (ns *nodes) AppendNode(n *node) {
 	if ns.last != nil {
 		n.before = ns.last
diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index 4680011..de5568f 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -335,6 +335,7 @@ func parseBlock(nativeBlock *hclsyntax.Block, from, leadComments, lineComments,
 	before, body, after := parseBody(nativeBlock.Body, bodyTokens)
 	children.AppendUnstructuredTokens(before.Tokens())
 	block.body = body
+	block.Body().afterBrace = true
 	children.AppendNode(body)
 	children.AppendUnstructuredTokens(after.Tokens())
 
-- 
2.43.0


From cd141e45c24582dc57aa364e9b47381d02a40d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:01 +0000
Subject: [PATCH 25/64] fix: packed expression source must cover the whole
 expression

---
 hclpack/pack_native.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/hclpack/pack_native.go b/hclpack/pack_native.go
index 05f67a6..eabbb0f 100644
--- a/hclpack/pack_native.go
+++ b/hclpack/pack_native.go
@@ -17,10 +17,26 @@ func PackNativeFile(src []byte, filename string, start hcl.Pos) (*Body, hcl.Diag
 	return packNativeBody(rootBody, src), diags
 }
 
+// nativeExprRange returns the range of all of the source code of the given
+// attribute's expression. This can be more than the range of the expression
+// itself, which excludes parentheses and the operand of an index or splat.
+func nativeExprRange(attr *hclsyntax.Attribute, src []byte) hcl.Range {
+	start := attr.EqualsRange.End
+	for start.Byte < len(src) && (src[start.Byte] == ' ' || src[start.Byte] == '\t') {
+		start.Byte++
+		start.Column++
+	}
+	return hcl.Range{
+		Filename: attr.SrcRange.Filename,
+		Start:    start,
+		End:      attr.SrcRange.End,
+	}
+}
+
 func packNativeBody(body *hclsyntax.Body, src []byte) *Body {
 	ret := &Body{}
 	for name, attr := range body.Attributes {
-		exprRng := attr.Expr.Range()
+		exprRng := nativeExprRange(attr, src)
 		exprStartRng := attr.Expr.StartRange()
 		exprSrc := exprRng.SliceBytes(src)
 		ret.setAttribute(name, Attribute{
-- 
2.43.0


From aa43640dd6acd78aad73ba2ffa18435f36747a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:04 +0000
Subject: [PATCH 26/64] fix: packed heredoc expressions must be terminated by a
 newline to be parsed

---
 hclpack/expression.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hclpack/expression.go b/hclpack/expression.go
index 8fa238b..416233c 100644
--- a/hclpack/expression.go
+++ b/hclpack/expression.go
@@ -93,7 +93,10 @@ func (e *Expression) StartRange() hcl.Range {
 func (e *Expression) Parse() (hcl.Expression, hcl.Diagnostics) {
 	switch e.SourceType {
 	case ExprNative:
-		return hclsyntax.ParseExpression(e.Source, e.Range_.Filename, e.Range_.Start)
+		// The end marker of a heredoc template is recognized only if it is
+		// followed by a newline, which isn't included in the source.
+		src := append(append(make([]byte, 0, len(e.Source)+1), e.Source...), '\n')
+		return hclsyntax.ParseExpression(src, e.Range_.Filename, e.Range_.Start)
 	case ExprTemplate:
 		return hclsyntax.ParseTemplate(e.Source, e.Range_.Filename, e.Range_.Start)
 	case ExprLiteralJSON:
-- 
2.43.0


From 4ffaa1eeba5db7d180251e7fd6ae9c3539348e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:06 +0000
Subject: [PATCH 27/64] fix: pack native source that does not start at byte
 zero

---
 hclpack/pack_native.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/hclpack/pack_native.go b/hclpack/pack_native.go
index eabbb0f..eeb30f3 100644
--- a/hclpack/pack_native.go
+++ b/hclpack/pack_native.go
@@ -14,15 +14,15 @@ import (
 func PackNativeFile(src []byte, filename string, start hcl.Pos) (*Body, hcl.Diagnostics) {
 	f, diags := hclsyntax.ParseConfig(src, filename, start)
 	rootBody := f.Body.(*hclsyntax.Body)
-	return packNativeBody(rootBody, src), diags
+	return packNativeBody(rootBody, src, start.Byte), diags
 }
 
 // nativeExprRange returns the range of all of the source code of the given
 // attribute's expression. This can be more than the range of the expression
 // itself, which excludes parentheses and the operand of an index or splat.
-func nativeExprRange(attr *hclsyntax.Attribute, src []byte) hcl.Range {
+func nativeExprRange(attr *hclsyntax.Attribute, src []byte, srcOfs int) hcl.Range {
 	start := attr.EqualsRange.End
-	for start.Byte < len(src) && (src[start.Byte] == ' ' || src[start.Byte] == '\t') {
+	for i := start.Byte - srcOfs; i < len(src) && (src[i] == ' ' || src[i] == '\t'); i++ {
 		start.Byte++
 		start.Column++
 	}
@@ -33,12 +33,17 @@ func nativeExprRange(attr *hclsyntax.Attribute, src []byte) hcl.Range {
 	}
 }
 
-func packNativeBody(body *hclsyntax.Body, src []byte) *Body {
+// packNativeBody packs the given body. The given source code is the text the
+// body was parsed from and srcOfs is the byte offset it was parsed with.
+func packNativeBody(body *hclsyntax.Body, src []byte, srcOfs int) *Body {
 	ret := &Body{}
 	for name, attr := range body.Attributes {
-		exprRng := nativeExprRange(attr, src)
+		exprRng := nativeExprRange(attr, src, srcOfs)
 		exprStartRng := attr.Expr.StartRange()
-		exprSrc := exprRng.SliceBytes(src)
+		sliceRng := exprRng
+		sliceRng.Start.Byte -= srcOfs
+		sliceRng.End.Byte -= srcOfs
+		exprSrc := sliceRng.SliceBytes(src)
 		ret.setAttribute(name, Attribute{
 			Expr: Expression{
 				Source:     exprSrc,
@@ -53,7 +58,7 @@ func packNativeBody(body *hclsyntax.Body, src []byte) *Body {
 	}
 
 	for _, block := range body.Blocks {
-		childBody := packNativeBody(block.Body, src)
+		childBody := packNativeBody(block.Body, src, srcOfs)
 		defRange := block.TypeRange
 		if len(block.LabelRanges) > 0 {
 			defRange = hcl.RangeBetween(defRange, block.LabelRanges[len(block.LabelRanges)-1])
-- 
2.43.0


From 8f7b9fb520ef4d50ac000914153a85374bb0302e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:10 +0000
Subject: [PATCH 28/64] fix: formatting must not write to a shared placeholder
 token

---
 hclwrite/format.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hclwrite/format.go b/hclwrite/format.go
index 7111ebd..acd5f6d 100644
--- a/hclwrite/format.go
+++ b/hclwrite/format.go
@@ -121,7 +121,9 @@ func formatSpaces(lines []formatLine) {
 			} else {
 				after = nilToken
 			}
-			if spaceAfterToken(token, before, after) {
+			if after == nilToken {
+				// There is no following token to adjust
+			} else if spaceAfterToken(token, before, after) {
 				after.SpacesBefore = 1
 			} else {
 				after.SpacesBefore = 0
@@ -145,7 +147,9 @@ func formatSpaces(lines []formatLine) {
 			} else {
 				after = nilToken
 			}
-			if spaceAfterToken(token, before, after) {
+			if after == nilToken {
+				// There is no following token to adjust
+			} else if spaceAfterToken(token, before, after) {
 				after.SpacesBefore = 1
 			} else {
 				after.SpacesBefore = 0
-- 
2.43.0


From 6100f4dd1f3e0d59e35f07208a5157b83a470516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:52 +0000
Subject: [PATCH 29/64] fix: ranges that only touch do not overlap

---
 hcl/pos.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hcl/pos.go b/hcl/pos.go
index 06db8bf..97da79b 100644
--- a/hcl/pos.go
+++ b/hcl/pos.go
@@ -202,9 +202,7 @@ func (r Range) Overlaps(other Range) bool {
 	case r.Empty() || other.Empty():
 		// Empty ranges can never overlap
 		return false
-	case r.ContainsOffset(other.Start.Byte) || r.ContainsOffset(other.End.Byte):
-		return true
-	case other.ContainsOffset(r.Start.Byte) || other.ContainsOffset(r.End.Byte):
+	case r.ContainsOffset(other.Start.Byte) || other.ContainsOffset(r.Start.Byte):
 		return true
 	default:
 		return false
-- 
2.43.0


From 03e804eaec9f6b4011dafb9b4edde8efdcf212b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:15 +0000
Subject: [PATCH 30/64] fix: RangeScanner miscounts columns at internal buffer
 boundaries

---
 hcl/pos_scanner.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hcl/pos_scanner.go b/hcl/pos_scanner.go
index de5bfb8..a49fc58 100644
--- a/hcl/pos_scanner.go
+++ b/hcl/pos_scanner.go
@@ -2,7 +2,6 @@ package hcl
 
 import (
 	"bufio"
-	"bytes"
 
 	"github.com/apparentlymart/go-textseg/textseg"
 )
@@ -99,12 +98,13 @@ func (sc *RangeScanner) Scan() bool {
 	// We now need to scan over our token to count the grapheme clusters
 	// so we can correctly advance Column, and count the newlines so we
 	// can correctly advance Line.
-	advR := bytes.NewReader(adv)
-	gsc := bufio.NewScanner(advR)
 	advanced := 0
-	gsc.Split(textseg.ScanGraphemeClusters)
-	for gsc.Scan() {
-		gr := gsc.Bytes()
+	for len(adv) > 0 {
+		// We have the whole buffer in memory already, so we split it directly
+		// rather than through a bufio.Scanner, which would split any grapheme
+		// cluster that straddles the end of its internal buffer.
+		n, gr, _ := textseg.ScanGraphemeClusters(adv, true)
+		adv = adv[n:]
 		new.Byte += len(gr)
 		new.Column++
 
-- 
2.43.0


From 9f4ac11323925466c894f3ef2c0e6fda6339fd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:23 +0000
Subject: [PATCH 31/64] fix: give an incomplete function call a close
 parenthesis range

---
 hcl/hclsyntax/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/parser.go b/hcl/hclsyntax/parser.go
index ef79256..59251d4 100644
--- a/hcl/hclsyntax/parser.go
+++ b/hcl/hclsyntax/parser.go
@@ -1121,7 +1121,7 @@ Token:
 			// if there was a parse error in the argument then we've
 			// probably been left in a weird place in the token stream,
 			// so we'll bail out with a partial argument list.
-			p.recover(TokenCParen)
+			closeTok = p.recover(TokenCParen)
 			break Token
 		}
 
-- 
2.43.0


From 4f3511d5f5b43b883c49049153d2260c1be3b96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:54 +0000
Subject: [PATCH 32/64] fix: a splat of the null literal is an empty tuple, not
 an unknown value

---
 hcl/hclsyntax/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 236235c..d2cf528 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -1273,7 +1273,7 @@ func (e *SplatExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 	}
 
 	sourceTy := sourceVal.Type()
-	if sourceTy == cty.DynamicPseudoType {
+	if sourceTy == cty.DynamicPseudoType && !sourceVal.IsNull() {
 		// If we don't even know the _type_ of our source value yet then
 		// we'll need to defer all processing, since we can't decide our
 		// result type either.
-- 
2.43.0


From 96c0998adf0b8ee735fc32cb833d58874b744fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:06 +0000
Subject: [PATCH 33/64] fix: nested splat over a list with a null element
 panics

---
 hcl/hclsyntax/expression.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index d2cf528..ba140f9 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -1380,6 +1380,18 @@ func (e *SplatExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 			diags = append(diags, tyDiags...)
 			return cty.ListValEmpty(ty.ElementType()), diags
 		}
+		ety := cty.DynamicPseudoType
+		for _, val := range vals {
+			switch {
+			case ety == cty.DynamicPseudoType:
+				ety = val.Type()
+			case val.Type() != cty.DynamicPseudoType && !val.Type().Equals(ety):
+				// A nested splat can produce a different number of elements
+				// for a null item than for others, in which case the results
+				// do not all have the same type and so can't be in a list.
+				return cty.TupleVal(vals), diags
+			}
+		}
 		return cty.ListVal(vals), diags
 	default:
 		return cty.TupleVal(vals), diags
-- 
2.43.0


From 3eb7cc22c2281059a953468262148537dcac9576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:31 +0000
Subject: [PATCH 34/64] fix: conditional with partly unknown result types
 promises a wrong type

---
 hcl/hclsyntax/expression.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index ba140f9..6a40568 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -500,6 +500,11 @@ func (e *ConditionalExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostic
 		// the final resultType type is still unknown
 		// we don't need to get the conversion, because both are a noop.
 
+	case trueResult.Type().HasDynamicTypes() && !trueResult.IsWhollyKnown(),
+		falseResult.Type().HasDynamicTypes() && !falseResult.IsWhollyKnown():
+		// Likewise if a part of either type is still unknown, since unifying
+		// would take the type of that part from the other result.
+
 	default:
 		// Try to find a type that both results can be converted to.
 		resultType, convs = convert.UnifyUnsafe([]cty.Type{trueResult.Type(), falseResult.Type()})
-- 
2.43.0


From 0907d9ab569fd83f001ec5eac651cf92fb2d7027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:04 +0000
Subject: [PATCH 35/64] fix: JustAttributes of a packed body gives all
 attributes the same expression

---
 hclpack/structure.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hclpack/structure.go b/hclpack/structure.go
index 488a99e..d3a20e7 100644
--- a/hclpack/structure.go
+++ b/hclpack/structure.go
@@ -195,10 +195,12 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 	var diags hcl.Diagnostics
 	if len(b.ChildBlocks) > 0 {
 		for _, block := range b.ChildBlocks {
+			block := block // the diagnostic must refer to this block only
 			diags = append(diags, &hcl.Diagnostic{
 				Severity: hcl.DiagError,
 				Summary:  fmt.Sprintf("Unexpected %s block", block.Type),
 				Detail:   "Blocks are not allowed here.",
+				Subject:  &block.TypeRange,
 				Context:  &block.TypeRange,
 			})
 		}
@@ -212,6 +214,7 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 
 	ret := make(hcl.Attributes, len(b.Attributes))
 	for n, a := range b.Attributes {
+		a := a // each attribute needs its own expression to refer to
 		ret[n] = a.asHCLAttribute(n)
 	}
 	return ret, diags
-- 
2.43.0


From 16640cc077885388b53bf96e8c62b7886e75e833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:11 +0000
Subject: [PATCH 36/64] fix: an expanded body must report problems with what
 remains only

---
 ext/dynblock/expand_body.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ext/dynblock/expand_body.go b/ext/dynblock/expand_body.go
index ea19850..880c838 100644
--- a/ext/dynblock/expand_body.go
+++ b/ext/dynblock/expand_body.go
@@ -27,6 +27,7 @@ type expandBody struct {
 }
 
 func (b *expandBody) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diagnostics) {
+	b = b.withoutHidden()
 	extSchema := b.extendSchema(schema)
 	rawContent, diags := b.original.Content(extSchema)
 
@@ -44,6 +45,7 @@ func (b *expandBody) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diag
 }
 
 func (b *expandBody) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Body, hcl.Diagnostics) {
+	b = b.withoutHidden()
 	extSchema := b.extendSchema(schema)
 	rawContent, _, diags := b.original.PartialContent(extSchema)
 	// We discard the "remain" argument above because we're going to construct
@@ -82,6 +84,26 @@ func (b *expandBody) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, h
 	return content, remain, diags
 }
 
+// withoutHidden returns the receiver with the items already consumed by a
+// previous PartialContent call removed from its original body, so that the
+// original body will report neither problems with these items again nor
+// overlook that a consumed attribute is missing now.
+func (b *expandBody) withoutHidden() *expandBody {
+	if len(b.hiddenAttrs) == 0 && len(b.hiddenBlocks) == 0 {
+		return b
+	}
+	hidden := &hcl.BodySchema{}
+	for name := range b.hiddenAttrs {
+		hidden.Attributes = append(hidden.Attributes, hcl.AttributeSchema{Name: name})
+	}
+	for _, blockS := range b.hiddenBlocks {
+		hidden.Blocks = append(hidden.Blocks, blockS)
+	}
+	ret := *b
+	_, ret.original, _ = b.original.PartialContent(hidden)
+	return &ret
+}
+
 func (b *expandBody) extendSchema(schema *hcl.BodySchema) *hcl.BodySchema {
 	// We augment the requested schema to also include our special "dynamic"
 	// block type, since then we'll get instances of it interleaved with
-- 
2.43.0


From db716290fa47d83c5cba1776bc46b30e5754514a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:03 +0000
Subject: [PATCH 37/64] fix: error range of an unclosed JSON string must not
 extend beyond it

---
 hcl/json/parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hcl/json/parser.go b/hcl/json/parser.go
index d368ea8..a23c0df 100644
--- a/hcl/json/parser.go
+++ b/hcl/json/parser.go
@@ -421,6 +421,15 @@ func parseString(p *peeker) (node, hcl.Diagnostics) {
 				Start:    errPos,
 				End:      errEndPos,
 			}
+
+			// The problem might be that the string ends too early, in which
+			// case our range must not extend beyond it.
+			if errRange.Start.Byte > tok.Range.End.Byte {
+				errRange.Start = tok.Range.End
+			}
+			if errRange.End.Byte > tok.Range.End.Byte {
+				errRange.End = tok.Range.End
+			}
 		} else {
 			errRange = tok.Range
 		}
-- 
2.43.0


From 499075ca95eb0791afda4c3a9ba694990002e039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:41 +0000
Subject: [PATCH 38/64] fix: formatting must not merge two legacy index steps
 into a number

---
 hclwrite/format.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hclwrite/format.go b/hclwrite/format.go
index acd5f6d..39c95e1 100644
--- a/hclwrite/format.go
+++ b/hclwrite/format.go
@@ -239,6 +239,11 @@ func spaceAfterToken(subject, before, after *Token) bool {
 		// Don't split a function name from open paren in a call
 		return false
 
+	case subject.Type == hclsyntax.TokenDot && before.Type == hclsyntax.TokenNumberLit && after.Type == hclsyntax.TokenNumberLit:
+		// Keep a legacy index from merging with the next one, because foo.0.1
+		// would be read as foo followed by the fractional number 0.1.
+		return true
+
 	case subject.Type == hclsyntax.TokenDot || after.Type == hclsyntax.TokenDot:
 		// Don't use spaces around attribute access dots
 		return false
-- 
2.43.0


From dc76a08561380f7f821bf6b0315e2a2b271be4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:23 +0000
Subject: [PATCH 39/64] fix: appending a newline to a single-line block must
 keep the file valid

---
 hclwrite/ast_body.go | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index c7246c2..8f6f925 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -42,18 +42,8 @@ func (b *Body) appendItemNode(nn *node) *node {
 // end of it.
 func (b *Body) prepareForAppend() {
 	tokens := b.children.BuildTokens(nil)
-	endsLine := func(t *Token) bool {
-		return len(t.Bytes) > 0 && t.Bytes[len(t.Bytes)-1] == '\n'
-	}
-
-	if b.afterBrace {
-		i := 0
-		for i < len(tokens) && tokens[i].Type == hclsyntax.TokenComment && !endsLine(tokens[i]) {
-			i++
-		}
-		if i == len(tokens) || !endsLine(tokens[i]) {
-			b.children.Prepend(newlineTokens())
-		}
+	if b.afterBrace && !b.startsOnNewLine(tokens, false) {
+		b.children.Prepend(newlineTokens())
 	}
 
 	for i := len(tokens) - 1; i >= 0; i-- {
@@ -67,6 +57,25 @@ func (b *Body) prepareForAppend() {
 	}
 }
 
+// startsOnNewLine returns true if the given tokens of the body begin with a
+// newline, apart from comments. If there is nothing but comments then the
+// result is as given in "ifEmpty".
+func (b *Body) startsOnNewLine(tokens Tokens, ifEmpty bool) bool {
+	for _, t := range tokens {
+		if endsLine(t) {
+			return true
+		}
+		if t.Type != hclsyntax.TokenComment {
+			return false
+		}
+	}
+	return ifEmpty
+}
+
+func endsLine(t *Token) bool {
+	return len(t.Bytes) > 0 && t.Bytes[len(t.Bytes)-1] == '\n'
+}
+
 func newlineTokens() Tokens {
 	return Tokens{
 		{
@@ -189,6 +198,10 @@ func (b *Body) AppendNewBlock(typeName string, labels []string) *Block {
 // which generally serves as a separator between different sets of body
 // contents.
 func (b *Body) AppendNewline() {
+	if b.afterBrace && !b.startsOnNewLine(b.children.BuildTokens(nil), true) {
+		// A block that was written on a single line can't stay that way
+		b.children.Prepend(newlineTokens())
+	}
 	b.AppendUnstructuredTokens(Tokens{
 		{
 			Type:  hclsyntax.TokenNewline,
-- 
2.43.0


From 50ba36115ddab115d4412eb2d9a9b9b7a9e05d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:54:57 +0000
Subject: [PATCH 40/64] fix: a string that starts with a byte order mark is not
 a valid identifier

---
 hcl/hclsyntax/public.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hcl/hclsyntax/public.go b/hcl/hclsyntax/public.go
index cf0ee29..9cf7e62 100644
--- a/hcl/hclsyntax/public.go
+++ b/hcl/hclsyntax/public.go
@@ -167,5 +167,9 @@ func ValidIdentifier(s string) bool {
 	// is easiest to do with our existing scanner-related infrastructure here
 	// and nobody should be validating identifiers in a tight loop.
 	tokens := scanTokens([]byte(s), "", hcl.Pos{}, scanIdentOnly)
+	if len(tokens[0].Bytes) != len(s) {
+		// The scanner skips a byte order mark, which is not part of the name.
+		return false
+	}
 	return len(tokens) == 2 && tokens[0].Type == TokenIdent && tokens[1].Type == TokenEOF
 }
-- 
2.43.0


From 23f7eaf3324fbdbc61f55397673c472ee6a1a224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:00 +0000
Subject: [PATCH 41/64] fix: a required attribute that a schema mentions twice
 is not missing

---
 hcl/hclsyntax/structure.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hcl/hclsyntax/structure.go b/hcl/hclsyntax/structure.go
index 2e8c302..dcc7467 100644
--- a/hcl/hclsyntax/structure.go
+++ b/hcl/hclsyntax/structure.go
@@ -147,6 +147,9 @@ func (b *Body) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Bod
 		name := attrS.Name
 		attr, exists := b.Attributes[name]
 		_, hidden := hiddenAttrs[name]
+		if _, done := attrs[name]; done {
+			continue // schema mentions this attribute more than once
+		}
 		if hidden || !exists {
 			if attrS.Required {
 				diags = append(diags, &hcl.Diagnostic{
-- 
2.43.0


From c47e74a5fec709d5aafd470d5faad09178a863e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:02 +0000
Subject: [PATCH 42/64] fix: decoding blocks with some values of unknown type
 must not panic

---
 hcldec/spec.go | 89 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 89 insertions(+)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index f9da7f6..caae3f7 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -515,6 +515,17 @@ func (s *BlockListSpec) decode(content *hcl.BodyContent, blockLabels []blockLabe
 				elems[i] = newV
 			}
 		}
+		if ok, err := unifyTyped(elems); err != nil {
+			diags = append(diags, &hcl.Diagnostic{
+				Severity: hcl.DiagError,
+				Summary:  fmt.Sprintf("Unconsistent argument types in %s blocks", s.TypeName),
+				Detail:   fmt.Sprintf("Corresponding attributes in all blocks of this type must be the same: %s.", err),
+				Subject:  &sourceRanges[0],
+			})
+			return cty.DynamicVal, diags
+		} else if !ok {
+			return cty.DynamicVal, diags
+		}
 
 		ret = cty.ListVal(elems)
 	}
@@ -789,6 +800,17 @@ func (s *BlockSetSpec) decode(content *hcl.BodyContent, blockLabels []blockLabel
 				elems[i] = newV
 			}
 		}
+		if ok, err := unifyTyped(elems); err != nil {
+			diags = append(diags, &hcl.Diagnostic{
+				Severity: hcl.DiagError,
+				Summary:  fmt.Sprintf("Unconsistent argument types in %s blocks", s.TypeName),
+				Detail:   fmt.Sprintf("Corresponding attributes in all blocks of this type must be the same: %s.", err),
+				Subject:  &sourceRanges[0],
+			})
+			return cty.DynamicVal, diags
+		} else if !ok {
+			return cty.DynamicVal, diags
+		}
 
 		ret = cty.SetVal(elems)
 	}
@@ -1238,6 +1260,34 @@ func (s *BlockAttrsSpec) decode(content *hcl.BodyContent, blockLabels []blockLab
 		vals[name] = attrVal
 	}
 
+	if len(vals) > 1 {
+		// If the element type is not completely known then the values can have
+		// different types, which must all be convertible to a single type.
+		names := make([]string, 0, len(vals))
+		for name := range vals {
+			names = append(names, name)
+		}
+		sort.Strings(names)
+		elems := make([]cty.Value, len(names))
+		for i, name := range names {
+			elems[i] = vals[name]
+		}
+		if ok, err := unifyTyped(elems); err != nil {
+			diags = append(diags, &hcl.Diagnostic{
+				Severity: hcl.DiagError,
+				Summary:  fmt.Sprintf("Unconsistent argument types in %s block", s.TypeName),
+				Detail:   fmt.Sprintf("All attributes in this block must have the same type: %s.", err),
+				Subject:  &block.DefRange,
+			})
+			return cty.DynamicVal, diags
+		} else if !ok {
+			return cty.DynamicVal, diags
+		}
+		for i, name := range names {
+			vals[name] = elems[i]
+		}
+	}
+
 	return cty.MapVal(vals), diags
 }
 
@@ -1541,6 +1591,45 @@ func (s *TransformFuncSpec) sourceRange(content *hcl.BodyContent, blockLabels []
 	return s.Wrapped.sourceRange(content, blockLabels)
 }
 
+// unifyTyped converts those of the given values whose types are known to a
+// single type, in place, so that they can be elements of the same collection.
+// The first result is false if that single type depends on unknown values.
+func unifyTyped(vals []cty.Value) (bool, error) {
+	var tys []cty.Type
+	var idxs []int
+	known := true
+	for i, v := range vals {
+		known = known && v.IsWhollyKnown()
+		if v.Type() != cty.DynamicPseudoType {
+			tys = append(tys, v.Type())
+			idxs = append(idxs, i)
+		}
+	}
+	if len(tys) == 0 {
+		return true, nil
+	}
+	ty, convs := convert.UnifyUnsafe(tys)
+	if ty == cty.NilType {
+		return true, fmt.Errorf("no single type is suitable for all values")
+	}
+	for i, idx := range idxs {
+		if convs[i] != nil {
+			v, err := convs[i](vals[idx])
+			if err != nil {
+				return true, err
+			}
+			vals[idx] = v
+		}
+		if !vals[idx].Type().Equals(vals[idxs[0]].Type()) {
+			if known {
+				return true, fmt.Errorf("no single type is suitable for all values")
+			}
+			return false, nil
+		}
+	}
+	return true, nil
+}
+
 // noopSpec is a placeholder spec that does nothing, used in situations where
 // a non-nil placeholder spec is required. It is not exported because there is
 // no reason to use it directly; it is always an implementation detail only.
-- 
2.43.0


From 2d30ef6a78c861d7f6fb6158c1a04d9e3cc845ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:28:32 +0000
Subject: [PATCH 43/64] fix: the source range of a label nested in a block map
 is that of the label

---
 hcldec/spec.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index caae3f7..106ae35 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -985,6 +985,12 @@ func (s *BlockMapSpec) sourceRange(content *hcl.BodyContent, blockLabels []block
 		return content.MissingItemRange
 	}
 
+	// The leading labels are keys, which are not visible to the nested spec.
+	nested := *childBlock
+	nested.Labels = nested.Labels[len(s.LabelNames):]
+	nested.LabelRanges = nested.LabelRanges[len(s.LabelNames):]
+	childBlock = &nested
+
 	return sourceRange(childBlock.Body, labelsForBlock(childBlock), s.Nested)
 }
 
@@ -1129,6 +1135,12 @@ func (s *BlockObjectSpec) sourceRange(content *hcl.BodyContent, blockLabels []bl
 		return content.MissingItemRange
 	}
 
+	// The leading labels are keys, which are not visible to the nested spec.
+	nested := *childBlock
+	nested.Labels = nested.Labels[len(s.LabelNames):]
+	nested.LabelRanges = nested.LabelRanges[len(s.LabelNames):]
+	childBlock = &nested
+
 	return sourceRange(childBlock.Body, labelsForBlock(childBlock), s.Nested)
 }
 
-- 
2.43.0


From b2163830396e37aef9e35498f9d5483d2f9012aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:28 +0000
Subject: [PATCH 44/64] fix: encoding ignores fields of undecoded attributes

---
 gohcl/encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gohcl/encode.go b/gohcl/encode.go
index 3cbf7e4..c0306f1 100644
--- a/gohcl/encode.go
+++ b/gohcl/encode.go
@@ -114,6 +114,9 @@ func populateBody(rv reflect.Value, ty reflect.Type, tags *fieldTags, dst *hclwr
 
 		if _, isAttr := tags.Attributes[name]; isAttr {
 
+			if attrType.AssignableTo(field.Type) {
+				continue // ignore undecoded fields
+			}
 			if exprType.AssignableTo(fieldTy) || attrType.AssignableTo(fieldTy) {
 				continue // ignore undecoded fields
 			}
-- 
2.43.0


From b3c59a238d058c17cd7d392b182186067a545480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:59:18 +0000
Subject: [PATCH 45/64] fix: a call whose final argument is expanded is not a
 static call

---
 hcl/hclsyntax/expression.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 6a40568..cce2cbd 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -444,6 +444,10 @@ func (e *FunctionCallExpr) StartRange() hcl.Range {
 
 // Implementation for hcl.ExprCall.
 func (e *FunctionCallExpr) ExprCall() *hcl.StaticCall {
+	if e.ExpandFinal {
+		// The arguments are then known only when the final one is evaluated.
+		return nil
+	}
 	ret := &hcl.StaticCall{
 		Name:      e.Name,
 		NameRange: e.NameRange,
-- 
2.43.0


From 69c7b62f1ac5f188de54c4d194283ee9e7227d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:59:28 +0000
Subject: [PATCH 46/64] fix: the written form of an object type must not start
 with a for keyword

---
 ext/typeexpr/public.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ext/typeexpr/public.go b/ext/typeexpr/public.go
index e3f5eef..8b778cb 100644
--- a/ext/typeexpr/public.go
+++ b/ext/typeexpr/public.go
@@ -83,6 +83,10 @@ func TypeString(ty cty.Type) string {
 			names = append(names, name)
 		}
 		sort.Strings(names)
+		if len(names) > 1 && names[0] == "for" {
+			// At the start of the braces this would introduce a for expression.
+			names = append(names[1:], "for")
+		}
 		first := true
 		for _, name := range names {
 			aty := atys[name]
-- 
2.43.0


From 3d1fcaaef5ea120a988c4128eb47ad6b7c28480d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:08 +0000
Subject: [PATCH 47/64] fix: includes from a file named absolutely are relative
 to that file

---
 ext/include/file_resolver.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ext/include/file_resolver.go b/ext/include/file_resolver.go
index 0e63597..35055d9 100644
--- a/ext/include/file_resolver.go
+++ b/ext/include/file_resolver.go
@@ -24,6 +24,13 @@ import (
 // file is interpreted as JSON. Otherwise, it is interpreted as HCL native
 // syntax.
 func FileResolver(baseDir string, parser *hclparse.Parser) Resolver {
+	if filepath.Clean(baseDir) != "." {
+		// Included files are then named absolutely, so that they can in turn
+		// be callers.
+		if absDir, err := filepath.Abs(baseDir); err == nil {
+			baseDir = absDir
+		}
+	}
 	return &fileResolver{
 		BaseDir: baseDir,
 		Parser:  parser,
@@ -37,6 +44,9 @@ type fileResolver struct {
 
 func (r fileResolver) ResolveBodyPath(path string, refRange hcl.Range) (hcl.Body, hcl.Diagnostics) {
 	callerFile := filepath.Join(r.BaseDir, refRange.Filename)
+	if filepath.IsAbs(refRange.Filename) {
+		callerFile = refRange.Filename
+	}
 	callerDir := filepath.Dir(callerFile)
 	targetFile := filepath.Join(callerDir, path)
 
-- 
2.43.0


From 667cf51a1f3aeac4d6d66fcb979e0d6b0ea4fae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:24:54 +0000
Subject: [PATCH 48/64] fix: the range of an unterminated label must not end
 before it starts

---
 hcl/hclsyntax/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hcl/hclsyntax/parser.go b/hcl/hclsyntax/parser.go
index 59251d4..c732e1b 100644
--- a/hcl/hclsyntax/parser.go
+++ b/hcl/hclsyntax/parser.go
@@ -1694,6 +1694,7 @@ Token:
 				Subject:  &tok.Range,
 				Context:  hcl.RangeBetween(oQuote.Range, tok.Range).Ptr(),
 			})
+			cQuote = tok
 			break Token
 
 		default:
@@ -1706,6 +1707,7 @@ Token:
 				Context:  hcl.RangeBetween(oQuote.Range, tok.Range).Ptr(),
 			})
 			p.recover(TokenCQuote)
+			cQuote = tok
 			break Token
 
 		}
-- 
2.43.0


From dcc7e0a01a7cbc3bc56a608acaa76144df5aac47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:24:56 +0000
Subject: [PATCH 49/64] fix: parts of an expression in a dynamic block also see
 its iterators

---
 ext/dynblock/expr_wrap.go | 44 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/ext/dynblock/expr_wrap.go b/ext/dynblock/expr_wrap.go
index 6916fc1..75a951a 100644
--- a/ext/dynblock/expr_wrap.go
+++ b/ext/dynblock/expr_wrap.go
@@ -35,6 +35,50 @@ func (e exprWrap) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 	return e.Expression.Value(extCtx)
 }
 
+// ExprList, ExprMap and ExprCall implement static analysis of the wrapped
+// expression, such that its parts also have access to the iterators.
+
+func (e exprWrap) ExprList() []hcl.Expression {
+	exprs, diags := hcl.ExprList(e.Expression)
+	if diags.HasErrors() {
+		return nil
+	}
+	return e.wrapAll(exprs)
+}
+
+func (e exprWrap) ExprMap() []hcl.KeyValuePair {
+	pairs, diags := hcl.ExprMap(e.Expression)
+	if diags.HasErrors() {
+		return nil
+	}
+	ret := make([]hcl.KeyValuePair, len(pairs))
+	for i, pair := range pairs {
+		ret[i] = hcl.KeyValuePair{
+			Key:   exprWrap{pair.Key, e.i},
+			Value: exprWrap{pair.Value, e.i},
+		}
+	}
+	return ret
+}
+
+func (e exprWrap) ExprCall() *hcl.StaticCall {
+	call, diags := hcl.ExprCall(e.Expression)
+	if diags.HasErrors() {
+		return nil
+	}
+	ret := *call
+	ret.Arguments = e.wrapAll(call.Arguments)
+	return &ret
+}
+
+func (e exprWrap) wrapAll(exprs []hcl.Expression) []hcl.Expression {
+	ret := make([]hcl.Expression, len(exprs))
+	for i, expr := range exprs {
+		ret[i] = exprWrap{expr, e.i}
+	}
+	return ret
+}
+
 // UnwrapExpression returns the expression being wrapped by this instance.
 // This allows the original expression to be recovered by hcl.UnwrapExpression.
 func (e exprWrap) UnwrapExpression() hcl.Expression {
-- 
2.43.0


From ad3fbee972aa25cb3cfec0aef65f12c93c23273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:08:27 +0000
Subject: [PATCH 50/64] fix: hcldec must not crash on a default block with only
 one spec

---
 cmd/hcldec/spec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index c8b90d3..610b1d2 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -523,7 +523,7 @@ func decodeDefaultSpec(body hcl.Body) (hcldec.Spec, hcl.Diagnostics) {
 			Severity: hcl.DiagWarning,
 			Summary:  "Useless default block",
 			Detail:   "A default block with only one spec is equivalent to using that spec alone.",
-			Subject:  &content.Blocks[1].DefRange,
+			Subject:  &content.Blocks[0].DefRange,
 		})
 	}
 
-- 
2.43.0


From dac1ada515336da70ee0c84c0df4603d0f175cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:08:29 +0000
Subject: [PATCH 51/64] fix: hcldec must not crash on a default block without
 any valid spec

---
 cmd/hcldec/spec.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index 610b1d2..402c7da 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -544,6 +544,9 @@ func decodeDefaultSpec(body hcl.Body) (hcldec.Spec, hcl.Diagnostics) {
 			}
 		}
 	}
+	if spec == nil {
+		spec = errSpec
+	}
 
 	return spec, diags
 }
-- 
2.43.0


From 21a1c697d072b66cb97d07367a1423f6e5d0cddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:08:32 +0000
Subject: [PATCH 52/64] fix: hcldec must accept the documented block_attrs spec

---
 cmd/hcldec/spec.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index 402c7da..755a76c 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -612,6 +612,7 @@ var specBlockTypes = []string{
 	"block_list",
 	"block_map",
 	"block_set",
+	"block_attrs",
 
 	"default",
 	"transform",
-- 
2.43.0


From 4b828733405fb163bba9c3e95665c72dbe0cb539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:47 +0000
Subject: [PATCH 53/64] fix: hcldec must require block_type in a block spec

---
 cmd/hcldec/spec.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index 755a76c..570cb2c 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -256,6 +256,16 @@ func decodeBlockSpec(body hcl.Body, impliedName string) (hcldec.Spec, hcl.Diagno
 	diags = append(diags, nestedDiags...)
 	spec.Nested = nested
 
+	if spec.TypeName == "" {
+		diags = append(diags, &hcl.Diagnostic{
+			Severity: hcl.DiagError,
+			Summary:  "Missing block_type in block spec",
+			Detail:   "The block_type attribute is required, to specify the block type name that is expected in an input HCL file.",
+			Subject:  body.MissingItemRange().Ptr(),
+		})
+		return errSpec, diags
+	}
+
 	return spec, diags
 }
 
-- 
2.43.0


From 3661b22c70bf192d2c76535e2e039a9c14cbb644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:14:01 +0000
Subject: [PATCH 54/64] fix: every decoding specification must be registered
 with gob

---
 hcldec/gob.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hcldec/gob.go b/hcldec/gob.go
index e2027cf..993d72b 100644
--- a/hcldec/gob.go
+++ b/hcldec/gob.go
@@ -20,4 +20,9 @@ func init() {
 	gob.Register((*BlockMapSpec)(nil))
 	gob.Register((*BlockLabelSpec)(nil))
 	gob.Register((*DefaultSpec)(nil))
+	gob.Register((*BlockTupleSpec)(nil))
+	gob.Register((*BlockObjectSpec)(nil))
+	gob.Register((*BlockAttrsSpec)(nil))
+	gob.Register((*TransformExprSpec)(nil))
+	gob.Register((*TransformFuncSpec)(nil))
 }
-- 
2.43.0


From c419bba867b51fe4289fb5f2a1ee51dbc0729da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:14:56 +0000
Subject: [PATCH 55/64] fix: decoding must not write into the label names of a
 specification

---
 hcldec/spec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index 106ae35..7c235e7 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -863,7 +863,7 @@ func (s *BlockMapSpec) blockHeaderSchemata() []hcl.BlockHeaderSchema {
 	return []hcl.BlockHeaderSchema{
 		{
 			Type:       s.TypeName,
-			LabelNames: append(s.LabelNames, findLabelSpecs(s.Nested)...),
+			LabelNames: append(s.LabelNames[:len(s.LabelNames):len(s.LabelNames)], findLabelSpecs(s.Nested)...),
 		},
 	}
 }
@@ -1018,7 +1018,7 @@ func (s *BlockObjectSpec) blockHeaderSchemata() []hcl.BlockHeaderSchema {
 	return []hcl.BlockHeaderSchema{
 		{
 			Type:       s.TypeName,
-			LabelNames: append(s.LabelNames, findLabelSpecs(s.Nested)...),
+			LabelNames: append(s.LabelNames[:len(s.LabelNames):len(s.LabelNames)], findLabelSpecs(s.Nested)...),
 		},
 	}
 }
-- 
2.43.0


From 4e762bcb8a4b82084657d1d57e57fd11fc8306ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:11:02 +0000
Subject: [PATCH 56/64] fix: hcldec must not lose digits of the numbers it
 writes

---
 cmd/hcldec/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/hcldec/main.go b/cmd/hcldec/main.go
index 16dbb03..e8b72c0 100644
--- a/cmd/hcldec/main.go
+++ b/cmd/hcldec/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
@@ -332,7 +333,9 @@ func showVarRefsJSON(vars []hcl.Traversal, ctx *hcl.EvalContext) error {
 
 func stripJSONNullProperties(src []byte) []byte {
 	var v interface{}
-	err := json.Unmarshal(src, &v)
+	dec := json.NewDecoder(bytes.NewReader(src))
+	dec.UseNumber() // a float64 can't hold all of our numbers
+	err := dec.Decode(&v)
 	if err != nil {
 		// We expect valid JSON
 		panic(err)
-- 
2.43.0


From 7966f5bd81e0e6071be3b2827f85dbe7542b30ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:11:05 +0000
Subject: [PATCH 57/64] fix: hcldec --with-type must write the value of a null
 result

---
 cmd/hcldec/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/hcldec/main.go b/cmd/hcldec/main.go
index e8b72c0..e91a19c 100644
--- a/cmd/hcldec/main.go
+++ b/cmd/hcldec/main.go
@@ -208,7 +208,11 @@ func realmain(args []string) error {
 	// that refers to a missing item, but that'll probably be annoying for
 	// a consumer of our output to deal with so we'll just strip those
 	// out and reduce to only the non-null values.
-	out = stripJSONNullProperties(out)
+	// (A null result with type information has no properties of its own: only
+	// the "value" that a consumer will expect next to "type".)
+	if !(*withType && val.IsNull()) {
+		out = stripJSONNullProperties(out)
+	}
 
 	target := os.Stdout
 	if *outputFile != "" {
-- 
2.43.0


From b75f6e2f04bf9564fd9045b72f31ceda1175e253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:38:15 +0000
Subject: [PATCH 58/64] fix: a template over several lines in a heredoc must
 not undo indentation

---
 hclwrite/format.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hclwrite/format.go b/hclwrite/format.go
index 39c95e1..fc63238 100644
--- a/hclwrite/format.go
+++ b/hclwrite/format.go
@@ -69,9 +69,6 @@ func formatIndent(lines []formatLine) {
 		netBrackets := 0
 		for _, token := range line.lead {
 			netBrackets += tokenBracketChange(token)
-			if token.Type == hclsyntax.TokenOHeredoc {
-				break
-			}
 		}
 
 		for _, token := range line.assign {
-- 
2.43.0


From 5a6d6a7c3c84937c612928bb569e8346d36c0145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:32:58 +0000
Subject: [PATCH 59/64] fix: don't suggest arguments that are already set in
 packed bodies

---
 hclpack/structure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hclpack/structure.go b/hclpack/structure.go
index d3a20e7..0036215 100644
--- a/hclpack/structure.go
+++ b/hclpack/structure.go
@@ -84,7 +84,7 @@ func (b *Body) content(schema *hcl.BodySchema, remain *Body) (*hcl.BodyContent,
 		}
 		var suggestions []string
 		for _, attrS := range schema.Attributes {
-			if _, defined := attrs[name]; defined {
+			if _, defined := attrs[attrS.Name]; defined {
 				continue
 			}
 			suggestions = append(suggestions, attrS.Name)
-- 
2.43.0


From 0327aad21eaebd45179c23b52606b1eabe6c34ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:33:03 +0000
Subject: [PATCH 60/64] fix: suggest the right operator in place of bitwise OR

---
 hcl/hclsyntax/token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/token.go b/hcl/hclsyntax/token.go
index 3d898fd..d4f6849 100644
--- a/hcl/hclsyntax/token.go
+++ b/hcl/hclsyntax/token.go
@@ -202,7 +202,7 @@ func checkInvalidTokens(tokens Tokens) hcl.Diagnostics {
 				case TokenBitwiseAnd:
 					suggestion = " Did you mean boolean AND (\"&&\")?"
 				case TokenBitwiseOr:
-					suggestion = " Did you mean boolean OR (\"&&\")?"
+					suggestion = " Did you mean boolean OR (\"||\")?"
 				case TokenBitwiseNot:
 					suggestion = " Did you mean boolean NOT (\"!\")?"
 				}
-- 
2.43.0


From af5dcf9673d42647b7c02b9786bc5be8ae7e8b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:33:06 +0000
Subject: [PATCH 61/64] fix: give the right positions of traversals and calls
 in JSON strings

---
 hcl/json/ast.go       | 9 +++++++++
 hcl/json/structure.go | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/hcl/json/ast.go b/hcl/json/ast.go
index 753bfa0..34be8b0 100644
--- a/hcl/json/ast.go
+++ b/hcl/json/ast.go
@@ -85,6 +85,15 @@ type stringVal struct {
 	SrcRange hcl.Range
 }
 
+// contentStart returns the position just after the opening quote mark.
+func (n *stringVal) contentStart() hcl.Pos {
+	return hcl.Pos{
+		Line:   n.SrcRange.Start.Line,
+		Byte:   n.SrcRange.Start.Byte + 1,
+		Column: n.SrcRange.Start.Column + 1,
+	}
+}
+
 func (n *stringVal) Range() hcl.Range {
 	return n.SrcRange
 }
diff --git a/hcl/json/structure.go b/hcl/json/structure.go
index 74847c7..0681db3 100644
--- a/hcl/json/structure.go
+++ b/hcl/json/structure.go
@@ -569,7 +569,7 @@ func (e *expression) AsTraversal() hcl.Traversal {
 
 	switch v := e.src.(type) {
 	case *stringVal:
-		traversal, diags := hclsyntax.ParseTraversalAbs([]byte(v.Value), v.SrcRange.Filename, v.SrcRange.Start)
+		traversal, diags := hclsyntax.ParseTraversalAbs([]byte(v.Value), v.SrcRange.Filename, v.contentStart())
 		if diags.HasErrors() {
 			return nil
 		}
@@ -586,7 +586,7 @@ func (e *expression) ExprCall() *hcl.StaticCall {
 
 	switch v := e.src.(type) {
 	case *stringVal:
-		expr, diags := hclsyntax.ParseExpression([]byte(v.Value), v.SrcRange.Filename, v.SrcRange.Start)
+		expr, diags := hclsyntax.ParseExpression([]byte(v.Value), v.SrcRange.Filename, v.contentStart())
 		if diags.HasErrors() {
 			return nil
 		}
-- 
2.43.0


From a279129802f7c98454a6c4aa71b9de3a0a588200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:35:34 +0000
Subject: [PATCH 62/64] fix: don't count the start position as spaces when
 parsing a fragment for writing

---
 hclwrite/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index de5568f..407f868 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -45,6 +45,10 @@ func parse(src []byte, filename string, start hcl.Pos) (*File, hcl.Diagnostics)
 	}
 	writerTokens := writerTokens(nativeTokens)
 
+	// The first token's spaces are counted from the start of the source, which
+	// might not be the start of the file.
+	writerTokens[0].SpacesBefore -= start.Byte
+
 	from := inputTokens{
 		nativeTokens: nativeTokens,
 		writerTokens: writerTokens,
-- 
2.43.0


From d9047eb99d24676af942de25479fba239641e814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:34:00 +0000
Subject: [PATCH 63/64] fix: report errors of the writer when writing
 diagnostics as text

---
 hcl/diagnostic_text.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/hcl/diagnostic_text.go b/hcl/diagnostic_text.go
index 0b4a262..c6b2e81 100644
--- a/hcl/diagnostic_text.go
+++ b/hcl/diagnostic_text.go
@@ -45,6 +45,16 @@ func (w *diagnosticTextWriter) WriteDiagnostic(diag *Diagnostic) error {
 		return errors.New("nil diagnostic")
 	}
 
+	// We write in many small pieces below, so we'll use a wrapper that
+	// remembers the first error and writes nothing more after it.
+	ew := &errorWriter{wr: w.wr}
+	w = &diagnosticTextWriter{
+		files: w.files,
+		wr:    ew,
+		width: w.width,
+		color: w.color,
+	}
+
 	var colorCode, highlightCode, resetCode string
 	if w.color {
 		switch diag.Severity {
@@ -202,7 +212,7 @@ func (w *diagnosticTextWriter) WriteDiagnostic(diag *Diagnostic) error {
 		fmt.Fprintf(w.wr, "%s\n\n", detail)
 	}
 
-	return nil
+	return ew.err
 }
 
 func (w *diagnosticTextWriter) WriteDiagnostics(diags Diagnostics) error {
@@ -309,3 +319,19 @@ func contextString(file *File, offset int) string {
 	}
 	return ""
 }
+
+// errorWriter is a writer that passes on what is written to it until there is
+// an error, and then keeps returning that error.
+type errorWriter struct {
+	wr  io.Writer
+	err error
+}
+
+func (w *errorWriter) Write(buf []byte) (int, error) {
+	if w.err != nil {
+		return 0, w.err
+	}
+	var n int
+	n, w.err = w.wr.Write(buf)
+	return n, w.err
+}
-- 
2.43.0


From b408dcb3cd169b0b6909fce3234c726c17d1a8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:34:03 +0000
Subject: [PATCH 64/64] fix: hcldec: report a failure to write the result

---
 cmd/hcldec/main.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cmd/hcldec/main.go b/cmd/hcldec/main.go
index e91a19c..a7ec744 100644
--- a/cmd/hcldec/main.go
+++ b/cmd/hcldec/main.go
@@ -222,9 +222,8 @@ func realmain(args []string) error {
 		}
 	}
 
-	fmt.Fprintf(target, "%s\n", out)
-
-	return nil
+	_, err = fmt.Fprintf(target, "%s\n", out)
+	return err
 }
 
 func usage() {
@@ -330,9 +329,8 @@ func showVarRefsJSON(vars []hcl.Traversal, ctx *hcl.EvalContext) error {
 		}
 	}
 
-	fmt.Fprintf(target, "%s\n", out)
-
-	return nil
+	_, err = fmt.Fprintf(target, "%s\n", out)
+	return err
 }
 
 func stripJSONNullProperties(src []byte) []byte {
-- 
2.43.0

