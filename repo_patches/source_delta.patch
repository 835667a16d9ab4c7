From 8340516d2ff0bb9b7111f736cd7b4e05b2e615ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:13 +0000
Subject: [PATCH 01/47] fix: terminate the JSON token stream after an invalid
 character

The JSON scanner stops at the first invalid character without an EOF
token. The parser then read past the end of the token list while
recovering, so input such as {"a" ! caused a panic.
---
 hcl/json/peeker.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/hcl/json/peeker.go b/hcl/json/peeker.go
index fc7bbf5..f46ce5d 100644
--- a/hcl/json/peeker.go
+++ b/hcl/json/peeker.go
@@ -6,6 +6,17 @@ type peeker struct {
 }
 
 func newPeeker(tokens []token) *peeker {
+	// The scanner stops at the first invalid character without producing an
+	// EOF token, but our callers rely on the token stream being terminated.
+	if last := tokens[len(tokens)-1]; last.Type != tokenEOF {
+		eofRange := last.Range
+		eofRange.Start = eofRange.End
+		tokens = append(tokens, token{
+			Type:  tokenEOF,
+			Range: eofRange,
+		})
+	}
+
 	return &peeker{
 		tokens: tokens,
 		pos:    0,
-- 
2.43.0


From e79fe666fbc7e3739ff7efebd8ce6694c33ac812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:36 +0000
Subject: [PATCH 02/47] fix: use expanded arguments when reporting a function
 argument error

The argument index in the error refers to the argument list after the
final argument was expanded with "...". Looking it up in the original
list could panic or blame the wrong argument.
---
 hcl/hclsyntax/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index d3f7a74..7c5a475 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -393,7 +393,7 @@ func (e *FunctionCallExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnosti
 			} else {
 				param = varParam
 			}
-			argExpr := e.Args[i]
+			argExpr := args[i]
 
 			// TODO: we should also unpick a PathError here and show the
 			// path to the deep value where the error was detected.
-- 
2.43.0


From d79bdaed005d39122be4e0f7dab9effdf5c2dcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:48 +0000
Subject: [PATCH 03/47] fix: do not register unreadable JSON files in the
 parser

ParseJSONFile recorded a nil file when the file could not be read, which
made a later call to Sources panic.
---
 hclparse/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hclparse/parser.go b/hclparse/parser.go
index 6d47f12..7e1f4f3 100644
--- a/hclparse/parser.go
+++ b/hclparse/parser.go
@@ -89,7 +89,9 @@ func (p *Parser) ParseJSONFile(filename string) (*hcl.File, hcl.Diagnostics) {
 	}
 
 	file, diags := json.ParseFile(filename)
-	p.files[filename] = file
+	if file != nil {
+		p.files[filename] = file
+	}
 	return file, diags
 }
 
-- 
2.43.0


From c1d91e99c5f88a075554840bc3d173a05886d979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:07 +0000
Subject: [PATCH 04/47] fix: report problems in include blocks

Diagnostics about malformed include blocks and invalid include paths
were collected but never attached to the resulting body.
---
 ext/include/transformer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/include/transformer.go b/ext/include/transformer.go
index 15c513f..0bd37ce 100644
--- a/ext/include/transformer.go
+++ b/ext/include/transformer.go
@@ -79,7 +79,7 @@ func (t *transformer) TransformBody(in hcl.Body) hcl.Body {
 		bodies = append(bodies, transform.BodyWithDiagnostics(incBody, incDiags))
 	}
 
-	return hcl.MergeBodies(bodies)
+	return transform.BodyWithDiagnostics(hcl.MergeBodies(bodies), diags)
 }
 
 var includeBlockSchema = &hcl.BodySchema{
-- 
2.43.0


From 63b6efde7ccadddff0a64f845b971fddf9e6dd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:09 +0000
Subject: [PATCH 05/47] fix: do not crash when an included file cannot be read

The parser returns no file when the target cannot be read, so resolving
the include dereferenced a nil pointer.
---
 ext/include/file_resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ext/include/file_resolver.go b/ext/include/file_resolver.go
index c79a094..aba1aaf 100644
--- a/ext/include/file_resolver.go
+++ b/ext/include/file_resolver.go
@@ -48,5 +48,8 @@ func (r fileResolver) ResolveBodyPath(path string, refRange hcl.Range) (hcl.Body
 		f, diags = r.Parser.ParseHCLFile(targetFile)
 	}
 
+	if f == nil {
+		return hcl.EmptyBody(), diags
+	}
 	return f.Body, diags
 }
-- 
2.43.0


From 84510af1c53932173fab7381bdb1c4006b4714aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:12 +0000
Subject: [PATCH 06/47] fix: return a usable remaining body from an error body

PartialContent of a body made by NewErrorBody returned a nil remaining
body, so callers that go on to read the remainder crashed.
---
 ext/transform/error.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ext/transform/error.go b/ext/transform/error.go
index d7de418..bb9c5f3 100644
--- a/ext/transform/error.go
+++ b/ext/transform/error.go
@@ -67,7 +67,11 @@ func (b diagBody) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diagnos
 
 func (b diagBody) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Body, hcl.Diagnostics) {
 	if b.Diags.HasErrors() {
-		return b.emptyContent(), b.Wrapped, b.Diags
+		remain := b.Wrapped
+		if remain == nil {
+			remain = hcl.EmptyBody()
+		}
+		return b.emptyContent(), remain, b.Diags
 	}
 
 	content, remain, wrappedDiags := b.Wrapped.PartialContent(schema)
-- 
2.43.0


From 020e26f468a2b540539ade954ab76908f0a5f591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:14 +0000
Subject: [PATCH 07/47] fix: keep transforming nested blocks of a remaining
 body

The body left over by PartialContent of a deeply transformed body was
returned without the wrapper, so blocks nested in it were not
transformed.
---
 ext/transform/transform.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ext/transform/transform.go b/ext/transform/transform.go
index 30e9eed..3d4e7cc 100644
--- a/ext/transform/transform.go
+++ b/ext/transform/transform.go
@@ -45,6 +45,12 @@ func (w deepWrapper) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diag
 func (w deepWrapper) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Body, hcl.Diagnostics) {
 	content, remain, diags := w.Transformed.PartialContent(schema)
 	content = w.transformContent(content)
+	if remain != nil {
+		remain = deepWrapper{
+			Transformed: remain,
+			Transformer: w.Transformer,
+		}
+	}
 	return content, remain, diags
 }
 
-- 
2.43.0


From b673cccf2c09f213decf3e2eb57d4811d9d45163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:35 +0000
Subject: [PATCH 08/47] fix: keep the attributes of a packed body apart in
 JustAttributes

The attributes were all built from the address of the same loop
variable, so every attribute ended up with the expression of the last
one visited.
---
 hclpack/structure.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hclpack/structure.go b/hclpack/structure.go
index 488a99e..90f2f48 100644
--- a/hclpack/structure.go
+++ b/hclpack/structure.go
@@ -212,6 +212,7 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 
 	ret := make(hcl.Attributes, len(b.Attributes))
 	for n, a := range b.Attributes {
+		a := a // asHCLAttribute keeps a pointer, so each attribute needs its own copy
 		ret[n] = a.asHCLAttribute(n)
 	}
 	return ret, diags
-- 
2.43.0


From 22b144a1bd7514ce54ecdbd7c2daf8e990a21e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:37 +0000
Subject: [PATCH 09/47] fix: give unexpected packed blocks a subject of their
 own

The diagnostics had a context range without a subject, and the range
pointed at the shared loop variable.
---
 hclpack/structure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hclpack/structure.go b/hclpack/structure.go
index 90f2f48..9c70600 100644
--- a/hclpack/structure.go
+++ b/hclpack/structure.go
@@ -199,7 +199,7 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 				Severity: hcl.DiagError,
 				Summary:  fmt.Sprintf("Unexpected %s block", block.Type),
 				Detail:   "Blocks are not allowed here.",
-				Context:  &block.TypeRange,
+				Subject:  block.TypeRange.Ptr(),
 			})
 		}
 		// We'll continue processing anyway, and return any attributes we find
-- 
2.43.0


From 640411893c4ddbf023d275cb493f7099850d142d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:40 +0000
Subject: [PATCH 10/47] fix: check both bounds when unpacking a range

The bounds checks could never be true, so damaged packed positions
caused an index out of range panic.
---
 hclpack/positions_packed.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hclpack/positions_packed.go b/hclpack/positions_packed.go
index 29c7144..0cce9fc 100644
--- a/hclpack/positions_packed.go
+++ b/hclpack/positions_packed.go
@@ -172,10 +172,10 @@ func packRange(rng hcl.Range, pos map[string]map[hcl.Pos]posOfs) rangePacked {
 func (rp rangePacked) Unpack(fns []string, poss []position) hcl.Range {
 	startIdx := rp.Start.Index()
 	endIdx := rp.End.Index()
-	if startIdx < 0 && startIdx >= len(poss) {
+	if startIdx < 0 || startIdx >= len(poss) {
 		return hcl.Range{} // out of bounds, so invalid
 	}
-	if endIdx < 0 && endIdx >= len(poss) {
+	if endIdx < 0 || endIdx >= len(poss) {
 		return hcl.Range{} // out of bounds, so invalid
 	}
 	startPos := poss[startIdx]
-- 
2.43.0


From 3eb9abde3461823d478f6b4232c8ea400f5bf1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:08 +0000
Subject: [PATCH 11/47] fix: forget the items of a body when it is cleared

Clear emptied the written output but lookups still returned the removed
attributes and blocks, and setting an attribute of the same name changed
the removed one, so the new value was lost.
---
 hclwrite/ast_body.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index cf69fee..74523f3 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -35,6 +35,7 @@ func (b *Body) appendItemNode(nn *node) *node {
 // Clear removes all of the items from the body, making it empty.
 func (b *Body) Clear() {
 	b.children.Clear()
+	b.items = newNodeSet()
 }
 
 func (b *Body) AppendUnstructuredTokens(ts Tokens) {
-- 
2.43.0


From 7c49f50f6f8a48db58b309f2d5b65494f79c2b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:11 +0000
Subject: [PATCH 12/47] fix: return newly created attributes from the attribute
 setters

SetAttributeValue and SetAttributeTraversal shadowed the attribute they
create and returned nil for it.
---
 hclwrite/ast_body.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index 74523f3..e7777aa 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -97,7 +97,7 @@ func (b *Body) SetAttributeValue(name string, val cty.Value) *Attribute {
 	if attr != nil {
 		attr.expr = attr.expr.ReplaceWith(expr)
 	} else {
-		attr := newAttribute()
+		attr = newAttribute()
 		attr.init(name, expr)
 		b.appendItem(attr)
 	}
@@ -118,7 +118,7 @@ func (b *Body) SetAttributeTraversal(name string, traversal hcl.Traversal) *Attr
 	if attr != nil {
 		attr.expr = attr.expr.ReplaceWith(expr)
 	} else {
-		attr := newAttribute()
+		attr = newAttribute()
 		attr.init(name, expr)
 		b.appendItem(attr)
 	}
-- 
2.43.0


From aac7c6c33a6ad0b52f639343ee95d3be98cf26a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:14 +0000
Subject: [PATCH 13/47] fix: return the tokens generated for a traversal

The tokens appended for each step were discarded, so the token sequence
for any traversal was empty.
---
 hclwrite/generate.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hclwrite/generate.go b/hclwrite/generate.go
index d249cfd..0d30b7b 100644
--- a/hclwrite/generate.go
+++ b/hclwrite/generate.go
@@ -159,12 +159,12 @@ func appendTokensForValue(val cty.Value, toks Tokens) Tokens {
 
 func appendTokensForTraversal(traversal hcl.Traversal, toks Tokens) Tokens {
 	for _, step := range traversal {
-		appendTokensForTraversalStep(step, toks)
+		toks = appendTokensForTraversalStep(step, toks)
 	}
 	return toks
 }
 
-func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) {
+func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) Tokens {
 	switch ts := step.(type) {
 	case hcl.TraverseRoot:
 		toks = append(toks, &Token{
@@ -188,7 +188,7 @@ func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) {
 			Type:  hclsyntax.TokenOBrack,
 			Bytes: []byte{'['},
 		})
-		appendTokensForValue(ts.Key, toks)
+		toks = appendTokensForValue(ts.Key, toks)
 		toks = append(toks, &Token{
 			Type:  hclsyntax.TokenCBrack,
 			Bytes: []byte{']'},
@@ -196,6 +196,7 @@ func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) {
 	default:
 		panic(fmt.Sprintf("unsupported traversal step type %T", step))
 	}
+	return toks
 }
 
 func escapeQuotedStringLit(s string) []byte {
-- 
2.43.0


From c7438e9087f07681a11168be0f25ab68355b7262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:18 +0000
Subject: [PATCH 14/47] fix: keep the list ends up to date when replacing a
 node

Replacing the first or last node of a list left the list pointing at the
removed node, so the replacement was not written out.
---
 hclwrite/node.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hclwrite/node.go b/hclwrite/node.go
index 71fd00f..06f6ada 100644
--- a/hclwrite/node.go
+++ b/hclwrite/node.go
@@ -77,6 +77,12 @@ func (n *node) ReplaceWith(c nodeContent) *node {
 	if after != nil {
 		after.before = nn
 	}
+	if list.first == n {
+		list.first = nn
+	}
+	if list.last == n {
+		list.last = nn
+	}
 	return nn
 }
 
-- 
2.43.0


From e5ca3577225dd45aca07b3555977d3c6d6f74731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:21 +0000
Subject: [PATCH 15/47] fix: return blocks of a body in source order

Blocks iterated over a map, so the order of its result changed from call
to call.
---
 hclwrite/ast_body.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index e7777aa..c390136 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -59,7 +59,7 @@ func (b *Body) Attributes() map[string]*Attribute {
 // Blocks returns a new slice of all the blocks in the body.
 func (b *Body) Blocks() []*Block {
 	ret := make([]*Block, 0, len(b.items))
-	for n := range b.items {
+	for _, n := range b.items.List() {
 		if block, isBlock := n.content.(*Block); isBlock {
 			ret = append(ret, block)
 		}
-- 
2.43.0


From 1823bf457ac3a2ad7373abf991115a9a82aa9544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:14 +0000
Subject: [PATCH 16/47] fix: keep closing parentheses before the end of an
 attribute line

Tokens between the expression of an attribute and the end of its line,
such as a closing parenthesis, were moved behind the newline.
---
 hclwrite/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index 0e8952d..c8e3bc1 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -262,6 +262,10 @@ func parseAttribute(nativeAttr *hclsyntax.Attribute, from, leadComments, lineCom
 		children.AppendNode(exprNode)
 	}
 
+	// Collect any stragglers, such as closing parentheses that are not
+	// included in the range of the expression itself.
+	children.AppendUnstructuredTokens(from.Tokens())
+
 	{
 		cn := newNode(newComments(lineComments.Tokens()))
 		attr.lineComments = cn
@@ -270,9 +274,6 @@ func parseAttribute(nativeAttr *hclsyntax.Attribute, from, leadComments, lineCom
 
 	children.AppendUnstructuredTokens(newline.Tokens())
 
-	// Collect any stragglers, though there shouldn't be any
-	children.AppendUnstructuredTokens(from.Tokens())
-
 	return newNode(attr)
 }
 
-- 
2.43.0


From 63ffd118d1160192d6d46ccf38c6c7c84cd1eb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:17 +0000
Subject: [PATCH 17/47] fix: support legacy index syntax when parsing for
 modification

A traversal step like the one in foo.0 has no brackets, and looking for
them caused a panic.
---
 hclwrite/parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index c8e3bc1..479cb15 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -405,6 +405,15 @@ func parseTraversalStep(nativeStep hcl.Traverser, from inputTokens) (before inpu
 		children = step.inTree.children
 		before, from, after = from.Partition(nativeStep.SourceRange())
 
+		if types := from.Types(); len(types) > 0 && types[0] == hclsyntax.TokenDot {
+			// legacy index syntax, like foo.0
+			valBefore, valToken, valAfter := from.PartitionTypeSingle(hclsyntax.TokenNumberLit)
+			children.AppendUnstructuredTokens(valBefore.Tokens())
+			step.key = children.Append(newNumber(valToken))
+			children.AppendUnstructuredTokens(valAfter.Tokens())
+			return before, newNode(step), after
+		}
+
 		var inBefore, oBrack, keyTokens, cBrack inputTokens
 		inBefore, oBrack, from = from.PartitionType(hclsyntax.TokenOBrack)
 		children.AppendUnstructuredTokens(inBefore.Tokens())
-- 
2.43.0


From ec0a5fc6ff59f4d067552a2b7d75ea09897a8dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:21 +0000
Subject: [PATCH 18/47] fix: keep index keys that are neither strings nor
 numbers

The tokens of a constant key such as true or null were dropped, so
foo[true] was written out as foo[].
---
 hclwrite/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index 479cb15..868ac35 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -431,6 +431,9 @@ func parseTraversalStep(nativeStep hcl.Traverser, from inputTokens) (before inpu
 			key := newNumber(valToken)
 			step.key = children.Append(key)
 			children.AppendUnstructuredTokens(valAfter.Tokens())
+		default:
+			// other constant keys, such as true or null
+			children.AppendUnstructuredTokens(keyTokens.Tokens())
 		}
 
 		children.AppendUnstructuredTokens(cBrack.Tokens())
-- 
2.43.0


From 57ef2bcd4dd9a6853b7d48210934caf05164f1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:51 +0000
Subject: [PATCH 19/47] fix: give a bare attribute-only splat a valid source
 range

An expression like foo.* without any attribute after the star ended at
the zero position.
---
 hcl/hclsyntax/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hcl/hclsyntax/parser.go b/hcl/hclsyntax/parser.go
index 772ebae..e0c4946 100644
--- a/hcl/hclsyntax/parser.go
+++ b/hcl/hclsyntax/parser.go
@@ -670,6 +670,7 @@ Traversal:
 				trav := make(hcl.Traversal, 0, 1)
 				var firstRange, lastRange hcl.Range
 				firstRange = p.NextRange()
+				lastRange = marker.Range // in case there are no attributes after the star
 				for p.Peek().Type == TokenDot {
 					dot := p.Read()
 
-- 
2.43.0


From 3400f0af33cfba49e28ed7a756fcc40439d564f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:11 +0000
Subject: [PATCH 20/47] fix: do not crash on index and splat expressions when
 parsing for modification

The source range of such expressions covers only the final operator, so
variables before it could not be found in the tokens of the expression
and parsing panicked. All tokens after the equals sign now belong to the
expression.
---
 hclwrite/parser.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index 868ac35..adb0677 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -254,18 +254,16 @@ func parseAttribute(nativeAttr *hclsyntax.Attribute, from, leadComments, lineCom
 	children.AppendUnstructuredTokens(before.Tokens())
 	children.AppendUnstructuredTokens(equalsTokens.Tokens())
 
-	before, exprTokens, from := from.Partition(nativeAttr.Expr.Range())
+	// Everything that remains belongs to the expression. We can't rely on the
+	// range of the expression itself here because it does not include any
+	// parentheses around it, and for index and splat expressions it covers
+	// only the final operator.
 	{
-		children.AppendUnstructuredTokens(before.Tokens())
-		exprNode := parseExpression(nativeAttr.Expr, exprTokens)
+		exprNode := parseExpression(nativeAttr.Expr, from)
 		attr.expr = exprNode
 		children.AppendNode(exprNode)
 	}
 
-	// Collect any stragglers, such as closing parentheses that are not
-	// included in the range of the expression itself.
-	children.AppendUnstructuredTokens(from.Tokens())
-
 	{
 		cn := newNode(newComments(lineComments.Tokens()))
 		attr.lineComments = cn
-- 
2.43.0


From b1e45bfcced03c313ce76f27745e580572a12b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:15 +0000
Subject: [PATCH 21/47] fix: avoid a data race between concurrent formatting
 calls

The placeholder token was a package-level variable that formatting
writes to.
---
 hclwrite/format.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/hclwrite/format.go b/hclwrite/format.go
index 7111ebd..dc76965 100644
--- a/hclwrite/format.go
+++ b/hclwrite/format.go
@@ -6,14 +6,6 @@ import (
 
 var inKeyword = hclsyntax.Keyword([]byte{'i', 'n'})
 
-// placeholder token used when we don't have a token but we don't want
-// to pass a real "nil" and complicate things with nil pointer checks
-var nilToken = &Token{
-	Type:         hclsyntax.TokenNil,
-	Bytes:        []byte{},
-	SpacesBefore: 0,
-}
-
 // format rewrites tokens within the given sequence, in-place, to adjust the
 // whitespace around their content to achieve canonical formatting.
 func format(tokens Tokens) {
@@ -108,6 +100,15 @@ func formatIndent(lines []formatLine) {
 }
 
 func formatSpaces(lines []formatLine) {
+	// placeholder token used when we don't have a token but we don't want
+	// to pass a real "nil" and complicate things with nil pointer checks.
+	// It gets written to below, so it must not be shared between calls.
+	nilToken := &Token{
+		Type:         hclsyntax.TokenNil,
+		Bytes:        []byte{},
+		SpacesBefore: 0,
+	}
+
 	for _, line := range lines {
 		for i, token := range line.lead {
 			var before, after *Token
-- 
2.43.0


From 6b06da55f53fbeb9037624354f0f0d2244f63d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:02 +0000
Subject: [PATCH 22/47] fix: do not write into the label names of a block spec

Deriving the schema appended to the caller's label name slice, which
could overwrite its spare capacity and race with other decoders sharing
the spec.
---
 hcldec/spec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index f9da7f6..1e8051f 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -841,7 +841,7 @@ func (s *BlockMapSpec) blockHeaderSchemata() []hcl.BlockHeaderSchema {
 	return []hcl.BlockHeaderSchema{
 		{
 			Type:       s.TypeName,
-			LabelNames: append(s.LabelNames, findLabelSpecs(s.Nested)...),
+			LabelNames: append(s.LabelNames[:len(s.LabelNames):len(s.LabelNames)], findLabelSpecs(s.Nested)...),
 		},
 	}
 }
@@ -990,7 +990,7 @@ func (s *BlockObjectSpec) blockHeaderSchemata() []hcl.BlockHeaderSchema {
 	return []hcl.BlockHeaderSchema{
 		{
 			Type:       s.TypeName,
-			LabelNames: append(s.LabelNames, findLabelSpecs(s.Nested)...),
+			LabelNames: append(s.LabelNames[:len(s.LabelNames):len(s.LabelNames)], findLabelSpecs(s.Nested)...),
 		},
 	}
 }
-- 
2.43.0


From 41b4142f6175f768e174112deb1f15ec2c302a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:04 +0000
Subject: [PATCH 23/47] fix: keep the diagnostics of an error body separate
 from its callers

Callers extend the diagnostics they get, which could overwrite entries
seen by another caller of the same body.
---
 ext/transform/error.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ext/transform/error.go b/ext/transform/error.go
index bb9c5f3..dc7537f 100644
--- a/ext/transform/error.go
+++ b/ext/transform/error.go
@@ -55,7 +55,7 @@ type diagBody struct {
 
 func (b diagBody) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diagnostics) {
 	if b.Diags.HasErrors() {
-		return b.emptyContent(), b.Diags
+		return b.emptyContent(), b.copyDiags()
 	}
 
 	content, wrappedDiags := b.Wrapped.Content(schema)
@@ -71,7 +71,7 @@ func (b diagBody) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.
 		if remain == nil {
 			remain = hcl.EmptyBody()
 		}
-		return b.emptyContent(), remain, b.Diags
+		return b.emptyContent(), remain, b.copyDiags()
 	}
 
 	content, remain, wrappedDiags := b.Wrapped.PartialContent(schema)
@@ -83,7 +83,7 @@ func (b diagBody) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.
 
 func (b diagBody) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 	if b.Diags.HasErrors() {
-		return nil, b.Diags
+		return nil, b.copyDiags()
 	}
 
 	attributes, wrappedDiags := b.Wrapped.JustAttributes()
@@ -105,6 +105,12 @@ func (b diagBody) MissingItemRange() hcl.Range {
 	}
 }
 
+// copyDiags returns a copy of our diagnostics that the caller can append to
+// without affecting the results of later calls.
+func (b diagBody) copyDiags() hcl.Diagnostics {
+	return append(hcl.Diagnostics(nil), b.Diags...)
+}
+
 func (b diagBody) emptyContent() *hcl.BodyContent {
 	return &hcl.BodyContent{
 		MissingItemRange: b.MissingItemRange(),
-- 
2.43.0


From 76099ceaa32486536a709f292a92b55241293060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:39 +0000
Subject: [PATCH 24/47] fix: avoid a data race between calls of user-defined
 functions

The context shared by the functions of a body is obtained on first use,
which can happen in several goroutines at once.
---
 ext/userfunc/decode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ext/userfunc/decode.go b/ext/userfunc/decode.go
index 2f3ce64..380ffbb 100644
--- a/ext/userfunc/decode.go
+++ b/ext/userfunc/decode.go
@@ -1,6 +1,8 @@
 package userfunc
 
 import (
+	"sync"
+
 	"github.com/hashicorp/hcl2/hcl"
 	"github.com/zclconf/go-cty/cty"
 	"github.com/zclconf/go-cty/cty/function"
@@ -41,8 +43,12 @@ func decodeUserFunctions(body hcl.Body, blockType string, contextFunc ContextFun
 	// first call to getBaseCtx will populate context, and then the same
 	// context will be used for all subsequent calls. It's assumed that
 	// all functions in a given body should see an identical context.
+	// The functions may be called concurrently, so access is serialized.
 	var baseCtx *hcl.EvalContext
+	var baseCtxLock sync.Mutex
 	getBaseCtx := func() *hcl.EvalContext {
+		baseCtxLock.Lock()
+		defer baseCtxLock.Unlock()
 		if baseCtx == nil {
 			if contextFunc != nil {
 				baseCtx = contextFunc()
-- 
2.43.0


From a97787d1c0bf0f5ffe676768343ec3a5e54f8dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:15 +0000
Subject: [PATCH 25/47] fix: type expression that evaluates to an unknown type
 no longer crashes hcldec

---
 cmd/hcldec/type_expr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/hcldec/type_expr.go b/cmd/hcldec/type_expr.go
index 559277f..68ce133 100644
--- a/cmd/hcldec/type_expr.go
+++ b/cmd/hcldec/type_expr.go
@@ -116,6 +116,10 @@ func evalTypeExpr(expr hcl.Expression) (cty.Type, hcl.Diagnostics) {
 		})
 		return cty.DynamicPseudoType, diags
 	}
+	if !result.IsKnown() {
+		// An error during evaluation can leave us with an unknown type.
+		return cty.DynamicPseudoType, diags
+	}
 
 	return unwrapTypeType(result), diags
 }
-- 
2.43.0


From 436f59e8c23aec99cf2549140a3e99cf43ee7b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:18 +0000
Subject: [PATCH 26/47] fix: block attributes of different types are reported
 instead of crashing

---
 hcldec/spec.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index 1e8051f..1696b00 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -1238,6 +1238,41 @@ func (s *BlockAttrsSpec) decode(content *hcl.BodyContent, blockLabels []blockLab
 		vals[name] = attrVal
 	}
 
+	// If the element type is not fixed then the values can have different
+	// types, but cty.MapVal will panic unless they all have the same one.
+	names := make([]string, 0, len(vals))
+	etys := make([]cty.Type, 0, len(vals))
+	for name, val := range vals {
+		names = append(names, name)
+		etys = append(etys, val.Type())
+	}
+	ety, convs := convert.UnifyUnsafe(etys)
+	if ety == cty.NilType {
+		diags = append(diags, &hcl.Diagnostic{
+			Severity: hcl.DiagError,
+			Summary:  "Inconsistent attribute types",
+			Detail:   fmt.Sprintf("All attributes of a %q block must have the same type.", s.TypeName),
+			Subject:  &block.DefRange,
+		})
+		return cty.UnknownVal(cty.Map(s.ElementType)), diags
+	}
+	for i, name := range names {
+		if convs[i] == nil {
+			continue
+		}
+		newVal, err := convs[i](vals[name])
+		if err != nil {
+			diags = append(diags, &hcl.Diagnostic{
+				Severity: hcl.DiagError,
+				Summary:  "Inconsistent attribute types",
+				Detail:   fmt.Sprintf("All attributes of a %q block must have the same type: %s.", s.TypeName, err),
+				Subject:  attrs[name].Expr.Range().Ptr(),
+			})
+			return cty.UnknownVal(cty.Map(s.ElementType)), diags
+		}
+		vals[name] = newVal
+	}
+
 	return cty.MapVal(vals), diags
 }
 
-- 
2.43.0


From 38e817de9fbfb2f602e168735cade4bbe331567a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:20 +0000
Subject: [PATCH 27/47] fix: mock list of differently typed elements evaluates
 instead of crashing

---
 hcltest/mock.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/hcltest/mock.go b/hcltest/mock.go
index 7124f45..f44a0c8 100644
--- a/hcltest/mock.go
+++ b/hcltest/mock.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/hashicorp/hcl2/hcl"
 	"github.com/zclconf/go-cty/cty"
+	"github.com/zclconf/go-cty/cty/convert"
 )
 
 // MockBody returns a hcl.Body implementation that works in terms of a
@@ -293,6 +294,33 @@ func (e mockExprList) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 		vals = append(vals, val)
 	}
 
+	// A list needs elements of a single type. Where there is none, the
+	// closest thing to a list is a tuple, as in the native syntax.
+	types := make([]cty.Type, len(vals))
+	for i, val := range vals {
+		types[i] = val.Type()
+	}
+	ety, convs := convert.Unify(types)
+	if ety == cty.NilType {
+		return cty.TupleVal(vals), diags
+	}
+	for i, conv := range convs {
+		if conv == nil {
+			continue
+		}
+		newVal, err := conv(vals[i])
+		if err != nil {
+			diags = append(diags, &hcl.Diagnostic{
+				Severity: hcl.DiagError,
+				Summary:  "Inconsistent list elements",
+				Detail:   fmt.Sprintf("All elements of a mock list must have the same type: %s.", err),
+				Subject:  e.Exprs[i].Range().Ptr(),
+			})
+			return cty.TupleVal(vals), diags
+		}
+		vals[i] = newVal
+	}
+
 	return cty.ListVal(vals), diags
 }
 
-- 
2.43.0


From 912c38efee280087b0b1488f07f21f68cbaa19e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:19 +0000
Subject: [PATCH 28/47] fix: a default block with a single spec gets its
 warning instead of crashing hcldec

---
 cmd/hcldec/spec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index c8b90d3..610b1d2 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -523,7 +523,7 @@ func decodeDefaultSpec(body hcl.Body) (hcldec.Spec, hcl.Diagnostics) {
 			Severity: hcl.DiagWarning,
 			Summary:  "Useless default block",
 			Detail:   "A default block with only one spec is equivalent to using that spec alone.",
-			Subject:  &content.Blocks[1].DefRange,
+			Subject:  &content.Blocks[0].DefRange,
 		})
 	}
 
-- 
2.43.0


From 6631230fe9593b361815bf5e389f3bb5d424f6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:10:56 +0000
Subject: [PATCH 29/47] fix: make orders and suggestions independent of map
 iteration

---
 ext/dynblock/variables.go   | 11 +++++++++--
 hcl/hclsyntax/expression.go |  2 ++
 hcl/hclsyntax/structure.go  | 17 +++++++++++++++--
 hcl/traversal.go            |  2 ++
 hcldec/spec.go              | 16 ++++++++++++----
 5 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/ext/dynblock/variables.go b/ext/dynblock/variables.go
index ad838f3..91ca01d 100644
--- a/ext/dynblock/variables.go
+++ b/ext/dynblock/variables.go
@@ -1,6 +1,8 @@
 package dynblock
 
 import (
+	"sort"
+
 	"github.com/hashicorp/hcl2/hcl"
 	"github.com/zclconf/go-cty/cty"
 )
@@ -77,8 +79,13 @@ func (n WalkVariablesNode) Visit(schema *hcl.BodySchema) (vars []hcl.Traversal,
 	children = make([]WalkVariablesChild, 0, len(container.Blocks))
 
 	if n.includeContent {
-		for _, attr := range container.Attributes {
-			for _, traversal := range attr.Expr.Variables() {
+		names := make([]string, 0, len(container.Attributes))
+		for name := range container.Attributes {
+			names = append(names, name)
+		}
+		sort.Strings(names)
+		for _, name := range names {
+			for _, traversal := range container.Attributes[name].Expr.Variables() {
 				var ours, inherited bool
 				if n.it != nil {
 					ours = traversal.RootName() == n.it.IteratorName
diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 7c5a475..711eb58 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -2,6 +2,7 @@ package hclsyntax
 
 import (
 	"fmt"
+	"sort"
 	"sync"
 
 	"github.com/hashicorp/hcl2/hcl"
@@ -224,6 +225,7 @@ func (e *FunctionCallExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnosti
 		for name := range ctx.Functions {
 			avail = append(avail, name)
 		}
+		sort.Strings(avail)
 		suggestion := nameSuggestion(e.Name, avail)
 		if suggestion != "" {
 			suggestion = fmt.Sprintf(" Did you mean %q?", suggestion)
diff --git a/hcl/hclsyntax/structure.go b/hcl/hclsyntax/structure.go
index 476025d..5e433e1 100644
--- a/hcl/hclsyntax/structure.go
+++ b/hcl/hclsyntax/structure.go
@@ -2,6 +2,7 @@ package hclsyntax
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/hashicorp/hcl2/hcl"
@@ -290,8 +291,20 @@ func (b *Body) MissingItemRange() hcl.Range {
 type Attributes map[string]*Attribute
 
 func (a Attributes) walkChildNodes(w internalWalkFunc) {
-	for _, attr := range a {
-		w(attr)
+	// The order must not depend on the map, since callers can observe it.
+	names := make([]string, 0, len(a))
+	for name := range a {
+		names = append(names, name)
+	}
+	sort.Slice(names, func(i, j int) bool {
+		ri, rj := a[names[i]].SrcRange.Start, a[names[j]].SrcRange.Start
+		if ri.Byte != rj.Byte {
+			return ri.Byte < rj.Byte
+		}
+		return names[i] < names[j]
+	})
+	for _, name := range names {
+		w(a[name])
 	}
 }
 
diff --git a/hcl/traversal.go b/hcl/traversal.go
index d710197..c1a0b23 100644
--- a/hcl/traversal.go
+++ b/hcl/traversal.go
@@ -2,6 +2,7 @@ package hcl
 
 import (
 	"fmt"
+	"sort"
 
 	"github.com/zclconf/go-cty/cty"
 )
@@ -102,6 +103,7 @@ func (t Traversal) TraverseAbs(ctx *EvalContext) (cty.Value, Diagnostics) {
 		}
 		thisCtx = thisCtx.parent
 	}
+	sort.Strings(suggestions)
 	suggestion := nameSuggestion(name, suggestions)
 	if suggestion != "" {
 		suggestion = fmt.Sprintf(" Did you mean %q?", suggestion)
diff --git a/hcldec/spec.go b/hcldec/spec.go
index 1696b00..1fb0af8 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -64,8 +64,13 @@ type specNeedingVariables interface {
 }
 
 func (s ObjectSpec) visitSameBodyChildren(cb visitFunc) {
-	for _, c := range s {
-		cb(c)
+	names := make([]string, 0, len(s))
+	for name := range s {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		cb(s[name])
 	}
 }
 
@@ -1242,9 +1247,12 @@ func (s *BlockAttrsSpec) decode(content *hcl.BodyContent, blockLabels []blockLab
 	// types, but cty.MapVal will panic unless they all have the same one.
 	names := make([]string, 0, len(vals))
 	etys := make([]cty.Type, 0, len(vals))
-	for name, val := range vals {
+	for name := range vals {
 		names = append(names, name)
-		etys = append(etys, val.Type())
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		etys = append(etys, vals[name].Type())
 	}
 	ety, convs := convert.UnifyUnsafe(etys)
 	if ety == cty.NilType {
-- 
2.43.0


From 8455b6579c59e8ac8d4fb6776897cedba89272ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:20:44 +0000
Subject: [PATCH 30/47] fix: report variables of attribute-map blocks and bind
 iterators in them

---
 ext/dynblock/expand_body.go      | 30 +++++++++++++++---
 ext/dynblock/variables.go        | 54 +++++++++++++++++++++-----------
 ext/dynblock/variables_hcldec.go |  6 ++++
 3 files changed, 68 insertions(+), 22 deletions(-)

diff --git a/ext/dynblock/expand_body.go b/ext/dynblock/expand_body.go
index dd30822..2d5c5d4 100644
--- a/ext/dynblock/expand_body.go
+++ b/ext/dynblock/expand_body.go
@@ -251,10 +251,32 @@ func (b *expandBody) expandChild(child hcl.Body, i *iteration) hcl.Body {
 }
 
 func (b *expandBody) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
-	// blocks aren't allowed in JustAttributes mode and this body can
-	// only produce blocks, so we'll just pass straight through to our
-	// underlying body here.
-	return b.original.JustAttributes()
+	// blocks aren't allowed in JustAttributes mode, so there is nothing to
+	// expand here, but the attributes must still get access to our iteration
+	// variables and the items that an earlier PartialContent call returned
+	// must be left out.
+	body := b.original
+	var diags hcl.Diagnostics
+	if len(b.hiddenAttrs) != 0 || len(b.hiddenBlocks) != 0 {
+		var content *hcl.BodyContent
+		content, body, diags = b.original.PartialContent(b.extendSchema(&hcl.BodySchema{}))
+		for _, block := range content.Blocks {
+			if block.Type != "dynamic" {
+				continue
+			}
+			if _, hidden := b.hiddenBlocks[block.Labels[0]]; !hidden {
+				diags = append(diags, &hcl.Diagnostic{
+					Severity: hcl.DiagError,
+					Summary:  "Unexpected block",
+					Detail:   fmt.Sprintf("Blocks of type %q are not expected here.", block.Labels[0]),
+					Subject:  &block.LabelRanges[0],
+				})
+			}
+		}
+	}
+	attrs, attrDiags := body.JustAttributes()
+	diags = append(diags, attrDiags...)
+	return b.prepareAttributes(attrs), diags
 }
 
 func (b *expandBody) MissingItemRange() hcl.Range {
diff --git a/ext/dynblock/variables.go b/ext/dynblock/variables.go
index 91ca01d..39dc27a 100644
--- a/ext/dynblock/variables.go
+++ b/ext/dynblock/variables.go
@@ -79,24 +79,7 @@ func (n WalkVariablesNode) Visit(schema *hcl.BodySchema) (vars []hcl.Traversal,
 	children = make([]WalkVariablesChild, 0, len(container.Blocks))
 
 	if n.includeContent {
-		names := make([]string, 0, len(container.Attributes))
-		for name := range container.Attributes {
-			names = append(names, name)
-		}
-		sort.Strings(names)
-		for _, name := range names {
-			for _, traversal := range container.Attributes[name].Expr.Variables() {
-				var ours, inherited bool
-				if n.it != nil {
-					ours = traversal.RootName() == n.it.IteratorName
-					_, inherited = n.it.Inherited[traversal.RootName()]
-				}
-
-				if !(ours || inherited) {
-					vars = append(vars, traversal)
-				}
-			}
-		}
+		vars = append(vars, n.attributeVariables(container.Attributes)...)
 	}
 
 	for _, block := range container.Blocks {
@@ -176,6 +159,41 @@ func (n WalkVariablesNode) Visit(schema *hcl.BodySchema) (vars []hcl.Traversal,
 	return vars, children
 }
 
+// justAttributes returns the variable traversals required for a node whose
+// body is read in the "just attributes" mode, without any schema.
+func (n WalkVariablesNode) justAttributes() []hcl.Traversal {
+	if !n.includeContent {
+		return nil
+	}
+	attrs, _ := n.body.JustAttributes()
+	return n.attributeVariables(attrs)
+}
+
+// attributeVariables returns the variable traversals required for the given
+// attributes, apart from those that refer to our iterators.
+func (n WalkVariablesNode) attributeVariables(attrs hcl.Attributes) []hcl.Traversal {
+	var vars []hcl.Traversal
+	names := make([]string, 0, len(attrs))
+	for name := range attrs {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		for _, traversal := range attrs[name].Expr.Variables() {
+			var ours, inherited bool
+			if n.it != nil {
+				ours = traversal.RootName() == n.it.IteratorName
+				_, inherited = n.it.Inherited[traversal.RootName()]
+			}
+
+			if !(ours || inherited) {
+				vars = append(vars, traversal)
+			}
+		}
+	}
+	return vars
+}
+
 func (n WalkVariablesNode) extendSchema(schema *hcl.BodySchema) *hcl.BodySchema {
 	// We augment the requested schema to also include our special "dynamic"
 	// block type, since then we'll get instances of it interleaved with
diff --git a/ext/dynblock/variables_hcldec.go b/ext/dynblock/variables_hcldec.go
index a078d91..d850e9e 100644
--- a/ext/dynblock/variables_hcldec.go
+++ b/ext/dynblock/variables_hcldec.go
@@ -34,6 +34,12 @@ func walkVariablesWithHCLDec(node WalkVariablesNode, spec hcldec.Spec) []hcl.Tra
 		childSpecs := hcldec.ChildBlockTypes(spec)
 		for _, child := range children {
 			if childSpec, exists := childSpecs[child.BlockTypeName]; exists {
+				schema := hcldec.ImpliedSchema(childSpec)
+				if len(schema.Attributes) == 0 && len(schema.Blocks) == 0 {
+					// With no schema of its own, the body is either empty or
+					// is decoded as arbitrary attributes by BlockAttrsSpec.
+					vars = append(vars, child.Node.justAttributes()...)
+				}
 				vars = append(vars, walkVariablesWithHCLDec(child.Node, childSpec)...)
 			}
 		}
-- 
2.43.0


From 5edc3ef6613c149f049c67454bb6361ebd8f44a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:20:49 +0000
Subject: [PATCH 31/47] fix: ignore blocks already read when reading the
 remaining attributes

---
 ext/dynblock/unknown_body.go | 4 +++-
 hcl/hclsyntax/structure.go   | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/ext/dynblock/unknown_body.go b/ext/dynblock/unknown_body.go
index 932f6a3..23580c8 100644
--- a/ext/dynblock/unknown_body.go
+++ b/ext/dynblock/unknown_body.go
@@ -56,7 +56,9 @@ func (b unknownBody) MissingItemRange() hcl.Range {
 }
 
 func (b unknownBody) fixupContent(got *hcl.BodyContent) *hcl.BodyContent {
-	ret := &hcl.BodyContent{}
+	ret := &hcl.BodyContent{
+		MissingItemRange: got.MissingItemRange,
+	}
 	ret.Attributes = b.fixupAttrs(got.Attributes)
 	if len(got.Blocks) > 0 {
 		ret.Blocks = make(hcl.Blocks, 0, len(got.Blocks))
diff --git a/hcl/hclsyntax/structure.go b/hcl/hclsyntax/structure.go
index 5e433e1..49b256f 100644
--- a/hcl/hclsyntax/structure.go
+++ b/hcl/hclsyntax/structure.go
@@ -252,8 +252,10 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 	attrs := make(hcl.Attributes)
 	var diags hcl.Diagnostics
 
-	if len(b.Blocks) > 0 {
-		example := b.Blocks[0]
+	for _, example := range b.Blocks {
+		if _, hidden := b.hiddenBlocks[example.Type]; hidden {
+			continue
+		}
 		diags = append(diags, &hcl.Diagnostic{
 			Severity: hcl.DiagError,
 			Summary:  fmt.Sprintf("Unexpected %q block", example.Type),
@@ -263,6 +265,7 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 		// we will continue processing anyway, and return the attributes
 		// we are able to find so that certain analyses can still be done
 		// in the face of errors.
+		break
 	}
 
 	if b.Attributes == nil {
-- 
2.43.0


From fe2b25194b6431b34793c1500b1beb23caf47272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:31:45 +0000
Subject: [PATCH 32/47] fix: keep dots and numbers apart when formatting

---
 hclwrite/format.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hclwrite/format.go b/hclwrite/format.go
index dc76965..2352c19 100644
--- a/hclwrite/format.go
+++ b/hclwrite/format.go
@@ -236,6 +236,11 @@ func spaceAfterToken(subject, before, after *Token) bool {
 		// Don't split a function name from open paren in a call
 		return false
 
+	case subject.Type == hclsyntax.TokenDot && (after.Type == hclsyntax.TokenDot || before.Type == hclsyntax.TokenNumberLit && after.Type == hclsyntax.TokenNumberLit):
+		// Without a space these would be read back as an ellipsis or as a
+		// single number
+		return true
+
 	case subject.Type == hclsyntax.TokenDot || after.Type == hclsyntax.TokenDot:
 		// Don't use spaces around attribute access dots
 		return false
-- 
2.43.0


From 1ec7f9af10fe0c0fa54937abc9045d260782bd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:45:06 +0000
Subject: [PATCH 33/47] fix: do not count the offset of the source as spaces
 before its first token

---
 hclwrite/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index adb0677..ba907ab 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -44,6 +44,11 @@ func parse(src []byte, filename string, start hcl.Pos) (*File, hcl.Diagnostics)
 		return nil, diags
 	}
 	writerTokens := writerTokens(nativeTokens)
+	if len(writerTokens) > 0 {
+		// Our source might be part of a larger file, in which case whatever
+		// precedes it is not part of our first token.
+		writerTokens[0].SpacesBefore -= start.Byte
+	}
 
 	from := inputTokens{
 		nativeTokens: nativeTokens,
-- 
2.43.0


From 509c8112f1f83d717f59c988ec6ef69c49371e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:51:31 +0000
Subject: [PATCH 34/47] fix: use the same labels to find the source range of
 keyed blocks as to decode them

---
 hcldec/spec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index 1fb0af8..5422851 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -968,7 +968,7 @@ func (s *BlockMapSpec) sourceRange(content *hcl.BodyContent, blockLabels []block
 		return content.MissingItemRange
 	}
 
-	return sourceRange(childBlock.Body, labelsForBlock(childBlock), s.Nested)
+	return sourceRange(childBlock.Body, labelsForBlock(childBlock)[len(s.LabelNames):], s.Nested)
 }
 
 // A BlockObjectSpec is a Spec that produces a cty object of the results of
@@ -1112,7 +1112,7 @@ func (s *BlockObjectSpec) sourceRange(content *hcl.BodyContent, blockLabels []bl
 		return content.MissingItemRange
 	}
 
-	return sourceRange(childBlock.Body, labelsForBlock(childBlock), s.Nested)
+	return sourceRange(childBlock.Body, labelsForBlock(childBlock)[len(s.LabelNames):], s.Nested)
 }
 
 // A BlockAttrsSpec is a Spec that interprets a single block as if it were
-- 
2.43.0


From a732e064194ad2b1808578127feaa96d9b70481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:51:33 +0000
Subject: [PATCH 35/47] fix: register all specs with gob

---
 hcldec/gob.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hcldec/gob.go b/hcldec/gob.go
index e2027cf..ace65a4 100644
--- a/hcldec/gob.go
+++ b/hcldec/gob.go
@@ -16,8 +16,13 @@ func init() {
 	gob.Register((*ExprSpec)(nil))
 	gob.Register((*BlockSpec)(nil))
 	gob.Register((*BlockListSpec)(nil))
+	gob.Register((*BlockTupleSpec)(nil))
 	gob.Register((*BlockSetSpec)(nil))
 	gob.Register((*BlockMapSpec)(nil))
+	gob.Register((*BlockObjectSpec)(nil))
+	gob.Register((*BlockAttrsSpec)(nil))
 	gob.Register((*BlockLabelSpec)(nil))
 	gob.Register((*DefaultSpec)(nil))
+	gob.Register((*TransformExprSpec)(nil))
+	gob.Register((*TransformFuncSpec)(nil))
 }
-- 
2.43.0


From f2a7bb5aefce501ce337d9d7e68d2b760884e8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:06:59 +0000
Subject: [PATCH 36/47] fix: keep packed source positions in line order

---
 hclpack/positions_packed.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hclpack/positions_packed.go b/hclpack/positions_packed.go
index 0cce9fc..4a48acf 100644
--- a/hclpack/positions_packed.go
+++ b/hclpack/positions_packed.go
@@ -318,6 +318,14 @@ func (sp sortPositions) Len() int {
 }
 
 func (sp sortPositions) Less(i, j int) bool {
+	// Positions must be in line order, because line deltas must not be
+	// negative, even if the byte offsets are not populated.
+	if sp[i].Line != sp[j].Line {
+		return sp[i].Line < sp[j].Line
+	}
+	if sp[i].Column != sp[j].Column {
+		return sp[i].Column < sp[j].Column
+	}
 	return sp[i].Byte < sp[j].Byte
 }
 
-- 
2.43.0


From 4390f7d5279f3ecd5c2a6cef5d2b6f60b8f80ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:57 +0000
Subject: [PATCH 37/47] fix: keep the missing item range in the content of
 merged bodies

---
 hcl/merged.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hcl/merged.go b/hcl/merged.go
index 96e62a5..e4b098a 100644
--- a/hcl/merged.go
+++ b/hcl/merged.go
@@ -159,7 +159,7 @@ func (mb mergedBodies) mergedContent(schema *BodySchema, partial bool) (*BodyCon
 	}
 
 	var diags Diagnostics
-	for _, body := range mb {
+	for i, body := range mb {
 		var thisContent *BodyContent
 		var thisLeftovers Body
 		var thisDiags Diagnostics
@@ -195,6 +195,11 @@ func (mb mergedBodies) mergedContent(schema *BodySchema, partial bool) (*BodyCon
 			}
 		}
 
+		if i == 0 {
+			// arbitrarily use the first body's missing item range
+			content.MissingItemRange = thisContent.MissingItemRange
+		}
+
 		if len(thisContent.Blocks) != 0 {
 			content.Blocks = append(content.Blocks, thisContent.Blocks...)
 		}
-- 
2.43.0


From 5d2154474ea6e72647f455acfb52cd8b99e64314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:11:43 +0000
Subject: [PATCH 38/47] fix: report failure to write the result of hcldec

---
 cmd/hcldec/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/hcldec/main.go b/cmd/hcldec/main.go
index 16dbb03..3c30024 100644
--- a/cmd/hcldec/main.go
+++ b/cmd/hcldec/main.go
@@ -217,7 +217,9 @@ func realmain(args []string) error {
 		}
 	}
 
-	fmt.Fprintf(target, "%s\n", out)
+	if _, err := fmt.Fprintf(target, "%s\n", out); err != nil {
+		return fmt.Errorf("failed to write result: %s", err)
+	}
 
 	return nil
 }
@@ -325,7 +327,9 @@ func showVarRefsJSON(vars []hcl.Traversal, ctx *hcl.EvalContext) error {
 		}
 	}
 
-	fmt.Fprintf(target, "%s\n", out)
+	if _, err := fmt.Fprintf(target, "%s\n", out); err != nil {
+		return fmt.Errorf("failed to write result: %s", err)
+	}
 
 	return nil
 }
-- 
2.43.0


From e7668f8169899e736e7ad6999bbc42a31735ee52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:34:36 +0000
Subject: [PATCH 39/47] fix: let object keys be unwrapped for static analysis

---
 hcl/hclsyntax/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 711eb58..e61a2ac 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -872,7 +872,7 @@ func (e *ObjectConsKeyExpr) AsTraversal() hcl.Traversal {
 	return st
 }
 
-func (e *ObjectConsKeyExpr) UnwrapExpression() Expression {
+func (e *ObjectConsKeyExpr) UnwrapExpression() hcl.Expression {
 	return e.Wrapped
 }
 
-- 
2.43.0


From 425dbb2946735452adf2db85699728aefac5fb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:40:08 +0000
Subject: [PATCH 40/47] fix: keep an attribute called for from starting an
 object type string

---
 ext/typeexpr/public.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ext/typeexpr/public.go b/ext/typeexpr/public.go
index e3f5eef..4ac80af 100644
--- a/ext/typeexpr/public.go
+++ b/ext/typeexpr/public.go
@@ -83,6 +83,11 @@ func TypeString(ty cty.Type) string {
 			names = append(names, name)
 		}
 		sort.Strings(names)
+		if len(names) > 1 && names[0] == "for" {
+			// An object constructor can't start with an attribute called
+			// "for", because that introduces a "for" expression.
+			names[0], names[1] = names[1], names[0]
+		}
 		first := true
 		for _, name := range names {
 			aty := atys[name]
-- 
2.43.0


From d0cd32ac9eb714a4ef6edda5ccffd5e91239c787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:59:15 +0000
Subject: [PATCH 41/47] fix: quote an object key called for in generated tokens

---
 hclwrite/generate.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hclwrite/generate.go b/hclwrite/generate.go
index 0d30b7b..d887afa 100644
--- a/hclwrite/generate.go
+++ b/hclwrite/generate.go
@@ -129,10 +129,12 @@ func appendTokensForValue(val cty.Value, toks Tokens) Tokens {
 				})
 			}
 			eKey, eVal := it.Element()
-			if hclsyntax.ValidIdentifier(eKey.AsString()) {
+			// An object constructor can't start with a bare "for", because that
+			// introduces a "for" expression.
+			if name := eKey.AsString(); hclsyntax.ValidIdentifier(name) && name != "for" {
 				toks = append(toks, &Token{
 					Type:  hclsyntax.TokenIdent,
-					Bytes: []byte(eKey.AsString()),
+					Bytes: []byte(name),
 				})
 			} else {
 				toks = appendTokensForValue(eKey, toks)
-- 
2.43.0


From bac62f2306859d0dfe0594d2bbfd6962d5c57b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:13:10 +0000
Subject: [PATCH 42/47] fix: refuse traversal steps that can't be written
 instead of leaving them out

---
 hclwrite/ast_expression.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hclwrite/ast_expression.go b/hclwrite/ast_expression.go
index 62d89fb..1f84675 100644
--- a/hclwrite/ast_expression.go
+++ b/hclwrite/ast_expression.go
@@ -93,6 +93,8 @@ func NewExpressionAbsTraversal(traversal hcl.Traversal) *Expression {
 				},
 			})
 			physT.steps.Add(physT.children.Append(ti))
+		default:
+			panic(fmt.Sprintf("unsupported traversal step type %T", step))
 		}
 	}
 
-- 
2.43.0


From f86676be42fbf5053897ab862b7c086b03a1c333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:38:27 +0000
Subject: [PATCH 43/47] fix: ignore attribute fields when encoding a struct

A field of type *hcl.Attribute was compared after the pointer had been taken
off, so encoding panicked instead of ignoring the field as documented.
---
 gohcl/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gohcl/encode.go b/gohcl/encode.go
index 3cbf7e4..87f7998 100644
--- a/gohcl/encode.go
+++ b/gohcl/encode.go
@@ -114,7 +114,7 @@ func populateBody(rv reflect.Value, ty reflect.Type, tags *fieldTags, dst *hclwr
 
 		if _, isAttr := tags.Attributes[name]; isAttr {
 
-			if exprType.AssignableTo(fieldTy) || attrType.AssignableTo(fieldTy) {
+			if exprType.AssignableTo(fieldTy) || attrType.AssignableTo(field.Type) {
 				continue // ignore undecoded fields
 			}
 			if !fieldVal.IsValid() {
-- 
2.43.0


From 649bee450c7b217e3c972b659aa55f01c7b46dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:08:06 +0000
Subject: [PATCH 44/47] fix: begin a new line before an item appended to a body

---
 hclwrite/ast_body.go | 56 ++++++++++++++++++++++++++++++++++++++++++++
 hclwrite/node.go     | 14 +++++++++++
 hclwrite/parser.go   |  1 +
 3 files changed, 71 insertions(+)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index c390136..a8352ac 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -1,6 +1,8 @@
 package hclwrite
 
 import (
+	"bytes"
+
 	"github.com/hashicorp/hcl2/hcl"
 	"github.com/hashicorp/hcl2/hcl/hclsyntax"
 	"github.com/zclconf/go-cty/cty"
@@ -10,6 +12,10 @@ type Body struct {
 	inTree
 
 	items nodeSet
+
+	// afterBrace is set if the body begins on the same line as the opening
+	// brace of the block it belongs to.
+	afterBrace bool
 }
 
 func newBody() *Body {
@@ -20,11 +26,61 @@ func newBody() *Body {
 }
 
 func (b *Body) appendItem(c nodeContent) *node {
+	b.startLine()
+	b.endLine()
 	nn := b.children.Append(c)
 	b.items.Add(nn)
+	b.endLine()
 	return nn
 }
 
+// startLine makes sure that the first item does not share a line with the
+// opening brace of the block, because that is allowed only for blocks that
+// have no other items.
+func (b *Body) startLine() {
+	if !b.afterBrace {
+		return
+	}
+	for _, tok := range b.BuildTokens(nil) {
+		if endsLine(tok) {
+			return
+		}
+		if tok.Type != hclsyntax.TokenComment {
+			break
+		}
+	}
+	b.children.Prepend(Tokens{newlineToken()})
+}
+
+// endLine makes sure that whatever is appended next begins on a new line,
+// appending a newline if the body ends without one.
+func (b *Body) endLine() {
+	for n := b.children.last; n != nil; n = n.before {
+		tokens := n.BuildTokens(nil)
+		for i := len(tokens) - 1; i >= 0; i-- {
+			if tokens[i].Type == hclsyntax.TokenEOF {
+				continue
+			}
+			if !endsLine(tokens[i]) {
+				b.AppendNewline()
+			}
+			return
+		}
+	}
+}
+
+// endsLine returns true if a new line begins after the given token.
+func endsLine(tok *Token) bool {
+	return bytes.HasSuffix(tok.Bytes, []byte{'\n'})
+}
+
+func newlineToken() *Token {
+	return &Token{
+		Type:  hclsyntax.TokenNewline,
+		Bytes: []byte{'\n'},
+	}
+}
+
 func (b *Body) appendItemNode(nn *node) *node {
 	nn.assertUnattached()
 	b.children.AppendNode(nn)
diff --git a/hclwrite/node.go b/hclwrite/node.go
index 06f6ada..5150432 100644
--- a/hclwrite/node.go
+++ b/hclwrite/node.go
@@ -136,6 +136,20 @@ func (ns *nodes) AppendNode(n *node) {
 	}
 }
 
+func (ns *nodes) Prepend(c nodeContent) *node {
+	n := newNode(c)
+	n.list = ns
+	n.after = ns.first
+	if ns.first != nil {
+		ns.first.before = n
+	}
+	ns.first = n
+	if ns.last == nil {
+		ns.last = n
+	}
+	return n
+}
+
 func (ns *nodes) AppendUnstructuredTokens(tokens Tokens) *node {
 	if len(tokens) == 0 {
 		return nil
diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index ba907ab..10ec5fe 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -332,6 +332,7 @@ func parseBlock(nativeBlock *hclsyntax.Block, from, leadComments, lineComments,
 	bodyTokens, cBrace, from := from.Partition(nativeBlock.CloseBraceRange)
 	before, body, after := parseBody(nativeBlock.Body, bodyTokens)
 	children.AppendUnstructuredTokens(before.Tokens())
+	body.content.(*Body).afterBrace = true
 	block.body = body
 	children.AppendNode(body)
 	children.AppendUnstructuredTokens(after.Tokens())
-- 
2.43.0


From f930f1d4eaf398c60fcde9e111680ba3b5a49bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:31:00 +0000
Subject: [PATCH 45/47] fix: give a call with a bad argument the range of its
 closing parenthesis

---
 hcl/hclsyntax/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/parser.go b/hcl/hclsyntax/parser.go
index e0c4946..b14ae02 100644
--- a/hcl/hclsyntax/parser.go
+++ b/hcl/hclsyntax/parser.go
@@ -1121,7 +1121,7 @@ Token:
 			// if there was a parse error in the argument then we've
 			// probably been left in a weird place in the token stream,
 			// so we'll bail out with a partial argument list.
-			p.recover(TokenCParen)
+			closeTok = p.recover(TokenCParen)
 			break Token
 		}
 
-- 
2.43.0


From c7e5cc79c033ef1c53574a60d65b85b78cec358c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:31:06 +0000
Subject: [PATCH 46/47] fix: give an unfinished quoted label a range that ends
 where the label does

---
 hcl/hclsyntax/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/parser.go b/hcl/hclsyntax/parser.go
index b14ae02..d5f0e74 100644
--- a/hcl/hclsyntax/parser.go
+++ b/hcl/hclsyntax/parser.go
@@ -1691,6 +1691,7 @@ Token:
 				Subject:  &tok.Range,
 				Context:  hcl.RangeBetween(oQuote.Range, tok.Range).Ptr(),
 			})
+			cQuote = tok
 			break Token
 
 		default:
@@ -1702,7 +1703,7 @@ Token:
 				Subject:  &tok.Range,
 				Context:  hcl.RangeBetween(oQuote.Range, tok.Range).Ptr(),
 			})
-			p.recover(TokenCQuote)
+			cQuote = p.recover(TokenCQuote)
 			break Token
 
 		}
-- 
2.43.0


From ccc8da43c3c568dfc4353b9a5f178a84715f7a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:31:09 +0000
Subject: [PATCH 47/47] fix: give the placeholder for a root that is not an
 object a closing range

---
 hcl/json/public.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hcl/json/public.go b/hcl/json/public.go
index 2728aa1..5576b1c 100644
--- a/hcl/json/public.go
+++ b/hcl/json/public.go
@@ -46,9 +46,10 @@ func Parse(src []byte, filename string) (*hcl.File, hcl.Diagnostics) {
 			End:      fakePos,
 		}
 		rootNode = &objectVal{
-			Attrs:     []*objectAttr{},
-			SrcRange:  fakeRange,
-			OpenRange: fakeRange,
+			Attrs:      []*objectAttr{},
+			SrcRange:   fakeRange,
+			OpenRange:  fakeRange,
+			CloseRange: fakeRange,
 		}
 	}
 
-- 
2.43.0

