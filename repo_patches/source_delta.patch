From db395c4b962c6e6c0c216924a14bb11c33ba450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 01/25] fix: pattern must not match more than its maximum,
 {0,1} and {n,n} took one too many

---
 parser_pattern.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parser_pattern.go b/parser_pattern.go
index c645045..a086947 100644
--- a/parser_pattern.go
+++ b/parser_pattern.go
@@ -87,6 +87,12 @@ func (patt *pattern) getRule() *rule { return patt.rule }
 func (patt *pattern) parse(ctx *ParseContext) Ast {
 	return wrap(func(_ *ParseContext, _ Parser) Ast {
 		pos := ctx.Code.Pos()
+		if patt.max == 0 {
+			if patt.min > 0 {
+				return nil
+			}
+			return NewNativeArray([]Ast{})
+		}
 		resValue := patt.value.parse(ctx)
 		if resValue == nil {
 			ctx.Code.SetPos(pos)
@@ -96,7 +102,7 @@ func (patt *pattern) parse(ctx *ParseContext) Ast {
 			return NewNativeArray([]Ast{})
 		}
 		var matches []Ast = []Ast{resValue}
-		for {
+		for patt.max < 0 || len(matches) < patt.max {
 			pos2 := ctx.Code.Pos()
 			if !IsUndefined(patt.join) {
 				resJoin := patt.join.parse(ctx)
@@ -113,9 +119,6 @@ func (patt *pattern) parse(ctx *ParseContext) Ast {
 				break
 			}
 			matches = append(matches, resValue)
-			if patt.max > -1 && len(matches) >= int(patt.max) {
-				break
-			}
 		}
 		if patt.min > -1 && int(patt.min) > len(matches) {
 			ctx.Code.SetPos(pos)
-- 
2.43.0


From d126236acd0491405ee6680cbc0da33637356c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 02/25] fix: repeating a pattern which matches the empty string
 must terminate

---
 parser_pattern.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser_pattern.go b/parser_pattern.go
index a086947..9fdf793 100644
--- a/parser_pattern.go
+++ b/parser_pattern.go
@@ -118,6 +118,9 @@ func (patt *pattern) parse(ctx *ParseContext) Ast {
 				ctx.Code.SetPos(pos2)
 				break
 			}
+			if ctx.Code.Pos() == pos2 && len(matches) >= patt.min {
+				break // no progress, another iteration would change nothing
+			}
 			matches = append(matches, resValue)
 		}
 		if patt.min > -1 && int(patt.min) > len(matches) {
-- 
2.43.0


From 8b9e3b75ec2256ea11a0f1720487d4a0e0952e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 03/25] fix: an optional labelled element must merge as a map
 and not leak an @ key

---
 packrat.go            | 3 ++-
 parser_existential.go | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/packrat.go b/packrat.go
index 06790b4..83b3f7b 100644
--- a/packrat.go
+++ b/packrat.go
@@ -264,7 +264,8 @@ func prepareResult(fparse2 parseFunc2, caller Parser) parseFunc {
 		if result != nil {
 			// handle labels for standalone nodes
 			rule := caller.getRule()
-			if rule.label != "" && rule.parent != nil && !rule.parent.handlesChildLabel() {
+			// ("@" and "&" are merge instructions for a sequence, not names)
+			if rule.label != "" && rule.label != "@" && rule.label != "&" && rule.parent != nil && !rule.parent.handlesChildLabel() {
 				result = NewNativeMap(map[string]Ast{rule.label: result})
 			}
 			if rule.cb != nil {
diff --git a/parser_existential.go b/parser_existential.go
index 5d48812..7e12a04 100644
--- a/parser_existential.go
+++ b/parser_existential.go
@@ -16,7 +16,10 @@ func newExistential(it Ast) *existential {
 }
 
 func (ex *existential) handlesChildLabel() bool {
-	if ex.rule.parent != nil {
+	if ex.label == "@" {
+		// the labels of the child get merged, so it must produce a map
+		return false
+	} else if ex.rule.parent != nil {
 		return ex.rule.parent.handlesChildLabel()
 	} else {
 		return false
-- 
2.43.0


From 03aa92d7295262823f4a24401b698f6cbbe4a553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 04/25] fix: merging labels must not alter the memoized map of
 the referenced rule

---
 native_map.go      | 11 +++++++++++
 parser_sequence.go |  7 +++++++
 2 files changed, 18 insertions(+)

diff --git a/native_map.go b/native_map.go
index 2517506..ba6edda 100644
--- a/native_map.go
+++ b/native_map.go
@@ -55,6 +55,17 @@ func (nm *NativeMap) Concat() NativeString {
 }
 
 func (nm *NativeMap) assertNode() {}
+
+// shallow copy
+func (nm *NativeMap) copy() *NativeMap {
+	vals := make(map[string]Ast, len(nm.vals))
+	for k, v := range nm.vals {
+		vals[k] = v
+	}
+	attr := *nm.Attr
+	return &NativeMap{&attr, vals, append([]string{}, nm.keys...)}
+}
+
 func (nm *NativeMap) String() string {
 	var b strings.Builder
 	b.WriteString("NativeMap{")
diff --git a/parser_sequence.go b/parser_sequence.go
index 3b008c4..39dfc5c 100644
--- a/parser_sequence.go
+++ b/parser_sequence.go
@@ -159,6 +159,13 @@ func (seq *sequence) parseAsObject(ctx *ParseContext) Ast {
 			return nil
 		}
 		label := child.getRule().label
+		if label == "&" || label == "@" {
+			// res may be memoized and used again by another alternative:
+			// don't let what gets merged below leak into it
+			if h, isMap := res.(*NativeMap); isMap {
+				res = h.copy()
+			}
+		}
 		switch label {
 		case "&":
 			if IsUndefined(results) {
-- 
2.43.0


From acabeb82c7c3c19e3c14230e12da4f01c9df6f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 05/25] fix: NativeMap.IsEmpty was inverted

---
 native_map.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/native_map.go b/native_map.go
index ba6edda..14588b8 100644
--- a/native_map.go
+++ b/native_map.go
@@ -86,10 +86,7 @@ func (nm *NativeMap) Keys() []string {
 }
 
 func (nm *NativeMap) IsEmpty() bool {
-	for range nm.vals {
-		return true
-	}
-	return false
+	return len(nm.vals) == 0
 }
 
 func (nm *NativeMap) GetExists(k string) (Ast, bool) {
-- 
2.43.0


From a071984352d33f268fd9d651b61e912a859bb2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 06/25] fix: deeply nested input must not overflow the fixed
 size rule stack

---
 parsectx.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parsectx.go b/parsectx.go
index fa204ad..f2257ee 100644
--- a/parsectx.go
+++ b/parsectx.go
@@ -21,7 +21,7 @@ type ParseContext struct {
 
 	numRules    int
 	frames      [][]*frame // 2D: [len(code.text) + 1][numRules]
-	stack       [1024]*frame
+	stack       []*frame
 	stackLength int
 	loopStack   []string
 }
@@ -86,10 +86,14 @@ func (ctx *ParseContext) loopStackPush(name string) { ctx.loopStack = append(ctx
 func (ctx *ParseContext) loopStackPop()             { ctx.loopStack = ctx.loopStack[:len(ctx.loopStack)-1] }
 func (ctx *ParseContext) stackPeek(skip int) *frame { return ctx.stack[ctx.stackLength-1-skip] }
 func (ctx *ParseContext) stackPush(x Parser) {
-	ctx.stack[ctx.stackLength] = ctx.getFrame(x)
+	ctx.stack = append(ctx.stack, ctx.getFrame(x))
 	ctx.stackLength++
 }
-func (ctx *ParseContext) stackPop() { ctx.stackLength-- }
+
+func (ctx *ParseContext) stackPop() {
+	ctx.stackLength--
+	ctx.stack = ctx.stack[:ctx.stackLength]
+}
 
 func (ctx *ParseContext) getFrame(x Parser) *frame {
 	id := x.getRule().id
-- 
2.43.0


From 80e4ffc95368eba6bf77910d8626359c80944c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 07/25] fix: Debug of one parse must not alter the trace
 options shared by the grammar

---
 grammar.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/grammar.go b/grammar.go
index 468e3ed..50754ac 100644
--- a/grammar.go
+++ b/grammar.go
@@ -106,18 +106,17 @@ func (gm *Grammar) ParseTokens(tokens *TokenStream, options ...ParseOption) Ast
 // Use ParseString() or ParseTokens()
 // This parse(ctx) is for Grammar to implement Parser
 func (gm *Grammar) parse(ctx *ParseContext) Ast {
-	oldTrace := gm.TraceOptions.Stack
 	ctx.GrammarName = gm.getRule().name
 	if ctx.parseOptions.debug {
-		// temporarily enable stack tracing
-		gm.TraceOptions.Stack = true
+		// enable stack tracing, for this parse only
+		// (the grammar may be parsing something else at the same time)
+		ctx.TraceOptions = ctx.TraceOptions.Copy()
+		ctx.TraceOptions.Stack = true
 	}
 	if gm.rank == nil {
 		panic("Grammar.rank is nil")
 	}
 	result := gm.rank.parse(ctx)
-	// undo temporary stack tracing
-	gm.TraceOptions.Stack = oldTrace
 	// if parse is incomplete, compute error message
 	if ctx.Code.Pos() != ctx.Code.workLength() {
 		// find the maximum parsed entity
-- 
2.43.0


From ce3381964ac45070214f05bf6468cf578adbc78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 08/25] fix: Lazy must be safe for goroutines parsing with the
 same grammar

---
 helpers/lazy.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/helpers/lazy.go b/helpers/lazy.go
index 01f9ebe..6d7bf35 100644
--- a/helpers/lazy.go
+++ b/helpers/lazy.go
@@ -1,10 +1,15 @@
 package helpers
 
+import "sync"
+
 // lazy, when lazy.Get() is called:
 // - returns lazy.val if set,
 // - returns lazy.val = lazy.f() otherwise
+//
+// It can be used by several goroutines.
 
 type Lazy[T any] struct {
+	mu  sync.Mutex
 	val *T
 	f   func() T // lazy evaluator
 }
@@ -13,11 +18,13 @@ func NewLazy[T any]() *Lazy[T]                { return &Lazy[T]{} }
 func LazyFromValue[T any](t T) *Lazy[T]       { r := &Lazy[T]{}; r.Set(t); return r }
 func LazyFromFunc[T any](f func() T) *Lazy[T] { return &Lazy[T]{f: f} }
 
-func (k *Lazy[T]) IsSet() bool { return k.val != nil }
-func (k *Lazy[T]) Set(t T)     { k.val = &t }
-func (k *Lazy[T]) Clear()      { k.val = nil; k.f = nil }
+func (k *Lazy[T]) IsSet() bool { k.mu.Lock(); defer k.mu.Unlock(); return k.val != nil }
+func (k *Lazy[T]) Set(t T)     { k.mu.Lock(); defer k.mu.Unlock(); k.val = &t }
+func (k *Lazy[T]) Clear()      { k.mu.Lock(); defer k.mu.Unlock(); k.val = nil; k.f = nil }
 func (k *Lazy[T]) Get() T {
-	if !k.IsSet() && k.f != nil {
+	k.mu.Lock()
+	defer k.mu.Unlock()
+	if k.val == nil && k.f != nil {
 		ptr := k.f()
 		(*k).val = &ptr
 		return *k.val
@@ -26,4 +33,4 @@ func (k *Lazy[T]) Get() T {
 	}
 }
 
-func (k *Lazy[T]) SetLazy(f func() T) { k.f = f }
+func (k *Lazy[T]) SetLazy(f func() T) { k.mu.Lock(); defer k.mu.Unlock(); k.f = f }
-- 
2.43.0


From 79ee296ed469d431c26c78535c26314f12a3bc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 09/25] fix: tracing a SkipCache rule which does not match must
 not crash

---
 packrat.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packrat.go b/packrat.go
index 83b3f7b..ff7e96a 100644
--- a/packrat.go
+++ b/packrat.go
@@ -89,7 +89,9 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 		}
 		if x.getRule().skipCache {
 			result := fparse(ctx)
-			if showLog {
+			if showLog && result == nil {
+				ctx.log(Cyan("`->:")+" nil", opts)
+			} else if showLog {
 				ctx.log(Cyan("`->:")+" "+helpers.Escape(result.String())+" "+BoldBlack(helpers.TypeOfToString(result)), opts)
 			}
 			return result
-- 
2.43.0


From b3b99a2af134c8541be4078fe082ee1944cf3d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 10/25] fix: tracing must not crash on input which is not valid
 UTF-8

---
 helpers/helpers.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/helpers/helpers.go b/helpers/helpers.go
index cc34f46..261acfc 100644
--- a/helpers/helpers.go
+++ b/helpers/helpers.go
@@ -135,7 +135,7 @@ func BoolToString(b bool) string {
 
 // take last `nTake` runes from `abc`, in natural order. ("abc", 2) -> "bc"
 // When nTake is more than the number of available runes, return all of them.
-// If RuneError at some point, panic.
+// A byte which is not valid UTF-8 counts as one rune.
 func LastNRunes(abc string, nTake int) string {
 	totalSize := 0 // size in bytes
 	slice := abc
@@ -143,11 +143,8 @@ func LastNRunes(abc string, nTake int) string {
 		if len(slice) == 0 {
 			break
 		}
-		c, csize := utf8.DecodeLastRuneInString(slice)
-		if c == utf8.RuneError {
-			panic(fmt.Sprintf("RuneError: %q\n", c))
-		}
-		totalSize += csize // csize is char len in bytes for rune c
+		_, csize := utf8.DecodeLastRuneInString(slice)
+		totalSize += csize // csize is char len in bytes for the rune
 		slice = slice[:len(slice)-csize]
 		nTake--
 	}
-- 
2.43.0


From 4a3c8c564d6469e1c1c5f035ffb11bd16a689030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 11/25] fix: coordinates inside the last token were relative to
 the token before it

---
 codestream_token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codestream_token.go b/codestream_token.go
index 63e94cc..ae57dfc 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -307,10 +307,10 @@ func (code *TokenStream) coords(workOffset int) coord {
 	nToken := 0
 	var token Token
 	for {
+		token = code.tokens[nToken]
 		if nToken >= len(code.tokens)-1 {
 			break // don't panic, it can make sense when a token was inserted
 		}
-		token = code.tokens[nToken]
 		if workOffset < token.WorkOffset+len(token.Repr) {
 			break
 		}
-- 
2.43.0


From c57b0f946e113ce27a687f6f05b5c6059489891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 12/25] fix: TokenStreamFromGoCode must report the lexical
 errors of its own source, only

---
 codestream_token.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/codestream_token.go b/codestream_token.go
index ae57dfc..59e0e91 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -331,13 +331,6 @@ func (code *TokenStream) coords(workOffset int) coord {
 	}
 }
 
-// use by error handler below
-var scanErrors []error
-
-func handleErrors(pos token.Position, msg string) {
-	scanErrors = append(scanErrors, scannerError{pos, msg})
-}
-
 // TokenStreamFromGoCode is a special function transforming
 // some go code into a TokenStream. You can then call
 // `yourGrammar.ParseTokens(ts TokenStream)` directly.
@@ -345,13 +338,11 @@ func TokenStreamFromGoCode(source string) (*TokenStream, error) {
 	var scan goscanner.Scanner
 	fset := token.NewFileSet()
 	file := fset.AddFile("", fset.Base(), len(source))
-	scan.Init(file, []byte(source), handleErrors, 0 /*goscanner.ScanComments*/)
-	if scan.ErrorCount > 0 {
-		if scan.ErrorCount != len(scanErrors) {
-			panic("assert") // errors must have been collected
-		}
-		return nil, errors.Join(scanErrors...)
+	var scanErrors []error
+	handleErrors := func(pos token.Position, msg string) {
+		scanErrors = append(scanErrors, scannerError{pos, msg})
 	}
+	scan.Init(file, []byte(source), handleErrors, 0 /*goscanner.ScanComments*/)
 	tokens := []Token{}
 	workOffset := 0
 	prev := ""
@@ -391,6 +382,9 @@ func TokenStreamFromGoCode(source string) (*TokenStream, error) {
 		tokens = append(tokens, Token{s, int(pos) - 1, workOffset})
 		b.WriteString(s)
 	}
+	if len(scanErrors) > 0 {
+		return nil, errors.Join(scanErrors...)
+	}
 	return NewTokenStream(source, tokens), nil
 }
 
-- 
2.43.0


From feb4f89ac463105ad69c07c1dd66b5821843cee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 13/25] fix: tokens of go code must not be glued into other
 tokens

---
 codestream_token.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/codestream_token.go b/codestream_token.go
index 59e0e91..e4ab558 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -377,6 +377,9 @@ func TokenStreamFromGoCode(source string) (*TokenStream, error) {
 				s = tokStr
 			}
 		}
+		if s[0] != ' ' && mustSeparate(strings.TrimPrefix(prev, " "), s) {
+			s = " " + s
+		}
 		workOffset += len(prev)
 		prev = s
 		tokens = append(tokens, Token{s, int(pos) - 1, workOffset})
@@ -388,6 +391,20 @@ func TokenStreamFromGoCode(source string) (*TokenStream, error) {
 	return NewTokenStream(source, tokens), nil
 }
 
+// true when joining tokens `prev` and `next` would make something else of
+// them, as in "-" "-", "<" "-" or "1" "."
+func mustSeparate(prev, next string) bool {
+	if prev == "." && next == "." {
+		return true // may become "..."
+	}
+	var scan goscanner.Scanner
+	file := token.NewFileSet().AddFile("", -1, len(prev)+len(next))
+	scan.Init(file, []byte(prev+next), func(token.Position, string) {}, goscanner.ScanComments)
+	scan.Scan()
+	pos, _, _ := scan.Scan()
+	return prev != "" && file.Offset(pos) != len(prev)
+}
+
 type scannerError struct {
 	pos token.Position
 	msg string
-- 
2.43.0


From 79501b210ccccc061ab4c18939e057c7503054f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 14/25] fix: the label of a group was lost when its sequence
 has no other label

---
 parser_sequence.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser_sequence.go b/parser_sequence.go
index 39dfc5c..de0ad9a 100644
--- a/parser_sequence.go
+++ b/parser_sequence.go
@@ -40,7 +40,12 @@ func newSequence(it Ast) *sequence {
 			sequence: parsers,
 		}
 		rule.node = seq
-		rule.labels_ = helpers.LazyFromFunc(func() []string { return seq.calculateLabels() })
+		rule.labels_ = helpers.LazyFromFunc(func() []string {
+			if seq.label != "" && seq.label != "@" && seq.label != "&" {
+				return []string{seq.label} // labelled group, e.g. foo:('a' B)
+			}
+			return seq.calculateLabels()
+		})
 		rule.captures_ = helpers.LazyFromFunc(func() []Ast { return seq.calculateCaptures() })
 		seq.lazyType = helpers.LazyFromFunc(func() sequenceRepr { return seq.calculateType() })
 		return seq
@@ -51,6 +56,7 @@ func (seq *sequence) getRule() *rule          { return seq.rule }
 func (seq *sequence) handlesChildLabel() bool { return true }
 func (seq *sequence) prepare()                {}
 
+// labels of the elements
 func (seq *sequence) calculateLabels() []string {
 	a := []string{}
 	for _, child := range seq.sequence {
@@ -71,7 +77,7 @@ func (seq *sequence) calculateCaptures() []Ast {
 // otherwise, if at least 1 capture, it is Array
 // otherwise a Single
 func (seq *sequence) calculateType() sequenceRepr {
-	if len(seq.labels_.Get()) == 0 {
+	if len(seq.calculateLabels()) == 0 {
 		if len(seq.captures_.Get()) > 1 {
 			return Array
 		} else {
-- 
2.43.0


From a19baf133764c880431a42b87efb90480166593c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:12 +0000
Subject: [PATCH 15/25] fix: rules depending on a cached recursive result must
 be wiped between rounds

---
 packrat.go  |  1 +
 parsectx.go | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/packrat.go b/packrat.go
index ff7e96a..613e409 100644
--- a/packrat.go
+++ b/packrat.go
@@ -116,6 +116,7 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 						ctx.log(Cyan("`-hit:")+" nil", opts)
 					}
 				}
+				ctx.wipeDependents(frame)
 				ctx.Code.SetPos(frame.endpos)
 				return frame.result
 			}
diff --git a/parsectx.go b/parsectx.go
index f2257ee..bf1d635 100644
--- a/parsectx.go
+++ b/parsectx.go
@@ -138,6 +138,20 @@ func (ctx *ParseContext) wipeWith(frame_ *frame, makeStash bool) stash {
 	}
 }
 
+// wipeDependents is called when a result was found in the cache. If it will
+// be wiped by the next iteration of some recursive rule, then the rules in
+// between, whose results are going to depend on it, must be wiped as well.
+func (ctx *ParseContext) wipeDependents(hit *frame) {
+	for i := ctx.stackLength - 2; i >= 0 && ctx.stack[i].pos == hit.pos; i-- {
+		head := ctx.stack[i]
+		if head.loopstage >= 2 && head.wipemask[hit.id] {
+			for _, between := range ctx.stack[i+1 : ctx.stackLength-1] {
+				head.wipemask[between.id] = true
+			}
+		}
+	}
+}
+
 func (ctx *ParseContext) restoreWith(stash_ stash) {
 	for i, frame := range stash_ {
 		if frame != nil {
-- 
2.43.0


From c7bf3c6b1f7a16b946bf6bccd8b277f56bbadc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:24 +0000
Subject: [PATCH 16/25] fix: grammars built from the same lines must not share
 the options of their rules

---
 line.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/line.go b/line.go
index 7ab54b4..b423f85 100644
--- a/line.go
+++ b/line.go
@@ -189,7 +189,9 @@ func getRule(
 			answer = ast.(Parser)
 		}
 		answer.getRule().name = name
-		answer.getRule().parseOptions = attrs
+		// a copy, since several grammars can be built from the same lines
+		options := *attrs
+		answer.getRule().parseOptions = &options
 	default:
 		panic("unrecog type " + reflect.TypeOf(line).String())
 	}
-- 
2.43.0


From 27d595a30bd396858e3974527019517006f094b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 17/25] fix: tracing loops of one line only must not crash on
 the other lines

---
 packrat.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packrat.go b/packrat.go
index 613e409..ff19e52 100644
--- a/packrat.go
+++ b/packrat.go
@@ -149,7 +149,8 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 					return result
 				} else {
 					frame.loopstage = 3
-					if opts.Loop && ((opts.FilterLine < 0) || ctx.Code.Line() == opts.FilterLine) {
+					logLoop := opts.Loop && ((opts.FilterLine < 0) || ctx.Code.Line() == opts.FilterLine)
+					if logLoop {
 						ctx.loopStackPush(x.getRule().name)
 						// if false {
 						//  line := ctx.Code.Line()
@@ -200,7 +201,7 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 							break
 						}
 					}
-					if opts.Loop {
+					if logLoop {
 						ctx.loopStackPop()
 					}
 					ctx.wipeWith(frame, false)
-- 
2.43.0


From f885db4d9da99eb406959c6797b40ad9986c499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 18/25] fix: PeekLines must not crash on lines which do not
 exist, nor ignore the current line

---
 codestream_rune.go  | 5 ++++-
 codestream_token.go | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/codestream_rune.go b/codestream_rune.go
index fba68a4..c6317d6 100644
--- a/codestream_rune.go
+++ b/codestream_rune.go
@@ -92,7 +92,7 @@ func (code *RuneStream) PeekRunes(n int) string {
 // When only 1 value is given, a second value of 0 is implied to create a range.
 func (code *RuneStream) PeekLines(n ...int) string {
 	if len(n) <= 0 {
-		return ""
+		n = []int{0} // current line
 	} else if len(n) == 1 {
 		n = []int{n[0], 0} // implied 0
 	}
@@ -106,6 +106,9 @@ func (code *RuneStream) PeekLines(n ...int) string {
 			max = n
 		}
 	}
+	if code.Line()+min >= len(code.lineStarts) || code.Line()+max < 0 {
+		return "" // there is no such line
+	}
 	start := code.lineStarts[helpers.Max(0, code.Line()+min)]
 	var end int
 	endLine := helpers.Min(len(code.lineStarts)-1, code.Line()+max)
diff --git a/codestream_token.go b/codestream_token.go
index e4ab558..ec836fa 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -181,6 +181,9 @@ func (code *TokenStream) PeekLines(n ...int) string {
 			max = n
 		}
 	}
+	if code.Line()+min >= len(code.lineStarts) || code.Line()+max < 0 {
+		return "" // there is no such line
+	}
 	start := code.lineStarts[helpers.Max(0, code.Line()+min)]
 	var end int
 	endLine := helpers.Min(len(code.lineStarts)-1, code.Line()+max)
-- 
2.43.0


From 48403126e675ad8f91423a2a2480461e961d526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:40 +0000
Subject: [PATCH 19/25] fix: LastNRunesReversed must not stop at U+FFFD or at a
 byte which is not valid UTF-8

---
 helpers/helpers.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/helpers/helpers.go b/helpers/helpers.go
index 261acfc..9194db3 100644
--- a/helpers/helpers.go
+++ b/helpers/helpers.go
@@ -160,11 +160,11 @@ func LastNRunesReversed(abc string, nTake int) string {
 	slice := abc
 	var b strings.Builder
 	for i := len(abc) - sizeinit; i >= len(abc)-sizeinit-nTake+1; i-- {
-		r, size := utf8.DecodeLastRuneInString(slice)
-		if r == utf8.RuneError {
+		_, size := utf8.DecodeLastRuneInString(slice)
+		if size == 0 {
 			break
 		}
-		b.WriteRune(r)
+		b.WriteString(slice[len(slice)-size:])
 		slice = slice[:len(slice)-size]
 	}
 	return b.String()
-- 
2.43.0


From b523ff4811c96875418e14b9ed35ec3a2d107dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 20/25] fix: a rule without parse function must not widen the
 span of the node it passes on

---
 packrat.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/packrat.go b/packrat.go
index ff19e52..f7ed647 100644
--- a/packrat.go
+++ b/packrat.go
@@ -279,16 +279,20 @@ func prepareResult(fparse2 parseFunc2, caller Parser) parseFunc {
 				}
 			}
 			// set origin
-			// This only is for debugging.
+			// A result this rule merely passes on keeps the origin the
+			// rule which made it gave: it is memoized, and so shared with
+			// alternatives which match more, or less, around it.
 			// TODO double check original coffee implementation,
 			//      not sure if entirely correct.
-			result.SetOrigin(Origin{
-				Code:     ctx.Code.Code(),
-				Start:    ctx.stackPeek(0).pos,
-				End:      ctx.Code.Pos(),
-				Line:     ctx.Code.Line(),
-				RuleName: caller.getRule().parser.getRule().name,
-			})
+			if rule.cb != nil || result.GetOrigin() == (Origin{}) {
+				result.SetOrigin(Origin{
+					Code:     ctx.Code.Code(),
+					Start:    ctx.stackPeek(0).pos,
+					End:      ctx.Code.Pos(),
+					Line:     ctx.Code.Line(),
+					RuleName: caller.getRule().parser.getRule().name,
+				})
+			}
 		}
 		return result
 	}
-- 
2.43.0


From 3cddf3e45fd70997428ce19107fafb39c54ec26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:56 +0000
Subject: [PATCH 21/25] fix: a left-recursive rule which does not match must be
 remembered like any other

---
 packrat.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packrat.go b/packrat.go
index f7ed647..ad85d90 100644
--- a/packrat.go
+++ b/packrat.go
@@ -145,7 +145,9 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 						ctx.log(Yellow("`--- loop nil --- "), opts)
 					}
 					frame.loopstage = 0
-					// cacheSet(frame, nil) // unneeded (already nil)
+					// cacheSet, so that trying again is not needed: otherwise work
+					// is exponential in the nesting of what fails.
+					frame.cacheSet(nil, startPos)
 					return result
 				} else {
 					frame.loopstage = 3
-- 
2.43.0


From aa5ab5e5bf181dc245ca5ae5c8f2e6a5e9dd25d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 22/25] fix: a parse function which passes a node on must not
 widen the span of that node

---
 native_map.go |  3 +--
 packrat.go    | 12 +++++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/native_map.go b/native_map.go
index 14588b8..04b6f70 100644
--- a/native_map.go
+++ b/native_map.go
@@ -62,8 +62,7 @@ func (nm *NativeMap) copy() *NativeMap {
 	for k, v := range nm.vals {
 		vals[k] = v
 	}
-	attr := *nm.Attr
-	return &NativeMap{&attr, vals, append([]string{}, nm.keys...)}
+	return &NativeMap{newAttr(), vals, append([]string{}, nm.keys...)}
 }
 
 func (nm *NativeMap) String() string {
diff --git a/packrat.go b/packrat.go
index ad85d90..7f9bf83 100644
--- a/packrat.go
+++ b/packrat.go
@@ -266,6 +266,7 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 func prepareResult(fparse2 parseFunc2, caller Parser) parseFunc {
 	return func(ctx *ParseContext) Ast {
 		ctx.Counter++
+		start := ctx.Code.Pos()
 		result := fparse2(ctx, caller)
 		if result != nil {
 			// handle labels for standalone nodes
@@ -281,15 +282,16 @@ func prepareResult(fparse2 parseFunc2, caller Parser) parseFunc {
 				}
 			}
 			// set origin
-			// A result this rule merely passes on keeps the origin the
-			// rule which made it gave: it is memoized, and so shared with
-			// alternatives which match more, or less, around it.
+			// A result this rule merely passes on (its parse function may as
+			// well) keeps the origin the rule which made it gave: it is
+			// memoized, and so shared with alternatives which match more, or
+			// less, around it.
 			// TODO double check original coffee implementation,
 			//      not sure if entirely correct.
-			if rule.cb != nil || result.GetOrigin() == (Origin{}) {
+			if result.GetOrigin() == (Origin{}) {
 				result.SetOrigin(Origin{
 					Code:     ctx.Code.Code(),
-					Start:    ctx.stackPeek(0).pos,
+					Start:    start,
 					End:      ctx.Code.Pos(),
 					Line:     ctx.Code.Line(),
 					RuleName: caller.getRule().parser.getRule().name,
-- 
2.43.0


From c78c635e622627226252ea426bde3ae69f36a4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:00 +0000
Subject: [PATCH 23/25] fix: the parse function and options of an O line given
 as the content of another line were lost

---
 line.go        |  2 ++
 parseoption.go | 13 +++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/line.go b/line.go
index b423f85..3e9bae6 100644
--- a/line.go
+++ b/line.go
@@ -159,6 +159,8 @@ func getRule(
 	case ILine:
 		panic("assert") // ILine is impossible here
 	case OLine:
+		// what the outer line says extends what this line says
+		attrs = v.parseOptions.extendedBy(attrs)
 		v.parseOptions = attrs
 		answer = v.toRule(rank_, parentRule, oLineNaming{name: name}, opts, lazyGrammar)
 		if answer.getRule().name == "" {
diff --git a/parseoption.go b/parseoption.go
index 626fbbc..d2df58e 100644
--- a/parseoption.go
+++ b/parseoption.go
@@ -54,3 +54,16 @@ func newParseOptions() *parseOptions {
 		cb:        nil,
 	}
 }
+
+// extendedBy gives a copy of opts which has the options of outer as well. A
+// parse function of outer comes instead of that of opts.
+func (opts *parseOptions) extendedBy(outer *parseOptions) *parseOptions {
+	extended := *opts
+	extended.debug = opts.debug || outer.debug
+	extended.skipLog = opts.skipLog || outer.skipLog
+	extended.skipCache = opts.skipCache || outer.skipCache
+	if outer.cb != nil {
+		extended.cb = outer.cb
+	}
+	return &extended
+}
-- 
2.43.0


From c30051147165f4ceeddb0df7130eb80b21bd25d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 24/25] fix: the options of a rule given as lines, or already
 compiled, were ignored

---
 line.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/line.go b/line.go
index 3e9bae6..59ef8ea 100644
--- a/line.go
+++ b/line.go
@@ -191,9 +191,6 @@ func getRule(
 			answer = ast.(Parser)
 		}
 		answer.getRule().name = name
-		// a copy, since several grammars can be built from the same lines
-		options := *attrs
-		answer.getRule().parseOptions = &options
 	default:
 		panic("unrecog type " + reflect.TypeOf(line).String())
 	}
@@ -206,6 +203,8 @@ func getRule(
 		panic("assert")
 	}
 	// fmt.Printf(" name=%s attrs rule.rule.Debug=%s rule.Debug=%s attrs.Debug=%s\n", name, reflect.TypeOf(line).String(), rule.Debug, rule.Debug, attrs.Debug)
-	rule.parseOptions.cb = attrs.cb
+	// a copy, since several grammars can be built from the same lines
+	options := *attrs
+	rule.parseOptions = &options
 	return answer
 }
-- 
2.43.0


From 5e4e26dafa9dad9edf720cb398af5fc7a43d6b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:22 +0000
Subject: [PATCH 25/25] fix: a rule given already compiled was not taken for a
 rule, which crashed or was never memoized

---
 line.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/line.go b/line.go
index 59ef8ea..936aa8a 100644
--- a/line.go
+++ b/line.go
@@ -110,6 +110,8 @@ func rule2line(x any) Line {
 		return newSLine(v)
 	case sLine:
 		return O(v.Str)
+	case cLine: // which is a Parser too
+		return v
 	case Parser:
 		return newCLine(v)
 	case ALine:
-- 
2.43.0

