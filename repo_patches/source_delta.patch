From 92a8ee6dcf55bc61cd91e25f02b517ad36729560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:09 +0000
Subject: [PATCH 01/64] fix: run the ops of a node whose value is an empty
 array or object

An empty container ended the node's processing early, so EXISTS(a) was
false on {"a":[]} and a comparison with it was never evaluated.
---
 fastMatcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index 6ab677f..31d514b 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -747,7 +747,7 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 
 		// Keep this here to catch any empty array or empty objs
 		if token == endToken {
-			return nil, true
+			return nil, false
 		}
 
 		// TODO(brett19): These byte-string conversion pieces are a bit wierd
-- 
2.43.0


From fee335ad76c73112ab80d2ff95e2bd64f2e24381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:09 +0000
Subject: [PATCH 02/64] fix: clear the collation status when a matcher is reset

MatchWithStatus kept reporting MatcherCollateUsed for every document
after the first one that needed collation.
---
 fastMatcher.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fastMatcher.go b/fastMatcher.go
index 31d514b..eaae399 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -34,6 +34,7 @@ func (m *FastMatcher) Reset() {
 		m.slots[i] = emptySlotData
 	}
 	m.buckets.Reset()
+	m.collateUsed = false
 }
 
 func (m *FastMatcher) leaveValue() error {
-- 
2.43.0


From 34ab18e5c9a8df6341a8e34cac93b98285d16cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:09 +0000
Subject: [PATCH 03/64] fix: walk the context stack downwards when resolving a
 loop variable

Referring to an outer loop's variable from an inner loop indexed past
the end of the stack and panicked.
---
 transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transform.go b/transform.go
index b3fb9e7..64ce1ab 100644
--- a/transform.go
+++ b/transform.go
@@ -155,7 +155,7 @@ func (t *Transformer) getContext(varID VariableID) *compileContext {
 		return nil
 	}
 
-	for i := len(t.ContextStack) - 1; i >= 0; i++ {
+	for i := len(t.ContextStack) - 1; i >= 0; i-- {
 		if t.ContextStack[i].Var == varID {
 			return t.ContextStack[i]
 		}
-- 
2.43.0


From e4dd9c107fc5cfa545bd59cf7c1600974d213445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:09 +0000
Subject: [PATCH 04/64] fix: collect field references of NOT EXISTS, TRUE and
 FALSE

Compiling any of them inside an ANY/EVERY body panicked.
---
 expression_utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expression_utils.go b/expression_utils.go
index 2a911c6..3cd921d 100644
--- a/expression_utils.go
+++ b/expression_utils.go
@@ -19,6 +19,8 @@ func fieldExprMatches(lhs FieldExpr, rhs FieldExpr) bool {
 
 func fetchExprFieldRefsRecurse(expr Expression, loopVars []VariableID, fields []FieldExpr) []FieldExpr {
 	switch expr := expr.(type) {
+	case TrueExpr:
+	case FalseExpr:
 	case FieldExpr:
 		isLoopVarRef := false
 		for _, loopVar := range loopVars {
@@ -96,6 +98,8 @@ func fetchExprFieldRefsRecurse(expr Expression, loopVars []VariableID, fields []
 		fields = fetchExprFieldRefsRecurse(expr.Rhs, loopVars, fields)
 	case ExistsExpr:
 		fields = fetchExprFieldRefsRecurse(expr.SubExpr, loopVars, fields)
+	case NotExistsExpr:
+		fields = fetchExprFieldRefsRecurse(expr.SubExpr, loopVars, fields)
 	case LikeExpr:
 		fields = fetchExprFieldRefsRecurse(expr.Lhs, loopVars, fields)
 		fields = fetchExprFieldRefsRecurse(expr.Rhs, loopVars, fields)
-- 
2.43.0


From 599568d81aca26d228a39ac6ed9fd330103f2ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:09 +0000
Subject: [PATCH 05/64] fix: compile TRUE inside a larger expression

TRUE below the top level became a leaf that nothing marks, which
resolves to false.
---
 transform.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transform.go b/transform.go
index 64ce1ab..8faad33 100644
--- a/transform.go
+++ b/transform.go
@@ -544,6 +544,11 @@ func (t *Transformer) transformLike(expr LikeExpr) *ExecNode {
 
 func (t *Transformer) transformOne(expr Expression) *ExecNode {
 	switch expr := expr.(type) {
+	case TrueExpr:
+		return t.transformNot(NotExpr{FalseExpr{}})
+	case FalseExpr:
+		// A leaf which no op ever marks always resolves to false
+		return nil
 	case mergeExpr:
 		return t.transformMerge(expr)
 	case AnyInExpr:
-- 
2.43.0


From 1537ff4541dec07253ac19253ef465a200f400ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 06/64] fix: match expressions that are the constants TRUE or
 FALSE

A constant expression has no bucket: ExpressionMatched indexed the tree
with -1 or -2, Match ignored a constant TRUE, and with nothing but
constants Match dereferenced a nil parse node.
---
 fastMatcher.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index eaae399..9cd3ddb 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -816,6 +816,11 @@ func (m *FastMatcher) Match(data []byte) (bool, error) {
 		return false, nil
 	}
 
+	if m.def.ParseNode == nil {
+		// There are only constant expressions, nothing to look for in the data
+		return m.hasAlwaysTrue(), nil
+	}
+
 	token, tokenData, tokenDataLen, err := m.tokens.Step()
 	if err != nil {
 		return false, err
@@ -830,7 +835,17 @@ func (m *FastMatcher) Match(data []byte) (bool, error) {
 	// operators such as NOT and NEOR to correctly be resolved.
 	m.buckets.Resolve()
 
-	return m.buckets.IsTrue(0), nil
+	return m.buckets.IsTrue(0) || m.hasAlwaysTrue(), nil
+}
+
+// hasAlwaysTrue returns whether one of the expressions is the constant TRUE
+func (m *FastMatcher) hasAlwaysTrue() bool {
+	for _, binTreeIdx := range m.def.MatchBuckets {
+		if binTreeIdx == AlwaysTrueIdent {
+			return true
+		}
+	}
+	return false
 }
 
 func (m *FastMatcher) MatchWithStatus(data []byte) (bool, int, error) {
@@ -844,6 +859,12 @@ func (m *FastMatcher) MatchWithStatus(data []byte) (bool, int, error) {
 
 func (m *FastMatcher) ExpressionMatched(expressionIdx int) bool {
 	binTreeIdx := m.def.MatchBuckets[expressionIdx]
+	switch binTreeIdx {
+	case AlwaysTrueIdent:
+		return true
+	case AlwaysFalseIdent:
+		return false
+	}
 	return m.buckets.IsResolved(binTreeIdx) &&
 		m.buckets.IsTrue(binTreeIdx)
 }
-- 
2.43.0


From 798d700be9b69c98592b95cb04add510bb6c229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 07/64] fix: do not read the start of the document for a field
 that is missing

An unset slot has position 0, so a missing field took the value of a
document that is itself a literal (or array, for a loop).
---
 fastMatcher.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index 9cd3ddb..d2041f9 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -95,9 +95,14 @@ func (m *FastMatcher) skipValue(token tokenType) error {
 func (m *FastMatcher) literalFromSlot(slot SlotID) FastVal {
 	value := NewMissingFastVal()
 
+	slotInfo := m.slots[slot-1]
+	if slotInfo.size == 0 {
+		// Nothing was stored in this slot
+		return value
+	}
+
 	savePos := m.tokens.Position()
 
-	slotInfo := m.slots[slot-1]
 	m.tokens.Seek(slotInfo.start)
 	token, tokenData, _, _ := m.tokens.Step()
 
@@ -527,6 +532,10 @@ func (m *FastMatcher) matchAfter(node *AfterNode) error {
 	for _, loop := range node.Loops {
 		if slot, ok := loop.Target.(SlotRef); ok {
 			slotInfo := m.slots[slot.Slot-1]
+			if slotInfo.size == 0 {
+				// The field to loop over was not in the document
+				continue
+			}
 
 			m.tokens.Seek(slotInfo.start)
 			token, tokenData, _, err := m.tokens.Step()
-- 
2.43.0


From 950dfffe4d857d16fa06b9870adc7a16dbd69768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 08/64] fix: a comparison of a function of a missing field does
 not hold

func(a) < 5 is not evaluated when a is missing, but func(a, b) < 5 was
compared as an invalid value, which collates below everything.
---
 fastMatcher.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index d2041f9..8fd9d55 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -230,6 +230,22 @@ func (m *FastMatcher) resolveParam(in interface{}, activeLit *FastVal) FastVal {
 	}
 }
 
+// refersToEmptySlot returns whether resolving this reference needs a slot for
+// which the document had no value.
+func (m *FastMatcher) refersToEmptySlot(in DataRef) bool {
+	switch ref := in.(type) {
+	case SlotRef:
+		return m.slots[ref.Slot-1].size == 0
+	case FuncRef:
+		for _, param := range ref.Params {
+			if m.refersToEmptySlot(param) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func (m *FastMatcher) matchOp(op *OpNode, litVal *FastVal) error {
 	bucketIdx := int(op.BucketIdx)
 
@@ -243,9 +259,7 @@ func (m *FastMatcher) matchOp(op *OpNode, litVal *FastVal) error {
 	lhsVal := NewMissingFastVal()
 	if op.Lhs != nil {
 		lhsVal = m.resolveParam(op.Lhs, litVal)
-		if _, ok := op.Lhs.(SlotRef); ok && lhsVal.IsMissing() {
-			slotNotFound = true
-		}
+		slotNotFound = m.refersToEmptySlot(op.Lhs)
 	} else if litVal != nil {
 		lhsVal = *litVal
 	}
@@ -253,9 +267,7 @@ func (m *FastMatcher) matchOp(op *OpNode, litVal *FastVal) error {
 	rhsVal := NewMissingFastVal()
 	if op.Rhs != nil {
 		rhsVal = m.resolveParam(op.Rhs, litVal)
-		if _, ok := op.Rhs.(SlotRef); ok && rhsVal.IsMissing() {
-			slotNotFound = true
-		}
+		slotNotFound = slotNotFound || m.refersToEmptySlot(op.Rhs)
 	} else if litVal != nil {
 		rhsVal = *litVal
 	}
-- 
2.43.0


From c388b2fb95cd8bc87fabf908bba47f84295c23d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 09/64] fix: allow an expression to use both a field and a
 member of that field

Comparing a with a.b (or looping over a with a[0] in the body) indexed
past the end of the shorter path and panicked. The value of the node
itself is now stored before its After runs, as that may refer to it.
---
 fastMatcher.go | 20 ++++++++------------
 transform.go   |  2 +-
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index 8fd9d55..984dab2 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -620,10 +620,6 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 			m.skipValue(token)
 		} else {
 			err, shouldReturn := m.matchObjectOrArray(token, tokenData, node)
-			if err == nil && node.After != nil {
-				m.matchAfter(node.After)
-			}
-
 			if shouldReturn {
 				return err
 			}
@@ -702,14 +698,6 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 		panic(fmt.Sprintf("invalid token read - tokenType: %v data: %v", token, string(tokenData)))
 	}
 
-	if node.After != nil {
-		m.matchAfter(node.After)
-
-		if m.buckets.IsResolved(0) {
-			return nil
-		}
-	}
-
 	endPos = m.tokens.Position()
 
 	if node.StoreId > 0 {
@@ -718,6 +706,14 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 		slotData.size = endPos - startPos
 	}
 
+	if node.After != nil {
+		m.matchAfter(node.After)
+
+		if m.buckets.IsResolved(0) {
+			return nil
+		}
+	}
+
 	return nil
 }
 
diff --git a/transform.go b/transform.go
index 8faad33..3e0431e 100644
--- a/transform.go
+++ b/transform.go
@@ -205,7 +205,7 @@ PathLoop:
 	for j := 0; j < len(basePath); j++ {
 		for i := 0; i < len(contextFields); i++ {
 			deepField := contextFields[i]
-			if len(deepField.Path) < j || deepField.Path[j] != basePath[j] {
+			if len(deepField.Path) <= j || deepField.Path[j] != basePath[j] {
 				break PathLoop
 			}
 		}
-- 
2.43.0


From a92d42f735232e3f144dee8f4c4057038feb66d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 10/64] fix: do not share a conversion buffer between matchers

Comparing a number with a string formatted it into a package variable:
a data race, and wrong results, for matchers on different goroutines.
---
 fastval.go | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/fastval.go b/fastval.go
index 9734acb..f2a92f2 100644
--- a/fastval.go
+++ b/fastval.go
@@ -87,8 +87,6 @@ var FalseValueBytes = []byte(FalseString)
 var TrueStringRegex *regexp.Regexp = regexp.MustCompile("^[T|t][R|r][U|u][E|e]$")
 var FalseStringRegex *regexp.Regexp = regexp.MustCompile("^[F|f][A|a][L|l][S|s][E|e]$")
 
-var toJsonStringBuffer []byte
-
 type FastVal struct {
 	dataType    ValueType
 	data        interface{}
@@ -423,26 +421,18 @@ func (val FastVal) ToBinString() (FastVal, error) {
 	return val, errors.New("invalid type coercion")
 }
 
-// The following reuse an internal buffer so this should be hidden from outside callers
-// Internally, this must be called only once per comparison, and should be used for implicit comversion
-// (i.e. no double implicit conversion to string from the following 3 types)
+// Used for implicit comversion, which also covers numbers
 func (val FastVal) toJsonStringInternal() (FastVal, error) {
 	val, err := val.ToJsonString()
 
 	if err != nil {
 		switch val.dataType {
 		case UintValue:
-			toJsonStringBuffer = toJsonStringBuffer[:0]
-			toJsonStringBuffer = strconv.AppendUint(toJsonStringBuffer, val.GetUint(), 10)
-			return NewJsonStringFastVal(toJsonStringBuffer), nil
+			return NewJsonStringFastVal(strconv.AppendUint(nil, val.GetUint(), 10)), nil
 		case IntValue:
-			toJsonStringBuffer = toJsonStringBuffer[:0]
-			toJsonStringBuffer = strconv.AppendInt(toJsonStringBuffer, val.GetInt(), 10)
-			return NewJsonStringFastVal(toJsonStringBuffer), nil
+			return NewJsonStringFastVal(strconv.AppendInt(nil, val.GetInt(), 10)), nil
 		case FloatValue:
-			toJsonStringBuffer = toJsonStringBuffer[:0]
-			toJsonStringBuffer = strconv.AppendFloat(toJsonStringBuffer, val.GetFloat(), 'E', -1, 64)
-			return NewJsonStringFastVal(toJsonStringBuffer), nil
+			return NewJsonStringFastVal(strconv.AppendFloat(nil, val.GetFloat(), 'E', -1, 64)), nil
 		}
 	}
 
-- 
2.43.0


From b68f5a389833cb3a5455ad4e146e3367d5b91cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 11/64] fix: order and match strings by their characters, not
 their quoted form

Strings were compared and matched against regexes after strconv quoting:
a string with a quote, backslash, control or other non-printable
character sorted in the wrong place and did not match its own regex.
---
 fastval.go   | 27 ++++++++++++++++++++++++---
 transform.go |  2 +-
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/fastval.go b/fastval.go
index f2a92f2..8d22d2e 100644
--- a/fastval.go
+++ b/fastval.go
@@ -3,6 +3,7 @@
 package gojsonsm
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"math"
@@ -569,8 +570,28 @@ func (val FastVal) compareBoolean(other FastVal) (int, bool) {
 	}
 }
 
+// unescapedBytes returns the characters of an unescaped string, or those of a
+// number as it would be converted to a string, which are appended to buf.
+func (val FastVal) unescapedBytes(buf []byte) []byte {
+	switch val.dataType {
+	case StringValue:
+		return []byte(val.data.(string))
+	case UintValue:
+		return strconv.AppendUint(buf, val.GetUint(), 10)
+	case IntValue:
+		return strconv.AppendInt(buf, val.GetInt(), 10)
+	case FloatValue:
+		return strconv.AppendFloat(buf, val.GetFloat(), 'E', -1, 64)
+	}
+	return val.sliceData
+}
+
 func (val FastVal) compareStrings(other FastVal) (int, bool) {
-	if other.IsString() || other.IsNumeric() {
+	if val.dataType != JsonStringValue && (other.IsNumeric() || (other.IsString() && other.dataType != JsonStringValue)) {
+		// Neither side is in its escaped form, so compare the characters themselves
+		var valBuf, otherBuf [32]byte
+		return bytes.Compare(val.unescapedBytes(valBuf[:0]), other.unescapedBytes(otherBuf[:0])), true
+	} else if other.IsString() || other.IsNumeric() {
 		escVal, err := val.toJsonStringInternal()
 		escOval, err1 := other.toJsonStringInternal()
 
@@ -894,7 +915,7 @@ func (val FastVal) Equals(other FastVal) (bool, bool) {
 }
 
 func (val FastVal) matchStrings(other FastVal) (bool, bool) {
-	escVal, err := val.toJsonStringInternal()
+	binVal, err := val.ToBinString()
 	if err != nil {
 		return false, false
 	}
@@ -903,7 +924,7 @@ func (val FastVal) matchStrings(other FastVal) (bool, bool) {
 	if !valid {
 		return false, valid
 	} else {
-		return regex.Match(escVal.sliceData), true
+		return regex.Match(binVal.sliceData), true
 	}
 }
 
diff --git a/transform.go b/transform.go
index 3e0431e..ac6a572 100644
--- a/transform.go
+++ b/transform.go
@@ -297,7 +297,7 @@ func (t *Transformer) makeDataRefRecurse(expr Expression, context nodeRef, isRoo
 	case ValueExpr:
 		val := NewFastVal(expr.Value)
 		if val.IsString() {
-			val, _ = val.ToJsonString()
+			val, _ = val.ToBinString()
 		}
 		val.userDefined = true
 		return val, nil
-- 
2.43.0


From 38020edcd72102f6b6b0f772668fbed4952eaad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 12/64] fix: compare unsigned integers with zero and with
 negative integers

Zero was rejected as an unsigned value, and the sign of the wrong operand
was examined when the left one is unsigned.
---
 fastval.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/fastval.go b/fastval.go
index 8d22d2e..d384b0c 100644
--- a/fastval.go
+++ b/fastval.go
@@ -254,7 +254,7 @@ func (val FastVal) AsUint() (uint64, bool) {
 	switch val.dataType {
 	case IntValue:
 		intVal := val.GetInt()
-		if intVal > 0 {
+		if intVal >= 0 {
 			return uint64(intVal), true
 		} else {
 			return 0, false
@@ -265,7 +265,7 @@ func (val FastVal) AsUint() (uint64, bool) {
 		return uint64(val.GetFloat()), false
 	case JsonIntValue:
 		parsedVal, err := strconv.ParseInt(string(val.sliceData), 10, 64)
-		if err == nil && parsedVal > 0 {
+		if err == nil && parsedVal >= 0 {
 			return uint64(parsedVal), true
 		} else {
 			return 0, false
@@ -765,11 +765,12 @@ func (val FastVal) compareNumerics(other FastVal) (int, bool) {
 		case UintValue:
 			fallthrough
 		case JsonUintValue:
-			intVal, _ := val.AsInt()
+			intVal, valid := val.AsInt()
 			if intVal >= 0 {
 				return val.compareUint(other)
 			} else {
-				return val.compareInt(other)
+				// A negative value is below any unsigned one
+				return -1, valid
 			}
 		default:
 			return val.compareInt(other)
@@ -781,11 +782,12 @@ func (val FastVal) compareNumerics(other FastVal) (int, bool) {
 		case IntValue:
 			fallthrough
 		case JsonIntValue:
-			intVal, _ := val.AsInt()
+			intVal, valid := other.AsInt()
 			if intVal >= 0 {
 				return val.compareUint(other)
 			} else {
-				return val.compareInt(other)
+				// Any unsigned value is above a negative one
+				return 1, valid
 			}
 		case FloatValue:
 			fallthrough
-- 
2.43.0


From 14dbb59b066f372f04a092394dc9ad8241d8b757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:26 +0000
Subject: [PATCH 13/64] fix: resolve what is undecided for each element of a
 loop, and loops that never ran

The result of an element was read while fields it lacks were still
undecided, so NOT over a missing field counted as false; and a loop over
a missing field resolved to the value of its body without elements, so
ANY x IN missing SATISFIES x <> 1 matched.
---
 bintree.go     | 40 +++++++++++++++++++++++++++++++---------
 fastMatcher.go |  4 ++++
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/bintree.go b/bintree.go
index eee2bcd..acb57e2 100644
--- a/bintree.go
+++ b/bintree.go
@@ -253,23 +253,45 @@ func (state *binTreeState) SetStallIndex(index int) int {
 // Resolve forces the tree to be fully resolved (including cases such as NOT)
 // by doing a depth-first resolution of all unresolved nodes with `false`.
 func (state *binTreeState) Resolve() {
-	// Skip resolving if the full tree is already resolved
-	if state.IsResolved(0) {
+	state.ResolveNode(0)
+}
+
+// ResolveNode does the same as Resolve, for the part of the tree below index.
+func (state *binTreeState) ResolveNode(index int) {
+	// Skip resolving if this part of the tree is already resolved
+	if state.IsResolved(index) {
 		return
 	}
 
-	// Do depth-first resolution of the entire tree state
-	treeLength := len(state.data)
-	for i := treeLength - 1; i >= 0; i-- {
-		// If this bucket is not resolved, resolve it with false
-		if state.data[i] == binTreeStateUnknown {
+	// The children of a node immediately follow it, so its right-most
+	// descendant is the last one.
+	last := index
+	for binTreeNodeTypeHasLeft(state.tree.data[last].NodeType) {
+		if binTreeNodeTypeHasRight(state.tree.data[last].NodeType) {
+			last = state.tree.data[last].Right
+		} else {
+			last = state.tree.data[last].Left
+		}
+	}
+
+	// A loop which never ran does not match, whatever its body would resolve to
+	for i := index; i <= last; i++ {
+		if state.tree.data[i].NodeType == nodeTypeLoop && state.data[i] == binTreeStateUnknown {
 			state.MarkNode(i, false)
 		}
+	}
 
-		// Leave as soon as the root has been resolved
-		if state.data[0] != binTreeStateUnknown {
+	// Do depth-first resolution of the remaining state
+	for i := last; i >= index; i-- {
+		// Leave as soon as the top has been resolved
+		if state.data[index] != binTreeStateUnknown {
 			break
 		}
+
+		// If this bucket is not resolved, resolve it with false
+		if state.data[i] == binTreeStateUnknown {
+			state.MarkNode(i, false)
+		}
 	}
 }
 
diff --git a/fastMatcher.go b/fastMatcher.go
index 984dab2..f00eab2 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -476,6 +476,10 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 			return err
 		}
 
+		// Resolve what this element left undecided, a missing field for instance,
+		// before looking at the result.
+		m.buckets.ResolveNode(loopBucketIdx)
+
 		iterationMatched := m.buckets.IsTrue(loopBucketIdx)
 		if loop.Mode == LoopTypeAny {
 			if iterationMatched {
-- 
2.43.0


From f9ff69462fe2e9beec364f41e191c505da2b3a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:26 +0000
Subject: [PATCH 14/64] fix: evaluate index references into an array which is
 also looped over

With a loop on the array, references such as a[0] were never visited and
behaved as missing.
---
 fastMatcher.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index f00eab2..d5aa420 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -648,23 +648,25 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 		}
 	} else if token == tknArrayStart {
 		arrayStartPos := m.tokens.Position() - 1 // Should be -1 to include the [
-		if len(node.Loops) == 0 {
+		// Lets save where the beginning of the array is so that for each
+		// loop entry, we can easily revert back to the beginning of the
+		// array to process the elements.
+		savePos := m.tokens.Position()
+
+		if len(node.Loops) == 0 || len(node.Elems) > 0 {
 			err, shouldReturn := m.matchObjectOrArray(token, tokenData, node)
 			if shouldReturn {
 				return err
 			}
-		} else {
-			// Lets save where the beginning of the array is so that for each
-			// loop entry, we can easily revert back to the beginning of the
-			// array to process the elements.
-			savePos := m.tokens.Position()
+		}
 
+		if len(node.Loops) > 0 {
 			for loopIdx, loop := range node.Loops {
 				if loop.Target != nil {
 					panic("loops must always target the active state")
 
 				}
-				if loopIdx != 0 {
+				if loopIdx != 0 || len(node.Elems) > 0 {
 					// If this is not the first loop, we will need to reset back to the
 					// begining of the array the loops are scanning.  In the future, perhaps
 					// we can add support for parallel ExecNode handling and do it in one pass.
-- 
2.43.0


From f0b326e36c9443e79101037c2d3baab5f473dd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:36 +0000
Subject: [PATCH 15/64] fix: dividing an integer by zero is invalid instead of
 a panic

Only some combinations of signed and unsigned operands were checked, so a
document with a zero in the wrong field crashed the process.
---
 fastval_math.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/fastval_math.go b/fastval_math.go
index 0b7ef9a..c80c6c8 100644
--- a/fastval_math.go
+++ b/fastval_math.go
@@ -418,7 +418,16 @@ func FastValMathSub(val, val1 FastVal) FastVal {
 	}
 }
 
+func isIntegralZero(val FastVal) bool {
+	intVal, valid := val.AsInt()
+	return val.IsIntegral() && valid && intVal == 0
+}
+
 func FastValMathDiv(val, val1 FastVal) FastVal {
+	if val.IsIntegral() && isIntegralZero(val1) {
+		return NewInvalidFastVal()
+	}
+
 	switch val.dataType {
 	case UintValue:
 		fallthrough
@@ -493,6 +502,10 @@ func FastValMathDiv(val, val1 FastVal) FastVal {
 }
 
 func FastValMathMod(val, val1 FastVal) FastVal {
+	if val.IsIntegral() && isIntegralZero(val1) {
+		return NewInvalidFastVal()
+	}
+
 	switch val.dataType {
 	case UintValue:
 		fallthrough
-- 
2.43.0


From b2aaa8d5869f6b6b3db06181702bbf1d5d05a983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:38 +0000
Subject: [PATCH 16/64] fix: ABS and ROUND of large numbers

ABS of an integer went through a float and lost precision above 2^53;
ROUND went through an int and overflowed above 2^63.
---
 fastval_math.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/fastval_math.go b/fastval_math.go
index c80c6c8..e906e43 100644
--- a/fastval_math.go
+++ b/fastval_math.go
@@ -7,10 +7,7 @@ import (
 // floatRound implements math.Round for Go versions older than
 // 1.10 which did not have the function... Wat?
 func floatMathRound(val float64) float64 {
-	if val < 0 {
-		return float64(int(val - 0.5))
-	}
-	return float64(int(val + 0.5))
+	return math.Round(val)
 }
 
 var mathDegreeFunc func(float64) float64 = func(rad float64) float64 {
@@ -49,7 +46,14 @@ func FastValMathAbs(val FastVal) FastVal {
 		if val.IsFloat() {
 			return NewFloatFastVal(math.Abs(floatVal))
 		} else if val.IsInt() {
-			return NewIntFastVal(int64(math.Abs(floatVal)))
+			intVal, valid := val.AsInt()
+			if !valid {
+				return NewInvalidFastVal()
+			}
+			if intVal < 0 {
+				intVal = -intVal
+			}
+			return NewIntFastVal(intVal)
 		}
 	}
 
-- 
2.43.0


From f2053d873d298a4b8ddf9564dded5f1cf8f1a8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 17/64] fix: do not carry stored values over from one element
 of a loop to the next

An element without the field was compared using the value the field had
in an earlier element.
---
 fastMatcher.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/fastMatcher.go b/fastMatcher.go
index d5aa420..a42e6b1 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -403,6 +403,16 @@ func (m *FastMatcher) matchElems(token tokenType, tokenData []byte, elems map[st
 	}
 }
 
+// clearSlots forgets the values stored for a node and everything below it
+func (m *FastMatcher) clearSlots(node *ExecNode) {
+	if node.StoreId > 0 {
+		m.slots[node.StoreId-1] = emptySlotData
+	}
+	for _, elem := range node.Elems {
+		m.clearSlots(elem)
+	}
+}
+
 func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNode) error {
 	// Note that this assumes that the tokenizer has already been placed at the target
 	// that referenced the loop node itself...
@@ -469,6 +479,9 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 		// Reset the looping node in the binary tree so that previous iterations
 		// of the loop do not impact the results of this iteration
 		m.buckets.ResetNode(loopBucketIdx)
+		if m.def.NumSlots > 0 {
+			m.clearSlots(loop.Node)
+		}
 
 		// Run the execution node for this element of the array.
 		err = m.matchExec(token, tokenData, tokenDataLen, loop.Node)
-- 
2.43.0


From 45c991c302527ec769b4615d2695b197a51a7f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 18/64] fix: let the body of a loop refer to the array being
 looped over

The array's own value is stored after its elements were visited, so the
reference behaved as missing.
---
 transform.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/transform.go b/transform.go
index ac6a572..a77cc73 100644
--- a/transform.go
+++ b/transform.go
@@ -421,6 +421,15 @@ func (t *Transformer) transformAnd(expr AndExpr) *ExecNode {
 
 func (t *Transformer) transformLoop(expr Expression, loopType LoopType, varID VariableID, inExpr, subExpr Expression) *ExecNode {
 	baseNode := t.pickBaseNode(expr)
+	if baseNode.node != nil {
+		// The body can only refer to the array itself once it has been stored
+		for _, fieldRef := range fetchExprFieldRefsRecurse(subExpr, []VariableID{varID}, nil) {
+			if t.getExecNode(t.resolveRef(fieldRef)) == baseNode.node {
+				baseNode = nodeRef{after: t.getAfterNode(baseNode.node)}
+				break
+			}
+		}
+	}
 
 	newNode := &ExecNode{}
 
-- 
2.43.0


From f0f11416cb0c719c94438a1dd9a30fe6da2e8ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:34 +0000
Subject: [PATCH 19/64] fix: return an error for malformed JSON instead of
 panicking

Truncated or otherwise malformed input panicked in the matcher, and
errors of nested values were ignored.
---
 fastMatcher.go | 69 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 48 insertions(+), 21 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index a42e6b1..0fff66a 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -3,6 +3,7 @@
 package gojsonsm
 
 import (
+	"errors"
 	"fmt"
 )
 
@@ -63,7 +64,7 @@ func (m *FastMatcher) leaveValue() error {
 			}
 			depth--
 		case tknEnd:
-			panic("unexpected EOF")
+			return errors.New("unexpected EOF")
 		}
 	}
 }
@@ -89,7 +90,7 @@ func (m *FastMatcher) skipValue(token tokenType) error {
 	case tknArrayStart:
 		return m.leaveValue()
 	}
-	panic(fmt.Sprintf("unexpected value: %v", token))
+	return fmt.Errorf("unexpected value: %v", token)
 }
 
 func (m *FastMatcher) literalFromSlot(slot SlotID) FastVal {
@@ -351,7 +352,7 @@ func (m *FastMatcher) matchElems(token tokenType, tokenData []byte, elems map[st
 				return nil
 			}
 			if token != tknListDelim {
-				panic("expected object field element delimiter")
+				return errors.New("expected object field element delimiter")
 			}
 		}
 
@@ -369,7 +370,7 @@ func (m *FastMatcher) matchElems(token tokenType, tokenData []byte, elems map[st
 		} else if token == tknEscString {
 			keyBytes = keyLitParse.ParseEscString(tokenData)
 		} else {
-			panic("expected literal")
+			return errors.New("expected literal")
 		}
 
 		token, _, _, err = m.tokens.Step()
@@ -377,7 +378,7 @@ func (m *FastMatcher) matchElems(token tokenType, tokenData []byte, elems map[st
 			return err
 		}
 		if token != tknObjectKeyDelim {
-			panic("expected object key delimiter")
+			return errors.New("expected object key delimiter")
 		}
 
 		token, tokenData, tokenDataLen, err := m.tokens.Step()
@@ -388,7 +389,10 @@ func (m *FastMatcher) matchElems(token tokenType, tokenData []byte, elems map[st
 		if keyElem, ok := elems[string(keyBytes)]; ok {
 			// Run the execution node that applies to this particular
 			// key of the object.
-			m.matchExec(token, tokenData, tokenDataLen, keyElem)
+			err = m.matchExec(token, tokenData, tokenDataLen, keyElem)
+			if err != nil {
+				return err
+			}
 
 			// Check if running this keys execution has resolved the entirety
 			// of the expression, if so we can leave immediately.
@@ -398,7 +402,10 @@ func (m *FastMatcher) matchElems(token tokenType, tokenData []byte, elems map[st
 		} else {
 			// If we don't have any parse requirements for this key in
 			// the object, we can just skip its value and continue
-			m.skipValue(token)
+			err = m.skipValue(token)
+			if err != nil {
+				return err
+			}
 		}
 	}
 }
@@ -428,8 +435,7 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 	if m.buckets.IsResolved(loopBucketIdx) {
 		// If the bucket for this op is already resolved  in the binary tree,
 		// we don't need to perform the op and can just skip it.
-		m.skipValue(token)
-		return nil
+		return m.skipValue(token)
 	}
 
 	// We need to keep track of the overall loop result value while the bin tree
@@ -464,7 +470,7 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				break
 			}
 			if token != tknListDelim {
-				panic(fmt.Sprintf("expected array element delimiter got %s", tokenToText(token)))
+				return fmt.Errorf("expected array element delimiter got %s", tokenToText(token))
 			}
 		}
 
@@ -501,7 +507,10 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				loopState = true
 
 				// Skip the remainder of the array and leave the loop
-				m.leaveValue()
+				err = m.leaveValue()
+				if err != nil {
+					return err
+				}
 				break
 			}
 		} else if loop.Mode == LoopTypeEvery {
@@ -511,7 +520,10 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				loopState = false
 
 				// Skip the remainder of the array and leave the loop
-				m.leaveValue()
+				err = m.leaveValue()
+				if err != nil {
+					return err
+				}
 				break
 			}
 		} else if loop.Mode == LoopTypeAnyEvery {
@@ -521,7 +533,10 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				loopState = false
 
 				// Skip the remainder of the array and leave the loop
-				m.leaveValue()
+				err = m.leaveValue()
+				if err != nil {
+					return err
+				}
 				break
 			} else {
 				// If we encounter a truthy value, we have satisfied the 'any'
@@ -634,7 +649,10 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 		objStartPos := m.tokens.Position() - 1 /* to include the objStart itself*/
 		if len(node.Elems) == 0 {
 			// If we have no element handlers, we can just skip the whole thing...
-			m.skipValue(token)
+			err := m.skipValue(token)
+			if err != nil {
+				return err
+			}
 		} else {
 			err, shouldReturn := m.matchObjectOrArray(token, tokenData, node)
 			if shouldReturn {
@@ -714,7 +732,7 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 			}
 		}
 	} else {
-		panic(fmt.Sprintf("invalid token read - tokenType: %v data: %v", token, string(tokenData)))
+		return fmt.Errorf("invalid token read - tokenType: %v data: %v", token, string(tokenData))
 	}
 
 	endPos = m.tokens.Position()
@@ -726,7 +744,10 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 	}
 
 	if node.After != nil {
-		m.matchAfter(node.After)
+		err := m.matchAfter(node.After)
+		if err != nil {
+			return err
+		}
 
 		if m.buckets.IsResolved(0) {
 			return nil
@@ -773,7 +794,7 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 				arrayIndex++
 			// nothing
 			default:
-				panic(fmt.Sprintf("expected object field element delimiter, received: %v", token))
+				return fmt.Errorf("expected object field element delimiter, received: %v", token), true
 			}
 		}
 
@@ -802,7 +823,7 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 		default:
 			// If it's an array, it's possible that we're grabbing a literal like int or float, and we should not panic
 			if !arrayMode {
-				panic(fmt.Sprintf("expected literal, received: %v", token))
+				return fmt.Errorf("expected literal, received: %v", token), true
 			}
 		}
 
@@ -816,7 +837,7 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 			}
 
 			if token != tknObjectKeyDelim {
-				panic(fmt.Sprintf("expected object key delimiter: got %v, %v", token, string(tokenData)))
+				return fmt.Errorf("expected object key delimiter: got %v, %v", token, string(tokenData)), true
 			}
 
 			token, tokenData, tokenDataLen, err = m.tokens.Step()
@@ -829,7 +850,10 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 		if keyElem, ok := node.Elems[keyString]; ok {
 			// Run the execution node that applies to this particular
 			// key of the object.
-			m.matchExec(token, tokenData, tokenDataLen, keyElem)
+			err = m.matchExec(token, tokenData, tokenDataLen, keyElem)
+			if err != nil {
+				return err, true
+			}
 
 			// Check if running this keys execution has resolved the entirety
 			// of the expression, if so we can leave immediately.
@@ -839,7 +863,10 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 		} else {
 			// If we don't have any parse requirements for this key in
 			// the object, we can just skip its value and continue
-			m.skipValue(token)
+			err = m.skipValue(token)
+			if err != nil {
+				return err, true
+			}
 		}
 	}
 	return nil, false
-- 
2.43.0


From bad65d870df858b0188f53ad6a270982fbc236a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 20/64] fix: read integers that do not fit into 64 bits

They wrapped around silently, so a large positive number could compare as
a negative one. They become unsigned if that is enough, or else floats.
---
 fastlitparse.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/fastlitparse.go b/fastlitparse.go
index 7f6ce30..6a8cf3a 100644
--- a/fastlitparse.go
+++ b/fastlitparse.go
@@ -42,6 +42,20 @@ func (p *fastLitParser) ParseInt(bytes []byte) int64 {
 	}
 }
 
+// maxSafeIntDigits is the longest integer that can not overflow an int64
+const maxSafeIntDigits = 18
+
+// parseLargeInt parses an integer which possibly does not fit into an int64
+func (p *fastLitParser) parseLargeInt(bytes []byte) FastVal {
+	if intVal, err := strconv.ParseInt(string(bytes), 10, 64); err == nil {
+		return NewIntFastVal(intVal)
+	}
+	if uintVal, err := strconv.ParseUint(string(bytes), 10, 64); err == nil {
+		return NewUintFastVal(uintVal)
+	}
+	return NewFloatFastVal(p.ParseNumber(bytes))
+}
+
 func (p *fastLitParser) ParseNumber(bytes []byte) float64 {
 	val, _ := strconv.ParseFloat(string(bytes), 64)
 	return val
@@ -72,6 +86,9 @@ func (p *fastLitParser) Parse(token tokenType, bytes []byte) FastVal {
 	case tknEscString:
 		return NewBinStringFastVal(p.ParseEscString(bytes))
 	case tknInteger:
+		if len(bytes) > maxSafeIntDigits {
+			return p.parseLargeInt(bytes)
+		}
 		return NewIntFastVal(p.ParseInt(bytes))
 	case tknNumber:
 		return NewFloatFastVal(p.ParseNumber(bytes))
-- 
2.43.0


From 0ddc78505e1e7b82afeb9559731788037d4f3050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 21/64] fix: report an invalid regular expression in a filter
 expression as an error

---
 filterExprParser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filterExprParser.go b/filterExprParser.go
index 0ae5962..fd50d9d 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"github.com/alecthomas/participle"
 	"math"
+	"regexp"
 	"strings"
 )
 
@@ -1187,6 +1188,9 @@ func (f *FEConstFuncArgumentRHS) OutputRegexExpression() (Expression, error) {
 	if tokenIsPcreValueType(f.Argument.String()) {
 		return MakePcreExpression(f.Argument.String())
 	} else {
+		if _, err := regexp.Compile(f.Argument.String()); err != nil {
+			return nil, err
+		}
 		return RegexExpr{f.Argument.String()}, nil
 	}
 }
-- 
2.43.0


From f881690b56a246b155b805e71d05a0cb5ed77ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 22/64] fix: report an existence check of something other than
 a field as an error

---
 filterExprParser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/filterExprParser.go b/filterExprParser.go
index fd50d9d..2599b56 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -1008,6 +1008,13 @@ func (feco *FECheckOp) String() string {
 }
 
 func (f *FECheckOp) OutputExpression(subExpr Expression) (Expression, error) {
+	if f.isMissingInternal() {
+		// Only a field can be missing
+		if _, ok := subExpr.(FieldExpr); !ok {
+			return nil, fmt.Errorf("Invalid FECheckOp %v: %v is not a field", f.String(), subExpr)
+		}
+	}
+
 	if f.IsNotMissing() {
 		return ExistsExpr{
 			subExpr,
@@ -1496,6 +1503,9 @@ func (f *FEExistsClause) OutputExpression() (Expression, error) {
 		if err != nil {
 			return nil, err
 		}
+		if _, ok := fieldExpr.(FieldExpr); !ok {
+			return nil, fmt.Errorf("Invalid FEExistsClause %v", f.String())
+		}
 		return ExistsExpr{
 			fieldExpr,
 		}, nil
-- 
2.43.0


From b8f88b45842f2e09a13e92285cab75fbb8f0dbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:41 +0000
Subject: [PATCH 23/64] fix: keep all terms of chained arithmetic in a filter
 expression

---
 filterExprParser.go | 76 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 72 insertions(+), 4 deletions(-)

diff --git a/filterExprParser.go b/filterExprParser.go
index 2599b56..d06d667 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -25,7 +25,7 @@ import (
 // CheckOp                  = ( "IS" [ "NOT" ] ( NULL | MISSING ) )
 // FieldWithMath            = FieldWMathType0 | FieldWMathType1
 // FieldWMathType0          = MathValue MathOp Field
-// FieldWMathType1          = Field { MathOp ( MathValue | Field ) }
+// FieldWMathType1          = Field [ MathOp ( MathValue | Field ) { MathOp ( MathValue | Field ) } ]
 // Field                    = { @"-" } OnePath { "." OnePath }
 // OnePath                  = ( PathFuncExpression | StringType ){ ArrayIndex }
 // StringType               = @Ident | @RawString | @Char
@@ -513,9 +513,37 @@ func (f *FEFieldWithMathType0) OutputExpression() (Expression, error) {
 
 type FEFieldWithMathType1 struct {
 	Field      *FEField            `( @@`
-	MathOp     *FEMathArithmeticOp `{ @@`
+	MathOp     *FEMathArithmeticOp `[ @@`
 	MathValue  *FEMathValue        `( @@ | `
-	OtherField *FEField            `@@ ) } )`
+	OtherField *FEField            `@@ )`
+	Tail       []*FEFieldMathTail  `{ @@ } ] )`
+}
+
+// FEFieldMathTail is a further operator and operand of a chain such as a + b * 2
+type FEFieldMathTail struct {
+	MathOp    *FEMathArithmeticOp `( @@`
+	MathValue *FEMathValue        `( @@ | `
+	Field     *FEField            `@@ ) )`
+}
+
+func (f *FEFieldMathTail) String() string {
+	if f.MathOp != nil && f.MathValue != nil {
+		return fmt.Sprintf("%v %v", f.MathOp.String(), f.MathValue.String())
+	} else if f.MathOp != nil && f.Field != nil {
+		return fmt.Sprintf("%v %v", f.MathOp.String(), f.Field.String())
+	} else {
+		return "?? (FEFieldMathTail)"
+	}
+}
+
+func (f *FEFieldMathTail) OutputExpression() (Expression, error) {
+	if f.MathValue != nil {
+		return f.MathValue.OutputExpression()
+	} else if f.Field != nil {
+		return f.Field.OutputExpression()
+	} else {
+		return nil, fmt.Errorf("Invalid FEFieldMathTail %v", f.String())
+	}
 }
 
 func (f *FEFieldWithMathType1) String() string {
@@ -531,6 +559,9 @@ func (f *FEFieldWithMathType1) String() string {
 			output = append(output, f.OtherField.String())
 		}
 	}
+	for _, tail := range f.Tail {
+		output = append(output, tail.String())
+	}
 	return strings.Join(output, " ")
 }
 
@@ -566,13 +597,50 @@ func (f *FEFieldWithMathType1) OutputExpression() (Expression, error) {
 			}
 			mathOutExpr.Params = append(mathOutExpr.Params, field2Expr)
 		}
-		return mathOutExpr, nil
+		return f.outputTail(mathOutExpr)
 	} else {
 		// No math
 		return f.Field.OutputExpression()
 	}
 }
 
+// outputTail continues the first operation with the rest of the chain, multiplication, division
+// and modulo binding tighter than addition and subtraction
+func (f *FEFieldWithMathType1) outputTail(first FuncExpr) (Expression, error) {
+	// sum is what has been completed by additions and subtractions, last is the term still being built
+	var sum *FuncExpr
+	last := Expression(first)
+	if f.MathOp.Addition != nil || f.MathOp.Subtraction != nil {
+		sum = &FuncExpr{FuncName: first.FuncName, Params: first.Params[:1]}
+		last = first.Params[1]
+	}
+	complete := func() Expression {
+		if sum == nil {
+			return last
+		}
+		return FuncExpr{FuncName: sum.FuncName, Params: []Expression{sum.Params[0], last}}
+	}
+
+	for _, tail := range f.Tail {
+		opExpr, err := tail.MathOp.OutputExpression()
+		if err != nil {
+			return nil, err
+		}
+		operand, err := tail.OutputExpression()
+		if err != nil {
+			return nil, err
+		}
+		funcName := opExpr.(FuncExpr).FuncName
+		if tail.MathOp.Addition != nil || tail.MathOp.Subtraction != nil {
+			sum = &FuncExpr{FuncName: funcName, Params: []Expression{complete()}}
+			last = operand
+		} else {
+			last = FuncExpr{FuncName: funcName, Params: []Expression{last, operand}}
+		}
+	}
+	return complete(), nil
+}
+
 type FEField struct {
 	MathNeg *bool        `{ @"-" }`
 	Path    []*FEOnePath `@@ { "." @@ }`
-- 
2.43.0


From 86c2479ceb51e454f6824fe51303bb50ca4bdac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:53 +0000
Subject: [PATCH 24/64] fix: a quoted field named true or false is not the
 constant

---
 filterExprParser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/filterExprParser.go b/filterExprParser.go
index d06d667..b225759 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -314,10 +314,10 @@ func (f *FEBooleanExpr) OutputExpression() (Expression, error) {
 }
 
 type FEBoolean struct {
-	TVal  *bool `@"TRUE" |`
-	TVal1 *bool `@"true" |`
-	FVal  *bool `@"FALSE" |`
-	FVal1 *bool `@"false"`
+	TVal  *bool `@("TRUE":Ident | "TRUE":String) |`
+	TVal1 *bool `@("true":Ident | "true":String) |`
+	FVal  *bool `@("FALSE":Ident | "FALSE":String) |`
+	FVal1 *bool `@("false":Ident | "false":String)`
 }
 
 func (feb *FEBoolean) String() string {
-- 
2.43.0


From b00e0e40b94712bad0a5238e34768e01bcf7d537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 25/64] fix: accept negative numbers wherever the filter
 grammar allows them

---
 filterExprParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterExprParser.go b/filterExprParser.go
index b225759..fc936b2 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -1598,7 +1598,7 @@ func NewFilterExpressionParser(expression string) (*participle.Parser, *FilterEx
 		return nil, fe, ErrorEmptyInput
 	}
 
-	parser, err := participle.Build(fe)
+	parser, err := participle.Build(fe, participle.UseLookahead(3))
 	if err != nil {
 		return parser, fe, err
 	}
-- 
2.43.0


From 6af30091c6a39fc6ef97f63f874c66aed421ab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 26/64] fix: a quoted field named NOT is not the operator

---
 filterExprParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterExprParser.go b/filterExprParser.go
index fc936b2..4fb1555 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -213,7 +213,7 @@ func (f *FEAndCondition) OutputExpression() (Expression, error) {
 }
 
 type FECondition struct {
-	Not     *FECondition `"NOT" @@`
+	Not     *FECondition `"NOT":Ident @@`
 	Operand *FEOperand   `| @@`
 }
 
-- 
2.43.0


From 2eee33a9e6ae9eb537a0fd9cd96238fd4e08b509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 27/64] fix: do not take quoted strings for comparison
 operators

---
 filterExprParser.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/filterExprParser.go b/filterExprParser.go
index 4fb1555..6b3e75d 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -5,6 +5,7 @@ package gojsonsm
 import (
 	"fmt"
 	"github.com/alecthomas/participle"
+	"github.com/alecthomas/participle/lexer"
 	"math"
 	"regexp"
 	"strings"
@@ -904,10 +905,33 @@ func (f *FEValue) OutputExpression() (Expression, error) {
 // and go to the other type of operands
 
 type FEOpChar struct {
-	Not         *bool `( @"!" |`
-	Equal       *bool `@"=" |`
-	LessThan    *bool `@"<" |`
-	GreaterThan *bool `@">" )`
+	Not         *bool
+	Equal       *bool
+	LessThan    *bool
+	GreaterThan *bool
+}
+
+// Parse matches the operator characters themselves and not quoted ones, which are values
+func (f *FEOpChar) Parse(lex *lexer.PeekingLexer) error {
+	token, err := lex.Peek(0)
+	if err != nil {
+		return err
+	}
+	matched := true
+	switch token.Type {
+	case '!':
+		f.Not = &matched
+	case '=':
+		f.Equal = &matched
+	case '<':
+		f.LessThan = &matched
+	case '>':
+		f.GreaterThan = &matched
+	default:
+		return participle.NextMatch
+	}
+	_, err = lex.Next()
+	return err
 }
 
 func (f *FEOpChar) String() string {
-- 
2.43.0


From ed55904462ad2c61a69e09820032c2442da3f9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 28/64] fix: members of array elements in simple expressions

---
 simpleParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index 63bf698..2744622 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -943,7 +943,7 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 					} else {
 						skipAppend = false
 					}
-					if pos == len(token)-1 || (pos < len(token)-1 && string(token[pos+1]) == fieldNestedStart) {
+					if pos == len(token)-1 || string(token[pos+1]) == fieldNestedStart || string(token[pos+1]) == fieldSeparator {
 						skipAppend = true
 					}
 				case fieldSeparator:
-- 
2.43.0


From 59da86d146d44e44a9ac09e3521824098ae780a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 29/64] fix: nested functions as arguments in simple
 expressions

---
 simpleParser.go | 45 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 2744622..e56bdc0 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1393,7 +1393,7 @@ func (ctx *expressionParserContext) outputFunc(pos int) (Expression, error) {
 			if err != nil {
 				return out, fmt.Errorf("Error: Unable to output subFx: %v", err)
 			}
-			out.Params = append(out.Params, subFuncExpr.(FuncExpr))
+			out.Params = append(out.Params, subFuncExpr)
 		} else if fieldTokens, isField := helper.args[curLevel][i].([]string); isField {
 			var argField FieldExpr
 			argField.Path = fieldTokens
@@ -1699,13 +1699,23 @@ func (helper *funcOutputHelper) resolveRecursiveFuncs(token string, lastFunc str
 	helper.args[helper.lvlMarker] = append(helper.args[helper.lvlMarker], lastFunc)
 
 	subMatches := regex.FindStringSubmatch(token)
+	if len(subMatches) > 1 {
+		args, ok := splitFuncArgs(token, lastFunc)
+		if !ok || len(args) != len(subMatches)-1 {
+			return ErrorInvalidFuncArgs
+		}
+		copy(subMatches[1:], args)
+	}
 
 	// Then given the arguments of the functions, populate them if there are any
 	fxIdx := helper.lvlMarker
 	for i := 1; i < len(subMatches); i++ {
 		if isFunc, key := helper.recursiveKeyFunc(subMatches[i]); isFunc {
 			nextFuncLvl := helper.makeNewFuncLevel()
-			helper.resolveRecursiveFuncs(subMatches[1], key)
+			err := helper.resolveRecursiveFuncs(subMatches[i], key)
+			if err != nil {
+				return err
+			}
 			helper.args[fxIdx] = append(helper.args[fxIdx], funcRecursiveIdx(nextFuncLvl))
 		} else if delim, ok := valueCheck(subMatches[i]).(string); ok {
 			valueString := strings.TrimPrefix(subMatches[i], delim)
@@ -1730,6 +1740,37 @@ func (helper *funcOutputHelper) resolveRecursiveFuncs(token string, lastFunc str
 	return nil
 }
 
+// Splits the arguments of a function call at the commas that are not part of a nested call or a quoted piece.
+// Returns false if the token is not just the one call
+func splitFuncArgs(token, funcName string) ([]string, bool) {
+	var args []string
+	var quote byte
+	depth := 0
+	begin := len(funcName) + 1
+	for i := len(funcName); i < len(token); i++ {
+		c := token[i]
+		switch {
+		case quote != 0:
+			if c == quote {
+				quote = 0
+			}
+		case c == '`' || c == '"' || c == '\'':
+			quote = c
+		case c == '(':
+			depth++
+		case c == ')':
+			depth--
+			if depth == 0 {
+				return append(args, strings.TrimLeft(token[begin:i], " ")), i == len(token)-1
+			}
+		case c == ',' && depth == 1:
+			args = append(args, strings.TrimLeft(token[begin:i], " "))
+			begin = i + 1
+		}
+	}
+	return nil, false
+}
+
 func (helper *funcOutputHelper) makeNewFuncLevel() int {
 	helper.lvlMarker = len(helper.args)
 	helper.args = append(helper.args, make([]interface{}, 0))
-- 
2.43.0


From 8557961d1691260cf48de532faba6200a2187310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 30/64] fix: report invalid multi-word regular expressions in
 simple expressions

---
 simpleParser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index e56bdc0..d80dc19 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -716,6 +716,11 @@ func (ctx *expressionParserContext) getValueTokenHelper(delim string) (string, P
 	token = strings.TrimPrefix(token, delim)
 	token = strings.TrimSuffix(token, delim)
 
+	return ctx.getValueTypeHelper(token)
+}
+
+// Given a value without its quotes, find its type. If it's used as a regex, then it has to be a valid one
+func (ctx *expressionParserContext) getValueTypeHelper(token string) (string, ParseTokenType, error) {
 	if ctx.getTokenValueSubtype() != TokenTypeValue {
 		_, err := regexp.Compile(token)
 		if err != nil {
@@ -808,7 +813,7 @@ func (ctx *expressionParserContext) getUnfinishedValueHelper(delim string) (stri
 		return "", TokenTypeInvalid, ErrorMissingQuote
 	}
 
-	return outputToken, ctx.getTokenValueSubtype(), nil
+	return ctx.getValueTypeHelper(outputToken)
 }
 
 func (ctx *expressionParserContext) NewFuncHelper() *funcOutputHelper {
-- 
2.43.0


From de57ede57baecc2fb5ebdebfd7f2fd72b2f2bc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:23 +0000
Subject: [PATCH 31/64] fix: report regular expressions that need pcre when it
 is not built in

---
 simpleParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index d80dc19..f7975f3 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1352,7 +1352,7 @@ func (ctx *expressionParserContext) outputRegex(node ParserTreeNode) (Expression
 }
 
 func (ctx *expressionParserContext) outputPcre(node ParserTreeNode) (Expression, error) {
-	return PcreExpr{node.data}, nil
+	return MakePcreExpression(node.data.(string))
 }
 
 func (ctx *expressionParserContext) outputField(pos int) (Expression, error) {
-- 
2.43.0


From 6a4b91afead879ebfca1c2b4c641aac9415c6194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 32/64] fix: quoted values of simple expressions are strings
 even if they look like numbers

---
 simpleParser.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index f7975f3..680928c 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -123,6 +123,9 @@ func getCheckFunc2Pattern(name string) string {
 	return fmt.Sprintf(`^%s\((?P<args>.+), *(?P<args>.+)\)$`, name)
 }
 
+// A value that was enclosed by quotes
+type quotedValue string
+
 type ParserTreeNode struct {
 	tokenType ParseTokenType
 	data      interface{}
@@ -150,6 +153,7 @@ type parserSubContext struct {
 	opTokenContext         opTokenContext
 
 	fieldIsTrueOrFalse bool
+	valueIsQuoted      bool // The current value was enclosed by quotes
 
 	// For tree organization
 	lastParserDataNode  int // Last inserted parser data node location
@@ -712,6 +716,7 @@ func (ctx *expressionParserContext) getTokenValueSubtype() ParseTokenType {
 func (ctx *expressionParserContext) getValueTokenHelper(delim string) (string, ParseTokenType, error) {
 	token := ctx.tokens[ctx.currentTokenIndex]
 
+	ctx.subCtx.valueIsQuoted = true
 	// For value, strip the double quotes
 	token = strings.TrimPrefix(token, delim)
 	token = strings.TrimSuffix(token, delim)
@@ -748,6 +753,7 @@ func (ctx *expressionParserContext) getTrueFalseValue(token string) (string, Par
 }
 
 func (ctx *expressionParserContext) getCurrentToken() (string, ParseTokenType, error) {
+	ctx.subCtx.valueIsQuoted = false
 	if ctx.currentTokenIndex >= len(ctx.tokens) {
 		return "", TokenTypeInvalid, ErrorNoMoreTokens
 	}
@@ -788,6 +794,7 @@ func tokenIsUnfinishedValueType(token string) (string, bool) {
 }
 
 func (ctx *expressionParserContext) getUnfinishedValueHelper(delim string) (string, ParseTokenType, error) {
+	ctx.subCtx.valueIsQuoted = true
 	outputToken := strings.TrimPrefix(ctx.tokens[ctx.currentTokenIndex], delim)
 	tokensLen := len(ctx.tokens)
 	for ctx.currentTokenIndex++; ctx.currentTokenIndex < tokensLen; ctx.currentTokenIndex++ {
@@ -1188,7 +1195,11 @@ func (ctx *expressionParserContext) parse() error {
 		err = ctx.checkTokenTypeWithinContext(tokenType, token)
 		if err == nil {
 			// Push the token into the correct location into the tree
-			err = ctx.insertNode(NewParserTreeNode(tokenType, token))
+			var data interface{} = token
+			if tokenType == TokenTypeValue && ctx.subCtx.valueIsQuoted {
+				data = quotedValue(token)
+			}
+			err = ctx.insertNode(NewParserTreeNode(tokenType, data))
 			if err != nil {
 				break
 			}
@@ -1330,6 +1341,11 @@ func (ctx *expressionParserContext) outputFalse() (Expression, error) {
 }
 
 func outputValueInternal(data interface{}) (Expression, error) {
+	if quoted, ok := data.(quotedValue); ok {
+		// What is enclosed by quotes is a string even if it looks like a number
+		return ValueExpr{string(quoted)}, nil
+	}
+
 	var outputData interface{} = data
 	var err error
 	if strData, ok := data.(string); ok && valueNumRegex.MatchString(strData) {
@@ -1403,6 +1419,8 @@ func (ctx *expressionParserContext) outputFunc(pos int) (Expression, error) {
 			var argField FieldExpr
 			argField.Path = fieldTokens
 			out.Params = append(out.Params, argField)
+		} else if quotedArg, ok := helper.args[curLevel][i].(quotedValue); ok {
+			out.Params = append(out.Params, ValueExpr{string(quotedArg)})
 		} else if strArg, ok := helper.args[curLevel][i].(string); ok {
 			// value
 			valueExpr, err := outputValueInternal(strArg)
@@ -1725,7 +1743,7 @@ func (helper *funcOutputHelper) resolveRecursiveFuncs(token string, lastFunc str
 		} else if delim, ok := valueCheck(subMatches[i]).(string); ok {
 			valueString := strings.TrimPrefix(subMatches[i], delim)
 			valueString = strings.TrimSuffix(valueString, delim)
-			helper.args[fxIdx] = append(helper.args[fxIdx], valueString)
+			helper.args[fxIdx] = append(helper.args[fxIdx], quotedValue(valueString))
 			if lastFunc == FuncDate && !validTimeChecker(valueString) {
 				return ErrorInvalidTimeFormat
 			}
-- 
2.43.0


From 4dc907fac2a973f36ab6400f3a85c7307bb9c6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 33/64] fix: operators and parentheses between backticks are
 part of the field name

---
 simpleParser.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 680928c..861475c 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -773,7 +773,7 @@ func (ctx *expressionParserContext) getCurrentToken() (string, ParseTokenType, e
 		return ctx.getTrueFalseValue(token)
 	} else if isFunc, key := ctx.tokenIsBuiltInFuncType(token); isFunc {
 		return ctx.getFuncFieldTokenHelper(token, key)
-	} else if strings.Contains(token, "(") || strings.Contains(token, ")") {
+	} else if masked := ctx.maskLiterals(token); strings.Contains(masked, "(") || strings.Contains(masked, ")") {
 		return ctx.getCurrentTokenParenHelper(token)
 	} else if delim, unfinished := tokenIsUnfinishedValueType(token); ctx.subCtx.currentMode == valueMode && unfinished {
 		return ctx.getUnfinishedValueHelper(delim)
@@ -1240,10 +1240,28 @@ func (ctx *expressionParserContext) parse() error {
 	return err
 }
 
+// What is enclosed by backticks in a field is neither an operator nor a parenthesis. Returns the token with it
+// blotted out, keeping the length
+func (ctx *expressionParserContext) maskLiterals(token string) string {
+	if ctx.subCtx.currentMode != fieldMode || !strings.Contains(token, fieldLiteral) {
+		return token
+	}
+	masked := []byte(token)
+	inLiteral := false
+	for i := range masked {
+		if string(token[i]) == fieldLiteral {
+			inLiteral = !inLiteral
+		} else if inLiteral {
+			masked[i] = fieldLiteral[0]
+		}
+	}
+	return string(masked)
+}
+
 // Given a potentially unseparated token, and the current context mode, see if we
 // can separate it just enough to get the supposed token
 func (ctx *expressionParserContext) checkPotentialSeparation(token string) bool {
-	ctx.subCtx.lastSeeker = NewOpSeeker(token)
+	ctx.subCtx.lastSeeker = NewOpSeeker(ctx.maskLiterals(token))
 	return ctx.subCtx.lastSeeker.Seek()
 }
 
@@ -1253,6 +1271,13 @@ func (ctx *expressionParserContext) getAndSeparateToken() (string, ParseTokenTyp
 	token := ctx.tokens[ctx.currentTokenIndex]
 
 	tokenSplitSlice := StringSplitFirstInst(token, delim)
+	if masked := ctx.maskLiterals(token); masked != token {
+		opIdx := strings.Index(masked, delim)
+		tokenSplitSlice = []string{token[:opIdx], delim}
+		if rest := token[opIdx+len(delim):]; rest != "" {
+			tokenSplitSlice = append(tokenSplitSlice, rest)
+		}
+	}
 	lenSlice := len(tokenSplitSlice)
 	if lenSlice > 1 {
 		numToInsert := lenSlice - 1
-- 
2.43.0


From 7be418fe5b7c1ff99bd1217049e12032106005c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 34/64] fix: fields of several words after the first condition

---
 simpleParser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index 861475c..de33a66 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1186,6 +1186,7 @@ func (ctx *expressionParserContext) parse() error {
 			break
 		}
 
+		beginIdx := ctx.currentTokenIndex
 		token, tokenType, err = ctx.getCurrentToken()
 		if err != nil {
 			break
@@ -1215,6 +1216,10 @@ func (ctx *expressionParserContext) parse() error {
 				// One Context means a specific set of (field -> op -> value) only, and then get back to merge
 				ctx.subCtx = NewParserSubContextOneLayer()
 			}
+			if tokenType.isFieldType() {
+				// The new sub context reads the field again, which may have spanned multiple tokens
+				ctx.currentTokenIndex = beginIdx
+			}
 
 			// Recursively fill in the necessary information in the newer subcontext
 			err = ctx.parse()
-- 
2.43.0


From 75f839777d34fdc2cf14b1caba695a20285f0caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 35/64] fix: continue after parentheses in simple expressions

---
 simpleParser.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index de33a66..6ddcd73 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1227,10 +1227,22 @@ func (ctx *expressionParserContext) parse() error {
 				break
 			}
 
+			endParenFound := err == NonErrorOneLayerDone && ctx.advTokenPositionOnly
+
 			err = ctx.mergeAndRestoreSubContexts(currentSubCtx)
 			if err != nil {
 				break
 			}
+
+			if tokenType == TokenTypeParen {
+				// What was inside of the parenthesis is now a complete operand
+				ctx.subCtx.currentMode = chainMode
+				ctx.subCtx.opTokenContext.clear()
+			} else if endParenFound {
+				// The end parenthesis belongs to a sub context further up
+				err = NonErrorOneLayerDone
+				break
+			}
 		} else {
 			break
 		}
-- 
2.43.0


From 0e367e349b75f8223536759770af850450742e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:54 +0000
Subject: [PATCH 36/64] fix: chain EXISTS and IS checks like comparisons in
 simple expressions

---
 simpleParser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index 6ddcd73..6c30318 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -538,6 +538,10 @@ func (ctx *expressionParserContext) advanceToken() error {
 		switch ctx.subCtx.opTokenContext {
 		case noFieldOp:
 			// These ops do not have fields
+			if ctx.subCtx.oneLayerMode {
+				ctx.currentTokenIndex = ctx.currentTokenIndex - 1
+				return NonErrorOneLayerDone
+			}
 			ctx.subCtx.currentMode = chainMode
 		case chainOp:
 			ctx.subCtx.currentMode = fieldMode
-- 
2.43.0


From e7bcb58bb76977da85ea39379838ba98ff4ec866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 37/64] fix: closing parentheses next to functions, keywords
 and each other in simple expressions

---
 simpleParser.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 6c30318..2eb4a69 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -483,7 +483,8 @@ func tokenIsChainOpType(token string) bool {
 func (ctx *expressionParserContext) tokenIsBuiltInFuncType(token string) (bool, string) {
 	for key, checker := range ctx.builtInFuncRegex {
 		if checker.MatchString(token) {
-			return true, key
+			_, isCall := splitFuncArgs(token, key)
+			return isCall, key
 		}
 	}
 	return false, ""
@@ -582,7 +583,7 @@ func (ctx *expressionParserContext) handleParenPrefix(paren string) error {
 
 func (ctx *expressionParserContext) handleParenSuffix(paren string) error {
 	// Strip the paren from the end of this token and insert into its own element
-	for strings.HasSuffix(ctx.tokens[ctx.currentTokenIndex], paren) {
+	for ctx.tokenHasParenSuffix(ctx.tokens[ctx.currentTokenIndex], paren) {
 		ctx.tokens = append(ctx.tokens, "")
 		copy(ctx.tokens[ctx.currentTokenIndex+1:], ctx.tokens[ctx.currentTokenIndex:])
 		ctx.tokens[ctx.currentTokenIndex] = strings.TrimSuffix(ctx.tokens[ctx.currentTokenIndex], paren)
@@ -591,6 +592,19 @@ func (ctx *expressionParserContext) handleParenSuffix(paren string) error {
 	return nil
 }
 
+// Whether a paren at the end of a token is one to be separated, as opposed to one that is the token itself or that
+// ends a function call within the token
+func (ctx *expressionParserContext) tokenHasParenSuffix(token, paren string) bool {
+	if token == paren || !strings.HasSuffix(token, paren) {
+		return false
+	}
+	if paren == "(" || ctx.subCtx.currentMode == valueMode && (token[0] == '"' || token[0] == '\'') {
+		return true
+	}
+	masked := ctx.maskLiterals(token)
+	return strings.Count(masked, ")") > strings.Count(masked, "(")
+}
+
 func (ctx *expressionParserContext) handleCloseParenBookKeeping() error {
 	if ctx.parenDepth == 0 {
 		return ErrorParenMismatch
@@ -656,6 +670,12 @@ func (ctx *expressionParserContext) handleMultiTokens() (string, ParseTokenType,
 
 outerLoop:
 	for i := 0; ctx.currentTokenIndex+i < len(ctx.tokens); i++ {
+		if i > 0 {
+			// The last word can be followed by a closing parenthesis
+			ctx.currentTokenIndex += i
+			ctx.handleParenSuffix(")")
+			ctx.currentTokenIndex -= i
+		}
 		token := ctx.tokens[ctx.currentTokenIndex+i]
 		retry := true
 		for retry {
@@ -688,10 +708,10 @@ func (ctx *expressionParserContext) getCurrentTokenParenHelper(token string) (st
 	if token != "(" && strings.HasPrefix(token, "(") {
 		ctx.handleParenPrefix("(")
 		return ctx.getCurrentToken()
-	} else if token != "(" && strings.HasSuffix(token, "(") {
+	} else if ctx.tokenHasParenSuffix(token, "(") {
 		ctx.handleParenSuffix("(")
 		return ctx.getCurrentToken()
-	} else if token != ")" && strings.HasSuffix(token, ")") {
+	} else if ctx.tokenHasParenSuffix(token, ")") {
 		ctx.handleParenSuffix(")")
 		return ctx.getCurrentToken()
 	} else if token != ")" && strings.HasPrefix(token, ")") {
-- 
2.43.0


From 1200b40750a05ed727fd64c7c5a3bdc284b35e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:42 +0000
Subject: [PATCH 38/64] fix: mixed operators in simple expressions whatever
 their spelling

---
 simpleParser.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 2eb4a69..94d1396 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1183,19 +1183,17 @@ func (ctx *expressionParserContext) mergeAndRestoreSubContexts(olderSubCtx *pars
 
 // Enable short circuit if expression is linked by only && or only ||
 func (ctx *expressionParserContext) enableShortCircuitEvalIfPossible() {
-	var operator string
-	for i := 0; i < len(ctx.tokens); i++ {
-		if ctx.tokens[i] == TokenOperatorOr || ctx.tokens[i] == TokenOperatorAnd {
-			if len(operator) == 0 {
-				ctx.shortCircuitEnabled = true
-				operator = ctx.tokens[i]
-			} else {
-				if ctx.tokens[i] != operator {
-					ctx.shortCircuitEnabled = false
-					return
-				}
-			}
+	var hasOr, hasAnd bool
+	for _, token := range ctx.tokens {
+		if token == TokenOperatorOr || token == TokenOperatorAnd {
+			ctx.shortCircuitEnabled = true
 		}
+		// The operators can also be spelled out, or not be separated by white space
+		hasOr = hasOr || strings.Contains(token, TokenOperatorOr) || strings.Contains(token, TokenOperatorOr2)
+		hasAnd = hasAnd || strings.Contains(token, TokenOperatorAnd) || strings.Contains(token, TokenOperatorAnd2)
+	}
+	if hasOr && hasAnd {
+		ctx.shortCircuitEnabled = false
 	}
 }
 
-- 
2.43.0


From 40511b091ffeef84852b18010bc6108db7f6486f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:47 +0000
Subject: [PATCH 39/64] fix: true and false as operands in simple expressions

---
 simpleParser.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 94d1396..f5a70a7 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -533,6 +533,11 @@ func (ctx *expressionParserContext) advanceToken() error {
 	// context mode transition
 	switch ctx.subCtx.currentMode {
 	case fieldMode:
+		if ctx.subCtx.oneLayerMode && ctx.subCtx.fieldIsTrueOrFalse {
+			// true and false are complete without an op
+			ctx.currentTokenIndex = ctx.currentTokenIndex - 1
+			return NonErrorOneLayerDone
+		}
 		// After the field mode, the next token *must* be an op
 		ctx.subCtx.currentMode = opMode
 	case opMode:
@@ -1056,7 +1061,7 @@ func (ctx *expressionParserContext) checkTokenTypeWithinContext(tokenType ParseT
 		}
 		fallthrough
 	case valueMode:
-		if tokenType.isFieldType() && ctx.subCtx.opTokenContext.isChainOp() {
+		if (tokenType.isFieldType() || tokenType.isBoolType()) && ctx.subCtx.opTokenContext.isChainOp() {
 			return ctx.getErrorNeedToStartOneNewCtx()
 		} else if tokenType.isBoolType() {
 			if ctx.subCtx.opTokenContext.isCompareOp() || ctx.subCtx.opTokenContext.isLikeOp() {
@@ -1148,22 +1153,28 @@ func (ctx *expressionParserContext) mergeAndRestoreSubContexts(olderSubCtx *pars
 		return nil
 	}
 
+	// The newer subcontext is either an op or just true or false
+	newSubCtxIndex := ctx.subCtx.lastOpIndex
+	if newSubCtxIndex == -1 && ctx.subCtx.fieldIsTrueOrFalse {
+		newSubCtxIndex = ctx.subCtx.lastFieldIndex
+	}
+
 	// Boundary check
-	if olderSubCtx.lastOpIndex >= len(ctx.parserTree.data) {
+	if olderSubCtx.lastOpIndex < 0 || olderSubCtx.lastOpIndex >= len(ctx.parserTree.data) {
 		return ErrorNotFound
 	}
-	if ctx.subCtx.lastOpIndex >= len(ctx.parserTree.data) {
+	if newSubCtxIndex < 0 || newSubCtxIndex >= len(ctx.parserTree.data) {
 		return ErrorNotFound
 	}
 
 	// Note that the subContext within *ctx is considered newer spawned
 	lastOpNodeOfOlderSubCtx := &ctx.parserTree.data[olderSubCtx.lastOpIndex]
-	lastOpNodeOfNewContext := &ctx.parserTree.data[ctx.subCtx.lastOpIndex]
+	lastOpNodeOfNewContext := &ctx.parserTree.data[newSubCtxIndex]
 
 	if lastOpNodeOfOlderSubCtx.Right != -1 {
 		return fmt.Errorf("Merging sub-context should expect value to be unassigned, but currently assigned to: %v", lastOpNodeOfOlderSubCtx.Right)
 	}
-	lastOpNodeOfOlderSubCtx.Right = ctx.subCtx.lastOpIndex
+	lastOpNodeOfOlderSubCtx.Right = newSubCtxIndex
 
 	if lastOpNodeOfNewContext.ParentIdx != -1 {
 		return fmt.Errorf("Merging sub-context should expect parent to be unassigned, but currently assigned to: %v", lastOpNodeOfNewContext.ParentIdx)
@@ -1230,6 +1241,7 @@ func (ctx *expressionParserContext) parse() error {
 			// Save current subContext
 			currentSubCtx := NewParserSubContext()
 			*currentSubCtx = *ctx.subCtx
+			currentSubCtx.fieldIsTrueOrFalse = false
 
 			if err == ErrorNeedToStartNewCtx {
 				// Starting a new context means the new sub context continues until it ends or hits an end paren
-- 
2.43.0


From 3aeb3e3ead8c69c7b53735f323353788f227d086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 40/64] fix: report incomplete simple expressions and stray
 operators

---
 simpleParser.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index f5a70a7..c7ffb0c 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1048,6 +1048,8 @@ func (ctx *expressionParserContext) checkTokenTypeWithinContext(tokenType ParseT
 			return NonErrorOneLayerDone
 		} else if !tokenType.isOpType() {
 			return fmt.Errorf("Error: For operator/chain mode, token must be operator type - received %v(%v)", token, tokenType.String())
+		} else if ctx.subCtx.currentMode == opMode && tokenIsChainOpType(token) && !ctx.subCtx.fieldIsTrueOrFalse {
+			return fmt.Errorf("Error: Field is not compared with anything before %v", token)
 		} else if ctx.subCtx.currentMode != opMode && !ctx.subCtx.opTokenContext.isChainOp() {
 			// This is specific for chain mode only
 			return fmt.Errorf("Error: For chain mode, token must be chain type - received %v(%v)", token, tokenType.String())
@@ -1268,15 +1270,16 @@ func (ctx *expressionParserContext) parse() error {
 				break
 			}
 
-			if tokenType == TokenTypeParen {
-				// What was inside of the parenthesis is now a complete operand
-				ctx.subCtx.currentMode = chainMode
-				ctx.subCtx.opTokenContext.clear()
-			} else if endParenFound {
+			if endParenFound && tokenType != TokenTypeParen {
 				// The end parenthesis belongs to a sub context further up
 				err = NonErrorOneLayerDone
 				break
 			}
+
+			// What was merged is now a complete operand
+			ctx.subCtx.currentMode = chainMode
+			ctx.subCtx.opTokenContext.clear()
+			ctx.advTokenPositionOnly = true
 		} else {
 			break
 		}
@@ -1286,6 +1289,9 @@ func (ctx *expressionParserContext) parse() error {
 		err = nil
 		if ctx.parenDepth > 0 {
 			err = ErrorParenMismatch
+		} else if ctx.subCtx.currentMode == fieldMode && !ctx.subCtx.isUnused() {
+			// There has to be something after a chain op
+			err = ErrorNoMoreTokens
 		}
 	}
 	return err
-- 
2.43.0


From 37e82586fdf3798f336ef2d135e9754cf8e629c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:34 +0000
Subject: [PATCH 41/64] fix: parentheses within quoted values of simple
 expressions

---
 simpleParser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index c7ffb0c..cbd3337 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -802,6 +802,9 @@ func (ctx *expressionParserContext) getCurrentToken() (string, ParseTokenType, e
 		return ctx.getTrueFalseValue(token)
 	} else if isFunc, key := ctx.tokenIsBuiltInFuncType(token); isFunc {
 		return ctx.getFuncFieldTokenHelper(token, key)
+	} else if delim, unfinished := tokenIsUnfinishedValueType(token); ctx.subCtx.currentMode == valueMode && unfinished && strings.Count(token, delim) == 1 {
+		// Parenthesis within quotes are part of the value
+		return ctx.getUnfinishedValueHelper(delim)
 	} else if masked := ctx.maskLiterals(token); strings.Contains(masked, "(") || strings.Contains(masked, ")") {
 		return ctx.getCurrentTokenParenHelper(token)
 	} else if delim, unfinished := tokenIsUnfinishedValueType(token); ctx.subCtx.currentMode == valueMode && unfinished {
@@ -829,7 +832,7 @@ func (ctx *expressionParserContext) getUnfinishedValueHelper(delim string) (stri
 	for ctx.currentTokenIndex++; ctx.currentTokenIndex < tokensLen; ctx.currentTokenIndex++ {
 		var breakout bool
 		token := ctx.tokens[ctx.currentTokenIndex]
-		if ctx.parenDepth > 0 && strings.HasSuffix(token, ")") {
+		if ctx.parenDepth > 0 && strings.HasSuffix(token, ")") && strings.HasSuffix(strings.TrimRight(token, ")"), delim) {
 			ctx.handleParenSuffix(")")
 			tokensLen = len(ctx.tokens)
 			token = ctx.tokens[ctx.currentTokenIndex]
-- 
2.43.0


From 7cd81720ed0ae93622740c266eda8eb7a89ab1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 42/64] fix: the first element of an array in simple
 expressions

---
 simpleParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index cbd3337..867f012 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -967,7 +967,7 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 				if pos == beginPos {
 					continue
 				}
-				if pos == beginPos+1 && string(token[pos]) == "0" {
+				if pos == beginPos+1 && string(token[pos]) == "0" && !(pos+1 < len(token) && string(token[pos+1]) == fieldNestedEnd) {
 					return outputToken, ErrorLeadingZeroes
 				} else if !fieldTokenInt.MatchString(string(token[pos])) && string(token[pos]) != fieldNestedEnd {
 					return outputToken, ErrorAllInts
-- 
2.43.0


From e06eafd606fff77534d667d4c817a6189d7bae6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 43/64] fix: true and false are conditions as operands of AND
 and OR in simple expressions

---
 simpleParser.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 867f012..159925b 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1734,17 +1734,28 @@ func (ctx *expressionParserContext) outputIsNotNull(node ParserTreeNode, pos int
 	}, nil
 }
 
+// Outputs an operand of AND or OR, where true and false are expressions and not values
+func (ctx *expressionParserContext) outputCondition(node ParserTreeNode, pos int) (Expression, error) {
+	switch node.tokenType {
+	case TokenTypeTrue:
+		return TrueExpr{}, nil
+	case TokenTypeFalse:
+		return FalseExpr{}, nil
+	}
+	return ctx.outputNode(node, pos)
+}
+
 func (ctx *expressionParserContext) outputAnd(node ParserTreeNode, pos int) (Expression, error) {
 	var out AndExpr
 	leftNode, leftPos := ctx.getLeftOutputNode(pos)
 	rightNode, rightPos := ctx.getRightOutputNode(pos)
 
-	leftSubExpr, err := ctx.outputNode(leftNode, leftPos)
+	leftSubExpr, err := ctx.outputCondition(leftNode, leftPos)
 	if err != nil {
 		return out, err
 	}
 
-	rightSubExpr, err := ctx.outputNode(rightNode, rightPos)
+	rightSubExpr, err := ctx.outputCondition(rightNode, rightPos)
 	if err != nil {
 		return out, err
 	}
@@ -1760,11 +1771,11 @@ func (ctx *expressionParserContext) outputOr(node ParserTreeNode, pos int) (Expr
 	leftNode, leftPos := ctx.getLeftOutputNode(pos)
 	rightNode, rightPos := ctx.getRightOutputNode(pos)
 
-	leftSubExpr, err := ctx.outputNode(leftNode, leftPos)
+	leftSubExpr, err := ctx.outputCondition(leftNode, leftPos)
 	if err != nil {
 		return out, err
 	}
-	rightSubExpr, err := ctx.outputNode(rightNode, rightPos)
+	rightSubExpr, err := ctx.outputCondition(rightNode, rightPos)
 	if err != nil {
 		return out, err
 	}
-- 
2.43.0


From c754e35feb72b1a86c9625dfadb3bea3ba2a2575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 44/64] fix: closing parentheses after quoted values of several
 words with parentheses

---
 simpleParser.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 159925b..0b9201b 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -589,14 +589,18 @@ func (ctx *expressionParserContext) handleParenPrefix(paren string) error {
 func (ctx *expressionParserContext) handleParenSuffix(paren string) error {
 	// Strip the paren from the end of this token and insert into its own element
 	for ctx.tokenHasParenSuffix(ctx.tokens[ctx.currentTokenIndex], paren) {
-		ctx.tokens = append(ctx.tokens, "")
-		copy(ctx.tokens[ctx.currentTokenIndex+1:], ctx.tokens[ctx.currentTokenIndex:])
-		ctx.tokens[ctx.currentTokenIndex] = strings.TrimSuffix(ctx.tokens[ctx.currentTokenIndex], paren)
-		ctx.tokens[ctx.currentTokenIndex+1] = paren
+		ctx.separateParenSuffix(paren)
 	}
 	return nil
 }
 
+func (ctx *expressionParserContext) separateParenSuffix(paren string) {
+	ctx.tokens = append(ctx.tokens, "")
+	copy(ctx.tokens[ctx.currentTokenIndex+1:], ctx.tokens[ctx.currentTokenIndex:])
+	ctx.tokens[ctx.currentTokenIndex] = strings.TrimSuffix(ctx.tokens[ctx.currentTokenIndex], paren)
+	ctx.tokens[ctx.currentTokenIndex+1] = paren
+}
+
 // Whether a paren at the end of a token is one to be separated, as opposed to one that is the token itself or that
 // ends a function call within the token
 func (ctx *expressionParserContext) tokenHasParenSuffix(token, paren string) bool {
@@ -833,7 +837,9 @@ func (ctx *expressionParserContext) getUnfinishedValueHelper(delim string) (stri
 		var breakout bool
 		token := ctx.tokens[ctx.currentTokenIndex]
 		if ctx.parenDepth > 0 && strings.HasSuffix(token, ")") && strings.HasSuffix(strings.TrimRight(token, ")"), delim) {
-			ctx.handleParenSuffix(")")
+			for !strings.HasSuffix(ctx.tokens[ctx.currentTokenIndex], delim) {
+				ctx.separateParenSuffix(")")
+			}
 			tokensLen = len(ctx.tokens)
 			token = ctx.tokens[ctx.currentTokenIndex]
 		}
-- 
2.43.0


From 9bfc353d3a18a65b562445c165772c4c0a69055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:36 +0000
Subject: [PATCH 45/64] fix: report malformed JSON expressions instead of
 panicking

---
 expression_json.go | 48 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/expression_json.go b/expression_json.go
index 36ca66e..6adae14 100644
--- a/expression_json.go
+++ b/expression_json.go
@@ -5,6 +5,7 @@ package gojsonsm
 import (
 	"encoding/json"
 	"errors"
+	"regexp"
 )
 
 func parseJsonValue(data []interface{}) (Expression, error) {
@@ -34,12 +35,18 @@ func parseJsonField(data []interface{}) (Expression, error) {
 func parseJsonFunc(data []interface{}) (Expression, error) {
 	var out FuncExpr
 	pos := 1
-	if funcName, ok := data[pos].(string); ok {
-		out.FuncName = funcName
-		pos++
+	funcName, ok := data[pos].(string)
+	if !ok {
+		return nil, errors.New("invalid func expression name format")
 	}
+	out.FuncName = funcName
+	pos++
 	for ; pos < len(data); pos++ {
-		paramData := data[pos].([]interface{})
+		paramData, ok := data[pos].([]interface{})
+		if !ok {
+			return nil, errors.New("invalid func expression parameter format")
+		}
+
 		param, err := parseJsonSubexpr(paramData)
 		if err != nil {
 			return nil, err
@@ -277,27 +284,54 @@ func parseJsonLike(data []interface{}) (Expression, error) {
 }
 
 func parseJsonRegex(data []interface{}) (Expression, error) {
+	regexStr, ok := data[1].(string)
+	if !ok {
+		return nil, errors.New("invalid regex expression format")
+	}
+	if _, err := regexp.Compile(regexStr); err != nil {
+		return nil, err
+	}
 	return RegexExpr{
-		data[1],
+		regexStr,
 	}, nil
 }
 
 func parseJsonTime(data []interface{}) (Expression, error) {
-	if dateStr, ok := data[1].(string); ok && !validTimeChecker(dateStr) {
+	dateStr, ok := data[1].(string)
+	if !ok || !validTimeChecker(dateStr) {
 		return nil, ErrorInvalidTimeFormat
 	}
 	return TimeExpr{
-		data[1],
+		dateStr,
 	}, nil
 }
 
+// The least number of elements that have to follow the type of an expression
+func jsonExprMinOperands(exprType string) int {
+	switch exprType {
+	case "equals", "notequals", "lessthan", "lessequals", "greaterthan", "greaterequals", "like":
+		return 2
+	case "anyin", "everyin", "anyeveryin":
+		return 3
+	}
+	return 1
+}
+
 func parseJsonSubexpr(data []interface{}) (Expression, error) {
+	if len(data) == 0 {
+		return nil, errors.New("invalid expression format")
+	}
+
 	exprType, ok := data[0].(string)
 	if !ok {
 
 		return nil, errors.New("invalid expression type format")
 	}
 
+	if len(data)-1 < jsonExprMinOperands(exprType) {
+		return nil, errors.New("missing operands for " + exprType + " expression")
+	}
+
 	switch exprType {
 	case "value":
 		return parseJsonValue(data)
-- 
2.43.0


From a303c29a2281a2d59a9fc89f4d0df6b06f55483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 46/64] fix: accept a string as the last element of an array
 when removing items

---
 jsonComposer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonComposer.go b/jsonComposer.go
index d517fac..41d8755 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -130,7 +130,7 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 					return handleError(err)
 				}
 
-				if tknType2 == tknObjectEnd {
+				if tknType2 == tknObjectEnd || tknType2 == tknArrayEnd {
 					depth--
 					if depth < 0 {
 						return handleError(ErrInvalidJSON)
-- 
2.43.0


From 09005f36298bec01fa4fdbac384e2d345e3534e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:32 +0000
Subject: [PATCH 47/64] fix: remove an item once even if its key is listed
 several times

---
 jsonComposer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonComposer.go b/jsonComposer.go
index 41d8755..6fc6900 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -257,6 +257,9 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 			} else if tknType4 == tknUnknown {
 				return handleError(ErrUnrecognisedToken)
 			}
+
+			// The item is gone, the remaining keys cannot apply to it
+			break
 		}
 
 		if !matched {
-- 
2.43.0


From 99963a16d5ec62299c3e52effe69e1e2b1da1791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:33 +0000
Subject: [PATCH 48/64] fix: report a destination that is too short for the
 remaining object

---
 jsonComposer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonComposer.go b/jsonComposer.go
index 6fc6900..5ff0a3f 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -41,10 +41,10 @@ func (composer *jsonObjComposer) Write(data []byte, tknType tokenType) error {
 	if tknType == tknObjectEnd && composer.prevTokenType == tknListDelim {
 		composer.pos--
 	}
-	n := copy(composer.body[composer.pos:composer.pos+len(data)], data)
-	if n != len(data) {
+	if len(data) > len(composer.body)-composer.pos {
 		return ErrInsufficientMemory
 	}
+	copy(composer.body[composer.pos:], data)
 	composer.pos += len(data)
 	composer.prevTokenType = tknType
 	return nil
-- 
2.43.0


From 4b01ca2b4f3fc826412732d09811015ec04bb5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 49/64] fix: remove items whose keys are written with escapes

---
 jsonComposer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jsonComposer.go b/jsonComposer.go
index 5ff0a3f..0e57d6b 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -88,6 +88,7 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 	tokenizer := &jsonTokenizer{}
 	tokenizer.Reset(src)
 
+	var keyLitParse fastLitParser
 	var atleastOneFieldLeft bool
 	var tknType, tknType1, tknType2, tknType3, tknType4 tokenType
 	var potentialKey, potentialObjDelimiter, tkn []byte
@@ -103,7 +104,7 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 		tknType = tknType1
 
 		switch tknType1 {
-		case tknString:
+		case tknString, tknEscString:
 			// string token can be a JSON key or a string JSON value
 			// if the next token is ":", then potentialKey is a JSON key
 			tknType2, potentialObjDelimiter, _, err = tokenizer.Step()
@@ -166,7 +167,7 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 		case tknUnknown:
 			return handleError(ErrUnrecognisedToken)
 		default:
-			// can be tknObjectKeyDelim, tknListDelim, tknEscString, tknInteger, tknNumber,
+			// can be tknObjectKeyDelim, tknListDelim, tknInteger, tknNumber,
 			// tknNull, tknTrue, tknFalse
 			err = composer.Write(potentialKey, tknType1)
 			if err != nil {
@@ -179,6 +180,9 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 
 		// strip off the quotes from the string for matching
 		key := potentialKey[1 : tknLen-1]
+		if tknType1 == tknEscString {
+			key = keyLitParse.ParseEscStringWLen(potentialKey, tknLen)
+		}
 
 		matched := false
 		for _, keyToRemove := range remove {
-- 
2.43.0


From e49b754cc3af4f04a65ae2d7a2781bc83fedd95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:47 +0000
Subject: [PATCH 50/64] fix: collect statistics of every kind of expression

---
 expressionstats.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/expressionstats.go b/expressionstats.go
index fe2e5a6..8240797 100644
--- a/expressionstats.go
+++ b/expressionstats.go
@@ -36,6 +36,11 @@ func (stats *ExpressionStats) scanOne(expr Expression, loopDepth int) error {
 		stats.NumFields++
 	case ValueExpr:
 		stats.NumValues++
+	case TrueExpr:
+	case FalseExpr:
+	case RegexExpr:
+	case PcreExpr:
+	case TimeExpr:
 	case FuncExpr:
 		for _, subexpr := range expr.Params {
 			stats.scanOne(subexpr, loopDepth)
@@ -50,6 +55,8 @@ func (stats *ExpressionStats) scanOne(expr Expression, loopDepth int) error {
 		for _, subexpr := range expr {
 			stats.scanOne(subexpr, loopDepth)
 		}
+	case NotExpr:
+		stats.scanOne(expr.SubExpr, loopDepth)
 	case AnyInExpr:
 		stats.NumLoops++
 		if loopDepth == 1 {
@@ -93,6 +100,9 @@ func (stats *ExpressionStats) scanOne(expr Expression, loopDepth int) error {
 	case GreaterEqualsExpr:
 		stats.scanOne(expr.Lhs, loopDepth)
 		stats.scanOne(expr.Rhs, loopDepth)
+	case LikeExpr:
+		stats.scanOne(expr.Lhs, loopDepth)
+		stats.scanOne(expr.Rhs, loopDepth)
 	default:
 		panic("unexpected expression type")
 	}
-- 
2.43.0


From c10751ef460364069e45bdffa06a38492a805fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 51/64] fix: do not compact loops whose result depends on the
 array

---
 expression_compact.go | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/expression_compact.go b/expression_compact.go
index e292482..13cc342 100644
--- a/expression_compact.go
+++ b/expression_compact.go
@@ -42,21 +42,10 @@ func compactExpressionAnd(expr AndExpr) Expression {
 
 func compactExpressionAnyIn(expr AnyInExpr) Expression {
 	switch expr.SubExpr.(type) {
-	case TrueExpr:
-		return TrueExpr{}
-	case FalseExpr:
-		return FalseExpr{}
-	}
-	return expr
-}
-
-func compactExpressionEveryIn(expr EveryInExpr) Expression {
-	switch expr.SubExpr.(type) {
-	case TrueExpr:
-		return TrueExpr{}
 	case FalseExpr:
 		return FalseExpr{}
 	}
+	// An always true condition still needs an element that satisfies it
 	return expr
 }
 
@@ -71,8 +60,6 @@ func CompactExpression(expr Expression) Expression {
 		return compactExpressionAnd(expr)
 	case AnyInExpr:
 		return compactExpressionAnyIn(expr)
-	case EveryInExpr:
-		return compactExpressionEveryIn(expr)
 	default:
 		return expr
 	}
-- 
2.43.0


From a02efd0f58cbe6c81827f912931c42b23a7029cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:59 +0000
Subject: [PATCH 52/64] fix: print definitions of constant expressions

---
 fastMatcherDef.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fastMatcherDef.go b/fastMatcherDef.go
index 24178f4..078bbfb 100644
--- a/fastMatcherDef.go
+++ b/fastMatcherDef.go
@@ -172,8 +172,10 @@ func (def MatchDef) String() string {
 	var out string
 	out += "match tree:\n"
 	out += "  $doc:\n"
-	out += reindentString(def.ParseNode.String(), "    ")
-	out += "\n"
+	if def.ParseNode != nil {
+		out += reindentString(def.ParseNode.String(), "    ")
+		out += "\n"
+	}
 	out += "bin tree:\n"
 	out += reindentString(def.MatchTree.String(), "  ")
 	out += "\n"
-- 
2.43.0


From 36d4bd4e9dc6566e33602bdb1e3838713e35e890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 53/64] fix: print the empty tree of constant expressions

---
 bintree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bintree.go b/bintree.go
index acb57e2..27e2b20 100644
--- a/bintree.go
+++ b/bintree.go
@@ -93,6 +93,9 @@ func (tree binTree) itemToString(item int) string {
 }
 
 func (tree binTree) String() string {
+	if len(tree.data) == 0 {
+		return ""
+	}
 	return tree.itemToString(0)
 }
 
-- 
2.43.0


From da775d9172814aedec5b90cb8ee1b8d886223387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 54/64] fix: loops over values that are not arrays in the slow
 matcher do not panic

---
 slowmatcher.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slowmatcher.go b/slowmatcher.go
index f77d3de..64732e9 100644
--- a/slowmatcher.go
+++ b/slowmatcher.go
@@ -172,7 +172,8 @@ func (m *SlowMatcher) matchAnyInExpr(expr AnyInExpr) (bool, error) {
 		return false, nil
 	}
 
-	panic("unexpected any in param type")
+	// There is nothing to loop over in any other value
+	return false, nil
 }
 
 func (m *SlowMatcher) matchEqualsExpr(expr EqualsExpr) (bool, error) {
-- 
2.43.0


From 763b6b413ac4af11308ab6486ae531089f6da0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 55/64] fix: two leading minus signs cancel each other

---
 filterExprParser.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/filterExprParser.go b/filterExprParser.go
index 6b3e75d..6e924c9 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -642,8 +642,18 @@ func (f *FEFieldWithMathType1) outputTail(first FuncExpr) (Expression, error) {
 	return complete(), nil
 }
 
+// FENegation is whether the leading minus signs negate what follows, two of them cancel each other
+type FENegation bool
+
+func (n *FENegation) Capture(values []string) error {
+	for range values {
+		*n = !*n
+	}
+	return nil
+}
+
 type FEField struct {
-	MathNeg *bool        `{ @"-" }`
+	MathNeg *FENegation  `{ @"-" }`
 	Path    []*FEOnePath `@@ { "." @@ }`
 }
 
@@ -653,7 +663,7 @@ func (fef *FEField) String() string {
 		output = append(output, onePath.String())
 	}
 	fieldOutput := strings.Join(output, ".")
-	if fef.MathNeg != nil {
+	if fef.MathNeg != nil && *fef.MathNeg {
 		fieldOutput = fmt.Sprintf("%v%v", "-", fieldOutput)
 	}
 	return fieldOutput
@@ -673,7 +683,7 @@ func (f *FEField) OutputExpression() (Expression, error) {
 		}
 	}
 
-	if f.MathNeg != nil {
+	if f.MathNeg != nil && *f.MathNeg {
 		var mathOutExpr FuncExpr
 		// Only thing is a negation of the field value
 		mathOutExpr.FuncName = MathFuncNeg
@@ -832,9 +842,9 @@ func (f *FEMathArithmeticOp) OutputExpression() (Expression, error) {
 }
 
 type FEMathValue struct {
-	MathNeg    *bool    `{ @"-" }`
-	IntValue   *int     `( @Int |`
-	FloatValue *float64 `@Float )`
+	MathNeg    *FENegation `{ @"-" }`
+	IntValue   *int        `( @Int |`
+	FloatValue *float64    `@Float )`
 }
 
 func (f *FEMathValue) String() string {
@@ -1135,7 +1145,7 @@ func (f *FECheckOp) OutputExpression(subExpr Expression) (Expression, error) {
 // Technically we could have an slice of arguments, but having OneArg vs NoArg vs TwoArg could
 // allow us to do more strict function check (i.e. certain funcs should only allow one argument, etc, at this level)
 type FEConstFuncExpression struct {
-	MathNeg          *bool               `{ @"-" }`
+	MathNeg          *FENegation         `{ @"-" }`
 	ConstFuncNoArg   *FEConstFuncNoArg   `( @@ |`
 	ConstFuncOneArg  *FEConstFuncOneArg  `@@ |`
 	ConstFuncTwoArgs *FEConstFuncTwoArgs `@@ )`
-- 
2.43.0


From a470c9b5e3c92a29a52b123388f8b4f5ff5eaf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:53 +0000
Subject: [PATCH 56/64] fix: function arguments of the simple language that are
 neither functions, values nor fields are errors

---
 simpleParser.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index 0b9201b..cc9b30f 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1853,6 +1853,9 @@ func (helper *funcOutputHelper) resolveRecursiveFuncs(token string, lastFunc str
 			helper.args[fxIdx] = append(helper.args[fxIdx], subMatches[i])
 		} else {
 			// Field
+			if !validFuncField(subMatches[i]) {
+				return ErrorInvalidFuncArgs
+			}
 			var fieldTokens []string
 			_, err := checkAndParseField(subMatches, &i, &fieldTokens)
 			if err != nil {
@@ -1865,6 +1868,20 @@ func (helper *funcOutputHelper) resolveRecursiveFuncs(token string, lastFunc str
 	return nil
 }
 
+// What is neither a function nor a value can only be a field: outside of backticks it contains no parentheses or quotes,
+// such as those of an unknown function, and like any field it does not start or end with a period
+func validFuncField(arg string) bool {
+	inLiteral := false
+	for _, c := range arg {
+		if string(c) == fieldLiteral {
+			inLiteral = !inLiteral
+		} else if !inLiteral && strings.ContainsRune("()\"'", c) {
+			return false
+		}
+	}
+	return !strings.HasPrefix(arg, fieldSeparator) && !strings.HasSuffix(arg, fieldSeparator)
+}
+
 // Splits the arguments of a function call at the commas that are not part of a nested call or a quoted piece.
 // Returns false if the token is not just the one call
 func splitFuncArgs(token, funcName string) ([]string, bool) {
-- 
2.43.0


From a8621b5e03a30b3da657a282317271f9ac19be53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:28 +0000
Subject: [PATCH 57/64] fix: a trailing period after a field name of several
 words is an error

---
 simpleParser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index cc9b30f..2af3718 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -902,6 +902,10 @@ func (ctx *expressionParserContext) getTokenFieldTokenHelper() (string, ParseTok
 	ctx.lastFieldTokens = make([]string, 0)
 
 	token, err = checkAndParseField(ctx.tokens, &ctx.currentTokenIndex, &ctx.lastFieldTokens)
+	if err == nil && invalidPeriodPosRegex.MatchString(ctx.tokens[ctx.currentTokenIndex]) {
+		// The name can span several words, with the period at the end of the last one
+		err = fmt.Errorf("Invalid field: %v - cannot start or end with a period", token)
+	}
 	return token, TokenTypeField, err
 }
 
-- 
2.43.0


From 6b700db26ff04bfcce37a90aca161e0452116ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:18 +0000
Subject: [PATCH 58/64] fix: a period at the end of a word inside a quoted
 field name is part of the name

`a. b` = 1 was rejected because the first word of the quoted name ends
with a period.
---
 simpleParser.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 2af3718..28fdf2b 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -885,25 +885,19 @@ func (ctx *expressionParserContext) getFuncFieldTokenHelper(token, funcKey strin
 
 // Checks the syntax of field - i.e. paths, array syntax, etc
 func (ctx *expressionParserContext) getTokenFieldTokenHelper() (string, ParseTokenType, error) {
-	var err error
-
-	token := ctx.tokens[ctx.currentTokenIndex]
+	startIndex := ctx.currentTokenIndex
 
-	// Field name cannot start or end with a period
-	invalidPeriodPosRegex := regexp.MustCompile(`(^\.)|(\.$)`)
-	if invalidPeriodPosRegex.MatchString(token) {
-		err = fmt.Errorf("Invalid field: %v - cannot start or end with a period", token)
-	}
+	ctx.lastFieldTokens = make([]string, 0)
 
+	token, err := checkAndParseField(ctx.tokens, &ctx.currentTokenIndex, &ctx.lastFieldTokens)
 	if err != nil {
 		return token, TokenTypeField, err
 	}
 
-	ctx.lastFieldTokens = make([]string, 0)
-
-	token, err = checkAndParseField(ctx.tokens, &ctx.currentTokenIndex, &ctx.lastFieldTokens)
-	if err == nil && invalidPeriodPosRegex.MatchString(ctx.tokens[ctx.currentTokenIndex]) {
-		// The name can span several words, with the period at the end of the last one
+	// Field name cannot start or end with a period. A quoted name can span several words, and have
+	// periods at the ends of those.
+	invalidPeriodPosRegex := regexp.MustCompile(`(^\.)|(\.$)`)
+	if invalidPeriodPosRegex.MatchString(strings.Join(ctx.tokens[startIndex:ctx.currentTokenIndex+1], " ")) {
 		err = fmt.Errorf("Invalid field: %v - cannot start or end with a period", token)
 	}
 	return token, TokenTypeField, err
-- 
2.43.0


From cac645b2008b927af7ad0445d3201e6fee0d4e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 59/64] fix: the printed form of a filter expression shows
 arithmetic with fields

---
 filterExprParser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterExprParser.go b/filterExprParser.go
index 6e924c9..f730897 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -552,9 +552,9 @@ func (f *FEFieldWithMathType1) String() string {
 	if f.Field != nil {
 		output = append(output, f.Field.String())
 	}
-	if f.MathValue != nil && (f.MathOp != nil || f.OtherField != nil) {
+	if f.MathOp != nil && (f.MathValue != nil || f.OtherField != nil) {
 		output = append(output, f.MathOp.String())
-		if f.MathOp != nil {
+		if f.MathValue != nil {
 			output = append(output, f.MathValue.String())
 		} else {
 			output = append(output, f.OtherField.String())
-- 
2.43.0


From a6b986b24c132cd0f0d414cc33aca83d9d028055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:53 +0000
Subject: [PATCH 60/64] fix: a backtick or bracket in a simple field must not
 be glued to other text

---
 constants.go    | 1 +
 simpleParser.go | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/constants.go b/constants.go
index 2dfadc4..26d7657 100644
--- a/constants.go
+++ b/constants.go
@@ -101,6 +101,7 @@ var ErrorParenMismatch error = fmt.Errorf("Error: Parenthesis mismatch")
 var NonErrorOneLayerDone error = fmt.Errorf("One layer has finished")
 var ErrorLeadingZeroes error = fmt.Errorf("Nested mode index must not have leading zeros")
 var ErrorAllInts error = fmt.Errorf("Array index must be a valid integer")
+var ErrorInvalidFieldName error = fmt.Errorf("A field name or array index must be followed by a separator or another array index")
 var ErrorEmptyNest error = fmt.Errorf("Array index cannot be empty")
 var ErrorMissingBacktickBracket error = fmt.Errorf("Invalid field - could not find matching ending backtick or bracket")
 var ErrorMissingQuote error = fmt.Errorf("Invalid token - could not find matching ending quote")
diff --git a/simpleParser.go b/simpleParser.go
index 28fdf2b..26831b4 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -933,6 +933,9 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 					}
 					beginPos = pos + 1
 				case fieldLiteral:
+					if beginPos != pos {
+						return outputToken, ErrorInvalidFieldName
+					}
 					mode = cfmBacktick
 					beginPos = pos + 1
 					nextMode = cfmNone
@@ -965,6 +968,8 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 					mode = nextMode
 					if pos != len(token)-1 && (string(token[pos+1]) == fieldSeparator || string(token[pos+1]) == fieldNestedStart) || pos == len(token)-1 {
 						skipAppend = true
+					} else {
+						return outputToken, ErrorInvalidFieldName
 					}
 				}
 			case cfmNestedNumeric:
@@ -993,6 +998,8 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 					}
 					if pos == len(token)-1 || string(token[pos+1]) == fieldNestedStart || string(token[pos+1]) == fieldSeparator {
 						skipAppend = true
+					} else {
+						return outputToken, ErrorInvalidFieldName
 					}
 				case fieldSeparator:
 					fallthrough
-- 
2.43.0


From bb975f2f871d5a943cf0e90ed6254cc98ab71f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:56 +0000
Subject: [PATCH 61/64] fix: the filter language rejects array indexes that are
 not plain decimals

---
 filterExprParser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/filterExprParser.go b/filterExprParser.go
index f730897..8cf6086 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -737,6 +737,14 @@ func (feop *FEOnePath) String() string {
 func (f *FEOnePath) OutputOnePath() (string, []string, error) {
 	var arrayIdx []string
 	for _, arr := range f.ArrayIndexes {
+		if len(arr.ArrayIndex) > 1 && arr.ArrayIndex[0] == '0' {
+			return "", nil, ErrorLeadingZeroes
+		}
+		for _, char := range arr.ArrayIndex {
+			if char < '0' || char > '9' {
+				return "", nil, ErrorAllInts
+			}
+		}
 		arrayIdx = append(arrayIdx, arr.String())
 	}
 
-- 
2.43.0


From ce08030723a562a7f0587597eae4ed0a038f9733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:14 +0000
Subject: [PATCH 62/64] fix: an object or array right after a string is an
 error when items are removed

---
 jsonComposer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonComposer.go b/jsonComposer.go
index 0e57d6b..e6e1097 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -119,6 +119,9 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 					return handleError(ErrUnrecognisedToken)
 				} else if tknType2 == tknEnd {
 					return handleError(ErrUnexpectedEOF)
+				} else if tknType2 == tknObjectStart || tknType2 == tknArrayStart {
+					// neither an object nor an array can come directly after a string
+					return handleError(ErrInvalidJSON)
 				}
 
 				// potentialKey is not a JSON key, so don't try to match it with keys in "remove"
-- 
2.43.0


From 8b3d536eef538cf6a415af6008aebf871badafc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:58 +0000
Subject: [PATCH 63/64] fix: names between backticks in functions used as
 values may contain parentheses

---
 simpleParser.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 26831b4..7f2bd2f 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1311,10 +1311,13 @@ func (ctx *expressionParserContext) parse() error {
 	return err
 }
 
-// What is enclosed by backticks in a field is neither an operator nor a parenthesis. Returns the token with it
-// blotted out, keeping the length
+// What is enclosed by backticks in a field, or in a field that is an argument of a function, is neither an operator
+// nor a parenthesis. Returns the token with it blotted out, keeping the length
 func (ctx *expressionParserContext) maskLiterals(token string) string {
-	if ctx.subCtx.currentMode != fieldMode || !strings.Contains(token, fieldLiteral) {
+	if !strings.Contains(token, fieldLiteral) {
+		return token
+	}
+	if ctx.subCtx.currentMode != fieldMode && (ctx.subCtx.currentMode != valueMode || token[0] == '"' || token[0] == '\'') {
 		return token
 	}
 	masked := []byte(token)
-- 
2.43.0


From 919dce3f0caa3b457ea77767a894567e60ccfbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:43 +0000
Subject: [PATCH 64/64] fix: a vertical bar is no letter of true or false

The expressions that recognise booleans among strings had | inside their
character classes, so "t|ue" and "|alse" were taken for booleans.
---
 fastval.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastval.go b/fastval.go
index d384b0c..0588506 100644
--- a/fastval.go
+++ b/fastval.go
@@ -85,8 +85,8 @@ const FalseString = "false"
 var TrueValueBytes = []byte(TrueString)
 var FalseValueBytes = []byte(FalseString)
 
-var TrueStringRegex *regexp.Regexp = regexp.MustCompile("^[T|t][R|r][U|u][E|e]$")
-var FalseStringRegex *regexp.Regexp = regexp.MustCompile("^[F|f][A|a][L|l][S|s][E|e]$")
+var TrueStringRegex *regexp.Regexp = regexp.MustCompile("^[Tt][Rr][Uu][Ee]$")
+var FalseStringRegex *regexp.Regexp = regexp.MustCompile("^[Ff][Aa][Ll][Ss][Ee]$")
 
 type FastVal struct {
 	dataType    ValueType
-- 
2.43.0

