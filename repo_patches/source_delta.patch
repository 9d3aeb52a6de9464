From b0cebe46bde85cc7f5582bb296f2d4a9badb626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 01/22] fix: construct the Indirect parser once when it is
 shared by goroutines

---
 base/parsers.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/base/parsers.go b/base/parsers.go
index 5cef4de..7a5cd5c 100644
--- a/base/parsers.go
+++ b/base/parsers.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"errors"
+	"sync"
 
 	clsz "github.com/shellyln/takenoco/base/classes"
 )
@@ -10,12 +11,22 @@ import (
 // but by delaying them at runtime.
 func Indirect(fn func() ParserFn) ParserFn {
 	const ClassName = clsz.Indirect
+	var mu sync.Mutex
 	var parser ParserFn
-	return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
+
+	// The parser may be shared by goroutines; construct it only once.
+	// NOTE: The lock is not held while parsing.
+	get := func() ParserFn {
+		mu.Lock()
+		defer mu.Unlock()
 		if parser == nil {
 			parser = fn()
 		}
-		return parser(ctx)
+		return parser
+	}
+
+	return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
+		return get()(ctx)
 	})
 }
 
-- 
2.43.0


From fa1f72870486ef86c1e9df4f0e897819c225e22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 02/22] fix: Push and Prepend no longer modify the captured
 token

---
 base/transformers.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/base/transformers.go b/base/transformers.go
index e0085d5..1e4b71e 100644
--- a/base/transformers.go
+++ b/base/transformers.go
@@ -111,11 +111,11 @@ func SetValue(typ AstType, v interface{}) TransformerFn {
 // Prepend a AST to the AST slice.
 func Prepend(ast Ast) TransformerFn {
 	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
-		if 0 < len(asts) {
-			ast.SourcePosition = asts[0].SourcePosition
-		}
 		w := make(AstSlice, 1, len(asts)+1)
 		w[0] = ast
+		if 0 < len(asts) {
+			w[0].SourcePosition = asts[0].SourcePosition
+		}
 		w = append(w, asts...)
 		return w, nil
 	}
@@ -125,12 +125,12 @@ func Prepend(ast Ast) TransformerFn {
 // Append a AST to the AST slice.
 func Push(ast Ast) TransformerFn {
 	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
-		if 0 < len(asts) {
-			ast.SourcePosition = asts[len(asts)-1].SourcePosition
-		}
 		w := make(AstSlice, 0, len(asts)+1)
 		w = append(w, asts...)
 		w = append(w, ast)
+		if 0 < len(asts) {
+			w[len(asts)].SourcePosition = asts[len(asts)-1].SourcePosition
+		}
 		return w, nil
 	}
 }
-- 
2.43.0


From dca19917e151daa295a8213791fc299216a7a62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 03/22] fix: Exchange no longer panics

---
 base/transformers.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/base/transformers.go b/base/transformers.go
index 1e4b71e..ef2c9fa 100644
--- a/base/transformers.go
+++ b/base/transformers.go
@@ -152,8 +152,7 @@ func Exchange(_ ParserContext, asts AstSlice) (AstSlice, error) {
 	if 2 <= length {
 		w := make(AstSlice, 0, length)
 		w = append(w, asts[:length-2]...)
-		w[length-2] = asts[length-1]
-		w[length-1] = asts[length-2]
+		w = append(w, asts[length-1], asts[length-2])
 		return w, nil
 	} else {
 		return asts, nil
-- 
2.43.0


From 64d58169a61c6347841f1f06a37780af4ac55c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 04/22] fix: Roll rolls the elements as documented

---
 base/transformers.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/base/transformers.go b/base/transformers.go
index ef2c9fa..018cca6 100644
--- a/base/transformers.go
+++ b/base/transformers.go
@@ -176,14 +176,20 @@ func Roll(n int) TransformerFn {
 		length := len(asts)
 		if 0 <= n {
 			if n < length {
-				return asts, nil
+				w := make(AstSlice, 0, length)
+				w = append(w, asts[n:]...)
+				w = append(w, asts[:n]...)
+				return w, nil
 			} else {
 				return asts, nil
 			}
 		} else {
 			m := -n
 			if m < length {
-				return asts, nil
+				w := make(AstSlice, 0, length)
+				w = append(w, asts[length-m:]...)
+				w = append(w, asts[:length-m]...)
+				return w, nil
 			} else {
 				return asts, nil
 			}
-- 
2.43.0


From a44378d7e96e1f7e1efd2e66618286e4f3576591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 05/22] fix: Match accepts a stack of fewer than n elements

---
 base/match.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/match.go b/base/match.go
index bdaef15..f0bb343 100644
--- a/base/match.go
+++ b/base/match.go
@@ -17,6 +17,9 @@ func Match(n int) func(cases ...Case) ParserFn {
 	return func(cases ...Case) ParserFn {
 		return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
 			sp := len(ctx.AstStack) - n
+			if sp < 0 {
+				sp = 0
+			}
 			ctx.Length = 0
 			ctx.MatchStatus = MatchStatus_Unmatched
 
-- 
2.43.0


From 2434475763ad678b11f60579fe935447814ae775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 06/22] fix: Match no longer overwrites elements that a rewind
 needs

---
 base/match.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/match.go b/base/match.go
index f0bb343..4af4d21 100644
--- a/base/match.go
+++ b/base/match.go
@@ -35,7 +35,8 @@ func Match(n int) func(cases ...Case) ParserFn {
 							return ctx, err
 						}
 					}
-					ctx.AstStack = append(ctx.AstStack[:sp], asts...)
+					// The replaced elements may be still in use by a context to rewind to.
+					ctx.AstStack = append(ctx.AstStack[:sp:sp], asts...)
 
 					ctx.MatchStatus = MatchStatus_Matched
 					return ctx, nil
-- 
2.43.0


From 042e58ffe25fc2dc2c97ca167a783ee8d849359d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 07/22] fix: BaseParser returns the error of the final callback

---
 base/base.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/base.go b/base/base.go
index b714567..d6a8ba2 100644
--- a/base/base.go
+++ b/base/base.go
@@ -143,7 +143,7 @@ func BaseParser(
 		}
 
 		if MatchStatus_Unmatched <= out.MatchStatus {
-			return out, nil
+			return out, err
 		}
 
 		if rewind {
-- 
2.43.0


From f1cb6556deb9dd6a2cdede9b18831a22c1349ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 08/22] fix: object Seq does not match a different sequence

---
 object/parsers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/object/parsers.go b/object/parsers.go
index 128ed79..4773af8 100644
--- a/object/parsers.go
+++ b/object/parsers.go
@@ -53,7 +53,7 @@ func Seq(seq ...interface{}) ParserFn {
 			w := ctx.Slice.Reslice(ctx.Position, ctx.Position+length)
 			for i := 0; i < length; i++ {
 				if !w.ItemEquals(w.Get(i), seq[i]) {
-					break
+					return ctx, nil
 				}
 			}
 			ctx.AstStack = append(ctx.AstStack, Ast{
-- 
2.43.0


From 04e09cf82af31bdb4900ed49b440f3211c1c063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 09/22] fix: ParseUint returns an error for an empty string

---
 string/transformers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/transformers.go b/string/transformers.go
index e141100..4ff94e3 100644
--- a/string/transformers.go
+++ b/string/transformers.go
@@ -109,7 +109,7 @@ func parseUintImpl(base int, ctx ParserContext, asts AstSlice) (AstSlice, error)
 	}
 	str := asts[0].Value.(string)
 	str2 := str
-	if str2[0] == '+' {
+	if 0 < len(str2) && str2[0] == '+' {
 		str2 = str2[1:]
 	}
 	num, err := strconv.ParseUint(str2, base, 64)
-- 
2.43.0


From f54ff8dfbc89af1fe3442a777f6f86f325555149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 10/22] fix: formula reports division by zero as an error

---
 _examples/formula/precedence.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/_examples/formula/precedence.go b/_examples/formula/precedence.go
index 2c73dff..5ca596e 100644
--- a/_examples/formula/precedence.go
+++ b/_examples/formula/precedence.go
@@ -1,6 +1,8 @@
 package formula
 
 import (
+	"errors"
+
 	. "github.com/shellyln/takenoco/base"
 	objparser "github.com/shellyln/takenoco/object"
 )
@@ -52,6 +54,9 @@ var expressionRule2 = Precedence{
 				case "*":
 					v = op1 * op2
 				case "/":
+					if op2 == 0 {
+						return nil, errors.New("Division by zero")
+					}
 					v = op1 / op2
 				}
 
-- 
2.43.0


From dafc91bc54ecf322e0552a8c3cd3cba1db9d7b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 11/22] fix: csv keeps the escaped quotation marks of quoted
 cells

---
 _examples/csv/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/_examples/csv/parser.go b/_examples/csv/parser.go
index 2bb5259..1855da7 100644
--- a/_examples/csv/parser.go
+++ b/_examples/csv/parser.go
@@ -39,7 +39,7 @@ func quotedCell() ParserFn {
 				erase(Seq("\"")),
 				ZeroOrMoreTimes(
 					First(
-						erase(Seq("\"\"")),
+						Trans(Seq("\"\""), SetValue(AstType_String, "\"")),
 						CharClassN("\""),
 					),
 				),
-- 
2.43.0


From 87a1e5058f404901bc1264fd44689d33886d80b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 12/22] fix: csv quotes cells that contain quotation marks or
 outer whitespace

---
 _examples/csv/marshal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index 4493d3d..9319361 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -18,7 +18,9 @@ func toCsvRow(sb *strings.Builder, row []string) {
 			0 <= strings.IndexRune(row[i], '\u000b') ||
 			0 <= strings.IndexRune(row[i], '\u000c') ||
 			0 <= strings.IndexRune(row[i], '\u000d') ||
-			0 <= strings.IndexRune(row[i], '\u0085') {
+			0 <= strings.IndexRune(row[i], '\u0085') ||
+			0 <= strings.IndexRune(row[i], '"') ||
+			strings.TrimSpace(row[i]) != row[i] {
 			sb.WriteString("\"")
 			sb.WriteString(strings.ReplaceAll(row[i], "\"", "\"\""))
 			sb.WriteString("\"")
-- 
2.43.0


From f4edbdd0a618abd868b75450bf397c77e49c67ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 13/22] fix: csv Unmarshal returns an error for a short record

---
 _examples/csv/marshal.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index 9319361..8bfc354 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -191,7 +191,10 @@ func Unmarshal(pa interface{}, s string) error {
 		rvi := slice.Index(i)
 		for k, v := range mapping {
 			rvf := rvi.FieldByName(v)
-			w := data[i+1][columns[k]] // TODO: check slice length
+			if len(data[i+1]) <= columns[k] {
+				return errors.New("Record " + strconv.Itoa(i+1) + " has no column: " + k)
+			}
+			w := data[i+1][columns[k]]
 			switch colTypes[k] {
 			case reflect.String:
 				rvf.SetString(w)
-- 
2.43.0


From 79b4a5473c98399ab44cfe9135adb932e16bc417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 14/22] fix: csv Unmarshal reports errors in order of fields

---
 _examples/csv/marshal.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index 8bfc354..af71d3a 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -166,6 +166,8 @@ func Unmarshal(pa interface{}, s string) error {
 	mapping := make(map[string]string)
 	// CSV column name -> Type
 	colTypes := make(map[string]reflect.Kind)
+	// CSV column names in order of fields
+	names := make([]string, 0)
 
 	for i := 0; i < slice.Len(); i++ {
 		rvi := slice.Index(i)
@@ -176,9 +178,11 @@ func Unmarshal(pa interface{}, s string) error {
 			if _, ok := columns[tag]; ok {
 				mapping[tag] = rtf.Name
 				colTypes[tag] = rtf.Type.Kind()
+				names = append(names, tag)
 			} else if _, ok := columns[rtf.Name]; ok {
 				mapping[rtf.Name] = rtf.Name
 				colTypes[rtf.Name] = rtf.Type.Kind()
+				names = append(names, rtf.Name)
 			} else {
 				continue
 			}
@@ -189,8 +193,8 @@ func Unmarshal(pa interface{}, s string) error {
 	// set data
 	for i := 0; i < slice.Len(); i++ {
 		rvi := slice.Index(i)
-		for k, v := range mapping {
-			rvf := rvi.FieldByName(v)
+		for _, k := range names {
+			rvf := rvi.FieldByName(mapping[k])
 			if len(data[i+1]) <= columns[k] {
 				return errors.New("Record " + strconv.Itoa(i+1) + " has no column: " + k)
 			}
-- 
2.43.0


From ff65146682ad3e7f9cc4de196737921d48341019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 15/22] fix: csv Marshal writes only the requested columns, in
 order of fields

---
 _examples/csv/marshal.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index af71d3a..033e6d8 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -97,9 +97,13 @@ func Marshal(cols []string, a interface{}) (string, error) {
 		for j := 0; j < len(rowBuf); j++ {
 			rowBuf[j] = ""
 		}
-		for k, v := range mapping {
-			rvf := rvi.FieldByName(k)
-			index := columns[v]
+		for j := 0; j < rvi.NumField(); j++ {
+			k := rvi.Type().Field(j).Name
+			index, ok := columns[mapping[k]]
+			if !ok {
+				continue
+			}
+			rvf := rvi.Field(j)
 			switch colTypes[k] {
 			case reflect.String:
 				rowBuf[index] = rvf.String()
-- 
2.43.0


From 615a2664670ced978ccf90f8561720883acb89fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:57 +0000
Subject: [PATCH 16/22] fix: csv Unmarshal bound untagged fields to a column
 with an empty name

---
 _examples/csv/marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index 033e6d8..2753dd6 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -179,7 +179,7 @@ func Unmarshal(pa interface{}, s string) error {
 		for j := 0; j < rti.NumField(); j++ {
 			rtf := rti.Field(j)
 			tag := rtf.Tag.Get("csv")
-			if _, ok := columns[tag]; ok {
+			if _, ok := columns[tag]; ok && tag != "" {
 				mapping[tag] = rtf.Name
 				colTypes[tag] = rtf.Type.Kind()
 				names = append(names, tag)
-- 
2.43.0


From e68b4874c640035be230ca32563f04707ed8aaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:32 +0000
Subject: [PATCH 17/22] fix: typed reads of boxes over interface values

---
 base/box.go | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/base/box.go b/base/box.go
index ee6fdd6..70c59f2 100644
--- a/base/box.go
+++ b/base/box.go
@@ -49,6 +49,14 @@ type Box interface {
 	ComplexMapIndex(k interface{}) Box
 }
 
+// Get the concrete value that an interface value holds.
+func elemValue(v reflect.Value) reflect.Value {
+	if v.Kind() == reflect.Interface {
+		return v.Elem()
+	}
+	return v
+}
+
 // Implements the interface Box. Abstraction of reflect.Value.
 type ReflectionBox struct {
 	Val reflect.Value
@@ -61,32 +69,32 @@ func (s ReflectionBox) GetAny() interface{} {
 
 //
 func (s ReflectionBox) GetInt() int64 {
-	return s.Val.Int()
+	return elemValue(s.Val).Int()
 }
 
 //
 func (s ReflectionBox) GetUint() uint64 {
-	return s.Val.Uint()
+	return elemValue(s.Val).Uint()
 }
 
 //
 func (s ReflectionBox) GetFloat() float64 {
-	return s.Val.Float()
+	return elemValue(s.Val).Float()
 }
 
 //
 func (s ReflectionBox) GetBool() bool {
-	return s.Val.Bool()
+	return elemValue(s.Val).Bool()
 }
 
 //
 func (s ReflectionBox) GetString() string {
-	return s.Val.String()
+	return elemValue(s.Val).String()
 }
 
 //
 func (s ReflectionBox) GetBytes() []byte {
-	return s.Val.Bytes()
+	return elemValue(s.Val).Bytes()
 }
 
 //
@@ -162,32 +170,32 @@ func (s MapContainerReflectionBox) GetAny() interface{} {
 
 //
 func (s MapContainerReflectionBox) GetInt() int64 {
-	return s.Container.MapIndex(s.Key).Int()
+	return elemValue(s.Container.MapIndex(s.Key)).Int()
 }
 
 //
 func (s MapContainerReflectionBox) GetUint() uint64 {
-	return s.Container.MapIndex(s.Key).Uint()
+	return elemValue(s.Container.MapIndex(s.Key)).Uint()
 }
 
 //
 func (s MapContainerReflectionBox) GetFloat() float64 {
-	return s.Container.MapIndex(s.Key).Float()
+	return elemValue(s.Container.MapIndex(s.Key)).Float()
 }
 
 //
 func (s MapContainerReflectionBox) GetBool() bool {
-	return s.Container.MapIndex(s.Key).Bool()
+	return elemValue(s.Container.MapIndex(s.Key)).Bool()
 }
 
 //
 func (s MapContainerReflectionBox) GetString() string {
-	return s.Container.MapIndex(s.Key).String()
+	return elemValue(s.Container.MapIndex(s.Key)).String()
 }
 
 //
 func (s MapContainerReflectionBox) GetBytes() []byte {
-	return s.Container.MapIndex(s.Key).Bytes()
+	return elemValue(s.Container.MapIndex(s.Key)).Bytes()
 }
 
 //
@@ -273,7 +281,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetInt() int64 {
 	if !p.Initialized {
 		panic(msgReferencedNonInitializedVariable)
 	}
-	return p.Container.MapIndex(p.Key).Int()
+	return elemValue(p.Container.MapIndex(p.Key)).Int()
 }
 
 //
@@ -281,7 +289,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetUint() uint64 {
 	if !p.Initialized {
 		panic(msgReferencedNonInitializedVariable)
 	}
-	return p.Container.MapIndex(p.Key).Uint()
+	return elemValue(p.Container.MapIndex(p.Key)).Uint()
 }
 
 //
@@ -289,7 +297,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetFloat() float64 {
 	if !p.Initialized {
 		panic(msgReferencedNonInitializedVariable)
 	}
-	return p.Container.MapIndex(p.Key).Float()
+	return elemValue(p.Container.MapIndex(p.Key)).Float()
 }
 
 //
@@ -297,7 +305,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetBool() bool {
 	if !p.Initialized {
 		panic(msgReferencedNonInitializedVariable)
 	}
-	return p.Container.MapIndex(p.Key).Bool()
+	return elemValue(p.Container.MapIndex(p.Key)).Bool()
 }
 
 //
@@ -305,7 +313,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetString() string {
 	if !p.Initialized {
 		panic(msgReferencedNonInitializedVariable)
 	}
-	return p.Container.MapIndex(p.Key).String()
+	return elemValue(p.Container.MapIndex(p.Key)).String()
 }
 
 //
@@ -313,7 +321,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetBytes() []byte {
 	if !p.Initialized {
 		panic(msgReferencedNonInitializedVariable)
 	}
-	return p.Container.MapIndex(p.Key).Bytes()
+	return elemValue(p.Container.MapIndex(p.Key)).Bytes()
 }
 
 //
-- 
2.43.0


From 6ec7f5bc11320c1bacc63db5e0346ee69a2d6887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 18/22] fix: writing nil through a map box deleted the entry

---
 base/box.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/base/box.go b/base/box.go
index 70c59f2..14d4a18 100644
--- a/base/box.go
+++ b/base/box.go
@@ -157,6 +157,14 @@ func (s ReflectionBox) ComplexMapIndex(k interface{}) Box {
 	return ReflectionBox{Val: s.Val.MapIndex(reflect.ValueOf(k))}
 }
 
+// Get the value to store in a map entry. The zero reflect.Value would delete the entry.
+func entryValue(v interface{}) reflect.Value {
+	if v == nil {
+		return reflect.ValueOf(&v).Elem()
+	}
+	return reflect.ValueOf(v)
+}
+
 // Implements the interface Box. Abstraction of Map.
 type MapContainerReflectionBox struct {
 	Container reflect.Value
@@ -205,7 +213,7 @@ func (s MapContainerReflectionBox) GetBytes() []byte {
 
 //
 func (s MapContainerReflectionBox) SetAny(v interface{}) {
-	s.Container.SetMapIndex(s.Key, reflect.ValueOf(v))
+	s.Container.SetMapIndex(s.Key, entryValue(v))
 }
 
 //
@@ -334,7 +342,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetBytes() []byte {
 
 //
 func (p *NotInitializedMapContainerReflectionBox) SetAny(v interface{}) {
-	p.Container.SetMapIndex(p.Key, reflect.ValueOf(v))
+	p.Container.SetMapIndex(p.Key, entryValue(v))
 	p.Initialized = true
 }
 
-- 
2.43.0


From 376c01b1c8bd4e41b1d4ea7b717e50cb7cfab597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 19/22] fix: csv.Unmarshal panicked on a struct with an
 unexported field that has a column

---
 _examples/csv/marshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index 2753dd6..05bccb0 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -178,6 +178,9 @@ func Unmarshal(pa interface{}, s string) error {
 		rti := rvi.Type()
 		for j := 0; j < rti.NumField(); j++ {
 			rtf := rti.Field(j)
+			if !rtf.IsExported() {
+				continue
+			}
 			tag := rtf.Tag.Get("csv")
 			if _, ok := columns[tag]; ok && tag != "" {
 				mapping[tag] = rtf.Name
-- 
2.43.0


From 1238a25c5e74233693bf12d2149fc2d8fabb21b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:13 +0000
Subject: [PATCH 20/22] fix: csv.Unmarshal stored numbers that the field cannot
 hold as other numbers

---
 _examples/csv/marshal.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index 05bccb0..b40c2b2 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -210,19 +210,19 @@ func Unmarshal(pa interface{}, s string) error {
 			case reflect.String:
 				rvf.SetString(w)
 			case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
-				z, err := strconv.ParseInt(w, 10, 64)
+				z, err := strconv.ParseInt(w, 10, rvf.Type().Bits())
 				if err != nil {
 					return err
 				}
 				rvf.SetInt(z)
 			case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
-				z, err := strconv.ParseUint(w, 10, 64)
+				z, err := strconv.ParseUint(w, 10, rvf.Type().Bits())
 				if err != nil {
 					return err
 				}
 				rvf.SetUint(z)
 			case reflect.Float64, reflect.Float32:
-				z, err := strconv.ParseFloat(w, 64)
+				z, err := strconv.ParseFloat(w, rvf.Type().Bits())
 				if err != nil {
 					return err
 				}
-- 
2.43.0


From 764984fe4962481bc1cb5fc264ae2ad2a126937e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:13 +0000
Subject: [PATCH 21/22] fix: csv.Marshal left all but the last of equal columns
 empty

---
 _examples/csv/marshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index b40c2b2..f038c1f 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -115,6 +115,10 @@ func Marshal(cols []string, a interface{}) (string, error) {
 				rowBuf[index] = strconv.FormatFloat(rvf.Float(), 'g', -1, 64)
 			}
 		}
+		// columns that were requested more than once
+		for j := 0; j < len(rowBuf); j++ {
+			rowBuf[j] = rowBuf[columns[cols[j]]]
+		}
 		if i != 0 {
 			sb.WriteString("\n")
 		}
-- 
2.43.0


From 359ad85329b791cd03fc0646709114108150a0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:57 +0000
Subject: [PATCH 22/22] fix: import fields that share a CSV column with another
 field

Unmarshal kept one field per column: of two fields with the same column
only the last one was filled, and the import succeeded.
---
 _examples/csv/marshal.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index f038c1f..36ded84 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -170,11 +170,11 @@ func Unmarshal(pa interface{}, s string) error {
 	for i := 0; i < len(data[0]); i++ {
 		columns[data[0][i]] = i
 	}
-	// CSV column name -> Field name
+	// Field name -> CSV column name
 	mapping := make(map[string]string)
-	// CSV column name -> Type
+	// Field name -> Type
 	colTypes := make(map[string]reflect.Kind)
-	// CSV column names in order of fields
+	// Field names in order of fields
 	names := make([]string, 0)
 
 	for i := 0; i < slice.Len(); i++ {
@@ -187,16 +187,14 @@ func Unmarshal(pa interface{}, s string) error {
 			}
 			tag := rtf.Tag.Get("csv")
 			if _, ok := columns[tag]; ok && tag != "" {
-				mapping[tag] = rtf.Name
-				colTypes[tag] = rtf.Type.Kind()
-				names = append(names, tag)
+				mapping[rtf.Name] = tag
 			} else if _, ok := columns[rtf.Name]; ok {
 				mapping[rtf.Name] = rtf.Name
-				colTypes[rtf.Name] = rtf.Type.Kind()
-				names = append(names, rtf.Name)
 			} else {
 				continue
 			}
+			colTypes[rtf.Name] = rtf.Type.Kind()
+			names = append(names, rtf.Name)
 		}
 		break
 	}
@@ -204,13 +202,14 @@ func Unmarshal(pa interface{}, s string) error {
 	// set data
 	for i := 0; i < slice.Len(); i++ {
 		rvi := slice.Index(i)
-		for _, k := range names {
-			rvf := rvi.FieldByName(mapping[k])
+		for _, name := range names {
+			k := mapping[name]
+			rvf := rvi.FieldByName(name)
 			if len(data[i+1]) <= columns[k] {
 				return errors.New("Record " + strconv.Itoa(i+1) + " has no column: " + k)
 			}
 			w := data[i+1][columns[k]]
-			switch colTypes[k] {
+			switch colTypes[name] {
 			case reflect.String:
 				rvf.SetString(w)
 			case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
-- 
2.43.0

