From ec007ce8810276eb4b5aac1d9141bc35a17729bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 01/30] fix: keep files generated for a package option inside
 the output directory

---
 generator/gen/gen_ctx.go | 10 ++++++++++
 go.mod                   | 13 ++++++++-----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/generator/gen/gen_ctx.go b/generator/gen/gen_ctx.go
index e703aae..da11eba 100644
--- a/generator/gen/gen_ctx.go
+++ b/generator/gen/gen_ctx.go
@@ -1,6 +1,7 @@
 package gen
 
 import (
+	"errors"
 	"fmt"
 	"path/filepath"
 	"strings"
@@ -66,6 +67,15 @@ func (ctx *GenCtx) WriteFile(file string, text string) error {
 		fmt.Print(text)
 		return nil
 	}
+	// a package option may contain "..", never leave the output directory
+	if file != "" && !filepath.IsLocal(strings.TrimLeft(file, "/")) {
+		return &definition.GeneralError{
+			Err: &definition.FileWriteError{
+				File: &definition.FileIdentifer{Name: file, Path: file},
+				Err:  errors.New("path escapes the output directory"),
+			},
+		}
+	}
 	path := filepath.Join(ctx.OutputPath, file)
 	return ctx.WriteFileAbs(path, text)
 }
diff --git a/go.mod b/go.mod
index d3ba722..f50157d 100644
--- a/go.mod
+++ b/go.mod
@@ -3,9 +3,12 @@ module github.com/xaxys/bubbler
 go 1.21.0
 
 require (
-    github.com/antlr4-go/antlr/v4 v4.13.0 // indirect
-    github.com/gookit/color v1.5.4 // indirect
-    github.com/xo/terminfo v0.0.0-20210125001918-ca9a967f8778 // indirect
-    golang.org/x/exp v0.0.0-20230515195305-f3d0a9c9a5cc // indirect
-    golang.org/x/sys v0.10.0 // indirect
+	github.com/antlr4-go/antlr/v4 v4.13.0
+	github.com/gookit/color v1.5.4
+)
+
+require (
+	github.com/xo/terminfo v0.0.0-20210125001918-ca9a967f8778 // indirect
+	golang.org/x/exp v0.0.0-20230515195305-f3d0a9c9a5cc // indirect
+	golang.org/x/sys v0.10.0 // indirect
 )
-- 
2.43.0


From 4cd16f5f29c48ce9ccf2e849440310c09e0c04b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 02/30] fix: ESM encoder of enum arrays names the enum
 correctly in single-file mode

---
 generator/target/esm/esm_encode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index 98ebb74..ee3068f 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -429,6 +429,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 			case *definition.Enum:
 				encodeStmts = append(encodeStmts, util.IndentSpace(util.ExecuteTemplate(fieldEncoderTemplate, "encodeNormalFieldTempVarAssignEnum", nil, map[string]any{
 					"EnumDef": ty.ElementType, "TempName": subName, "FieldName": fmt.Sprintf("%s[_i]", name), "FieldDef": field,
+					"SingleFile": g.GenCtx.GenOptions.SingleFile,
 				}), 4))
 			}
 
@@ -545,6 +546,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 				case *definition.Enum:
 					encodeStmts = append(encodeStmts, util.ExecuteTemplate(fieldEncoderTemplate, "encodeNormalFieldTempVarAssignEnum", nil, map[string]any{
 						"EnumDef": ty.ElementType, "TempName": subName, "FieldName": fmt.Sprintf("%s[%d]", name, i), "FieldDef": field,
+						"SingleFile": g.GenCtx.GenOptions.SingleFile,
 					}))
 				}
 
-- 
2.43.0


From 9d736955de9cf9c2583828b3e1658cc703cdb7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 03/30] fix: one file imported through differently spelled
 absolute paths is one file

---
 fileio/path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileio/path.go b/fileio/path.go
index b3c5b0b..37a82a1 100644
--- a/fileio/path.go
+++ b/fileio/path.go
@@ -39,7 +39,7 @@ func GetAbsolutelyPath(file string) (absPath string, err error) {
 // GetAbsolutelyPathWithBasePath returns unwarpped error
 func GetAbsolutelyPathWithBasePath(file string, relative string) (absPath string, err error) {
 	if filepath.IsAbs(file) {
-		absPath = file
+		absPath = filepath.Clean(file)
 	} else {
 		absPath, err = filepath.Abs(filepath.Join(filepath.Dir(relative), file))
 		if err != nil {
-- 
2.43.0


From 93d66e19231ad7261bb2aaa9f5b6116220e7a7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 04/30] fix: negative constants in accessor expressions are
 parenthesised

---
 generator/gen/gen_dispatcher.go   | 8 +++++++-
 generator/target/kotlin/kotlin.go | 7 ++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/generator/gen/gen_dispatcher.go b/generator/gen/gen_dispatcher.go
index 84875de..68b5aab 100644
--- a/generator/gen/gen_dispatcher.go
+++ b/generator/gen/gen_dispatcher.go
@@ -2,6 +2,7 @@ package gen
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/xaxys/bubbler/definition"
 )
@@ -135,7 +136,12 @@ func (d *GenExprDispatcher) AcceptExpr(expr definition.Expr) (string, error) {
 	case *definition.CastExpr:
 		return d.ExprGeneratorImpl.GenerateCastExpr(val)
 	case *definition.ConstantExpr:
-		return d.ExprGeneratorImpl.GenerateConstantExpr(val)
+		str, err := d.ExprGeneratorImpl.GenerateConstantExpr(val)
+		if strings.HasPrefix(str, "-") {
+			// keep the sign with its constant
+			str = "(" + str + ")"
+		}
+		return str, err
 	case *definition.TenaryExpr:
 		return d.ExprGeneratorImpl.GenerateTenaryExpr(val)
 	case *definition.ValueExpr:
diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index a30193d..3f82d67 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -488,7 +488,12 @@ func (g *KotlinGenerator) generateExpr(expr definition.Expr, value string) (stri
 	case *definition.RawExpr:
 		return e.Expr, nil
 	case *definition.ConstantExpr:
-		return g.literalForType(e.ConstantValue, e.ConstantType)
+		str, err := g.literalForType(e.ConstantValue, e.ConstantType)
+		if strings.HasPrefix(str, "-") {
+			// keep the sign with its constant
+			str = "(" + str + ")"
+		}
+		return str, err
 	case *definition.CastExpr:
 		inner, err := g.generateExpr(e.Expr1, value)
 		if err != nil {
-- 
2.43.0


From e383aca51fc0ce7cecdd44b7db1399f29aaa9f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 05/30] fix: Python logical not is separated from its operand

---
 generator/target/python/python.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index a8715ff..482542b 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2465,7 +2465,7 @@ var exprOpToString = map[definition.ExprOp]string{
 	definition.ExprOp_BOR:    "|",
 	definition.ExprOp_AND:    "and",
 	definition.ExprOp_OR:     "or",
-	definition.ExprOp_NOT:    "not",
+	definition.ExprOp_NOT:    "not ",
 	definition.ExprOp_BNOT:   "~",
 	definition.ExprOp_ASSIGN: "=",
 }
-- 
2.43.0


From 1956f3277e4a91bd35b5bb1274374a15f683813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 06/30] fix: bits of a byte that spans two wire bytes are
 joined at the right position

---
 generator/target/c/c.go               |  7 +++----
 generator/target/commonjs/commonjs.go | 10 ++++------
 generator/target/cpp/cpp.go           |  7 +++----
 generator/target/csharp/csharp.go     |  7 +++----
 generator/target/esm/esm.go           |  6 ++----
 generator/target/esm/esm_encode.go    |  2 +-
 generator/target/java/java.go         |  7 +++----
 7 files changed, 19 insertions(+), 27 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 9607dab..680a0c4 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -239,8 +239,7 @@ static void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
             int64_t next_j = (j + 8) & ~(int64_t)7;
             if (next_j > end) next_j = end;
             uint64_t field_mask = ((((uint64_t)1) << (((next_j - 1) & 7) + 1)) - 1) & ~(((uint64_t)1 << (j & 7)) - 1);
-            int shift_left = (int)(8 - (next_j & 7));
-            if ((next_j & 7) == 0) shift_left = 8;
+            int shift_left = (int)(8 - (begin & 7));
             int64_t src_byte_index = j / 8;
             int64_t src_shift;
             if (big_endian) {
@@ -2208,8 +2207,8 @@ func (g CGenerator) generateEncodeImpl(from, to int64, fieldData func(int64) str
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := 8 - begin%8
+			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - begin%8)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index d129125..cc0c31d 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -543,8 +543,7 @@ var fileTemplate = `
                 var nextJ2 = (j + 8) & ~7;
                 if (nextJ2 > end) nextJ2 = end;
                 var fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-                var shiftLeft2 = 8 - (nextJ2 & 7);
-                if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+                var shiftLeft2 = 8 - (begin & 7);
                 var srcByteIndex2 = (j / 8) | 0;
                 var srcShift2;
                 if (bigEndian) {
@@ -900,8 +899,7 @@ var fileTemplate = `
                 var nextJ2 = (j + 8) & ~7;
                 if (nextJ2 > end) nextJ2 = end;
                 var fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-                var shiftLeft2 = 8 - (nextJ2 & 7);
-                if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+                var shiftLeft2 = 8 - (begin & 7);
                 var srcByteIndex2 = (j / 8) | 0;
                 var srcShift2;
                 if (bigEndian) {
@@ -2529,8 +2527,8 @@ func (g CommonJSGenerator) generateEncodeImpl(from, to int64, fieldData func(int
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := 8 - begin%8
+			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - begin%8)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 15e7b44..ace4ea7 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -240,8 +240,7 @@ inline void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
             int64_t next_j = (j + 8) & ~(int64_t)7;
             if (next_j > end) next_j = end;
             uint64_t field_mask = ((((uint64_t)1) << (((next_j - 1) & 7) + 1)) - 1) & ~(((uint64_t)1 << (j & 7)) - 1);
-            int shift_left = (int)(8 - (next_j & 7));
-            if ((next_j & 7) == 0) shift_left = 8;
+            int shift_left = (int)(8 - (begin & 7));
             int64_t src_byte_index = j / 8;
             int64_t src_shift;
             if (big_endian) {
@@ -2353,8 +2352,8 @@ func (g CppGenerator) generateEncodeImpl(from, to int64, fieldData func(int64) s
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := 8 - begin%8
+			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - begin%8)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index fbe7c4d..6fbbb78 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -522,8 +522,7 @@ var structTemplate = `
                     long nextJ = (j + 8) & ~(long)7;
                     if (nextJ > end) nextJ = end;
                     ulong fieldMask = ((1UL << (int)(((nextJ - 1) & 7) + 1)) - 1UL) & ~(((ulong)1 << (int)(j & 7)) - 1UL);
-                    int shiftLeft = (int)(8 - (nextJ & 7));
-                    if ((nextJ & 7) == 0) shiftLeft = 8;
+                    int shiftLeft = (int)(8 - (begin & 7));
                     long srcByteIndex = j / 8;
                     long srcShift;
                     if (bigEndian) {
@@ -2046,8 +2045,8 @@ func (g CSharpGenerator) generateEncodeImpl(from, to int64, fieldData func(int64
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := 8 - begin%8
+			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - begin%8)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 7a4635a..3055aea 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -502,8 +502,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
             let nextJ2 = (j + 8) & ~7;
             if (nextJ2 > end) nextJ2 = end;
             const fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-            let shiftLeft2 = 8 - (nextJ2 & 7);
-            if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+            let shiftLeft2 = 8 - (begin & 7);
             const srcByteIndex2 = (j / 8) | 0;
             let srcShift2;
             if (bigEndian) {
@@ -825,8 +824,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
             let nextJ2 = (j + 8) & ~7;
             if (nextJ2 > end) nextJ2 = end;
             const fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-            let shiftLeft2 = 8 - (nextJ2 & 7);
-            if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+            let shiftLeft2 = 8 - (begin & 7);
             const srcByteIndex2 = (j / 8) | 0;
             let srcShift2;
             if (bigEndian) {
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index ee3068f..fe6074a 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -669,7 +669,7 @@ func (g ESModuleGenerator) generateEncodeImpl(from, to int64, fieldData func(int
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
+			shiftLeft := 8 - begin%8
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 6c4e7fb..0a58a2d 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -460,8 +460,7 @@ var structTemplate = `
                 long nextJ = (j + 8) & ~7L;
                 if (nextJ > end) nextJ = end;
                 long fieldMask = ((1L << (((nextJ - 1) & 7) + 1)) - 1L) & ~((1L << (j & 7)) - 1L);
-                int shiftLeft = (int)(8 - (nextJ & 7));
-                if ((nextJ & 7) == 0) shiftLeft = 8;
+                int shiftLeft = (int)(8 - (begin & 7));
                 long srcByteIndex = j / 8;
                 long srcShift;
                 if (bigEndian) {
@@ -2013,8 +2012,8 @@ func (g JavaGenerator) generateEncodeImpl(from, to int64, fieldData func(int64)
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := 8 - begin%8
+			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - begin%8)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
-- 
2.43.0


From 6c1c5c96a70735352da972dac751a49d6fbe606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:42 +0000
Subject: [PATCH 07/30] fix: an array of structures cannot be declared narrower
 than its elements

---
 compiler/proto_visitor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index fe000a6..066667c 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -530,7 +530,11 @@ func (v *ProtoVisitor) VisitFieldNormal(ctx *parser.FieldNormalContext) any {
 				}
 			}
 		}
-		if _, ok := type_.(*definition.Struct); ok && size != type_Size {
+		elemTy := type_
+		if arrTy, ok := type_.(*definition.Array); ok {
+			elemTy = arrTy.ElementType
+		}
+		if _, ok := elemTy.(*definition.Struct); ok && size != type_Size {
 			return &definition.CompileError{
 				Position: pos,
 				Err: &definition.InvalidSizeError{
-- 
2.43.0


From c70b0c5d8f29a35d61f60cc1bb7006e81679f366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:15 +0000
Subject: [PATCH 08/30] fix: enumeration values and constants that do not fit
 their width are rejected

---
 compiler/proto_visitor.go | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index 066667c..1152144 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -838,6 +838,16 @@ func (v *ProtoVisitor) VisitFieldConstant(ctx *parser.FieldConstantContext) any
 		}
 	}
 
+	if intConst, ok := constant.(*definition.IntLiteral); ok && !fitsIn(intConst.IntValue, size, type_.TypeTypeID.IsInt()) {
+		return &definition.CompileError{
+			Position: pos,
+			Err: &definition.InvalidFieldError{
+				FieldName: name,
+				Msg:       fmt.Sprintf("constant %d does not fit in %d bits of type %s", intConst.IntValue, size, type_.String()),
+			},
+		}
+	}
+
 	options := util.NewOrderedMap[string, *definition.Option]()
 	if ctx.FieldOptions() != nil {
 		ret := ctx.FieldOptions().Accept(v)
@@ -2252,6 +2262,16 @@ func (v *ProtoVisitor) VisitEnumDef(ctx *parser.EnumDefContext) any {
 
 	var errs definition.TopLevelError
 	for _, val := range values.Values() {
+		if !fitsIn(val.EnumValue, size, false) {
+			ex := &definition.CompileError{
+				Position: val,
+				Err: &definition.InvalidEnumDefError{
+					DefName: name,
+					Err:     fmt.Errorf("value %d of '%s' does not fit in %d bits", val.EnumValue, val.EnumValueName, size),
+				},
+			}
+			errs = definition.TopLevelErrorsJoin(errs, ex)
+		}
 		dupErr := v.Unit.AddLocalName(val.EnumValueName, val)
 		if dupErr != nil {
 			ex := &definition.CompileError{
@@ -2375,6 +2395,15 @@ func (v *ProtoVisitor) VisitEnumValue(ctx *parser.EnumValueContext) any {
 		case definition.Literal:
 			switch val := val.(type) {
 			case *definition.IntLiteral:
+				if val.IntValue < 0 {
+					return &definition.CompileError{
+						Position: val,
+						Err: &definition.InvalidEnumDefError{
+							DefName: name,
+							Err:     fmt.Errorf("enum value cannot be negative, got %d", val.IntValue),
+						},
+					}
+				}
 				value = val.IntValue
 			default:
 				return &definition.CompileError{
@@ -2576,6 +2605,14 @@ func (v *ProtoVisitor) VisitEmptyStatement_(ctx *parser.EmptyStatement_Context)
 
 // ==================== Util ====================
 
+// fitsIn reports whether value can be stored in the given number of bits
+func fitsIn(value, bits int64, signed bool) bool {
+	if signed {
+		return bits >= 64 || value>>(bits-1) == 0 || value>>(bits-1) == -1
+	}
+	return value >= 0 && (bits >= 64 || value>>bits == 0)
+}
+
 // TypePromotion input basic type only
 // func TypePromotion(ty1, ty2 definition.TypeID) (ret definition.TypeID, warning error, err error) {
 //    if !ty1.IsBasic() || !ty2.IsBasic() {
-- 
2.43.0


From c06482f18dd3f0e6c46f3c381e8f0444318a8bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:53 +0000
Subject: [PATCH 09/30] fix: an ill-styled struct or enum name used as a type
 is reported, not a panic

---
 compiler/proto_visitor.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index 1152144..8f5f408 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -2124,7 +2124,16 @@ func (v *ProtoVisitor) VisitStructType(ctx *parser.StructTypeContext) any {
 		return ctx.StructDef().Accept(v)
 	}
 	if ctx.StructName() != nil {
-		name := ctx.StructName().Accept(v).(string)
+		name := ""
+		nameRet := ctx.StructName().Accept(v)
+		switch val := nameRet.(type) {
+		case error:
+			return val
+		case string:
+			name = val
+		default:
+			panic("unreachable")
+		}
 		if !v.Unit.GlobalTypes.Has(name) {
 			pos := definition.BasePosition{
 				File:   v.Unit.UnitName.Path,
@@ -2162,7 +2171,16 @@ func (v *ProtoVisitor) VisitStructType(ctx *parser.StructTypeContext) any {
 
 func (v *ProtoVisitor) VisitEnumType(ctx *parser.EnumTypeContext) any {
 	if ctx.EnumName() != nil {
-		name := ctx.EnumName().Accept(v).(string)
+		name := ""
+		nameRet := ctx.EnumName().Accept(v)
+		switch val := nameRet.(type) {
+		case error:
+			return val
+		case string:
+			name = val
+		default:
+			panic("unreachable")
+		}
 		if !v.Unit.GlobalTypes.Has(name) {
 			pos := definition.BasePosition{
 				File:   v.Unit.UnitName.Path,
-- 
2.43.0


From 069bc1e607d26ac253442dab06a4962c1e4a9877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 10/30] fix: a declared size or array length that overflows 64
 bits is rejected

---
 compiler/proto_visitor.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index 8f5f408..62beb7a 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -2,6 +2,7 @@ package compiler
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/xaxys/bubbler/definition"
 	"github.com/xaxys/bubbler/parser"
@@ -903,6 +904,19 @@ func (v *ProtoVisitor) VisitSize_(ctx *parser.Size_Context) any {
 			panic("unreachable")
 		}
 	}
+	if bytes > (math.MaxInt64-bits)/8 {
+		return &definition.CompileError{
+			Position: definition.BasePosition{
+				File:   v.Unit.UnitName.Path,
+				Line:   ctx.GetStart().GetLine(),
+				Column: ctx.GetStart().GetColumn(),
+			},
+			Err: &definition.InvalidSizeError{
+				Size: bytes,
+				Msg:  "size is too large",
+			},
+		}
+	}
 	total := bytes*8 + bits
 	if total == 0 {
 		return &definition.CompileError{
@@ -2073,6 +2087,20 @@ func (v *ProtoVisitor) VisitArrayType(ctx *parser.ArrayTypeContext) any {
 		}
 	}
 
+	if !base.GetTypeDynamic() && length > math.MaxInt64/base.GetTypeBitSize() {
+		return &definition.CompileError{
+			Position: definition.BasePosition{
+				File:   v.Unit.UnitName.Path,
+				Line:   ctx.IntLit().GetStart().GetLine(),
+				Column: ctx.IntLit().GetStart().GetColumn(),
+			},
+			Err: &definition.InvalidSizeError{
+				Size: length,
+				Msg:  "array size is too large",
+			},
+		}
+	}
+
 	arrayDef := &definition.Array{
 		ElementType: base,
 		Length:      length,
-- 
2.43.0


From adbeed5f7ea904ead663785f58185a43a0f9bbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:36 +0000
Subject: [PATCH 11/30] fix: an enumeration wider than 64 bits is rejected

---
 compiler/proto_visitor.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index 62beb7a..9d4fccd 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -2282,6 +2282,20 @@ func (v *ProtoVisitor) VisitEnumDef(ctx *parser.EnumDefContext) any {
 		panic("unreachable")
 	}
 
+	if size > 64 {
+		return &definition.CompileError{
+			Position: definition.BasePosition{
+				File:   v.Unit.UnitName.Path,
+				Line:   ctx.Size_().GetStart().GetLine(),
+				Column: ctx.Size_().GetStart().GetColumn(),
+			},
+			Err: &definition.InvalidSizeError{
+				Size: size,
+				Msg:  "enum size cannot be greater than 64 bits",
+			},
+		}
+	}
+
 	body := ctx.EnumBody().Accept(v)
 	var values *util.OrderedMap[string, *definition.EnumValue]
 	switch val := body.(type) {
-- 
2.43.0


From 61c6b1176018069fedf92684357fedf474b883d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:41 +0000
Subject: [PATCH 12/30] fix: a floating-point constant too large for its type
 is rejected

---
 compiler/proto_visitor.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index 9d4fccd..a7cba4d 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -849,6 +849,16 @@ func (v *ProtoVisitor) VisitFieldConstant(ctx *parser.FieldConstantContext) any
 		}
 	}
 
+	if floatConst, ok := constant.(*definition.FloatLiteral); ok && type_.TypeTypeID == definition.TypeID_Float32 && math.Abs(floatConst.FloatValue) > math.MaxFloat32 && !math.IsInf(floatConst.FloatValue, 0) {
+		return &definition.CompileError{
+			Position: pos,
+			Err: &definition.InvalidFieldError{
+				FieldName: name,
+				Msg:       fmt.Sprintf("constant %g does not fit in type %s", floatConst.FloatValue, type_.String()),
+			},
+		}
+	}
+
 	options := util.NewOrderedMap[string, *definition.Option]()
 	if ctx.FieldOptions() != nil {
 		ret := ctx.FieldOptions().Accept(v)
-- 
2.43.0


From 84dccf98f4565220e8a5736ab1eb225e23c77c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:14 +0000
Subject: [PATCH 13/30] fix: Python decodes an unaligned byte spanning two
 bytes shifted wrongly

---
 generator/target/python/python.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 482542b..594632b 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2409,6 +2409,10 @@ func (g PythonGenerator) generateDecodeImpl(from, to int64, fieldProcessor func(
 			consumed += partSize
 		}
 		exprStr := strings.Join(parts, " | ")
+		if len(parts) > 1 {
+			// the caller shifts the whole byte
+			exprStr = "(" + exprStr + ")"
+		}
 		decodeStmt := fieldProcessor(exprStr, fieldFrom/8)
 		decodeStmts = append(decodeStmts, decodeStmt)
 	}
-- 
2.43.0


From 9a8736697e476f2fdb86156ca7d8b69287bb7e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:02 +0000
Subject: [PATCH 14/30] fix: ESModule omits the float helpers for short arrays
 of floats

---
 generator/target/esm/esm_encode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index fe6074a..d04e7ff 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -517,8 +517,10 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 					nameIndex = func(_ int64) string { return tempName }
 					switch ty.ElementType.GetTypeID() {
 					case definition.TypeID_Float32:
+						g.GenState.UseFloat32 = true
 						elemTy = &definition.Uint32
 					case definition.TypeID_Float64:
+						g.GenState.UseFloat64 = true
 						elemTy = &definition.Uint64
 					}
 				}
-- 
2.43.0


From 271b5b38742ed85d9de304490147416c6db21b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:55 +0000
Subject: [PATCH 15/30] fix: Java looped arrays ignore the start position

---
 generator/target/java/java.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 0a58a2d..7d215a4 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1682,6 +1682,7 @@ func (g JavaGenerator) generateEncodeNormalField(field *definition.NormalField,
 			if structDynamic {
 				bitBaseExpr = g.generateCastExpr(&definition.Int64, "offset") + " * 8 + (" + bitBaseExpr + ")"
 			}
+			bitBaseExpr = g.generateCastExpr(&definition.Int64, "start") + " * 8 + (" + bitBaseExpr + ")"
 
 			// Each branch picks one self-contained loop template.
 			common := map[string]any{
@@ -1700,7 +1701,7 @@ func (g JavaGenerator) generateEncodeNormalField(field *definition.NormalField,
 					offsetExpr = "offset + " + offsetExpr
 				}
 				_ = elemTyT
-				common["DataExpr"] = "data, " + offsetExpr
+				common["DataExpr"] = "data, start + " + offsetExpr
 				stmt = util.ExecuteTemplate(fieldEncoderTemplate, "encodeArrayLoopStruct", nil, common)
 			case *definition.BasicType:
 				g.GenState.UseBitHelpers = true
@@ -2719,6 +2720,7 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 			if structDynamic {
 				bitBaseExpr = g.generateCastExpr(&definition.Int64, "offset") + " * 8 + (" + bitBaseExpr + ")"
 			}
+			bitBaseExpr = g.generateCastExpr(&definition.Int64, "start") + " * 8 + (" + bitBaseExpr + ")"
 
 			// Each branch picks one self-contained loop template.
 			common := map[string]any{
@@ -2737,7 +2739,7 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 					offsetExpr = "offset + " + offsetExpr
 				}
 				_ = elemTyT
-				common["DataExpr"] = "data, " + offsetExpr
+				common["DataExpr"] = "data, start + " + offsetExpr
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopStruct", nil, common)
 			case *definition.BasicType:
 				g.GenState.UseBitHelpers = true
-- 
2.43.0


From 0b99de2d51d0314565421bfa78d0cb999c4112be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:00 +0000
Subject: [PATCH 16/30] fix: encoders OR into stale bytes of a reused output
 buffer

---
 generator/target/c/c.go               | 12 ++++++++++--
 generator/target/commonjs/commonjs.go | 14 +++++++++++---
 generator/target/cpp/cpp.go           | 12 ++++++++++--
 generator/target/csharp/csharp.go     | 12 ++++++++++--
 generator/target/esm/esm.go           |  4 ++--
 generator/target/esm/esm_encode.go    | 10 +++++++++-
 generator/target/java/java.go         | 12 ++++++++++--
 7 files changed, 62 insertions(+), 14 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 680a0c4..67ccd5a 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -253,7 +253,7 @@ static void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
         }
         int shift_left_outer = (int)(i & 7);
         part = (part << shift_left_outer) & data_mask;
-        if (data_mask == 0xFF) {
+        if ((data_mask & 1) != 0) {
             data[i / 8] = (uint8_t)part;
         } else {
             data[i / 8] |= (uint8_t)part;
@@ -1770,7 +1770,15 @@ func (g CGenerator) generateEncodeConstantField(field *definition.ConstantField,
 }
 
 func (g CGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// A void's bits are not written, except in a byte that starts inside the void:
+	// the fields sharing that byte are ORed into it, so it must not keep old data.
+	from := (startBits + 7) / 8 * 8
+	to := startBits + field.GetFieldBitSize()
+	if from >= to {
+		return []string{""}, nil
+	}
+	zero := func(int64) string { return "0" }
+	return g.generateEncodeImpl(from, to, zero, field.FieldBelongs.GetTypeDynamic()), nil
 }
 
 func (g CGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index cc0c31d..d54521c 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -557,7 +557,7 @@ var fileTemplate = `
             }
             var shiftLeftOuter = i & 7;
             part = ((part << shiftLeftOuter) & dataMask) & 0xFF;
-            if (dataMask === 0xFF) {
+            if ((dataMask & 1) !== 0) {
                 data[(i / 8) | 0] = part;
             } else {
                 data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
@@ -913,7 +913,7 @@ var fileTemplate = `
             }
             var shiftLeftOuter = i & 7;
             part = ((part << shiftLeftOuter) & dataMask) & 0xFF;
-            if (dataMask === 0xFF) {
+            if ((dataMask & 1) !== 0) {
                 data[(i / 8) | 0] = part;
             } else {
                 data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
@@ -2042,7 +2042,15 @@ func (g CommonJSGenerator) generateEncodeConstantField(field *definition.Constan
 }
 
 func (g CommonJSGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// A void's bits are not written, except in a byte that starts inside the void:
+	// the fields sharing that byte are ORed into it, so it must not keep old data.
+	from := (startBits + 7) / 8 * 8
+	to := startBits + field.GetFieldBitSize()
+	if from >= to {
+		return []string{""}, nil
+	}
+	zero := func(int64) string { return "0" }
+	return g.generateEncodeImpl(from, to, zero, g.generateBin, g.generateDec, false, field.FieldBelongs.GetTypeDynamic()), nil
 }
 
 func (g CommonJSGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index ace4ea7..ab859ea 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -254,7 +254,7 @@ inline void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
         }
         int shift_left_outer = (int)(i & 7);
         part = (part << shift_left_outer) & data_mask;
-        if (data_mask == 0xFF) {
+        if ((data_mask & 1) != 0) {
             data[i / 8] = (uint8_t)part;
         } else {
             data[i / 8] |= (uint8_t)part;
@@ -1910,7 +1910,15 @@ func (g CppGenerator) generateEncodeConstantField(field *definition.ConstantFiel
 }
 
 func (g CppGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// A void's bits are not written, except in a byte that starts inside the void:
+	// the fields sharing that byte are ORed into it, so it must not keep old data.
+	from := (startBits + 7) / 8 * 8
+	to := startBits + field.GetFieldBitSize()
+	if from >= to {
+		return []string{""}, nil
+	}
+	zero := func(int64) string { return "0" }
+	return g.generateEncodeImpl(from, to, zero, field.FieldBelongs.GetTypeDynamic()), nil
 }
 
 func (g CppGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 6fbbb78..12911ef 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -536,7 +536,7 @@ var structTemplate = `
                 }
                 int shiftLeftOuter = (int)(i & 7);
                 part = (part << shiftLeftOuter) & dataMask;
-                if (dataMask == 0xFF) {
+                if ((dataMask & 1) != 0) {
                     data[(int)(i / 8)] = (byte)part;
                 } else {
                     data[(int)(i / 8)] |= (byte)part;
@@ -1530,7 +1530,15 @@ func (g CSharpGenerator) generateEncodeConstantField(field *definition.ConstantF
 }
 
 func (g CSharpGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// A void's bits are not written, except in a byte that starts inside the void:
+	// the fields sharing that byte are ORed into it, so it must not keep old data.
+	from := (startBits + 7) / 8 * 8
+	to := startBits + field.GetFieldBitSize()
+	if from >= to {
+		return []string{""}, nil
+	}
+	zero := func(int64) string { return "0" }
+	return g.generateEncodeImpl(from, to, zero, field.FieldBelongs.GetTypeDynamic()), nil
 }
 
 func (g CSharpGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 3055aea..4ddfa84 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -516,7 +516,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
         }
         const shiftLeftOuter = i & 7;
         part = ((part << shiftLeftOuter) & dataMask) & 0xFF;
-        if (dataMask === 0xFF) {
+        if ((dataMask & 1) !== 0) {
             data[(i / 8) | 0] = part;
         } else {
             data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
@@ -838,7 +838,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
         }
         const shiftLeftOuter = i & 7;
         part = ((part << shiftLeftOuter) & dataMask) & 0xFF;
-        if (dataMask === 0xFF) {
+        if ((dataMask & 1) !== 0) {
             data[(i / 8) | 0] = part;
         } else {
             data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index d04e7ff..3ed8423 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -335,7 +335,15 @@ func (g ESModuleGenerator) generateEncodeConstantField(field *definition.Constan
 }
 
 func (g ESModuleGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// A void's bits are not written, except in a byte that starts inside the void:
+	// the fields sharing that byte are ORed into it, so it must not keep old data.
+	from := (startBits + 7) / 8 * 8
+	to := startBits + field.GetFieldBitSize()
+	if from >= to {
+		return []string{""}, nil
+	}
+	zero := func(int64) string { return "0" }
+	return g.generateEncodeImpl(from, to, zero, g.generateBin, g.generateDec, false, field.FieldBelongs.GetTypeDynamic()), nil
 }
 
 func (g ESModuleGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 7d215a4..a813d03 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -474,7 +474,7 @@ var structTemplate = `
             }
             int shiftLeftOuter = (int)(i & 7);
             part = (part << shiftLeftOuter) & dataMask;
-            if (dataMask == 0xFF) {
+            if ((dataMask & 1) != 0) {
                 data[(int)(i / 8)] = (byte)part;
             } else {
                 data[(int)(i / 8)] |= (byte)part;
@@ -1513,7 +1513,15 @@ func (g JavaGenerator) generateEncodeConstantField(field *definition.ConstantFie
 }
 
 func (g JavaGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// A void's bits are not written, except in a byte that starts inside the void:
+	// the fields sharing that byte are ORed into it, so it must not keep old data.
+	from := (startBits + 7) / 8 * 8
+	to := startBits + field.GetFieldBitSize()
+	if from >= to {
+		return []string{""}, nil
+	}
+	zero := func(int64) string { return "0" }
+	return g.generateEncodeImpl(from, to, zero, field.FieldBelongs.GetTypeDynamic()), nil
 }
 
 func (g JavaGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
-- 
2.43.0


From cb2188926b80287e2768bc8a2cbb8b16239ce6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:27 +0000
Subject: [PATCH 17/30] fix: unrolled arrays of enums wider than 16 bits went
 through a bool

---
 generator/target/c/c.go           | 4 ++--
 generator/target/cpp/cpp.go       | 4 ++--
 generator/target/csharp/csharp.go | 4 ++--
 generator/target/golang/golang.go | 4 ++--
 generator/target/java/java.go     | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 67ccd5a..35feef4 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -1825,7 +1825,7 @@ func (g CGenerator) generateEncodeNormalField(field *definition.NormalField, sta
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -2776,7 +2776,7 @@ func (g CGenerator) generateDecodeNormalField(field *definition.NormalField, sta
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index ab859ea..553c7bb 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -1965,7 +1965,7 @@ func (g CppGenerator) generateEncodeNormalField(field *definition.NormalField, s
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -3027,7 +3027,7 @@ func (g CppGenerator) generateDecodeNormalField(field *definition.NormalField, s
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 12911ef..cfae589 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -1625,7 +1625,7 @@ func (g CSharpGenerator) generateEncodeNormalField(field *definition.NormalField
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -2901,7 +2901,7 @@ func (g CSharpGenerator) generateDecodeNormalField(field *definition.NormalField
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 0f19679..bb0c16c 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -1539,7 +1539,7 @@ func (g GoGenerator) generateEncodeNormalField(field *definition.NormalField, st
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -2437,7 +2437,7 @@ func (g GoGenerator) generateDecodeNormalField(field *definition.NormalField, st
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index a813d03..96e01ef 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1608,7 +1608,7 @@ func (g JavaGenerator) generateEncodeNormalField(field *definition.NormalField,
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -2649,7 +2649,7 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
-- 
2.43.0


From 19b790ed30d4362903343ba872a81c1152a44b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:33 +0000
Subject: [PATCH 18/30] fix: CommonJS and ESModule decode 32-bit unsigned
 values as negative numbers

---
 generator/target/commonjs/commonjs.go | 10 ++++++++++
 generator/target/esm/esm_decode.go    | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index d54521c..3f270ad 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3527,6 +3527,16 @@ func (g CommonJSGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			decodeStmts = append(decodeStmts, stmt)
 		}
 
+		// bitwise operators give signed 32-bit numbers
+		if ty.GetTypeID().IsUint() && fieldBitSize == 32 {
+			stmt := util.ExecuteTemplate(fieldDecoderTemplate, "decodeImpl", nil, map[string]any{
+				"FieldName": fieldNameStr,
+				"Operator":  exprOpToString[definition.ExprOp_ASSIGN],
+				"Expr":      fieldNameStr + " >>> 0",
+			})
+			decodeStmts = append(decodeStmts, stmt)
+		}
+
 		// set sign bit
 		if ty.GetTypeID().IsInt() {
 			originFromBitSize := fieldBitSize
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 9797a9f..6c8a371 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -769,6 +769,16 @@ func (g ESModuleGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			decodeStmts = append(decodeStmts, stmt)
 		}
 
+		// bitwise operators give signed 32-bit numbers
+		if ty.GetTypeID().IsUint() && fieldBitSize == 32 {
+			stmt := util.ExecuteTemplate(fieldDecoderTemplate, "decodeImpl", nil, map[string]any{
+				"FieldName": fieldNameStr,
+				"Operator":  exprOpToString[definition.ExprOp_ASSIGN],
+				"Expr":      fieldNameStr + " >>> 0",
+			})
+			decodeStmts = append(decodeStmts, stmt)
+		}
+
 		if ty.GetTypeID().IsInt() {
 			originFromBitSize := fieldBitSize
 			switch g.GenCtx.GenOptions.SignExtMethod {
-- 
2.43.0


From 1d9fe03fd905f036239dea772ae496534666bebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:57 +0000
Subject: [PATCH 19/30] fix: decoders compare a constant field's bits, not a
 value of another type

---
 generator/gen/gen_util.go             | 21 +++++++++++++++++++++
 generator/target/c/c.go               |  9 ++++++---
 generator/target/commonjs/commonjs.go | 15 ++++++++++++---
 generator/target/cpp/cpp.go           |  9 ++++++---
 generator/target/csharp/csharp.go     |  9 ++++++---
 generator/target/esm/esm_decode.go    | 15 ++++++++++++---
 generator/target/golang/golang.go     |  9 ++++++---
 generator/target/java/java.go         |  9 ++++++---
 generator/target/python/python.go     |  8 +++++---
 9 files changed, 80 insertions(+), 24 deletions(-)

diff --git a/generator/gen/gen_util.go b/generator/gen/gen_util.go
index 1c5274e..9abfef5 100644
--- a/generator/gen/gen_util.go
+++ b/generator/gen/gen_util.go
@@ -1,6 +1,9 @@
 package gen
 
 import (
+	"bytes"
+	"encoding/binary"
+
 	"github.com/xaxys/bubbler/definition"
 	"github.com/xaxys/bubbler/util"
 )
@@ -15,3 +18,21 @@ func MatchOption(options *util.OrderedMap[string, *definition.Option], name stri
 	}
 	return option.OptionValue.GetLiteralValue() == value
 }
+
+// ConstantBits returns the bits of a constant field's value, without those its
+// width has no room for.
+func ConstantBits(field *definition.ConstantField) (uint64, error) {
+	buffer := &bytes.Buffer{}
+	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
+	if err := binary.Write(buffer, binary.LittleEndian, value); err != nil {
+		return 0, err
+	}
+	bits := uint64(0)
+	for i, b := range buffer.Bytes() {
+		bits |= uint64(b) << (8 * i)
+	}
+	if size := field.GetFieldBitSize(); size < 64 {
+		bits &= 1<<size - 1
+	}
+	return bits, nil
+}
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 35feef4..29b5583 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -2696,17 +2696,20 @@ func (g CGenerator) generateDecodeConstantField(field *definition.ConstantField,
 	from := startBits
 	to := startBits + fieldBitSize
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	// The constant is compared bit by bit, so that its sign or kind does not matter.
+	rawType := definition.GetBasicType(typeSizeMapUint[tySize*8])
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, rawType, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	bits, err := gen.ConstantBits(field)
 	if err != nil {
-		return nil, err
+		return nil, fmt.Errorf("internal error: %s", err)
 	}
+	literalValue := g.generateHex(bits)
 
 	decodeConstantFieldData := map[string]any{
 		"TempName":      tempName,
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 3f270ad..a4d5f84 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3061,16 +3061,25 @@ func (g CommonJSGenerator) generateDecodeConstantField(field *definition.Constan
 	from := startBits
 	to := startBits + field.GetFieldBitSize()
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	// The constant is compared bit by bit, so that its sign or kind does not matter.
+	rawType := &definition.Uint32
+	if field.FieldType.GetTypeBitSize() > 32 {
+		rawType = &definition.Uint64
+	}
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, rawType, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	bits, err := gen.ConstantBits(field)
 	if err != nil {
-		return nil, err
+		return nil, fmt.Errorf("internal error: %s", err)
+	}
+	literalValue := g.generateHex(bits)
+	if field.FieldType.GetTypeBitSize() > 32 {
+		literalValue = g.generateHexBigInt(bits)
 	}
 
 	decodeConstantFieldData := map[string]any{
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 553c7bb..805546f 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -2947,17 +2947,20 @@ func (g CppGenerator) generateDecodeConstantField(field *definition.ConstantFiel
 	from := startBits
 	to := startBits + fieldBitSize
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	// The constant is compared bit by bit, so that its sign or kind does not matter.
+	rawType := definition.GetBasicType(typeSizeMapUint[tySize*8])
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, rawType, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	bits, err := gen.ConstantBits(field)
 	if err != nil {
-		return nil, err
+		return nil, fmt.Errorf("internal error: %s", err)
 	}
+	literalValue := g.generateHex(bits)
 
 	decodeConstantFieldData := map[string]any{
 		"TempName":      tempName,
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index cfae589..5c6d037 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -2751,17 +2751,20 @@ func (g CSharpGenerator) generateDecodeConstantField(field *definition.ConstantF
 	from := startBits
 	to := startBits + field.GetFieldBitSize()
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	// The constant is compared bit by bit, so that its sign or kind does not matter.
+	rawType := definition.GetBasicType(typeSizeMapUint[tySize*8])
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, rawType, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	bits, err := gen.ConstantBits(field)
 	if err != nil {
-		return nil, err
+		return nil, fmt.Errorf("internal error: %s", err)
 	}
+	literalValue := g.generateHex(bits)
 
 	decodeConstantFieldData := map[string]any{
 		"TyUint":        tyUint,
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 6c8a371..a85a578 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -440,14 +440,23 @@ func (g ESModuleGenerator) generateDecodeConstantField(field *definition.Constan
 	decodeStmts := []string{}
 	tempName := g.generateDecodeTempVarName(startBits)
 	decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, map[string]any{"TempName": tempName}))
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, startBits, startBits+field.GetFieldBitSize())
+	// The constant is compared bit by bit, so that its sign or kind does not matter.
+	rawType := &definition.Uint32
+	if field.FieldType.GetTypeBitSize() > 32 {
+		rawType = &definition.Uint64
+	}
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, rawType, field.FieldOptions, structDynamic, startBits, startBits+field.GetFieldBitSize())
 	if err != nil {
 		return nil, err
 	}
 	decodeStmts = append(decodeStmts, stmts...)
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	bits, err := gen.ConstantBits(field)
 	if err != nil {
-		return nil, err
+		return nil, fmt.Errorf("internal error: %s", err)
+	}
+	literalValue := g.generateHex(bits)
+	if field.FieldType.GetTypeBitSize() > 32 {
+		literalValue = g.generateHexBigInt(bits)
 	}
 	checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, map[string]any{"TempName": tempName, "ConstantValue": literalValue})
 	decodeStmts = append(decodeStmts, checkStr)
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index bb0c16c..2c63534 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -2357,17 +2357,20 @@ func (g GoGenerator) generateDecodeConstantField(field *definition.ConstantField
 	from := startBits
 	to := startBits + fieldBitSize
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	// The constant is compared bit by bit, so that its sign or kind does not matter.
+	rawType := definition.GetBasicType(typeSizeMapUint[tySize*8])
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, rawType, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	bits, err := gen.ConstantBits(field)
 	if err != nil {
-		return nil, err
+		return nil, fmt.Errorf("internal error: %s", err)
 	}
+	literalValue := g.generateHex(bits)
 
 	decodeConstantFieldData := map[string]any{
 		"TempName":      tempName,
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 96e01ef..2030f97 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -2499,17 +2499,20 @@ func (g JavaGenerator) generateDecodeConstantField(field *definition.ConstantFie
 	from := startBits
 	to := startBits + field.GetFieldBitSize()
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	// The constant is compared bit by bit, so that its sign or kind does not matter.
+	rawType := definition.GetBasicType(typeSizeMapUint[tySize*8])
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, rawType, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	bits, err := gen.ConstantBits(field)
 	if err != nil {
-		return nil, err
+		return nil, fmt.Errorf("internal error: %s", err)
 	}
+	literalValue := g.generateHex(bits)
 
 	decodeConstantFieldData := map[string]any{
 		"TyUint":        tyUint,
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 594632b..dafafc8 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -1963,17 +1963,19 @@ func (g PythonGenerator) generateDecodeConstantField(field *definition.ConstantF
 	from := startBits
 	to := startBits + field.GetFieldBitSize()
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	// The constant is compared bit by bit, so that its sign or kind does not matter.
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, &definition.Uint64, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	bits, err := gen.ConstantBits(field)
 	if err != nil {
-		return nil, err
+		return nil, fmt.Errorf("internal error: %s", err)
 	}
+	literalValue := g.generateHex(bits)
 
 	decodeConstantFieldData := map[string]any{
 		"TempName":      tempName,
-- 
2.43.0


From e5c1c368ae7c847901e66333aa4123fdbd56767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:50 +0000
Subject: [PATCH 20/30] fix: big-endian constants narrower than their type were
 encoded from the wrong bytes

---
 generator/gen/gen_util.go             | 20 ++++++++++++++++++++
 generator/target/c/c.go               | 13 +------------
 generator/target/commonjs/commonjs.go | 13 +------------
 generator/target/cpp/cpp.go           | 13 +------------
 generator/target/csharp/csharp.go     | 13 +------------
 generator/target/esm/esm_encode.go    | 12 ++----------
 generator/target/golang/golang.go     | 13 +------------
 generator/target/java/java.go         | 13 +------------
 generator/target/python/python.go     | 13 +------------
 9 files changed, 29 insertions(+), 94 deletions(-)

diff --git a/generator/gen/gen_util.go b/generator/gen/gen_util.go
index 9abfef5..43b421a 100644
--- a/generator/gen/gen_util.go
+++ b/generator/gen/gen_util.go
@@ -36,3 +36,23 @@ func ConstantBits(field *definition.ConstantField) (uint64, error) {
 	}
 	return bits, nil
 }
+
+// ConstantBytes returns the bytes of a constant field in wire order. As for
+// other fields, those of a big-endian one are counted from the field's width.
+func ConstantBytes(field *definition.ConstantField) ([]byte, error) {
+	bits, err := ConstantBits(field)
+	if err != nil {
+		return nil, err
+	}
+	size := field.GetFieldBitSize()
+	big := MatchOption(field.FieldOptions, "order", "big")
+	data := []byte{}
+	for i := int64(0); 8*i < size; i++ {
+		shift := 8 * i
+		if big {
+			shift = max(0, size-8*(i+1))
+		}
+		data = append(data, byte(bits>>shift))
+	}
+	return data, nil
+}
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 29b5583..09bf6b1 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -1,8 +1,6 @@
 package c
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1745,19 +1743,10 @@ func (g CGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantBytes(field)
 	if err != nil {
 		return nil, fmt.Errorf("internal error: %s", err)
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index a4d5f84..5ad2a58 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -1,8 +1,6 @@
 package commonjs
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"math"
 	"strings"
@@ -2017,19 +2015,10 @@ func (g CommonJSGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CommonJSGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantBytes(field)
 	if err != nil {
 		return nil, fmt.Errorf("internal error: %s", err)
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 805546f..cde7ed5 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -1,8 +1,6 @@
 package cpp
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1885,19 +1883,10 @@ func (g CppGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CppGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantBytes(field)
 	if err != nil {
 		return nil, fmt.Errorf("internal error: %s", err)
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 5c6d037..d0a253d 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -1,8 +1,6 @@
 package csharp
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1505,19 +1503,10 @@ func (g CSharpGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CSharpGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantBytes(field)
 	if err != nil {
 		return nil, fmt.Errorf("internal error: %s", err)
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index 3ed8423..d01f67c 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -1,8 +1,6 @@
 package esm
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 
@@ -320,16 +318,10 @@ func (g ESModuleGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g ESModuleGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	if err := binary.Write(buffer, byteOrder, value); err != nil {
+	data, err := gen.ConstantBytes(field)
+	if err != nil {
 		return nil, fmt.Errorf("internal error: %s", err)
 	}
-	data := buffer.Bytes()
 	fieldData := func(i int64) string { return g.generateHex(data[i]) }
 	return g.generateEncodeImpl(startBits, startBits+field.GetFieldBitSize(), fieldData, g.generateBin, g.generateDec, false, structDynamic), nil
 }
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 2c63534..6f8ecdb 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -1,8 +1,6 @@
 package golang
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1467,19 +1465,10 @@ func (g GoGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g GoGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantBytes(field)
 	if err != nil {
 		return nil, fmt.Errorf("internal error: %s", err)
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 2030f97..f045429 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1,8 +1,6 @@
 package java
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"math"
 	"strings"
@@ -1488,19 +1486,10 @@ func (g JavaGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g JavaGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantBytes(field)
 	if err != nil {
 		return nil, fmt.Errorf("internal error: %s", err)
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index dafafc8..07d2b7a 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -1,8 +1,6 @@
 package python
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1157,19 +1155,10 @@ func (g PythonGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g PythonGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantBytes(field)
 	if err != nil {
 		return nil, fmt.Errorf("internal error: %s", err)
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
-- 
2.43.0


From 2516efad25823ff289db5aebc637c414d44fc5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:48 +0000
Subject: [PATCH 21/30] fix: CommonJS and ESModule decode 64-bit integers
 declared 32 bits wide

The 32-bit conversions were chosen by the declared width, but the values of
64-bit types are BigInts, which have no unsigned right shift.
---
 generator/target/commonjs/commonjs.go | 4 ++--
 generator/target/esm/esm_decode.go    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 5ad2a58..353032b 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3526,7 +3526,7 @@ func (g CommonJSGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 		}
 
 		// bitwise operators give signed 32-bit numbers
-		if ty.GetTypeID().IsUint() && fieldBitSize == 32 {
+		if ty.GetTypeID().IsUint() && fieldBitSize == 32 && ty.GetTypeBitSize() == 32 {
 			stmt := util.ExecuteTemplate(fieldDecoderTemplate, "decodeImpl", nil, map[string]any{
 				"FieldName": fieldNameStr,
 				"Operator":  exprOpToString[definition.ExprOp_ASSIGN],
@@ -3542,7 +3542,7 @@ func (g CommonJSGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			switch g.GenCtx.GenOptions.SignExtMethod {
 			case gen.SignExtMethodDefault, gen.SignExtMethodShift, gen.SignExtMethodArith:
 				// special case: sign extension for 32-bit integer
-				if originFromBitSize == 32 {
+				if originFromBitSize == 32 && ty.GetTypeBitSize() == 32 {
 					signShift := originFromBitSize - 1
 					signShiftStr := generateDec(signShift)
 					signExtendData := map[string]any{
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index a85a578..4c83b90 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -779,7 +779,7 @@ func (g ESModuleGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 		}
 
 		// bitwise operators give signed 32-bit numbers
-		if ty.GetTypeID().IsUint() && fieldBitSize == 32 {
+		if ty.GetTypeID().IsUint() && fieldBitSize == 32 && ty.GetTypeBitSize() == 32 {
 			stmt := util.ExecuteTemplate(fieldDecoderTemplate, "decodeImpl", nil, map[string]any{
 				"FieldName": fieldNameStr,
 				"Operator":  exprOpToString[definition.ExprOp_ASSIGN],
@@ -792,7 +792,7 @@ func (g ESModuleGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			originFromBitSize := fieldBitSize
 			switch g.GenCtx.GenOptions.SignExtMethod {
 			case gen.SignExtMethodDefault, gen.SignExtMethodShift, gen.SignExtMethodArith:
-				if originFromBitSize == 32 {
+				if originFromBitSize == 32 && ty.GetTypeBitSize() == 32 {
 					stmt := util.ExecuteTemplate(fieldDecoderTemplate, "signExtendLogic", nil, map[string]any{
 						"FieldName": fieldNameStr, "SignShift": generateDec(originFromBitSize - 1),
 					})
-- 
2.43.0


From e3e02901f50b697cf8b54b71e540ce5b059f6a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:45 +0000
Subject: [PATCH 22/30] fix: C and C++ files after the first of a -memcpy run
 lacked stdlib.h

---
 generator/target/c/c.go     | 1 +
 generator/target/cpp/cpp.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 09bf6b1..3a2396f 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -505,6 +505,7 @@ func (g CGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 
 	// clear state for next unit
 	g.GenState.Reset()
+	g.GenState.UseStdLibH = g.GenCtx.GenOptions.MemoryCopy
 
 	return nil
 }
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index cde7ed5..5efade6 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -576,6 +576,7 @@ func (g CppGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 
 	// clear state for next unit
 	g.GenState.Reset()
+	g.GenState.UseStdLibH = g.GenCtx.GenOptions.MemoryCopy
 
 	return nil
 }
-- 
2.43.0


From 529e8f0d2c44e9782dc146199a1694e2d700261f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:19 +0000
Subject: [PATCH 23/30] fix: ESModule omits the string helpers for arrays of
 strings

---
 generator/target/esm/esm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 4ddfa84..2328a2c 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -1095,6 +1095,9 @@ func (g ESModuleGenerator) GenerateArrayDefaultValue(array *definition.Array) (s
 		length := g.generateDec(array.Length)
 		return fmt.Sprintf("createArray(%s, function() { return %s; })", length, elemDefValue), nil
 	}
+	if array.ElementType.GetTypeID().IsString() {
+		g.GenState.UseString = true
+	}
 	return "[]", nil
 }
 
-- 
2.43.0


From c4771f7ad0f7a504578dd79397f917dfc1941e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:09 +0000
Subject: [PATCH 24/30] fix: the decode size functions skip a single nested
 struct of run-time size

---
 generator/target/c/c.go               | 2 +-
 generator/target/commonjs/commonjs.go | 2 +-
 generator/target/cpp/cpp.go           | 6 +++---
 generator/target/csharp/csharp.go     | 4 ++--
 generator/target/esm/esm_decode.go    | 2 +-
 generator/target/golang/golang.go     | 2 +-
 generator/target/java/java.go         | 2 +-
 generator/target/python/python.go     | 2 +-
 8 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 3a2396f..4b7fa82 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -2435,7 +2435,7 @@ int64_t {{ $structName }}_decode_size(const void* data, uint64_t size) {
     uint64_t offset = 0;
     {{- $fixedStart := 0 }}
     {{- range $field := .StructDef.StructFields.Values }}
-        {{- if and $field.GetFieldKind.IsNormal (lt $field.GetFieldBitSize 0) }}
+        {{- if and $field.GetFieldKind.IsNormal $field.FieldType.GetTypeDynamic }}
     {{- template "decoderSizeField" (dict "Field" $field "FromByte" (calc $fixedStart "/" 8) "GenOptions" $.GenOptions) }}
         {{- end }}
         {{- if ne $field.GetFieldBitSize -1 }}
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 353032b..f88c4c3 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -2805,7 +2805,7 @@ var decoderTemplate = `
                     var offset = 0;
                     {{- $fixedStart := 0 }}
                     {{- range $field := .StructDef.StructFields.Values }}
-                        {{- if and $field.GetFieldKind.IsNormal (lt $field.GetFieldBitSize 0) }}
+                        {{- if and $field.GetFieldKind.IsNormal $field.FieldType.GetTypeDynamic }}
                     {{- template "decoderSizeField" (dict "Field" $field "FromByte" (calc $fixedStart "/" 8) "GenOptions" $.GenOptions) }}
                         {{- end }}
                         {{- if ne $field.GetFieldBitSize -1 }}
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 5efade6..63c4992 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -2581,7 +2581,7 @@ var decoderTemplate = `
             offset += len;
         }
 {{- else if $f.FieldType.GetTypeID.IsStruct -}}
-    {{- $structType := $f.FieldType.ElementType -}}
+    {{- $structType := $f.FieldType -}}
     {{- if $structType.GetTypeDynamic }}
         {   // {{ $f }}
             uint64_t sub_offset = offset + {{ $fromByte }};
@@ -2613,7 +2613,7 @@ var decoderTemplate = `
         uint64_t offset = 0;
         {{- $fixedStart := 0 }}
         {{- range $field := .StructDef.StructFields.Values }}
-            {{- if and $field.GetFieldKind.IsNormal (lt $field.GetFieldBitSize 0) }}
+            {{- if and $field.GetFieldKind.IsNormal $field.FieldType.GetTypeDynamic }}
 {{ template "decoderSizeField" (dict "Field" $field "FromByte" (calc $fixedStart "/" 8) "GenOptions" $.GenOptions) }}
             {{- end }}
             {{- if ne $field.GetFieldBitSize -1 }}
@@ -2642,7 +2642,7 @@ var decoderTemplate = `
         uint64_t offset = 0;
         {{- $fixedStart := 0 }}
         {{- range $field := .StructDef.StructFields.Values }}
-            {{- if and $field.GetFieldKind.IsNormal (lt $field.GetFieldBitSize 0) }}
+            {{- if and $field.GetFieldKind.IsNormal $field.FieldType.GetTypeDynamic }}
 {{ template "decoderSizeField" (dict "Field" $field "FromByte" (calc $fixedStart "/" 8) "GenOptions" $.GenOptions) }}
             {{- end }}
             {{- if ne $field.GetFieldBitSize -1 }}
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index d0a253d..820f668 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -2439,7 +2439,7 @@ var decoderTemplate = `
             {{- $genOptions := .GenOptions }}
             {{- $fixedStart := 0 }}
             {{- range $field := .StructDef.StructFields.Values }}
-                {{- if and $field.GetFieldKind.IsNormal (lt $field.GetFieldBitSize 0) }}
+                {{- if and $field.GetFieldKind.IsNormal $field.FieldType.GetTypeDynamic }}
             {{- template "decoderSizeField" (dict "Field" $field "FromByte" (calc $fixedStart "/" 8) "GenOptions" $genOptions) }}
                 {{- end }}
                 {{- if ne $field.GetFieldBitSize -1 }}
@@ -2497,7 +2497,7 @@ var decoderTemplate = `
             {{- $genOptions := .GenOptions }}
             {{- $fixedStart := 0 }}
             {{- range $field := .StructDef.StructFields.Values }}
-                {{- if and $field.GetFieldKind.IsNormal (lt $field.GetFieldBitSize 0) }}
+                {{- if and $field.GetFieldKind.IsNormal $field.FieldType.GetTypeDynamic }}
             {{- template "decoderSizeField" (dict "Field" $field "FromByte" (calc $fixedStart "/" 8) "GenOptions" $genOptions) }}
                 {{- end }}
                 {{- if ne $field.GetFieldBitSize -1 }}
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 4c83b90..7c6fb87 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -215,7 +215,7 @@ static decode_size(data, start) {
     let offset = 0;
     {{- $fixedStart := 0 }}
     {{- range $field := .StructDef.StructFields.Values }}
-        {{- if and $field.GetFieldKind.IsNormal (lt $field.GetFieldBitSize 0) }}
+        {{- if and $field.GetFieldKind.IsNormal $field.FieldType.GetTypeDynamic }}
     {{- template "decoderSizeField" (dict "Field" $field "FromByte" (calc $fixedStart "/" 8) "GenOptions" $.GenOptions) }}
         {{- end }}
         {{- if ne $field.GetFieldBitSize -1 }}
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 6f8ecdb..89395e9 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -2103,7 +2103,7 @@ func (this *{{ $structName }}) DecodeSize(data []byte) int {
     offset := 0
     {{- $fixedStart := 0 }}
     {{- range $field := .StructDef.StructFields.Values }}
-        {{- if and $field.GetFieldKind.IsNormal (lt $field.GetFieldBitSize 0) }}
+        {{- if and $field.GetFieldKind.IsNormal $field.FieldType.GetTypeDynamic }}
     {{- template "decoderSizeField" (dict "Field" $field "FromByte" (calc $fixedStart "/" 8) "GenOptions" $.GenOptions) }}
         {{- end }}
         {{- if ne $field.GetFieldBitSize -1 }}
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index f045429..5727500 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -2270,7 +2270,7 @@ var decoderTemplate = `
         int offset = 0;
         {{- $fixedStart := 0 }}
         {{- range $field := .StructDef.StructFields.Values }}
-            {{- if and $field.GetFieldKind.IsNormal (lt $field.GetFieldBitSize 0) }}
+            {{- if and $field.GetFieldKind.IsNormal $field.FieldType.GetTypeDynamic }}
         {{- template "decoderSizeField" (dict "Field" $field "FromByte" (calc $fixedStart "/" 8) "GenOptions" $.GenOptions) }}
             {{- end }}
             {{- if ne $field.GetFieldBitSize -1 }}
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 07d2b7a..b464434 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -1756,7 +1756,7 @@ var decoderTemplate = `
         offset = 0
         {{- $fixedStart := 0 }}
         {{- range $field := .StructDef.StructFields.Values }}
-            {{- if and $field.GetFieldKind.IsNormal (lt $field.GetFieldBitSize 0) }}
+            {{- if and $field.GetFieldKind.IsNormal $field.FieldType.GetTypeDynamic }}
         {{- template "decoderSizeField" (dict "Field" $field "FromByte" (calc $fixedStart "/" 8) "GenOptions" $.GenOptions) }}
             {{- end }}
             {{- if ne $field.GetFieldBitSize -1 }}
-- 
2.43.0


From aef107e903b4d73d754089f8d2aa445fabfbe4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:11 +0000
Subject: [PATCH 25/30] fix: fields after a nested struct of run-time size are
 placed at run time (Kotlin)

---
 definition/struct.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/definition/struct.go b/definition/struct.go
index 1684b7c..3fc6506 100644
--- a/definition/struct.go
+++ b/definition/struct.go
@@ -106,6 +106,10 @@ func (s *Struct) ForEachField(f func(field Field, index int, fixedStart int64, i
 		} else {
 			dynamicStart = true
 		}
+		// a nested dynamic struct has a fixed part, but ends at a run-time offset
+		if normal, ok := field.(*NormalField); ok && normal.FieldType.GetTypeDynamic() {
+			dynamicStart = true
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 477916d0ad5d417d162bb417ee2e2462dac533da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:13 +0000
Subject: [PATCH 26/30] fix: the length of a bytes field is decoded in 64 bits
 (C, C++)

---
 generator/target/c/c.go     | 4 ++--
 generator/target/cpp/cpp.go | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 4b7fa82..8ff000e 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -2577,8 +2577,8 @@ var fieldDecoderTemplate = `
     {
         uint64_t {{ .TempName }} = 0;
         {{ .TyUint8 }} shift = 0;
-        while (((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= (((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
-        {{ .TempName }} |= (((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
+        while (((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= (uint64_t)(((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
+        {{ .TempName }} |= (uint64_t)(((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
         {{ .FieldName }}.length = {{ .TempName }};
         {{ if .MemoryCopy -}}
         {{ .FieldName }}.data = ({{ .TyUint8 }}*)malloc({{ .TempName }});
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 63c4992..506ef1e 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -2792,11 +2792,11 @@ var fieldDecoderTemplate = `
             uint64_t {{ .TempName }} = 0;
             {{ .TyUint8 }} shift = 0;
         {{- if .CompatibleMode }}
-            while (static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= (static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
-            {{ .TempName }} |= (static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
+            while (static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= static_cast<uint64_t>(static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
+            {{ .TempName }} |= static_cast<uint64_t>(static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
         {{- else }}
-            while (data[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= (data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
-            {{ .TempName }} |= (data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
+            while (data[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= static_cast<uint64_t>(data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
+            {{ .TempName }} |= static_cast<uint64_t>(data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
         {{- end }}
             {{ .FieldName }}.length = {{ .TempName }};
     {{- if .MemoryCopy }}
-- 
2.43.0


From f76fc6308f0489e0e7f035e4a414bf05275ed806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:14 +0000
Subject: [PATCH 27/30] fix: a bytes length that is negative or overflows is
 refused (Java, C#, Kotlin)

---
 generator/target/csharp/csharp.go        | 6 ++++++
 generator/target/java/java.go            | 3 +++
 generator/target/kotlin/kotlin_decode.go | 1 +
 3 files changed, 10 insertions(+)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 820f668..6de0614 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -2261,6 +2261,7 @@ var decoderTemplate = `
                 }
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length < 0 || _length > int.MaxValue - (offset + {{ $fromByte }})) return -1;
                 if (data.Length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- else }}
                 if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
@@ -2274,6 +2275,7 @@ var decoderTemplate = `
                 }
                 _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length < 0 || _length > int.MaxValue - (offset + {{ $fromByte }})) return -1;
                 if (data.Length < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- end }}
                 offset += _length;
@@ -2293,6 +2295,7 @@ var decoderTemplate = `
                 }
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length < 0 || _length > int.MaxValue - (offset + {{ $fromByte }})) return -1;
                 if (data.Length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- else }}
                 if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
@@ -2306,6 +2309,7 @@ var decoderTemplate = `
                 }
                 _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length < 0 || _length > int.MaxValue - (offset + {{ $fromByte }})) return -1;
                 if (data.Length < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- end }}
                 offset += _length;
@@ -2373,6 +2377,7 @@ var decoderTemplate = `
                 }
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length < 0 || _length > int.MaxValue - (offset + {{ $fromByte }})) return -1;
                 if (data.Length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- else }}
                 if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
@@ -2386,6 +2391,7 @@ var decoderTemplate = `
                 }
                 _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length < 0 || _length > int.MaxValue - (offset + {{ $fromByte }})) return -1;
                 if (data.Length < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- end }}
                 offset += _length;
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 5727500..43796cc 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -2163,6 +2163,7 @@ var decoderTemplate = `
             }
             _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
             offset++;
+            if (_length < 0 || _length > Integer.MAX_VALUE - (offset + {{ $fromByte }})) return -1;
             if (data.length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
             offset += _length;
         }
@@ -2180,6 +2181,7 @@ var decoderTemplate = `
             }
             _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
             offset++;
+            if (_length < 0 || _length > Integer.MAX_VALUE - (offset + {{ $fromByte }})) return -1;
             if (data.length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
             offset += _length;
         }
@@ -2227,6 +2229,7 @@ var decoderTemplate = `
             }
             _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
             offset++;
+            if (_length < 0 || _length > Integer.MAX_VALUE - (offset + {{ $fromByte }})) return -1;
             if (data.length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
             offset += _length;
         }
diff --git a/generator/target/kotlin/kotlin_decode.go b/generator/target/kotlin/kotlin_decode.go
index cbfdfe9..74f20a5 100644
--- a/generator/target/kotlin/kotlin_decode.go
+++ b/generator/target/kotlin/kotlin_decode.go
@@ -95,6 +95,7 @@ func (g *KotlinGenerator) emitDecodeSizeValue(b *strings.Builder, ty definition.
 		fmt.Fprintf(b, "%s        shift += 7\n", indent)
 		fmt.Fprintf(b, "%s        if (shift > 28) return -1\n", indent)
 		fmt.Fprintf(b, "%s    }\n", indent)
+		fmt.Fprintf(b, "%s    if (length < 0 || length > Int.MAX_VALUE - (offset + %d)) return -1\n", indent, fromByte)
 		fmt.Fprintf(b, "%s    if (data.size - start < offset + %d + length) return -(offset + %d + length)\n", indent, fromByte, fromByte)
 		fmt.Fprintf(b, "%s    offset += length\n", indent)
 		fmt.Fprintf(b, "%s}\n", indent)
-- 
2.43.0


From 94f63bcef2c95ac5602fbb6c79b6469f62966ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:15 +0000
Subject: [PATCH 28/30] fix: a bytes length that overflows the size is refused
 (C, C++)

---
 generator/target/c/c.go     | 9 +++++++++
 generator/target/cpp/cpp.go | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 8ff000e..0197c83 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -2333,13 +2333,16 @@ int64_t {{ $structName }}_decode(const void* data, struct {{ $structName }}* ptr
         uint64_t len = 0;
         uint8_t shift = 0;
         while (((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x80) {
+            if (shift >= 63) return -1;
             len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             shift += 7;
             offset++;
             if (size <= offset + {{ $fromByte }}) return -(int64_t)(offset + {{ $fromByte }} + 1);
         }
+        if (shift >= 63) return -1;
         len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
         offset++;
+        if (len > (uint64_t)INT64_MAX - (offset + {{ $fromByte }})) return -1;
         if (size < offset + {{ $fromByte }} + len) return -(int64_t)(offset + {{ $fromByte }} + len);
         offset += len;
     }
@@ -2350,13 +2353,16 @@ int64_t {{ $structName }}_decode(const void* data, struct {{ $structName }}* ptr
         uint64_t len = 0;
         uint8_t shift = 0;
         while (((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x80) {
+            if (shift >= 63) return -1;
             len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             shift += 7;
             offset++;
             if (size <= offset + {{ $fromByte }}) return -(int64_t)(offset + {{ $fromByte }} + 1);
         }
+        if (shift >= 63) return -1;
         len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
         offset++;
+        if (len > (uint64_t)INT64_MAX - (offset + {{ $fromByte }})) return -1;
         if (size < offset + {{ $fromByte }} + len) return -(int64_t)(offset + {{ $fromByte }} + len);
         offset += len;
     }
@@ -2399,13 +2405,16 @@ int64_t {{ $structName }}_decode(const void* data, struct {{ $structName }}* ptr
         uint64_t len = 0;
         uint8_t shift = 0;
         while (((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x80) {
+            if (shift >= 63) return -1;
             len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             shift += 7;
             offset++;
             if (size <= offset + {{ $fromByte }}) return -(int64_t)(offset + {{ $fromByte }} + 1);
         }
+        if (shift >= 63) return -1;
         len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
         offset++;
+        if (len > (uint64_t)INT64_MAX - (offset + {{ $fromByte }})) return -1;
         if (size < offset + {{ $fromByte }} + len) return -(int64_t)(offset + {{ $fromByte }} + len);
         offset += len;
     }
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 506ef1e..edda9d3 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -2495,13 +2495,16 @@ var decoderTemplate = `
             uint64_t len = 0;
             uint8_t shift = 0;
             while (static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x80) {
+                if (shift >= 63) return -1;
                 len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
                 shift += 7;
                 offset++;
                 if (size <= offset + {{ $fromByte }}) return -static_cast<int64_t>(offset + {{ $fromByte }} + 1);
             }
+            if (shift >= 63) return -1;
             len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             offset++;
+            if (len > static_cast<uint64_t>(INT64_MAX) - (offset + {{ $fromByte }})) return -1;
             if (size < offset + {{ $fromByte }} + len) return -static_cast<int64_t>(offset + {{ $fromByte }} + len);
             offset += len;
         }
@@ -2512,13 +2515,16 @@ var decoderTemplate = `
             uint64_t len = 0;
             uint8_t shift = 0;
             while (static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x80) {
+                if (shift >= 63) return -1;
                 len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
                 shift += 7;
                 offset++;
                 if (size <= offset + {{ $fromByte }}) return -static_cast<int64_t>(offset + {{ $fromByte }} + 1);
             }
+            if (shift >= 63) return -1;
             len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             offset++;
+            if (len > static_cast<uint64_t>(INT64_MAX) - (offset + {{ $fromByte }})) return -1;
             if (size < offset + {{ $fromByte }} + len) return -static_cast<int64_t>(offset + {{ $fromByte }} + len);
             offset += len;
         }
@@ -2570,13 +2576,16 @@ var decoderTemplate = `
             uint64_t len = 0;
             uint8_t shift = 0;
             while (static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x80) {
+                if (shift >= 63) return -1;
                 len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
                 shift += 7;
                 offset++;
                 if (size <= offset + {{ $fromByte }}) return -static_cast<int64_t>(offset + {{ $fromByte }} + 1);
             }
+            if (shift >= 63) return -1;
             len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             offset++;
+            if (len > static_cast<uint64_t>(INT64_MAX) - (offset + {{ $fromByte }})) return -1;
             if (size < offset + {{ $fromByte }} + len) return -static_cast<int64_t>(offset + {{ $fromByte }} + len);
             offset += len;
         }
-- 
2.43.0


From 2469e2419e42fc1eb3614b67a31bdf62f4a67bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:28 +0000
Subject: [PATCH 29/30] fix: the Python target shares bytes fields with the
 input although -memcpy is documented as forced

---
 generator/target/python/python.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index b464434..76f769c 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -90,6 +90,16 @@ func (g *PythonGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings e
 		}
 		g.Warning = definition.TopLevelWarningsJoin(g.Warning, warn)
 	}
+	if !ctx.GenOptions.MemoryCopy {
+		warn := &definition.GenerateWarning{
+			Warning: &definition.OptionNotSetWarning{
+				OptionName: "memcpy",
+				Reason:     "Python target does not support zero-copy, this option will be forced to be enabled",
+			},
+		}
+		g.Warning = definition.TopLevelWarningsJoin(g.Warning, warn)
+		ctx.GenOptions.MemoryCopy = true
+	}
 	var topErr definition.TopLevelError
 	genErr := g.AcceptGenCtx(ctx)
 	if genErr != nil {
-- 
2.43.0


From 4d984eb4b315277a0af83f114479c8693d4e5900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:15 +0000
Subject: [PATCH 30/30] fix: Kotlin takes the bits of a negative floating-point
 constant, not the negated bits

---
 generator/target/kotlin/kotlin_encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/target/kotlin/kotlin_encode.go b/generator/target/kotlin/kotlin_encode.go
index 7fe5c59..27f5ca5 100644
--- a/generator/target/kotlin/kotlin_encode.go
+++ b/generator/target/kotlin/kotlin_encode.go
@@ -218,9 +218,9 @@ func (g *KotlinGenerator) basicToULong(ty *definition.BasicType, expr string) st
 	case definition.TypeID_Bool:
 		return "(if (" + expr + ") 1uL else 0uL)"
 	case definition.TypeID_Float32:
-		return "" + expr + ".toRawBits().toUInt().toULong()"
+		return "(" + expr + ").toRawBits().toUInt().toULong()"
 	case definition.TypeID_Float64:
-		return "" + expr + ".toRawBits().toULong()"
+		return "(" + expr + ").toRawBits().toULong()"
 	default:
 		return "(" + expr + ").toULong()"
 	}
-- 
2.43.0

