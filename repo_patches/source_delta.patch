From 4ef883aa3ba89f16447b284b847d318236101648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:34 +0000
Subject: [PATCH 01/50] fix: integer and float literals were truncated to 32
 bits by the lexer

---
 tiny/include/expr.h  | 4 ++--
 tiny/include/lexer.h | 4 ++--
 tiny/src/lexer.c     | 8 +++-----
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/tiny/include/expr.h b/tiny/include/expr.h
index 7292418..7bd4a8e 100644
--- a/tiny/include/expr.h
+++ b/tiny/include/expr.h
@@ -59,8 +59,8 @@ typedef struct Tiny_Expr {
     union {
         bool boolean;
 
-        int iValue;
-        float fValue;
+        Tiny_Int iValue;
+        Tiny_Float fValue;
         int sIndex;
 
         struct {
diff --git a/tiny/include/lexer.h b/tiny/include/lexer.h
index 2692028..ae10e84 100644
--- a/tiny/include/lexer.h
+++ b/tiny/include/lexer.h
@@ -22,8 +22,8 @@ typedef struct {
 
     union {
         bool bValue;
-        int iValue;
-        float fValue;
+        Tiny_Int iValue;
+        Tiny_Float fValue;
     };
 
     const char *errorMsg;
diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index a6dd938..9c91bbd 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -206,13 +206,11 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
         sb_push(&l->ctx, l->lexeme, 0);
 
         if (isFloat) {
-            l->fValue = (float)strtod(l->lexeme, NULL);
+            l->fValue = strtod(l->lexeme, NULL);
         } else if (isHex) {
-            int64_t value = strtoll(l->lexeme, NULL, 16);
-
-            l->iValue = (int)value;
+            l->iValue = (Tiny_Int)strtoull(l->lexeme, NULL, 16);
         } else {
-            l->iValue = strtol(l->lexeme, NULL, 10);
+            l->iValue = strtoll(l->lexeme, NULL, 10);
         }
 
         return isFloat ? TINY_TOK_FLOAT : TINY_TOK_INT;
-- 
2.43.0


From 8bfe195b9f9a65d82afd063d43c9d2febd688cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:44 +0000
Subject: [PATCH 02/50] fix: Tiny_NewInt truncated the results of integer
 instructions, constants and conversions to 32 bits

---
 tiny/include/tiny.h | 2 +-
 tiny/src/tiny.c     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tiny/include/tiny.h b/tiny/include/tiny.h
index 9f535f6..8b56fb6 100644
--- a/tiny/include/tiny.h
+++ b/tiny/include/tiny.h
@@ -183,7 +183,7 @@ extern Tiny_Context Tiny_DefaultContext;
 void Tiny_ProtectFromGC(Tiny_Value value);
 
 Tiny_Value Tiny_NewBool(bool value);
-Tiny_Value Tiny_NewInt(int i);
+Tiny_Value Tiny_NewInt(Tiny_Int i);
 Tiny_Value Tiny_NewFloat(Tiny_Float f);
 Tiny_Value Tiny_NewConstString(const char *string);
 Tiny_Value Tiny_NewLightNative(void *ptr);
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 43d90b8..8dfb487 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -353,7 +353,7 @@ Tiny_Value Tiny_NewBool(bool value) {
     return val;
 }
 
-Tiny_Value Tiny_NewInt(int i) {
+Tiny_Value Tiny_NewInt(Tiny_Int i) {
     Tiny_Value val;
 
     val.type = TINY_VAL_INT;
@@ -428,7 +428,7 @@ Tiny_Value Tiny_NewStringCopyNullTerminated(Tiny_StateThread *thread, const char
 static void Symbol_destroy(Tiny_Symbol *sym, Tiny_Context *ctx);
 
 static Tiny_Value Lib_ToInt(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    return Tiny_NewInt((int)Tiny_ToFloat(args[0]));
+    return Tiny_NewInt((Tiny_Int)Tiny_ToFloat(args[0]));
 }
 
 static Tiny_Value Lib_ToFloat(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-- 
2.43.0


From 38c1c525a10089897128793be3f322c23840a21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:44 +0000
Subject: [PATCH 03/50] fix: PUSH_STRING read an 8 byte index where the
 compiler writes a 4 byte one

---
 tiny/src/tiny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 8dfb487..953182d 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1217,7 +1217,7 @@ inline static bool ExecuteCycle(Tiny_StateThread *thread) {
 
         case TINY_OP_PUSH_STRING: {
             ++thread->pc;
-            Tiny_Int stringIndex = ReadInteger(thread);
+            Tiny_ConstantIndex stringIndex = ReadConstIndex(thread);
             DoPush(thread, Tiny_NewConstString(state->strings[stringIndex]));
         } break;
 
-- 
2.43.0


From d78f3ebac561b4eeb7e1eb96ef495e604edead65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:44 +0000
Subject: [PATCH 04/50] fix: garbage collection recursed without end on structs
 that refer to themselves

---
 tiny/src/tiny.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 953182d..71bbc63 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -131,14 +131,15 @@ void Tiny_ProtectFromGC(Tiny_Value value) {
 
     if (obj->marked) return;
 
+    // Mark before following references: structs can (indirectly) refer to themselves
+    obj->marked = 1;
+
     if (obj->type == TINY_VAL_NATIVE) {
         if (obj->nat.prop && obj->nat.prop->protectFromGC)
             obj->nat.prop->protectFromGC(obj->nat.addr);
     } else if (obj->type == TINY_VAL_STRUCT) {
         for (int i = 0; i < obj->ostruct.n; ++i) Tiny_ProtectFromGC(obj->ostruct.fields[i]);
     }
-
-    obj->marked = 1;
 }
 
 static void MarkAll(Tiny_StateThread *thread);
-- 
2.43.0


From f814683f33dfaaa779abfb5ef629bbfd80891d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:45 +0000
Subject: [PATCH 05/50] fix: adding or subtracting the literal 1 corrupted
 float operands

---
 tiny/src/tiny.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 71bbc63..755edf6 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3200,6 +3200,12 @@ static void CompileCall(Tiny_State *state, Tiny_Expr *exp) {
     CompileCallSymbolWithArgsPrepared(state, (Word)nargs, sym, exp);
 }
 
+// The ADD1/SUB1 instructions only work on ints, so the other operand must be one as well
+static bool IsIntPlusOne(const Tiny_Expr *lhs, const Tiny_Expr *rhs) {
+    return lhs->tag == GetPrimTag(TINY_SYM_TAG_INT) && rhs->type == TINY_EXP_INT &&
+           rhs->iValue == 1;
+}
+
 static void CompileExpr(Tiny_State *state, Tiny_Expr *exp) {
     switch (exp->type) {
         case TINY_EXP_NULL: {
@@ -3283,7 +3289,7 @@ static void CompileExpr(Tiny_State *state, Tiny_Expr *exp) {
                 case TINY_TOK_PLUS: {
                     CompileExpr(state, exp->binary.lhs);
 
-                    if (exp->binary.rhs->type == TINY_EXP_INT && exp->binary.rhs->iValue == 1) {
+                    if (IsIntPlusOne(exp->binary.lhs, exp->binary.rhs)) {
                         GenerateCode(state, TINY_OP_ADD1);
                     } else {
                         CompileExpr(state, exp->binary.rhs);
@@ -3294,7 +3300,7 @@ static void CompileExpr(Tiny_State *state, Tiny_Expr *exp) {
                 case TINY_TOK_MINUS: {
                     CompileExpr(state, exp->binary.lhs);
 
-                    if (exp->binary.rhs->type == TINY_EXP_INT && exp->binary.rhs->iValue == 1) {
+                    if (IsIntPlusOne(exp->binary.lhs, exp->binary.rhs)) {
                         GenerateCode(state, TINY_OP_SUB1);
                     } else {
                         CompileExpr(state, exp->binary.rhs);
@@ -3659,8 +3665,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                         case TINY_TOK_PLUSEQUAL: {
                             CompileGetLHS(state, exp->binary.lhs);
 
-                            if (exp->binary.rhs->type == TINY_EXP_INT &&
-                                exp->binary.rhs->iValue == 1) {
+                            if (IsIntPlusOne(exp->binary.lhs, exp->binary.rhs)) {
                                 GenerateCode(state, TINY_OP_ADD1);
                             } else {
                                 CompileExpr(state, exp->binary.rhs);
@@ -3671,8 +3676,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                         case TINY_TOK_MINUSEQUAL: {
                             CompileGetLHS(state, exp->binary.lhs);
 
-                            if (exp->binary.rhs->type == TINY_EXP_INT &&
-                                exp->binary.rhs->iValue == 1) {
+                            if (IsIntPlusOne(exp->binary.lhs, exp->binary.rhs)) {
                                 GenerateCode(state, TINY_OP_SUB1);
                             } else {
                                 CompileExpr(state, exp->binary.rhs);
-- 
2.43.0


From 8fc665995502e50987db32b3331ce0c0c61bc307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 06/50] fix: a nullable value could not be assigned to its own
 nullable type

---
 tiny/src/tiny.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 755edf6..9ed5a81 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2480,6 +2480,11 @@ static bool IsTagAssignableTo(const Tiny_Symbol *src, const Tiny_Symbol *dest) {
     }
 
     if (dest->type == TINY_SYM_TAG_NULLABLE) {
+        // A T? can be assigned to a T? as well as a T
+        if (src->type == TINY_SYM_TAG_NULLABLE) {
+            src = src->nullableTag;
+        }
+
         return IsTagAssignableTo(src, dest->nullableTag);
     }
 
-- 
2.43.0


From 1a64de29cd92799a90057367132d2cd7c540d467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 07/50] fix: calls that supply too few arguments to a Tiny
 function were accepted

---
 tiny/src/tiny.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 9ed5a81..5449e37 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3105,6 +3105,13 @@ static void CompileCallSymbolWithArgsPrepared(Tiny_State *state, Word nargs, con
         GenerateCode(state, (Word)nargs);
         GEN_VALUE_NOPOS(state, &fn->foreignFunc.index);
     } else {
+        int fNargs = sb_count(fn->func.args);
+
+        if (fNargs != nargs) {
+            ReportErrorE(state, errorExp, "Function '%s' expects %d args but you supplied %d.\n",
+                         fn->name, fNargs, nargs);
+        }
+
         GenerateCode(state, TINY_OP_CALL);
         GenerateCode(state, (Word)nargs);
         GEN_VALUE_NOPOS(state, &fn->func.index);
-- 
2.43.0


From 0333bb5df4790d5a7146ab8cc91d0f01069b6afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 08/50] fix: constructors that leave fields uninitialized or
 initialize one twice were accepted

---
 tiny/src/tiny.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 5449e37..148da0c 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2903,6 +2903,14 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                 }
 
                 if (exp->constructor.argNamesHead) {
+                    for (const Tiny_StringNode *prev = exp->constructor.argNamesHead;
+                         prev != nameNode; prev = prev->next) {
+                        if (strcmp(prev->value, nameNode->value) == 0) {
+                            ReportErrorE(state, argNode, "Field .%s is initialized more than once.",
+                                         nameNode->value);
+                        }
+                    }
+
                     bool found = false;
 
                     for (int j = 0; j < tagCount; ++j) {
@@ -2952,6 +2960,12 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                 }
             }
 
+            if (i < tagCount) {
+                ReportErrorE(state, exp,
+                             "struct %s constructor expects %d args but you supplied %d.",
+                             GetTagName(exp->constructor.structTag), tagCount, i);
+            }
+
             exp->tag = exp->constructor.structTag;
         } break;
 
-- 
2.43.0


From 0bfbb31736594bf5326ea9b7470fb8bd81121566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 09/50] fix: break and continue outside of a loop were accepted
 and jumped to the start of the program

---
 tiny/src/tiny.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 148da0c..c7dfeac 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3821,6 +3821,10 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                 CompileStatement(state, exp->proc.body);
             }
 
+            // Every break/continue which is inside a loop is patched with that loop; there must be
+            // no other ones
+            PatchBreakContinue(state, exp->proc.body, -1, -1);
+
             GenerateCode(state, TINY_OP_RETURN);
 
             PatchJumpLoc(state, skipFuncBodyLoc, sb_count(state->program));
@@ -3911,6 +3915,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
 static void CompileProgram(Tiny_State *state, Tiny_Expr *progHead) {
     for (Tiny_Expr *exp = progHead; exp; exp = exp->next) {
         CompileStatement(state, exp);
+        PatchBreakContinue(state, exp, -1, -1);
     }
 }
 
-- 
2.43.0


From f55e1d06302ab6a74534fbb826f2fda3409fc5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 10/50] fix: compound assignment accepted operands that are not
 numbers

---
 tiny/src/tiny.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index c7dfeac..e31f59e 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2734,6 +2734,21 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                             GetTagName(exp->binary.rhs->tag), GetTagName(exp->binary.lhs->tag));
                     }
 
+                    // The compound ones do arithmetic, so the operands need to be numbers
+                    if (exp->binary.op != TINY_TOK_EQUAL) {
+                        bool isInt = exp->binary.lhs->tag->type == TINY_SYM_TAG_INT;
+                        bool isFloat = exp->binary.lhs->tag->type == TINY_SYM_TAG_FLOAT;
+                        bool intOnly = exp->binary.op == TINY_TOK_PERCENTEQUAL ||
+                                       exp->binary.op == TINY_TOK_OREQUAL ||
+                                       exp->binary.op == TINY_TOK_ANDEQUAL;
+
+                        if (!isInt && (intOnly || !isFloat)) {
+                            ReportErrorE(state, exp, "Compound assignment to a '%s' needs %s.",
+                                         GetTagName(exp->binary.lhs->tag),
+                                         intOnly ? "an int" : "an int or a float");
+                        }
+                    }
+
                     exp->tag = GetPrimTag(TINY_SYM_TAG_VOID);
                 } break;
 
-- 
2.43.0


From 45cdf4d682a132bfb3fbeb7850f6db65fbbe0625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:52 +0000
Subject: [PATCH 11/50] fix: the disassembler did not know the shift
 instructions

---
 tiny/src/tiny.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index e31f59e..fbea810 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4289,6 +4289,8 @@ bool Tiny_DisasmOne(const Tiny_State *state, int *ppc, char *buf, size_t maxlen)
             OP_NO_ARGS(MOD)
             OP_NO_ARGS(OR)
             OP_NO_ARGS(AND)
+            OP_NO_ARGS(SHIFT_LEFT)
+            OP_NO_ARGS(SHIFT_RIGHT)
             OP_NO_ARGS(LT)
             OP_NO_ARGS(LTE)
             OP_NO_ARGS(GT)
-- 
2.43.0


From 543eec79ec03e1c50dd1bc14c00a412c6b563da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:52 +0000
Subject: [PATCH 12/50] fix: strings with embedded NULs compared equal when
 they differ after the NUL

---
 tiny/src/tiny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index fbea810..662f1f3 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -242,7 +242,7 @@ bool Tiny_AreValuesEqual(Tiny_Value a, Tiny_Value b) {
             return false;
         }
 
-        return strncmp(a.obj->string.ptr, Tiny_ToString(b), aLen) == 0;
+        return memcmp(a.obj->string.ptr, Tiny_ToString(b), aLen) == 0;
     }
 
     if (a.type == TINY_VAL_CONST_STRING) {
-- 
2.43.0


From bc45bd6aaecf6626161ebc4ce7bdfc97912ec367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:54 +0000
Subject: [PATCH 13/50] fix: a failed compilation left the code, symbols and
 line records of the state damaged

---
 tiny/src/tiny.c | 65 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 65 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 662f1f3..7249b36 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4024,6 +4024,31 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
     int firstSymIndex = sb_count(state->globalSymbols);
     int startCodeLen = sb_count(state->program);
 
+    // What a failed compilation has to put back
+    int startNumGlobalVars = state->numGlobalVars;
+    int startNumFunctions = state->numFunctions;
+    int startNumForeignFunctions = state->numForeignFunctions;
+    int startScope = state->currScope;
+    Tiny_Symbol *startFunc = state->currFunc;
+
+    int startNumRecords = sb_count(state->pcToFileLine);
+    Tiny_PCToFileLine lastRecord = {0};
+
+    if (startNumRecords > 0) {
+        lastRecord = state->pcToFileLine[startNumRecords - 1];
+    }
+
+    // Structs which were only referred to so far (ex. in foreign function signatures)
+    Tiny_Symbol **undefinedStructs = NULL;
+
+    for (int i = 0; i < firstSymIndex; ++i) {
+        Tiny_Symbol *s = state->globalSymbols[i];
+
+        if (s->type == TINY_SYM_TAG_STRUCT && !s->sstruct.defined) {
+            sb_push(&state->ctx, undefinedStructs, s);
+        }
+    }
+
     // We have to do this _before_ setjmp because it'll get
     // incremented again if it jumps back and we put it after
     state->compileCallNestCount += 1;
@@ -4040,6 +4065,39 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
             stb__sbn(state->globalSymbols) = firstSymIndex;
         }
 
+        for (int i = 0; i < sb_count(undefinedStructs); ++i) {
+            Tiny_Symbol *s = undefinedStructs[i];
+
+            if (s->type != TINY_SYM_TAG_STRUCT) {
+                continue;
+            }
+
+            for (int j = 0; j < sb_count(s->sstruct.fields); ++j) {
+                Symbol_destroy(s->sstruct.fields[j], &state->ctx);
+            }
+
+            sb_free(&state->ctx, s->sstruct.fields);
+
+            s->sstruct.fields = NULL;
+            s->sstruct.defined = false;
+        }
+
+        sb_free(&state->ctx, undefinedStructs);
+
+        state->numGlobalVars = startNumGlobalVars;
+        state->numFunctions = startNumFunctions;
+        state->numForeignFunctions = startNumForeignFunctions;
+        state->currScope = startScope;
+        state->currFunc = startFunc;
+
+        if (state->pcToFileLine) {
+            stb__sbn(state->pcToFileLine) = startNumRecords;
+        }
+
+        if (startNumRecords > 0) {
+            state->pcToFileLine[startNumRecords - 1] = lastRecord;
+        }
+
         // TOOD(Apaar): Can we just goto below?
         Tiny_DestroyLexer(&state->l);
         Tiny_DestroyArena(&state->parserArena);
@@ -4049,6 +4107,11 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
             stb__sbn(state->program) = startCodeLen;
         }
 
+        // CompileState overwrites the TINY_OP_HALT at the end of the previous code
+        if (startCodeLen > 0) {
+            state->program[startCodeLen - 1] = TINY_OP_HALT;
+        }
+
         state->l = prevLexer;
         state->parserArena = prevParserArena;
         --state->compileCallNestCount;
@@ -4119,6 +4182,8 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
                      lastSymIndex);  // Done after compilation because it might have registered
                                      // undefined functions during the compilation stage
 
+    sb_free(&state->ctx, undefinedStructs);
+
     Tiny_DestroyLexer(&state->l);
 
     // Deletes all the parser data in one go, no deletion chores required
-- 
2.43.0


From e266c1ad7d2907b96d3d112d6a5b0680f468ccc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 14/50] fix: the lexer never returned from an unterminated
 string

---
 tiny/src/lexer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index 9c91bbd..8b96a06 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -268,6 +268,11 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
         l->last = GetChar(l);
 
         while (l->last != '"') {
+            if (l->last == 0) {
+                l->errorMsg = "Expected \" to close previous \".";
+                return TINY_TOK_LEXER_ERROR;
+            }
+
             CHECK_ESCAPE();
 
             sb_push(&l->ctx, l->lexeme, l->last);
-- 
2.43.0


From 89fcf489d95d02c9a4659456349b3833053e6280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 15/50] fix: newlines inside string and char literals were not
 counted as lines

---
 tiny/src/lexer.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index 8b96a06..ca024e9 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -239,6 +239,9 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
                 case 'b':           \
                     l->last = '\b'; \
                     break;          \
+                case '\n':          \
+                    l->lineNumber++;\
+                    break;          \
             }                       \
         }                           \
     } while (0)
@@ -246,6 +249,8 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
     if (l->last == '\'') {
         l->last = GetChar(l);
 
+        if (l->last == '\n') l->lineNumber++;
+
         CHECK_ESCAPE();
 
         l->iValue = l->last;
@@ -273,6 +278,8 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
                 return TINY_TOK_LEXER_ERROR;
             }
 
+            if (l->last == '\n') l->lineNumber++;
+
             CHECK_ESCAPE();
 
             sb_push(&l->ctx, l->lexeme, l->last);
-- 
2.43.0


From 69c5e2e5d9080acb31553aec1768c1c43586d430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:24 +0000
Subject: [PATCH 16/50] fix: overflowing the operand stack wrote past its end
 instead of stopping

---
 tiny/src/tiny.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 7249b36..2054745 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1132,6 +1132,8 @@ static Tiny_Float ReadFloat(Tiny_StateThread *thread) {
 }
 
 static void DoPush(Tiny_StateThread *thread, Tiny_Value value) {
+    assert(thread->sp < TINY_THREAD_STACK_SIZE);
+
     thread->stack[thread->sp++] = value;
 }
 
@@ -1177,6 +1179,9 @@ inline static bool ExecuteCycle(Tiny_StateThread *thread) {
         case TINY_OP_PUSH_NULL_N: {
             ++thread->pc;
             Word n = state->program[thread->pc++];
+
+            assert(thread->sp + n <= TINY_THREAD_STACK_SIZE);
+
             memset(&thread->stack[thread->sp], 0, sizeof(Tiny_Value) * n);
             thread->sp += n;
         } break;
-- 
2.43.0


From 694311cd0e29608dd847dcb9b3c31c19bd1e2d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:25 +0000
Subject: [PATCH 17/50] fix: a macro with 129 arguments wrote past the end of
 the argument array

---
 tiny/src/tiny.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 2054745..280e0cf 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4145,9 +4145,10 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
                 char **argp = args;
 
                 for (Tiny_StringNode *node = exp->use.argsHead; node; node = node->next) {
-                    if (argp - args > sizeof(args) / sizeof(args[0])) {
+                    if (argp - args >= sizeof(args) / sizeof(args[0])) {
                         ReportErrorE(state, exp, "Macro %s takes too many args (limit is %d)",
-                                     exp->use.moduleName->value, sizeof(args) / sizeof(args[0]));
+                                     exp->use.moduleName->value,
+                                     (int)(sizeof(args) / sizeof(args[0])));
                     }
 
                     *argp++ = node->value;
-- 
2.43.0


From 80817b9a97fd6ee08efd901eae9abac8008ffe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:52 +0000
Subject: [PATCH 18/50] fix: error messages printed a node's bytes as if they
 were an identifier

---
 tiny/src/tiny.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 280e0cf..63134a6 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2568,7 +2568,7 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
 
                 if (i >= argc && !isVarargs) {
                     ReportErrorE(state, node, "Too many arguments to function '%s' (%d expected).",
-                                 exp->call.calleeName, argc);
+                                 exp->call.calleeName->value, argc);
                 }
 
                 if (func->type == TINY_SYM_FOREIGN_FUNCTION) {
@@ -3155,7 +3155,8 @@ static void CompileCallSymbolWithArgsPrepared(Tiny_State *state, Word nargs, con
 static void CompileGetLHS(Tiny_State *state, Tiny_Expr *exp) {
     if (exp->type == TINY_EXP_ID) {
         if (!exp->id.sym)
-            ReportErrorE(state, exp, "Referencing undeclared identifier '%s'.\n", exp->id.name);
+            ReportErrorE(state, exp, "Referencing undeclared identifier '%s'.\n",
+                         exp->id.name->value);
 
         assert(exp->id.sym->type == TINY_SYM_GLOBAL || exp->id.sym->type == TINY_SYM_LOCAL ||
                exp->id.sym->type == TINY_SYM_CONST);
@@ -3233,14 +3234,14 @@ static void CompileCall(Tiny_State *state, Tiny_Expr *exp) {
     Tiny_Symbol *sym = ReferenceFunction(state, exp->call.calleeName->value);
     if (!sym) {
         ReportErrorE(state, exp, "Attempted to call undefined function '%s'.\n",
-                     exp->call.calleeName);
+                     exp->call.calleeName->value);
     }
 
     if (nargs > UCHAR_MAX) {
         ReportErrorE(state, exp,
                      "Attempted to call function '%s' with %d args. Tiny supports calling "
                      "functions with %d args at most.",
-                     exp->call.calleeName, nargs, UCHAR_MAX);
+                     exp->call.calleeName->value, nargs, UCHAR_MAX);
     }
 
     CompileCallSymbolWithArgsPrepared(state, (Word)nargs, sym, exp);
@@ -3769,7 +3770,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                         if (!exp->binary.lhs->id.sym) {
                             // The variable being referenced doesn't exist
                             ReportErrorE(state, exp, "Assigning to undeclared identifier '%s'.\n",
-                                         exp->binary.lhs->id.name);
+                                         exp->binary.lhs->id.name->value);
                         }
 
                         if (exp->binary.lhs->id.sym->type == TINY_SYM_GLOBAL) {
@@ -3781,7 +3782,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                         } else  // Probably a constant, can't change it
                         {
                             ReportErrorE(state, exp, "Cannot assign to id '%s'.\n",
-                                         exp->binary.lhs->id.name);
+                                         exp->binary.lhs->id.name->value);
                         }
 
                         exp->binary.lhs->id.sym->var.initialized = true;
-- 
2.43.0


From 241a064386a3e3a99ec3551381ba2973842aaf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 19/50] fix: a nested call from the host could free the return
 value it restores afterwards

---
 tiny/src/tiny.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 63134a6..92b091a 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -596,6 +596,9 @@ Tiny_Value Tiny_CallFunction(Tiny_StateThread *thread, int functionIndex, const
 
     AllocGlobals(thread);
 
+    // Keep the saved return value on the stack so that it survives garbage collection
+    DoPush(thread, retVal);
+
     for (int i = 0; i < count; ++i) {
         DoPush(thread, args[i]);
     }
-- 
2.43.0


From 773a8914ef2d493ca99dcceeead6ec5c2649dfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:19 +0000
Subject: [PATCH 20/50] fix: sorting ints compared their difference truncated
 to 32 bits

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index f1e6685..1a7c868 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -324,7 +324,7 @@ static int CompareInts(const void *aRaw, const void *bRaw) {
     assert(a->type == TINY_VAL_INT);
     assert(b->type == TINY_VAL_INT);
 
-    return a->i - b->i;
+    return (a->i > b->i) - (a->i < b->i);
 }
 
 static TINY_FOREIGN_FUNCTION(Lib_ArraySortInt) {
-- 
2.43.0


From 123b3e4258d9a5a712c0f02e3f12dc68caa8e15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 21/50] fix: str_to_json concatenated values from beyond its
 argument array

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 1a7c868..1e7cb9b 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1013,7 +1013,7 @@ static TINY_FOREIGN_FUNCTION(Lib_PrimitiveToJson) {
             Tiny_Value forwardArgs[] = {Tiny_NewConstString("\""), args[0],
                                         Tiny_NewConstString("\"")};
 
-            return Strcat(thread, forwardArgs, sizeof(forwardArgs));
+            return Strcat(thread, forwardArgs, sizeof(forwardArgs) / sizeof(forwardArgs[0]));
         } break;
 
         default:
-- 
2.43.0


From ff8b84738f5e269514ab3e0a7a9cf817a48c8b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 22/50] fix: int_to_json lost digits of large ints

---
 tiny/src/std.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 1e7cb9b..ddead2a 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1004,8 +1004,9 @@ static TINY_FOREIGN_FUNCTION(Lib_PrimitiveToJson) {
             return Tiny_NewConstString("null");
         case TINY_VAL_BOOL:
             return Tiny_NewConstString(args[0].boolean ? "true" : "false");
-        case TINY_VAL_FLOAT:
         case TINY_VAL_INT:
+            return Lib_IntToStr(thread, args, count);
+        case TINY_VAL_FLOAT:
             return Lib_Ntos(thread, args, count);
         case TINY_VAL_CONST_STRING:
         case TINY_VAL_STRING: {
-- 
2.43.0


From 308e3d820d9a254a11450105e93d37326e485fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:22 +0000
Subject: [PATCH 23/50] fix: fread left a gap of uninitialized bytes before the
 terminator on short reads

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index ddead2a..b67fae5 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -114,7 +114,7 @@ static Tiny_Value Lib_Fread(Tiny_StateThread *thread, const Tiny_Value *args, in
         return Tiny_NewConstString("");
     }
 
-    str[num] = '\0';
+    str[readCount] = '\0';
 
     return Tiny_NewString(thread, str, readCount);
 }
-- 
2.43.0


From 9154d9ae8f013e06aa4a2bab44402b06b28c90b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 24/50] fix: printf read past the end of a format that ends in
 '%' and rejected '%%'

---
 tiny/src/std.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index b67fae5..83af1df 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -683,11 +683,13 @@ static Tiny_Value Lib_Printf(Tiny_StateThread *thread, const Tiny_Value *args, i
                     break;
                 case '%':
                     putc('%', stdout);
+                    break;
 
                 default:
                     printf("\nInvalid format specifier '%c'\n", *fmt);
             }
-            ++fmt;
+
+            if (*fmt) ++fmt;
             ++arg;
         } else
             putc(*fmt++, stdout);
-- 
2.43.0


From 8421c682e08fd72e7510a3fa2aa82fb8e0fd41bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 25/50] fix: input never returned at the end of the file

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 83af1df..fb5a3a8 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -563,7 +563,7 @@ static Tiny_Value Lib_Input(Tiny_StateThread *thread, const Tiny_Value *args, in
     int c = getc(stdin);
     int i = 0;
 
-    while (c != '\n') {
+    while (c != '\n' && c != EOF) {
         if (bufferLength + 1 >= bufferCapacity) {
             bufferCapacity *= 2;
             buffer = Tiny_AllocUsingContext(thread->ctx, buffer, bufferCapacity);
-- 
2.43.0


From a48b5477be7c806d60c383b7ac862c428ab07059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 26/50] fix: strlen and stridx ignored everything after a NUL
 and indices beyond 32 bits wrapped around

---
 tiny/src/std.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index fb5a3a8..2cbe356 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -45,14 +45,14 @@ void __stdcall Sleep(DWORD dwMilliseconds);
 static Tiny_Value Strlen(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     Tiny_Value val = args[0];
 
-    return Tiny_NewInt(strlen(Tiny_ToString(val)));
+    return Tiny_NewInt(Tiny_StringLen(val));
 }
 
 static Tiny_Value Stridx(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     const char *s = Tiny_ToString(args[0]);
-    size_t len = strlen(s);
+    size_t len = Tiny_StringLen(args[0]);
 
-    int i = Tiny_ToInt(args[1]);
+    Tiny_Int i = Tiny_ToInt(args[1]);
 
     assert(i >= 0 && i < len);
 
-- 
2.43.0


From faaa3d7cb41280ea8fcd91faacc0985711755b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:26 +0000
Subject: [PATCH 27/50] fix: clearing or resizing an array without storage
 wrote to an invalid address

---
 tiny/src/array.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tiny/src/array.c b/tiny/src/array.c
index 7f3f6b0..3308202 100644
--- a/tiny/src/array.c
+++ b/tiny/src/array.c
@@ -20,7 +20,9 @@ void InitArrayEx(Array *array, Tiny_Context ctx, int length, const Tiny_Value *i
 
 int ArrayLen(Array *array) { return sb_count(array->data); }
 
-void ArrayClear(Array *array) { stb__sbn(array->data) = 0; }
+void ArrayClear(Array *array) {
+    if (array->data) stb__sbn(array->data) = 0;
+}
 
 void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
     assert(newLen >= 0);
@@ -33,7 +35,7 @@ void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
         for (int i = len; i < newLen; ++i) {
             newValues[i] = newValue;
         }
-    } else {
+    } else if (array->data) {
         stb__sbn(array->data) = newLen;
     }
 }
-- 
2.43.0


From 4a26605a604e7b409cd4d5e53e527bccdf9be16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 28/50] fix: 'use json' and 'use delegate' crashed on names
 that do not exist

---
 tiny/src/std.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 2cbe356..b6ab57d 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -840,7 +840,7 @@ static TINY_MACRO_FUNCTION(JsonMacroFunction) {
 
     const Tiny_Symbol *sym = Tiny_FindTypeSymbol(state, args[0]);
 
-    if (sym->type != TINY_SYM_TAG_STRUCT) {
+    if (!sym || sym->type != TINY_SYM_TAG_STRUCT) {
         return (Tiny_MacroResult){
             .type = TINY_MACRO_ERROR,
             .error.msg = "Must specify struct type as argument to 'use json_mod'",
@@ -1052,6 +1052,13 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
 
     const Tiny_Symbol *func = Tiny_FindFuncSymbol(state, args[0]);
 
+    if (!func) {
+        return (Tiny_MacroResult){
+            .type = TINY_MACRO_ERROR,
+            .error.msg = "The function you specified does not exist",
+        };
+    }
+
     for (int i = 0;
          i < Tiny_SymbolArrayCount(func->type == TINY_SYM_FUNCTION ? func->func.args
                                                                    : func->foreignFunc.argTags);
-- 
2.43.0


From d39354939bdd7aea357cf5a6f3d08068cbbd457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 29/50] fix: 'use json' and 'use delegate' overflowed their
 buffers on large structs and signatures

---
 tiny/src/std.c | 55 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index b6ab57d..55dfd06 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -2,6 +2,7 @@
 #include <errno.h>
 #include <limits.h>
 #include <math.h>
+#include <stdarg.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -770,6 +771,19 @@ static Tiny_Value Lib_I64ToString(Tiny_StateThread *thread, const Tiny_Value *ar
     return Tiny_NewStringCopy(thread, buf, len);
 }
 
+// Appends to the string in buf of which *used characters are used. Once it doesn't fit anymore,
+// *used is >= size and buf holds the start of the string.
+static void AppendFormat(char *buf, size_t size, int *used, const char *fmt, ...) {
+    size_t start = *used < size ? *used : size;
+
+    va_list args;
+    va_start(args, fmt);
+
+    *used += vsnprintf(buf + start, size - start, fmt, args);
+
+    va_end(args);
+}
+
 static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_Symbol *sym) {
     if (sym->type == TINY_SYM_TAG_FOREIGN) {
         // For foreign types, it's up to the calling code to set up an appropriate serializer.
@@ -797,24 +811,30 @@ static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_
         return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
     }
 
-    used +=
-        snprintf(buf, sizeof(buf), "func %s_to_json(v: %s): str {\n\treturn strcat(\"{\",\n\t\t",
+    AppendFormat(buf, sizeof(buf), &used, "func %s_to_json(v: %s): str {\n\treturn strcat(\"{\",\n\t\t",
                  sym->name, sym->name);
 
     for (int i = 0; i < Tiny_SymbolArrayCount(sym->sstruct.fields); ++i) {
         if (i > 0) {
-            used += snprintf(buf + used, sizeof(buf) - used, ", \",\",\n\t\t");
+            AppendFormat(buf, sizeof(buf), &used, ", \",\",\n\t\t");
         }
 
         const Tiny_Symbol *fieldSym = sym->sstruct.fields[i];
 
         BindJsonSerializerForType(state, fieldSym->fieldTag);
 
-        used += snprintf(buf + used, sizeof(buf) - used, "\"\\\"%s\\\":\", %s_to_json(v.%s)",
+        AppendFormat(buf, sizeof(buf), &used, "\"\\\"%s\\\":\", %s_to_json(v.%s)",
                          fieldSym->name, fieldSym->fieldTag->name, fieldSym->name);
     }
 
-    used += snprintf(buf + used, sizeof(buf) - used, ",\n\t\"}\")\n}");
+    AppendFormat(buf, sizeof(buf), &used, ",\n\t\"}\")\n}");
+
+    if (used >= sizeof(buf)) {
+        return (Tiny_MacroResult){
+            .type = TINY_MACRO_ERROR,
+            .error.msg = "The struct is too large for 'use json'",
+        };
+    }
 
     Tiny_CompileResult compileResult = Tiny_CompileString(state, "(json mod)", buf);
 
@@ -1048,7 +1068,7 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
     int argsUsed = 0;
     int paramsUsed = 0;
 
-    typeUsed += snprintf(typeBuf, sizeof(typeBuf), "delegate_");
+    AppendFormat(typeBuf, sizeof(typeBuf), &typeUsed, "delegate_");
 
     const Tiny_Symbol *func = Tiny_FindFuncSymbol(state, args[0]);
 
@@ -1064,18 +1084,17 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
                                                                    : func->foreignFunc.argTags);
          ++i) {
         if (i > 0) {
-            typeUsed += snprintf(typeBuf + typeUsed, sizeof(typeBuf) - typeUsed, "_");
-            argsUsed += snprintf(argsBuf + argsUsed, sizeof(argsBuf) - argsUsed, ", ");
-            paramsUsed += snprintf(paramsBuf + paramsUsed, sizeof(paramsBuf) - paramsUsed, ", ");
+            AppendFormat(typeBuf, sizeof(typeBuf), &typeUsed, "_");
+            AppendFormat(argsBuf, sizeof(argsBuf), &argsUsed, ", ");
+            AppendFormat(paramsBuf, sizeof(paramsBuf), &paramsUsed, ", ");
         }
 
         const Tiny_Symbol *argTag = func->type == TINY_SYM_FUNCTION ? func->func.args[i]->var.tag
                                                                     : func->foreignFunc.argTags[i];
 
-        typeUsed += snprintf(typeBuf + typeUsed, sizeof(typeBuf) - typeUsed, "%s", argTag->name);
-        argsUsed +=
-            snprintf(argsBuf + argsUsed, sizeof(argsBuf) - argsUsed, "a%d: %s", i, argTag->name);
-        paramsUsed += snprintf(paramsBuf + paramsUsed, sizeof(paramsBuf) - paramsUsed, "a%d", i);
+        AppendFormat(typeBuf, sizeof(typeBuf), &typeUsed, "%s", argTag->name);
+        AppendFormat(argsBuf, sizeof(argsBuf), &argsUsed, "a%d: %s", i, argTag->name);
+        AppendFormat(paramsBuf, sizeof(paramsBuf), &paramsUsed, "a%d", i);
     }
 
     const Tiny_Symbol *returnTag =
@@ -1083,7 +1102,15 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
 
     const char *returnTagName = returnTag->name;
 
-    typeUsed += snprintf(typeBuf + typeUsed, sizeof(typeBuf) - typeUsed, "_%s", returnTagName);
+    AppendFormat(typeBuf, sizeof(typeBuf), &typeUsed, "_%s", returnTagName);
+
+    if (typeUsed >= sizeof(typeBuf) || argsUsed >= sizeof(argsBuf) ||
+        paramsUsed >= sizeof(paramsBuf)) {
+        return (Tiny_MacroResult){
+            .type = TINY_MACRO_ERROR,
+            .error.msg = "The signature of the function is too long for 'use delegate'",
+        };
+    }
 
     if (!Tiny_FindTypeSymbol(state, typeBuf)) {
         Tiny_RegisterType(state, typeBuf);
-- 
2.43.0


From 19ffa837baabcdf98550b73f56e7bf4d571b1da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 30/50] verify: loop annotations that expand to nothing unless
 TINY_VERIFY is defined

---
 tiny/include/verify.h | 11 +++++++++++
 tiny/src/arena.c      |  3 +++
 2 files changed, 14 insertions(+)
 create mode 100644 tiny/include/verify.h

diff --git a/tiny/include/verify.h b/tiny/include/verify.h
new file mode 100644
index 0000000..5f0ee0b
--- /dev/null
+++ b/tiny/include/verify.h
@@ -0,0 +1,11 @@
+#pragma once
+
+// Loop annotations for the contract checker. They expand to nothing unless TINY_VERIFY is defined;
+// with it, the including harness supplies "tiny_verify_hooks.h", which turns the annotation of each
+// loop it knows about into an invariant: TINY_VERIFY_LOOP is the first statement of a loop's body and
+// names the loop and the variables the loop changes.
+#ifdef TINY_VERIFY
+#include "tiny_verify_hooks.h"
+#else
+#define TINY_VERIFY_LOOP(id, ...)
+#endif
diff --git a/tiny/src/arena.c b/tiny/src/arena.c
index b2f7221..187d492 100644
--- a/tiny/src/arena.c
+++ b/tiny/src/arena.c
@@ -3,6 +3,7 @@
 #include <assert.h>
 
 #include "util.h"
+#include "verify.h"
 
 static Tiny_ArenaPage* AllocPage(Tiny_Context* ctx, size_t size) {
     Tiny_ArenaPage* page = TMalloc(ctx, sizeof(Tiny_ArenaPage) + size);
@@ -77,6 +78,8 @@ void Tiny_DestroyArena(Tiny_Arena* a) {
     Tiny_ArenaPage* next = NULL;
 
     for (Tiny_ArenaPage* node = a->head; node; node = next) {
+        TINY_VERIFY_LOOP(arena_destroy, node);
+
         next = node->next;
 
         TFree(&a->ctx, node);
-- 
2.43.0


From 7c94f5eebe389b159ec6a882c44a8e8c02983106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:33 +0000
Subject: [PATCH 31/50] fix: break and continue in the header of a for loop
 were accepted and jumped to the start of the program

---
 tiny/src/tiny.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 92b091a..4f4b6c1 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3908,6 +3908,10 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
             PatchJumpLoc(state, skipBodyLoc, sb_count(state->program));
 
             PatchBreakContinue(state, exp->forx.body, sb_count(state->program), stepPc);
+
+            // The initializer and the step are not part of the loop's body
+            PatchBreakContinue(state, exp->forx.init, -1, -1);
+            PatchBreakContinue(state, exp->forx.step, -1, -1);
         } break;
 
         case TINY_EXP_RETURN: {
-- 
2.43.0


From 039b8342f88b301bc990a90172142b71d3990776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:00 +0000
Subject: [PATCH 32/50] fix: growing an array that is not empty wrote its new
 elements behind the end of the storage

---
 tiny/src/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/array.c b/tiny/src/array.c
index 3308202..713eb89 100644
--- a/tiny/src/array.c
+++ b/tiny/src/array.c
@@ -32,7 +32,7 @@ void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
     if (newLen > len) {
         Tiny_Value *newValues = sb_add(&array->ctx, array->data, newLen - len);
 
-        for (int i = len; i < newLen; ++i) {
+        for (int i = 0; i < newLen - len; ++i) {
             newValues[i] = newValue;
         }
     } else if (array->data) {
-- 
2.43.0


From dfd5d729d52ff3d98b1348acd2d237b1f54fb807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:00 +0000
Subject: [PATCH 33/50] verify: annotate the loop of ArrayResize

---
 tiny/src/array.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tiny/src/array.c b/tiny/src/array.c
index 713eb89..a95b001 100644
--- a/tiny/src/array.c
+++ b/tiny/src/array.c
@@ -5,6 +5,7 @@
 #include <string.h>
 
 #include "stretchy_buffer.h"
+#include "verify.h"
 
 void InitArray(Array *array, Tiny_Context ctx) {
     array->ctx = ctx;
@@ -33,6 +34,7 @@ void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
         Tiny_Value *newValues = sb_add(&array->ctx, array->data, newLen - len);
 
         for (int i = 0; i < newLen - len; ++i) {
+            TINY_VERIFY_LOOP(array_resize, i, newValues);
             newValues[i] = newValue;
         }
     } else if (array->data) {
-- 
2.43.0


From 2248cc8f6c7d65e4c43ab5b2225128e2497c444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:08 +0000
Subject: [PATCH 34/50] fix: the size of a stretchy buffer wrapped around at 2
 GiB

---
 tiny/src/stretchy_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/stretchy_buffer.h b/tiny/src/stretchy_buffer.h
index b83ffd9..be17c4f 100644
--- a/tiny/src/stretchy_buffer.h
+++ b/tiny/src/stretchy_buffer.h
@@ -204,7 +204,7 @@ static void *stb__sbgrowf(Tiny_Context *ctx, void *arr, int increment, int items
     int dbl_cur = arr ? 2 * stb__sbm(arr) : 0;
     int min_needed = stb_sb_count(arr) + increment;
     int m = dbl_cur > min_needed ? dbl_cur : min_needed;
-    int *p = (int *)TRealloc(ctx, arr ? stb__sbraw(arr) : 0, itemsize * m + sizeof(int) * 2);
+    int *p = (int *)TRealloc(ctx, arr ? stb__sbraw(arr) : 0, (size_t)itemsize * m + sizeof(int) * 2);
     if (p) {
         if (!arr) p[1] = 0;
         p[0] = m;
-- 
2.43.0


From a67e81e47e5523d01eed11dc61ebd16bf707cd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:25 +0000
Subject: [PATCH 35/50] fix: array indices beyond 32 bits wrapped around
 instead of stopping the program

---
 tiny/include/array.h | 9 +++++----
 tiny/src/array.c     | 8 ++++----
 tiny/src/std.c       | 8 ++++----
 3 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/tiny/include/array.h b/tiny/include/array.h
index b6929a3..dccd979 100644
--- a/tiny/include/array.h
+++ b/tiny/include/array.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <stddef.h>
+#include <stdint.h>
 
 #include "tiny.h"
 
@@ -23,10 +24,10 @@ void ArrayPop(Array *array, Tiny_Value *value);
 // Pop from front
 void ArrayShift(Array *array, Tiny_Value *value);
 
-void ArrayInsert(Array *array, int index, Tiny_Value value);
-void ArrayRemove(Array *array, int index);
+void ArrayInsert(Array *array, int64_t index, Tiny_Value value);
+void ArrayRemove(Array *array, int64_t index);
 
-void ArraySet(Array *array, int index, Tiny_Value value);
-Tiny_Value *ArrayGet(Array *array, int index);
+void ArraySet(Array *array, int64_t index, Tiny_Value value);
+Tiny_Value *ArrayGet(Array *array, int64_t index);
 
 void DestroyArray(Array *array);
diff --git a/tiny/src/array.c b/tiny/src/array.c
index a95b001..b657235 100644
--- a/tiny/src/array.c
+++ b/tiny/src/array.c
@@ -62,7 +62,7 @@ void ArrayShift(Array *array, Tiny_Value *value) {
     stb__sbn(array->data) -= 1;
 }
 
-void ArrayInsert(Array *array, int index, Tiny_Value value) {
+void ArrayInsert(Array *array, int64_t index, Tiny_Value value) {
     int len = sb_count(array->data);
 
     assert(index >= 0 && index < len);
@@ -73,7 +73,7 @@ void ArrayInsert(Array *array, int index, Tiny_Value value) {
     memcpy(&array->data[index], &value, sizeof(Tiny_Value));
 }
 
-void ArrayRemove(Array *array, int index) {
+void ArrayRemove(Array *array, int64_t index) {
     int len = sb_count(array->data);
 
     assert(index >= 0 && index < len);
@@ -82,13 +82,13 @@ void ArrayRemove(Array *array, int index) {
     stb__sbn(array->data) -= 1;
 }
 
-void ArraySet(Array *array, int index, Tiny_Value value) {
+void ArraySet(Array *array, int64_t index, Tiny_Value value) {
     assert(index >= 0 && index < sb_count(array->data));
 
     memcpy(&array->data[index], &value, sizeof(value));
 }
 
-Tiny_Value *ArrayGet(Array *array, int index) {
+Tiny_Value *ArrayGet(Array *array, int64_t index) {
     assert(index >= 0 && index < sb_count(array->data));
 
     return &array->data[index];
diff --git a/tiny/src/std.c b/tiny/src/std.c
index 55dfd06..5e0aaa1 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -266,14 +266,14 @@ static TINY_FOREIGN_FUNCTION(Lib_ArrayPush) {
 
 static TINY_FOREIGN_FUNCTION(Lib_ArrayGet) {
     Array *array = Tiny_ToAddr(args[0]);
-    int index = Tiny_ToInt(args[1]);
+    Tiny_Int index = Tiny_ToInt(args[1]);
 
     return *ArrayGet(array, index);
 }
 
 static Tiny_Value Lib_ArraySet(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     Array *array = Tiny_ToAddr(args[0]);
-    int index = Tiny_ToInt(args[1]);
+    Tiny_Int index = Tiny_ToInt(args[1]);
     Tiny_Value value = args[2];
 
     ArraySet(array, index, value);
@@ -301,7 +301,7 @@ static Tiny_Value Lib_ArrayShift(Tiny_StateThread *thread, const Tiny_Value *arg
 
 static TINY_FOREIGN_FUNCTION(Lib_ArrayRemove) {
     Array *array = Tiny_ToAddr(args[0]);
-    int idx = Tiny_ToInt(args[1]);
+    Tiny_Int idx = Tiny_ToInt(args[1]);
 
     ArrayRemove(array, idx);
 
@@ -310,7 +310,7 @@ static TINY_FOREIGN_FUNCTION(Lib_ArrayRemove) {
 
 static TINY_FOREIGN_FUNCTION(Lib_ArrayInsert) {
     Array *array = Tiny_ToAddr(args[0]);
-    int idx = Tiny_ToInt(args[1]);
+    Tiny_Int idx = Tiny_ToInt(args[1]);
     Tiny_Value value = args[2];
 
     ArrayInsert(array, idx, value);
-- 
2.43.0


From f2dbc2a7f8f4517cfa915c9700077113c4dbc548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:46 +0000
Subject: [PATCH 36/50] verify: annotate the loops of the dictionary

---
 tiny/src/dict.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tiny/src/dict.c b/tiny/src/dict.c
index 9234fe8..ace7f3a 100644
--- a/tiny/src/dict.c
+++ b/tiny/src/dict.c
@@ -4,6 +4,8 @@
 #include <stdlib.h>
 #include <string.h>
 
+#include "verify.h"
+
 #define INIT_BUCKET_COUNT 32
 
 // djb2 - http://www.cse.yorku.ca/~oz/hash.html
@@ -60,6 +62,7 @@ static void Grow(Dict *dict) {
     Init(&newDict, dict->keys.ctx, dict->bucketCount * 2);
 
     for (int i = 0; i < dict->bucketCount; ++i) {
+        TINY_VERIFY_LOOP(dict_grow, i);
         Tiny_Value prevKey = *ArrayGet(&dict->keys, i);
 
         // If there was a value in that bucket
@@ -98,6 +101,7 @@ void DictSet(Dict *dict, Tiny_Value key, Tiny_Value value) {
 
     // While an empty spot or the key we want to set isn't found
     while (!Tiny_IsNull(prevKey) && !Tiny_AreValuesEqual(prevKey, key)) {
+        TINY_VERIFY_LOOP(dict_set, index);
         // Probe for a spot to put this key/value
         ++index;
         index %= dict->bucketCount;
@@ -133,6 +137,7 @@ const Tiny_Value *DictGet(Dict *dict, Tiny_Value key) {
     unsigned long origin = index;
 
     for (;;) {
+        TINY_VERIFY_LOOP(dict_get, index);
         Tiny_Value keyHere = *ArrayGet(&dict->keys, index);
 
         if (Tiny_IsNull(keyHere)) return NULL;
@@ -159,6 +164,7 @@ void DictRemove(Dict *dict, Tiny_Value key) {
     unsigned long origin = index;
 
     for (;;) {
+        TINY_VERIFY_LOOP(dict_remove, index, dict);
         Tiny_Value keyHere = *ArrayGet(&dict->keys, index);
 
         if (Tiny_IsNull(keyHere)) return;  // Done
@@ -193,6 +199,7 @@ void DictRemove(Dict *dict, Tiny_Value key) {
 
 void DictClear(Dict *dict) {
     for (int i = 0; i < dict->bucketCount; ++i) {
+        TINY_VERIFY_LOOP(dict_clear, i);
         ArraySet(&dict->keys, i, Tiny_Null);
         ArraySet(&dict->values, i, Tiny_Null);
     }
-- 
2.43.0


From d2d6b261abfc673785fe104b3f06efb4120f5d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:54 +0000
Subject: [PATCH 37/50] verify: annotate the loops of the collector

---
 tiny/src/std.c  |  5 +++++
 tiny/src/tiny.c | 16 ++++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 5e0aaa1..92ef11f 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -11,6 +11,7 @@
 #include "detail.h"
 #include "dict.h"
 #include "tiny.h"
+#include "verify.h"
 
 #ifdef _WIN32
 
@@ -192,6 +193,8 @@ static void ArrayMark(void *ptr) {
     Array *array = ptr;
 
     for (int i = 0; i < ArrayLen(array); ++i) {
+        TINY_VERIFY_LOOP(mark_array, i);
+
         Tiny_ProtectFromGC(*ArrayGet(array, i));
     }
 }
@@ -340,6 +343,8 @@ static void DictProtectFromGC(void *p) {
     Dict *d = p;
 
     for (int i = 0; i < d->bucketCount; ++i) {
+        TINY_VERIFY_LOOP(mark_dict, i);
+
         Tiny_Value key = *ArrayGet(&d->keys, i);
         if (!Tiny_IsNull(key)) {
             Tiny_ProtectFromGC(key);
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 4f4b6c1..f61c2d7 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -16,6 +16,7 @@
 #include "opcodes.h"
 #include "stretchy_buffer.h"
 #include "util.h"
+#include "verify.h"
 
 #ifndef UCHAR_MAX
 #define UCHAR_MAX 255
@@ -138,7 +139,11 @@ void Tiny_ProtectFromGC(Tiny_Value value) {
         if (obj->nat.prop && obj->nat.prop->protectFromGC)
             obj->nat.prop->protectFromGC(obj->nat.addr);
     } else if (obj->type == TINY_VAL_STRUCT) {
-        for (int i = 0; i < obj->ostruct.n; ++i) Tiny_ProtectFromGC(obj->ostruct.fields[i]);
+        for (int i = 0; i < obj->ostruct.n; ++i) {
+            TINY_VERIFY_LOOP(mark_fields, i);
+
+            Tiny_ProtectFromGC(obj->ostruct.fields[i]);
+        }
     }
 }
 
@@ -147,6 +152,8 @@ static void MarkAll(Tiny_StateThread *thread);
 static void Sweep(Tiny_StateThread *thread) {
     Tiny_Object **object = &thread->gcHead;
     while (*object) {
+        TINY_VERIFY_LOOP(sweep, object);
+
         if (!(*object)->marked) {
             Tiny_Object *unreached = *object;
             --thread->numObjects;
@@ -630,6 +637,8 @@ void Tiny_DestroyThread(Tiny_StateThread *thread) {
 
     // Free all objects in the gc list
     while (thread->gcHead) {
+        TINY_VERIFY_LOOP(destroy_objects, thread);
+
         Tiny_Object *next = thread->gcHead->next;
         DeleteObject(&thread->ctx, thread->gcHead);
         thread->gcHead = next;
@@ -646,8 +655,11 @@ static void MarkAll(Tiny_StateThread *thread) {
 
     for (int i = 0; i < thread->sp; ++i) Tiny_ProtectFromGC(thread->stack[i]);
 
-    for (int i = 0; i < thread->state->numGlobalVars; ++i)
+    for (int i = 0; i < thread->state->numGlobalVars; ++i) {
+        TINY_VERIFY_LOOP(mark_globals, i);
+
         Tiny_ProtectFromGC(thread->globalVars[i]);
+    }
 }
 
 static void GenerateCode(Tiny_State *state, Word inst) {
-- 
2.43.0


From 7070b325628c8e1f9627b0f7700e29db70c4528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:10 +0000
Subject: [PATCH 38/50] fix: the index operator passed operands of any type to
 the functions behind it

---
 tiny/src/tiny.c | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index f61c2d7..13335e7 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2515,6 +2515,36 @@ static bool IsTagAssignableTo(const Tiny_Symbol *src, const Tiny_Symbol *dest) {
     return false;
 }
 
+// The index operator calls these functions behind the scenes, so the arguments have to be checked
+// just like those of an explicit call. The value is the one being assigned, NULL when reading.
+static void CheckIndexArguments(Tiny_State *state, const Tiny_Symbol *func, Tiny_Expr *exp,
+                                const Tiny_Expr *value) {
+    bool isForeign = func->type == TINY_SYM_FOREIGN_FUNCTION;
+
+    const Tiny_Symbol *argTags[] = {exp->index.arr->tag, exp->index.elem->tag,
+                                    value ? value->tag : NULL};
+    int count = value ? 3 : 2;
+
+    int argc = isForeign ? sb_count(func->foreignFunc.argTags) : sb_count(func->func.args);
+    bool isVarargs = isForeign && func->foreignFunc.varargs;
+
+    if (argc > count || (argc < count && !isVarargs)) {
+        ReportErrorE(state, exp, "In order to use [], '%s' must take %d arguments but it takes %d.",
+                     func->name, count, argc);
+    }
+
+    for (int i = 0; i < argc; ++i) {
+        const Tiny_Symbol *expectedArgTag =
+            isForeign ? func->foreignFunc.argTags[i] : func->func.args[i]->var.tag;
+
+        if (!IsTagAssignableTo(argTags[i], expectedArgTag)) {
+            ReportErrorE(state, exp,
+                         "Argument %i to '%s' is supposed to be a '%s' but you supplied a '%s'\n",
+                         i + 1, func->name, GetTagName(expectedArgTag), GetTagName(argTags[i]));
+        }
+    }
+}
+
 static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
     if (exp->tag) return;
 
@@ -2769,6 +2799,12 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                         }
                     }
 
+                    if (exp->binary.lhs->type == TINY_EXP_INDEX &&
+                        exp->binary.lhs->index.setIndexFunc) {
+                        CheckIndexArguments(state, exp->binary.lhs->index.setIndexFunc,
+                                            exp->binary.lhs, exp->binary.rhs);
+                    }
+
                     exp->tag = GetPrimTag(TINY_SYM_TAG_VOID);
                 } break;
 
@@ -3072,8 +3108,7 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                                                   ? getIndexFunc->foreignFunc.returnTag
                                                   : getIndexFunc->func.returnTag;
 
-            // TODO(Apaar): Check that the argument count of getIndexFunc is 2 and also that it
-            // receives the correct argument types.
+            CheckIndexArguments(state, getIndexFunc, exp, NULL);
 
             exp->tag = getIndexReturnType;
 
-- 
2.43.0


From a29c270e41e8c158c9f939540d34e466422184f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:17 +0000
Subject: [PATCH 39/50] fix: an x anywhere in a number was swallowed and
 changed its base

---
 tiny/src/lexer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index ca024e9..51aae42 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -191,8 +191,10 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
         bool isFloat = false;
         bool isHex = false;
 
-        while (isdigit(l->last) || (l->last == 'x' && !isHex) || (isHex && isxdigit(l->last)) ||
-               (l->last == '.' && !isFloat)) {
+        // The x of a hex literal can only follow a leading 0, and a hex literal has no fraction
+        while (isdigit(l->last) ||
+               (l->last == 'x' && sb_count(l->lexeme) == 1 && l->lexeme[0] == '0') ||
+               (isHex && isxdigit(l->last)) || (l->last == '.' && !isFloat && !isHex)) {
             if (l->last == 'x') {
                 isHex = true;
             } else if (l->last == '.') {
-- 
2.43.0


From 2428cdf9c9d15507a1d70fb7110fa43e355c2500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:42 +0000
Subject: [PATCH 40/50] verify: annotate loops of the compiler front end

---
 tiny/src/dict.c  |  6 +++++-
 tiny/src/lexer.c | 11 +++++++++++
 tiny/src/pos.c   |  6 ++++++
 tiny/src/tiny.c  | 36 ++++++++++++++++++++++++++++++++++++
 tiny/src/util.c  |  7 +++++++
 5 files changed, 65 insertions(+), 1 deletion(-)

diff --git a/tiny/src/dict.c b/tiny/src/dict.c
index ace7f3a..59e1a2c 100644
--- a/tiny/src/dict.c
+++ b/tiny/src/dict.c
@@ -13,7 +13,11 @@ static unsigned long HashBytes(const char *first, const char *last) {
     unsigned long hash = 5381;
     int c;
 
-    while (first != last && (c = *first++)) hash = ((hash << 5) + hash) + c; /* hash * 33 + c */
+    while (first != last && (c = *first++)) {
+        TINY_VERIFY_LOOP(hash_bytes, first, hash);
+
+        hash = ((hash << 5) + hash) + c; /* hash * 33 + c */
+    }
 
     return hash;
 }
diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index 51aae42..65985e7 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -7,6 +7,7 @@
 
 #include "stretchy_buffer.h"
 #include "util.h"
+#include "verify.h"
 
 static void ResetLexeme(Tiny_Lexer *l) {
     if (l->lexeme) stb__sbn(l->lexeme) = 0;
@@ -43,6 +44,8 @@ void Tiny_InitLexer(Tiny_Lexer *l, const char *fileName, const char *src, Tiny_C
 
 static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
     while (isspace(l->last)) {
+        TINY_VERIFY_LOOP(lex_space, l);
+
         if (l->last == '\n') l->lineNumber++;
         l->last = GetChar(l);
     }
@@ -53,6 +56,8 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
 
     if (l->last == '/' && Peek(l) == '/') {
         while (l->last && l->last != '\n') {
+            TINY_VERIFY_LOOP(lex_comment, l);
+
             l->last = GetChar(l);
         }
 
@@ -149,6 +154,8 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
         ResetLexeme(l);
 
         while (isalnum(l->last) || l->last == '_') {
+            TINY_VERIFY_LOOP(lex_ident, l);
+
             sb_push(&l->ctx, l->lexeme, l->last);
             l->last = GetChar(l);
         }
@@ -195,6 +202,8 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
         while (isdigit(l->last) ||
                (l->last == 'x' && sb_count(l->lexeme) == 1 && l->lexeme[0] == '0') ||
                (isHex && isxdigit(l->last)) || (l->last == '.' && !isFloat && !isHex)) {
+            TINY_VERIFY_LOOP(lex_number, l, isFloat, isHex);
+
             if (l->last == 'x') {
                 isHex = true;
             } else if (l->last == '.') {
@@ -275,6 +284,8 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
         l->last = GetChar(l);
 
         while (l->last != '"') {
+            TINY_VERIFY_LOOP(lex_string, l);
+
             if (l->last == 0) {
                 l->errorMsg = "Expected \" to close previous \".";
                 return TINY_TOK_LEXER_ERROR;
diff --git a/tiny/src/pos.c b/tiny/src/pos.c
index fbfad1d..b66acf5 100644
--- a/tiny/src/pos.c
+++ b/tiny/src/pos.c
@@ -3,6 +3,8 @@
 #include <assert.h>
 #include <string.h>
 
+#include "verify.h"
+
 Tiny_FriendlyPos Tiny_PosToFriendlyPos(Tiny_Pos pos, const char* src, uint32_t srcLen) {
     assert(src);
     assert(pos.index < srcLen);
@@ -12,6 +14,8 @@ Tiny_FriendlyPos Tiny_PosToFriendlyPos(Tiny_Pos pos, const char* src, uint32_t s
     const char* start = src;
 
     for (;;) {
+        TINY_VERIFY_LOOP(friendly_line, src, friendlyPos);
+
         const char* lineStart = src;
         const char* newLine = strchr(lineStart, '\n');
 
@@ -23,6 +27,8 @@ Tiny_FriendlyPos Tiny_PosToFriendlyPos(Tiny_Pos pos, const char* src, uint32_t s
 
             // Move up to the pos char-by-char
             while (cursor - start < pos.index) {
+                TINY_VERIFY_LOOP(friendly_char, cursor);
+
                 ++cursor;
             }
 
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 13335e7..90ae0f0 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -707,6 +707,8 @@ static void GenerateCode(Tiny_State *state, Word inst) {
 
 static int RegisterString(Tiny_State *state, const char *string) {
     for (int i = 0; i < state->numStrings; ++i) {
+        TINY_VERIFY_LOOP(register_string, i);
+
         if (strcmp(state->strings[i], string) == 0) return i;
     }
 
@@ -783,6 +785,8 @@ static void OpenScope(Tiny_State *state) { ++state->currScope; }
 static void CloseScope(Tiny_State *state) {
     if (state->currFunc) {
         for (int i = 0; i < sb_count(state->currFunc->func.locals); ++i) {
+            TINY_VERIFY_LOOP(close_scope, i);
+
             Tiny_Symbol *sym = state->currFunc->func.locals[i];
 
             assert(sym->type == TINY_SYM_LOCAL);
@@ -800,6 +804,8 @@ static Tiny_Symbol *ReferenceVariable(Tiny_State *state, const char *name) {
     if (state->currFunc) {
         // Check local variables
         for (int i = 0; i < sb_count(state->currFunc->func.locals); ++i) {
+            TINY_VERIFY_LOOP(ref_locals, i);
+
             Tiny_Symbol *sym = state->currFunc->func.locals[i];
 
             assert(sym->type == TINY_SYM_LOCAL);
@@ -812,6 +818,8 @@ static Tiny_Symbol *ReferenceVariable(Tiny_State *state, const char *name) {
 
         // Check arguments
         for (int i = 0; i < sb_count(state->currFunc->func.args); ++i) {
+            TINY_VERIFY_LOOP(ref_args, i);
+
             Tiny_Symbol *sym = state->currFunc->func.args[i];
 
             assert(sym->type == TINY_SYM_LOCAL);
@@ -824,6 +832,8 @@ static Tiny_Symbol *ReferenceVariable(Tiny_State *state, const char *name) {
 
     // Check global variables/constants
     for (int i = 0; i < sb_count(state->globalSymbols); ++i) {
+        TINY_VERIFY_LOOP(ref_globals, i);
+
         Tiny_Symbol *sym = state->globalSymbols[i];
 
         if (sym->type == TINY_SYM_GLOBAL || sym->type == TINY_SYM_CONST) {
@@ -870,6 +880,8 @@ static Tiny_Symbol *DeclareArgument(Tiny_State *state, const char *name, Tiny_Sy
     assert(tag);
 
     for (int i = 0; i < sb_count(state->currFunc->func.args); ++i) {
+        TINY_VERIFY_LOOP(declare_arg, i);
+
         Tiny_Symbol *sym = state->currFunc->func.args[i];
 
         assert(sym->type == TINY_SYM_LOCAL);
@@ -897,6 +909,8 @@ static Tiny_Symbol *DeclareLocal(Tiny_State *state, const char *name) {
     assert(state->currFunc);
 
     for (int i = 0; i < sb_count(state->currFunc->func.locals); ++i) {
+        TINY_VERIFY_LOOP(declare_local, i);
+
         Tiny_Symbol *sym = state->currFunc->func.locals[i];
 
         assert(sym->type == TINY_SYM_LOCAL);
@@ -963,6 +977,8 @@ static Tiny_Symbol *DeclareFunction(Tiny_State *state, const char *name) {
 
 static Tiny_Symbol *ReferenceFunction(Tiny_State *state, const char *name) {
     for (int i = 0; i < sb_count(state->globalSymbols); ++i) {
+        TINY_VERIFY_LOOP(ref_function, i);
+
         Tiny_Symbol *node = state->globalSymbols[i];
 
         if ((node->type == TINY_SYM_FUNCTION || node->type == TINY_SYM_FOREIGN_FUNCTION) &&
@@ -1526,6 +1542,8 @@ static void ExpectTokenSL(Tiny_State *state, Tiny_TokenKind tok, const char *msg
 
 static Tiny_Symbol *GetStructTag(Tiny_State *state, const char *name) {
     for (int i = 0; i < sb_count(state->globalSymbols); ++i) {
+        TINY_VERIFY_LOOP(struct_tag, i);
+
         if (state->globalSymbols[i]->type == TINY_SYM_TAG_STRUCT &&
             strcmp(state->globalSymbols[i]->name, name) == 0) {
             return state->globalSymbols[i];
@@ -1566,6 +1584,8 @@ static Tiny_Symbol *GetTagFromName(Tiny_State *state, const char *name, bool dec
         return GetPrimTag(TINY_SYM_TAG_ANY);
     else {
         for (int i = 0; i < sb_count(state->globalSymbols); ++i) {
+            TINY_VERIFY_LOOP(tag_from_name, i);
+
             Tiny_Symbol *s = state->globalSymbols[i];
 
             if ((s->type == TINY_SYM_TAG_FOREIGN || s->type == TINY_SYM_TAG_STRUCT) &&
@@ -1586,6 +1606,8 @@ static const char *GetTagName(const Tiny_Symbol *tag);
 
 static Tiny_Symbol *GetOrCreateNullable(Tiny_State *state, Tiny_Symbol *inner) {
     for (int i = 0; i < sb_count(state->globalSymbols); ++i) {
+        TINY_VERIFY_LOOP(nullable, i);
+
         Tiny_Symbol *sym = state->globalSymbols[i];
 
         if (sym->type == TINY_SYM_TAG_NULLABLE && sym->nullableTag == inner) {
@@ -1612,6 +1634,8 @@ static Tiny_Symbol *GetFieldTag(Tiny_Symbol *s, const char *name, int *index) {
     assert(s->sstruct.defined);
 
     for (int i = 0; i < sb_count(s->sstruct.fields); ++i) {
+        TINY_VERIFY_LOOP(field_tag, i);
+
         Tiny_Symbol *f = s->sstruct.fields[i];
 
         if (strcmp(f->name, name) == 0) {
@@ -1848,6 +1872,8 @@ static Tiny_Expr *ParseCall(Tiny_State *state, Tiny_StringNode *ident) {
     GetNextToken(state);
 
     while (state->l.lastTok != TINY_TOK_CLOSEPAREN) {
+        TINY_VERIFY_LOOP(parse_call, argsTail, exp);
+
         TINY_LL_APPEND(exp->call.argsHead, argsTail, ParseExpr(state));
 
         if (state->l.lastTok == TINY_TOK_COMMA) {
@@ -2085,6 +2111,8 @@ static Tiny_Expr *ParseSuffix(Tiny_State *state, Tiny_Expr *lhs) {
 
     while (state->l.lastTok == TINY_TOK_DOT || state->l.lastTok == TINY_TOK_ARROW ||
            state->l.lastTok == TINY_TOK_OPENSQUARE) {
+        TINY_VERIFY_LOOP(parse_suffix, exp);
+
         if (state->l.lastTok == TINY_TOK_OPENSQUARE) {
             // This is the "index" operator. Unlike the arrow operator below, we can't just
             // rewrite it as we're going here because it relies on the type of the expression
@@ -2187,6 +2215,8 @@ static int GetTokenPrec(int tok) {
 
 static Tiny_Expr *ParseBinRhs(Tiny_State *state, int exprPrec, Tiny_Expr *lhs) {
     while (true) {
+        TINY_VERIFY_LOOP(parse_bin, lhs);
+
         int prec = GetTokenPrec(state->l.lastTok);
 
         if (prec < exprPrec) return lhs;
@@ -2607,6 +2637,8 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
 
             int i = 0;
             for (Tiny_Expr *node = exp->call.argsHead; node; (node = node->next, ++i)) {
+                TINY_VERIFY_LOOP(resolve_args, node, i);
+
                 ResolveTypes(state, node);
 
                 const Tiny_Symbol *expectedArgTag = NULL;
@@ -2848,6 +2880,8 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
 
         case TINY_EXP_BLOCK: {
             for (Tiny_Expr *node = exp->blockHead; node; node = node->next) {
+                TINY_VERIFY_LOOP(resolve_block, node);
+
                 ResolveTypes(state, node);
             }
 
@@ -3667,6 +3701,8 @@ static void GetFileLineForPC(const Tiny_State *state, int pc, const char **fileN
     int curIndex = 0;
 
     for (;;) {
+        TINY_VERIFY_LOOP(file_line, lo, hi, curIndex);
+
         curIndex = (lo + hi) / 2;
 
         if (lo + 1 >= hi) {
diff --git a/tiny/src/util.c b/tiny/src/util.c
index b19ef6e..7c89130 100644
--- a/tiny/src/util.c
+++ b/tiny/src/util.c
@@ -6,6 +6,7 @@
 #include <string.h>
 
 #include "tiny.h"
+#include "verify.h"
 
 void *TMalloc(Tiny_Context *ctx, size_t size) { return ctx->alloc(NULL, size, ctx->userdata); }
 
@@ -20,6 +21,8 @@ int Tiny_TranslatePosToLineNumber(const char *src, Tiny_TokenPos pos) {
     int lineNumber = 1;
 
     while (curPos < pos) {
+        TINY_VERIFY_LOOP(line_number, curPos, lineNumber);
+
         assert(src[curPos]);
 
         if (src[curPos] == '\n') {
@@ -65,6 +68,8 @@ void Tiny_FormatErrorV(char *buf, size_t bufsize, const char *fileName, const ch
 
         // Print nearest 3 lines
         while (*src) {
+            TINY_VERIFY_LOOP(format_lines, src, used, curLine);
+
             if (abs(lineNumber - curLine) <= 3) {
                 if (curLine == lineNumber) {
                     APPEND("%d ->\t", curLine);
@@ -73,6 +78,8 @@ void Tiny_FormatErrorV(char *buf, size_t bufsize, const char *fileName, const ch
                 }
 
                 while (*src && *src != '\n') {
+                    TINY_VERIFY_LOOP(format_chars, src, used);
+
                     APPEND("%c", *src);
                     src += 1;
                 }
-- 
2.43.0


From c5051d6145044e8077ace6d35fe60e70fe92e6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:59 +0000
Subject: [PATCH 41/50] fix: number conversions of the standard library went
 through 32 bit types

---
 tiny/src/std.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 92ef11f..3d812e4 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -512,7 +512,7 @@ static Tiny_Value Lib_Substr(Tiny_StateThread *thread, const Tiny_Value *args, i
 
 static Tiny_Value Lib_Ston(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     const char *str = Tiny_ToString(args[0]);
-    float value = strtof(str, NULL);
+    Tiny_Float value = strtod(str, NULL);
 
     return Tiny_NewFloat(value);
 }
@@ -521,13 +521,13 @@ static Tiny_Value Lib_Stoi(Tiny_StateThread *thread, const Tiny_Value *args, int
     const char *str = Tiny_ToString(args[0]);
     int base = count > 1 ? Tiny_ToInt(args[1]) : 10;
 
-    long value = strtol(str, NULL, base);
+    long long value = strtoll(str, NULL, base);
 
-    return Tiny_NewInt((int)value);
+    return Tiny_NewInt(value);
 }
 
 static Tiny_Value Lib_Ntos(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    float num = Tiny_ToNumber(args[0]);
+    Tiny_Float num = Tiny_ToNumber(args[0]);
 
     char buf[32];
 
@@ -713,11 +713,11 @@ static Tiny_Value Exit(Tiny_StateThread *thread, const Tiny_Value *args, int cou
 }
 
 static Tiny_Value Lib_Floor(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    return Tiny_NewFloat(floorf(Tiny_ToFloat(args[0])));
+    return Tiny_NewFloat(floor(Tiny_ToFloat(args[0])));
 }
 
 static Tiny_Value Lib_Ceil(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    return Tiny_NewFloat(ceilf(Tiny_ToFloat(args[0])));
+    return Tiny_NewFloat(ceil(Tiny_ToFloat(args[0])));
 }
 
 #ifdef _WIN32
-- 
2.43.0


From bebd6eed2c1f4fedddbfb8acc64bdf55f0f38ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:41 +0000
Subject: [PATCH 42/50] fix: reject a variable that is used in its own
 initializer

Its type is not known yet: the type checker read the symbol's uninitialised type.
---
 tiny/src/tiny.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 90ae0f0..80e98ab 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -860,6 +860,7 @@ static Tiny_Symbol *DeclareGlobalVar(Tiny_State *state, const char *name) {
     newNode->var.initialized = false;
     newNode->var.index = state->numGlobalVars;
     newNode->var.scope = 0;  // Global variable scope don't matter
+    newNode->var.tag = NULL;
     newNode->var.scopeEnded = false;
 
     sb_push(&state->ctx, state->globalSymbols, newNode);
@@ -929,6 +930,7 @@ static Tiny_Symbol *DeclareLocal(Tiny_State *state, const char *name) {
     newNode->var.scopeEnded = false;
     newNode->var.index = sb_count(state->currFunc->func.locals);
     newNode->var.scope = state->currScope;
+    newNode->var.tag = NULL;
 
     sb_push(&state->ctx, state->currFunc->func.locals, newNode);
 
@@ -2614,7 +2616,10 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                    exp->id.sym->type == TINY_SYM_CONST);
 
             if (exp->id.sym->type != TINY_SYM_CONST) {
-                assert(exp->id.sym->var.tag);
+                if (!exp->id.sym->var.tag) {
+                    ReportErrorE(state, exp, "'%s' is used in its own initializer.\n",
+                                 exp->id.name->value);
+                }
 
                 exp->tag = exp->id.sym->var.tag;
             } else {
-- 
2.43.0


From b085d491b2fcf1434d459fdb81b9375e8f76c0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:37 +0000
Subject: [PATCH 43/50] verify: name the loops of the parser and the
 disassembler

---
 tiny/src/tiny.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 80e98ab..f67db3f 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1711,6 +1711,8 @@ static Tiny_Expr *ParseBlock(Tiny_State *state) {
     OpenScope(state);
 
     while (state->l.lastTok != TINY_TOK_CLOSECURLY) {
+        TINY_VERIFY_LOOP(parse_block, blockTail, exp);
+
         Tiny_Expr *e = ParseStatement(state);
         assert(e);
 
@@ -1751,6 +1753,8 @@ static Tiny_Expr *ParseFunc(Tiny_State *state) {
     Arg *args = NULL;  // array
 
     while (state->l.lastTok != TINY_TOK_CLOSEPAREN) {
+        TINY_VERIFY_LOOP(parse_params, args);
+
         ExpectTokenSL(state, TINY_TOK_IDENT, "Expected identifier in function parameter list");
 
         Arg arg;
@@ -1778,6 +1782,8 @@ static Tiny_Expr *ParseFunc(Tiny_State *state) {
     }
 
     for (int i = 0; i < sb_count(args); ++i) {
+        TINY_VERIFY_LOOP(parse_declare, i, args);
+
         DeclareArgument(state, args[i].name, args[i].tag, sb_count(args));
         TFree(&state->ctx, args[i].name);
     }
@@ -1828,6 +1834,8 @@ static Tiny_Symbol *ParseStruct(Tiny_State *state) {
     GetNextToken(state);
 
     while (state->l.lastTok != TINY_TOK_CLOSECURLY) {
+        TINY_VERIFY_LOOP(parse_struct, s);
+
         ExpectTokenSL(state, TINY_TOK_IDENT, "Expected identifier in struct fields.");
 
         int count = sb_count(s->sstruct.fields);
@@ -1837,6 +1845,8 @@ static Tiny_Symbol *ParseStruct(Tiny_State *state) {
         }
 
         for (int i = 0; i < count; ++i) {
+            TINY_VERIFY_LOOP(parse_names, i);
+
             if (strcmp(s->sstruct.fields[i]->name, state->l.lexeme) == 0) {
                 ReportErrorSL(state, "Declared multiple fields with the same name %s.",
                               state->l.lexeme);
@@ -2006,6 +2016,8 @@ static Tiny_Expr *ParseValue(Tiny_State *state) {
             GetNextToken(state);
 
             while (state->l.lastTok != TINY_TOK_CLOSECURLY) {
+                TINY_VERIFY_LOOP(parse_new, argsTail, argNamesTail, exp);
+
                 if (state->l.lastTok == TINY_TOK_DOT) {
                     // Named argument, .xyz = value
                     GetExpectTokenSL(state, TINY_TOK_IDENT,
@@ -2058,6 +2070,8 @@ static Tiny_Expr *ParseValue(Tiny_State *state) {
             GetNextToken(state);
 
             while (state->l.lastTok == TINY_TOK_DOT) {
+                TINY_VERIFY_LOOP(parse_cast_dot, exp);
+
                 Tiny_Expr *e = Expr_create(TINY_EXP_DOT, state);
 
                 GetExpectTokenSL(state, TINY_TOK_IDENT, "Expected identifier after '.'");
@@ -2372,6 +2386,8 @@ static Tiny_Expr *ParseStatement(Tiny_State *state) {
             GetNextToken(state);
 
             while (state->l.lastTok != TINY_TOK_CLOSEPAREN) {
+                TINY_VERIFY_LOOP(parse_use, argsTail, exp);
+
                 ExpectTokenSL(state, TINY_TOK_STRING,
                               "Expected string as arg to 'use' module name");
 
@@ -2500,6 +2516,8 @@ static Tiny_Expr *ParseProgram(Tiny_State *state) {
     Tiny_Expr *tail = NULL;
 
     while (state->l.lastTok != TINY_TOK_EOF) {
+        TINY_VERIFY_LOOP(parse_program, head, tail);
+
         if (state->l.lastTok == TINY_TOK_STRUCT) {
             ParseStruct(state);
         } else {
@@ -4534,6 +4552,8 @@ bool Tiny_DisasmOne(const Tiny_State *state, int *ppc, char *buf, size_t maxlen)
             const char *name = NULL;
 
             for (int i = 0; i < sb_count(state->globalSymbols); ++i) {
+                TINY_VERIFY_LOOP(disasm_name, i);
+
                 Tiny_Symbol *sym = state->globalSymbols[i];
 
                 if (sym->type == TINY_SYM_FOREIGN_FUNCTION && sym->foreignFunc.index == funcIdx) {
-- 
2.43.0


From d5deec81ed42f3ba2af3807b38927de5b31bf5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:39 +0000
Subject: [PATCH 44/50] fix: 'new' must be followed by a name

---
 tiny/src/tiny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index f67db3f..c316999 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1999,7 +1999,7 @@ static Tiny_Expr *ParseValue(Tiny_State *state) {
         case TINY_TOK_NEW: {
             Tiny_Expr *exp = Expr_create(TINY_EXP_CONSTRUCTOR, state);
 
-            GetNextToken(state);
+            GetExpectTokenSL(state, TINY_TOK_IDENT, "Expected struct name after 'new'");
 
             Tiny_Symbol *tag = DeclareStruct(state, state->l.lexeme, true);
 
-- 
2.43.0


From 58c9895579579a4e477a13f9705a2b59c2d19839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:14 +0000
Subject: [PATCH 45/50] verify: name the loops of constructor checking

---
 tiny/src/tiny.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index c316999..250bcb6 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3015,6 +3015,8 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
             int i = 0;
             for (Tiny_Expr *argNode = exp->constructor.argsHead; argNode;
                  (argNode = argNode->next, ++i)) {
+                TINY_VERIFY_LOOP(resolve_ctor, argNode, i, nameNode);
+
                 ResolveTypes(state, argNode);
 
                 if (!nameNode && exp->constructor.argNamesHead) {
@@ -3033,6 +3035,8 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                 if (exp->constructor.argNamesHead) {
                     for (const Tiny_StringNode *prev = exp->constructor.argNamesHead;
                          prev != nameNode; prev = prev->next) {
+                        TINY_VERIFY_LOOP(resolve_ctor_prev, prev);
+
                         if (strcmp(prev->value, nameNode->value) == 0) {
                             ReportErrorE(state, argNode, "Field .%s is initialized more than once.",
                                          nameNode->value);
@@ -3042,6 +3046,8 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                     bool found = false;
 
                     for (int j = 0; j < tagCount; ++j) {
+                        TINY_VERIFY_LOOP(resolve_ctor_field, j);
+
                         Tiny_Symbol *expectedField = exp->constructor.structTag->sstruct.fields[j];
                         assert(expectedField->type == TINY_SYM_FIELD);
 
-- 
2.43.0


From e0e4ec9c6f55d1c3ed0968260190a15ec69882ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:14 +0000
Subject: [PATCH 46/50] fix: substr keeps its bounds as script integers

---
 tiny/src/std.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 3d812e4..d7775f3 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -483,8 +483,8 @@ static Tiny_Value Lib_Substr(Tiny_StateThread *thread, const Tiny_Value *args, i
     const char *s = Tiny_ToString(args[0]);
     size_t sLen = Tiny_StringLen(args[0]);
 
-    int start = (int)Tiny_ToNumber(args[1]);
-    int end = (int)Tiny_ToNumber(args[2]);
+    Tiny_Int start = Tiny_ToInt(args[1]);
+    Tiny_Int end = Tiny_ToInt(args[2]);
 
     if (end == -1) {
         end = sLen;
@@ -499,7 +499,7 @@ static Tiny_Value Lib_Substr(Tiny_StateThread *thread, const Tiny_Value *args, i
     assert(end <= sLen);
 
     char *sub = Tiny_AllocUsingContext(thread->ctx, NULL, end - start + 1);
-    for (int i = start; i < end; ++i) {
+    for (Tiny_Int i = start; i < end; ++i) {
         sub[i - start] = s[i];
     }
     sub[end - start] = '\0';
-- 
2.43.0


From 3f8e2eb4fab991ecacaffb46e391eb32bcd7c0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:17 +0000
Subject: [PATCH 47/50] fix: ntos without an argument does not read a stale
 stack slot

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index d7775f3..d9ac9a2 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -527,7 +527,7 @@ static Tiny_Value Lib_Stoi(Tiny_StateThread *thread, const Tiny_Value *args, int
 }
 
 static Tiny_Value Lib_Ntos(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    Tiny_Float num = Tiny_ToNumber(args[0]);
+    Tiny_Float num = count > 0 ? Tiny_ToNumber(args[0]) : 0;
 
     char buf[32];
 
-- 
2.43.0


From 211ee5067cb7b170e03abc513ed127769bf37f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:20 +0000
Subject: [PATCH 48/50] verify: name the loops of the string functions

---
 tiny/src/std.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index d9ac9a2..6024a54 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -459,6 +459,8 @@ static Tiny_Value Strcat(Tiny_StateThread *thread, const Tiny_Value *args, int c
     size_t totalLen = 0;
 
     for (int i = 0; i < count; ++i) {
+        TINY_VERIFY_LOOP(strcat_length, i, totalLen);
+
         totalLen += Tiny_StringLen(args[i]);
     }
 
@@ -466,6 +468,8 @@ static Tiny_Value Strcat(Tiny_StateThread *thread, const Tiny_Value *args, int c
     char *ptr = newString;
 
     for (int i = 0; i < count; ++i) {
+        TINY_VERIFY_LOOP(strcat_copy, i, ptr);
+
         size_t len = Tiny_StringLen(args[i]);
         memcpy(ptr, Tiny_ToString(args[i]), len);
 
@@ -500,6 +504,8 @@ static Tiny_Value Lib_Substr(Tiny_StateThread *thread, const Tiny_Value *args, i
 
     char *sub = Tiny_AllocUsingContext(thread->ctx, NULL, end - start + 1);
     for (Tiny_Int i = start; i < end; ++i) {
+        TINY_VERIFY_LOOP(substr, i);
+
         sub[i - start] = s[i];
     }
     sub[end - start] = '\0';
-- 
2.43.0


From 99f5760dca1a39764ed0ea06f79e500ba36a1401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:55 +0000
Subject: [PATCH 49/50] fix: resizing an array keeps its length as a script
 integer

---
 tiny/src/std.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 6024a54..5bf0baa 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -242,9 +242,16 @@ static TINY_FOREIGN_FUNCTION(Lib_ArrayClear) {
     return Tiny_Null;
 }
 
+static int ToArrayLen(Tiny_Value value) {
+    Tiny_Int len = Tiny_ToInt(value);
+    assert(len >= 0 && len <= INT_MAX);
+
+    return (int)len;
+}
+
 static TINY_FOREIGN_FUNCTION(Lib_ArrayResize) {
     Array *array = Tiny_ToAddr(args[0]);
-    ArrayResize(array, (int)Tiny_ToNumber(args[1]), Tiny_Null);
+    ArrayResize(array, ToArrayLen(args[1]), Tiny_Null);
 
     return Tiny_Null;
 }
@@ -253,7 +260,7 @@ static TINY_FOREIGN_FUNCTION(Lib_ArrayResizeFill) {
     Array *array = Tiny_ToAddr(args[0]);
     Tiny_Value fillValue = args[2];
 
-    ArrayResize(array, (int)Tiny_ToNumber(args[1]), fillValue);
+    ArrayResize(array, ToArrayLen(args[1]), fillValue);
 
     return Tiny_Null;
 }
-- 
2.43.0


From 13bcd5c82516c75f8a4ee5b141c2e46be6cb7e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:00 +0000
Subject: [PATCH 50/50] verify: name the loops of the dictionary functions

---
 tiny/src/std.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 5bf0baa..54e7299 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -385,7 +385,11 @@ static Tiny_Value CreateDict(Tiny_StateThread *thread, const Tiny_Value *args, i
         exit(1);
     }
 
-    for (int i = 0; i < count; i += 2) DictSet(dict, args[i], args[i + 1]);
+    for (int i = 0; i < count; i += 2) {
+        TINY_VERIFY_LOOP(dict_create, i);
+
+        DictSet(dict, args[i], args[i + 1]);
+    }
 
     return Tiny_NewNative(thread, dict, &DictProp);
 }
@@ -434,6 +438,8 @@ static Tiny_Value Lib_DictKeys(Tiny_StateThread *thread, const Tiny_Value *args,
     InitArray(array, thread->ctx);
 
     for (int i = 0; i < dict->bucketCount; ++i) {
+        TINY_VERIFY_LOOP(dict_keys, i);
+
         Tiny_Value key = *ArrayGet(&dict->keys, i);
 
         if (!Tiny_IsNull(key)) {
@@ -452,6 +458,8 @@ static Tiny_Value Lib_DictValues(Tiny_StateThread *thread, const Tiny_Value *arg
     InitArray(array, thread->ctx);
 
     for (int i = 0; i < dict->bucketCount; ++i) {
+        TINY_VERIFY_LOOP(dict_values, i);
+
         Tiny_Value key = *ArrayGet(&dict->keys, i);
 
         if (!Tiny_IsNull(key)) {
-- 
2.43.0

