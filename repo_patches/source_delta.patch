From 346773d44d969479abfe5ae14f8d523dd0bea4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 01/27] fix: primDiv, primAdd and primSub compute on the
 numbers, not on their encodings

---
 src/runtime.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index 44579b5..7efd6d7 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -855,7 +855,8 @@ primLT(Obj x, Obj y) {
 Obj
 primDiv(Obj x, Obj y) {
 	if (isfixnum(x) && isfixnum(y)) {
-		return makeNumber(x / y);
+		assert(fixnum(y) != 0);
+		return makeNumber(fixnum(x) / fixnum(y));
 	} else {
 		// TODO
 		assert(false);
@@ -865,7 +866,7 @@ primDiv(Obj x, Obj y) {
 Obj
 primAdd(Obj x, Obj y) {
 	if (isfixnum(x) && isfixnum(y)) {
-		return x + y;
+		return makeNumber(fixnum(x) + fixnum(y));
 	} else {
 		// TODO
 		assert(false);
@@ -911,7 +912,7 @@ primIsCons(Obj x) {
 Obj
 primSub(Obj x, Obj y) {
 	if (isfixnum(x) && isfixnum(y)) {
-		return x - y;
+		return makeNumber(fixnum(x) - fixnum(y));
 	} else {
 		// TODO
 		assert(false);
-- 
2.43.0


From 0ca576af02247054ac8eec895c39f8652571206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 02/27] fix: string-append of two empty strings no longer
 aborts

---
 src/runtime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime.c b/src/runtime.c
index 7efd6d7..c76c48f 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -636,7 +636,7 @@ builtinStringAppend(Cora *co, int label, Obj *R) {
 	Obj str2 = R[2];
 	str x = stringStr(str1);
 	str y = stringStr(str2);
-	strBuf tmp = strNew(x.len + y.len);
+	strBuf tmp = strNew(x.len + y.len + 1);
 	tmp = strCpy(tmp, x);
 	tmp = strCat(tmp, y);
 	str s = toStr(tmp);
-- 
2.43.0


From b97936e1e4d6990ae4a9dfd9299ec11e14b06e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 03/27] fix: define primIsNumber, which compiled code calls for
 integer?

---
 src/runtime.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/runtime.c b/src/runtime.c
index c76c48f..9c91ee3 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -952,6 +952,15 @@ primIsSymbol(Obj x) {
 	}
 }
 
+Obj
+primIsNumber(Obj x) {
+	if (isNumber(x)) {
+		return True;
+	} else {
+		return False;
+	}
+}
+
 static void
 applyClosureForEval(Cora *co, int label, Obj *R) {
 	Obj self = R[0];
-- 
2.43.0


From 52e96f6de6ca7fc4253bffa163da4f48801a2dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 04/27] fix: hash-del! removes the entry of the given key, not
 the first of its bucket

---
 lib/hash.cora | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hash.cora b/lib/hash.cora
index c8277b3..2437b3a 100644
--- a/lib/hash.cora
+++ b/lib/hash.cora
@@ -16,8 +16,8 @@
 
   (func assoc-rm
 	key [] => []
-	key [[key . _] . more] => more
-	key [x . more] => [x . (assoc-rm key x more)])
+	key [[k1 . _] . more] => more where (= key k1)
+	key [x . more] => [x . (assoc-rm key more)])
 
   (defun hash-make (n)
     (let h (vector (+ 3 n))
-- 
2.43.0


From 902783d0be95294dab7b0631bd560d5cccbdb597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 05/27] fix: mod of a negative number is not negative, so
 negative hash keys stay inside the table

---
 lib/hash-h.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/hash-h.c b/lib/hash-h.c
index 2ec337f..88eacae 100644
--- a/lib/hash-h.c
+++ b/lib/hash-h.c
@@ -65,7 +65,12 @@ void
 builtinMod(struct Cora *co, int label, Obj *R) {
 	Obj x = R[1];
 	Obj y = R[2];
-	Obj ret = makeNumber(fixnum(x) % fixnum(y));
+	int64_t n = fixnum(y);
+	int64_t m = fixnum(x) % n;
+	if (m != 0 && (m < 0) != (n < 0)) {
+		m += n;
+	}
+	Obj ret = makeNumber(m);
 	coraReturn(co, ret);
 }
 
-- 
2.43.0


From 02f387614da18a66d4a107a3d39416046168da72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 06/27] fix: a large object that exactly fills an arena is
 allocated instead of looping forever

---
 src/gc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gc.c b/src/gc.c
index 0a4c03e..db39429 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -418,7 +418,7 @@ heapArenaAllocLarge(struct heapArena *ha, GC *gc, int slots) {
 		// printf("allocate from %p, curr=%d, slots=%d\n", ha, ha->curr, slots);
 		// The simple case.
 		if (ha->curr == ha->idx) {
-			if (ha->curr + slots >= BLOCKS_PER_HEAP) {
+			if (ha->curr + slots > BLOCKS_PER_HEAP) {
 				return NULL;
 			}
 			// printf("allocate from uninitialized ==%d\n", ha->curr);
-- 
2.43.0


From 88dab3295390395b5ee324ec71e2799931666559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:20 +0000
Subject: [PATCH 07/27] fix: vector? of a number no longer reads the number as
 an address

---
 src/types.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.c b/src/types.c
index 0ffd7b3..614cc6e 100644
--- a/src/types.c
+++ b/src/types.c
@@ -333,7 +333,7 @@ vectorAppend(GC *gc, Obj vec, Obj val) {
 
 bool
 isvector(Obj o) {
-	if (tag(o) == TAG_PTR) {
+	if (isobj(o) && tag(o) == TAG_PTR) {
 		if (((scmHead *)ptr(o))->type == scmHeadVector) {
 			return true;
 		}
-- 
2.43.0


From 81229e1af20eff81585d5ae2d54cea96e7a290ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 08/27] fix: initialise the globals, packages and result
 register of a new VM

---
 src/runtime.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/runtime.c b/src/runtime.c
index 9c91ee3..74bb94a 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -60,6 +60,9 @@ coraNew() {
 	co->ctx.bp = co->stk.begin;
 	co->ctx.sp = co->stk.begin;
 	vecInit(&co->trystack, 4);
+	vecInit(&co->globals, 64);
+	vecInit(&co->pkgs, 4);
+	co->res = Undef;
 	mapInit(&co->env, strHashFunc, strEQFunc);
 	return co;
 }
-- 
2.43.0


From d265cbbd1069927e29741497e334806856d952f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 09/27] fix: returning over a stack segment that holds no frame
 no longer aborts

---
 src/runtime.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index 74bb94a..0abb18f 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -41,15 +41,18 @@ stackAllocSlowPath(Cora *co, int n) {
 
 void
 coraReturnSlowPath(Cora *co) {
-	assert(vecGet(&co->stk.data, vecLen(&co->stk.data) - 1) == co->stk.begin);
-	free(co->stk.begin);
-	vecSet(&co->stk.data, vecLen(&co->stk.data) - 1, NULL);
-	co->stk.data.v.len--;
+	// A segment whose only frame was replaced by a call that needed another
+	// segment holds no frame to return to, so more than one may be left.
+	do {
+		assert(vecGet(&co->stk.data, vecLen(&co->stk.data) - 1) == co->stk.begin);
+		free(co->stk.begin);
+		vecSet(&co->stk.data, vecLen(&co->stk.data) - 1, NULL);
+		co->stk.data.v.len--;
 
-	co->stk.begin = vecGet(&co->stk.data, vecLen(&co->stk.data) - 1);
-	co->stk.end = co->stk.begin + INIT_STACK_SIZE;
-
-	assert(co->ctx.sp >= co->stk.begin && co->ctx.sp < co->stk.end);
+		assert(vecLen(&co->stk.data) > 0);
+		co->stk.begin = vecGet(&co->stk.data, vecLen(&co->stk.data) - 1);
+		co->stk.end = co->stk.begin + INIT_STACK_SIZE;
+	} while (co->ctx.sp < co->stk.begin || co->ctx.sp >= co->stk.end);
 }
 
 static Cora *
@@ -829,6 +832,9 @@ builtinThrow(Cora *co, int label, Obj *R) {
 	Frame beforeTry = vecGet(&co->callstack, vecLen(&co->callstack) - 1);
 	co->ctx.bp = beforeTry.bp;
 	co->ctx.sp = beforeTry.sp;
+	if (co->ctx.sp < co->stk.begin || co->ctx.sp >= co->stk.end) {
+		coraReturnSlowPath(co);
+	}
 	coraCall2(co, handler, v, clo);
 }
 
-- 
2.43.0


From 864d9be122acfd793e54c3732c1143aa102be93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:25 +0000
Subject: [PATCH 10/27] fix: an over application keeps its remaining arguments
 in a frame instead of nesting the trampoline

---
 src/runtime.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index 0abb18f..9b12ca8 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -152,6 +152,17 @@ makeCurry(Cora *co, Obj fn, int nargs, Obj *args) {
 	return makeNaNPtr(&clo->head, TAG_NATIVE);
 }
 
+// The continuation of an over application: R[0] is the number of the remaining
+// arguments, which follow it. Apply the result of the first call to them.
+static void
+applyRemaining(Cora *co, int label, Obj *R) {
+	int nargs = fixnum(R[0]);
+	Obj args[nargs];
+	memcpy(args, R + 1, nargs * sizeof(Obj));
+	co->ctx.sp = R;
+	coraCall(co, co->res, nargs, args);
+}
+
 static void
 coraDispatch(Cora *co, Obj fn, int nargs, Obj *args) {
 	struct scmNative *f = mustNative(fn);
@@ -161,7 +172,15 @@ coraDispatch(Cora *co, Obj fn, int nargs, Obj *args) {
 		Obj ret = makeCurry(co, fn, nargs, args);
 		coraReturn(co, ret);
 	} else {
-		// eval the first call and get the result;
+		// keep the remaining arguments in a frame, for the next call.
+		int remain = nargs - required;
+		Obj *saved = stackAlloc(co, remain + 1);
+		saved[0] = makeNumber(remain);
+		for (int i = 0; i < remain; i++) {
+			saved[i + 1] = args[required + i];
+		}
+		saveCont(co, applyRemaining, 0, saved);
+		// eval the first call, its result is applied to the remaining arguments.
 		Obj *R = stackAlloc(co, f->nframe);
 		R[0] = fn;
 		for (int i = 0; i < required; i++) {
@@ -169,9 +188,6 @@ coraDispatch(Cora *co, Obj fn, int nargs, Obj *args) {
 		}
 		co->ctx.fn = f->fn;
 		co->ctx.label = 0;
-		coraRun(co);
-		// make the next call.
-		coraCall(co, co->res, nargs - required, args + required);
 	}
 	return;
 }
-- 
2.43.0


From 7548a33c1e931b433853e4d5f713378a0609d4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:11 +0000
Subject: [PATCH 11/27] fix: the top level code of a loaded file gets a frame
 of its own instead of overwriting its caller's

---
 src/runtime.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/runtime.c b/src/runtime.c
index 9b12ca8..ffbaf01 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -367,7 +367,16 @@ builtinLoadSo(Cora *co, int label, Obj *R) {
 		coraReturn(co, makeString(co->gc, error, strlen(error)));
 		return;
 	}
-	entry(co, 0, R);
+	// The code at the top level of the file uses slots of the current frame,
+	// entry does not say how many, so provide the largest frame.
+	Obj *frame = stackAlloc(co, INIT_STACK_SIZE - 1);
+	frame[0] = R[0];
+	frame[1] = R[1];
+	frame[2] = R[2];
+	for (int i = 3; i < INIT_STACK_SIZE - 1; i++) {
+		frame[i] = Nil;
+	}
+	entry(co, 0, frame);
 	coraRun(co);
 	coraReturn(co, co->res);
 	return;
-- 
2.43.0


From 3037a5423de057f5f5c27368df12d752bca8d795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 12/27] fix: the frame of an interpreted function is large
 enough for its parameters

---
 src/runtime.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runtime.c b/src/runtime.c
index ffbaf01..7258792 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -1020,7 +1020,8 @@ makeClosureForEval(Cora *co, int label, Obj *R) {
 	Obj env = R[3];
 	int len = listLen(params);
 	Obj ret =
-		makeNative(co->gc, 4, applyClosureForEval, len, 3, params, body, env);
+		makeNative(co->gc, len + 1, applyClosureForEval, len, 3, params, body,
+			env);
 	coraReturn(co, ret);
 }
 
-- 
2.43.0


From b577a9e636af51faba04341ee7475ee5abb4b521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:05 +0000
Subject: [PATCH 13/27] fix: vector append records an old vector that now holds
 a young value

---
 src/types.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types.c b/src/types.c
index 614cc6e..bf3f7d6 100644
--- a/src/types.c
+++ b/src/types.c
@@ -328,6 +328,7 @@ vectorAppend(GC *gc, Obj vec, Obj val) {
 	}
 	v->data[v->size] = val;
 	v->size++;
+	writeBarrierForGeneration(gc, &v->head, val);
 	return makeNaNPtr(&v->head, TAG_PTR);
 }
 
-- 
2.43.0


From e29dde57f06aab17769d33f1ec68739e785e1622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:06 +0000
Subject: [PATCH 14/27] fix: vector lengths and indexes are checked before they
 are narrowed to int

---
 src/runtime.c | 12 +++++++++---
 src/types.c   |  5 ++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index 7258792..97b955d 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -7,6 +7,7 @@
 #include "trace.h"
 #include "types.h"
 #include "vector.h"
+#include <limits.h>
 #include <dlfcn.h>
 #include <errno.h>
 #include <pwd.h>
@@ -598,7 +599,8 @@ static void
 builtinVector(Cora *co, int label, Obj *R) {
 	TRACE_SCOPE("builtinVector");
 	Obj o = R[1];
-	int n = fixnum(o);
+	int64_t n = fixnum(o);
+	assert(n >= 0 && n <= INT_MAX);
 	Obj res = makeVector(co->gc, n, n);
 	coraReturn(co, res);
 }
@@ -607,7 +609,9 @@ static void
 builtinVectorRef(Cora *co, int label, Obj *R) {
 	Obj v = R[1];
 	Obj idx = R[2];
-	coraReturn(co, vectorRef(v, fixnum(idx)));
+	int64_t i = fixnum(idx);
+	assert(i >= 0 && i <= INT_MAX);
+	coraReturn(co, vectorRef(v, i));
 }
 
 static void
@@ -616,7 +620,9 @@ builtinVectorSet(Cora *co, int label, Obj *R) {
 	Obj v = R[1];
 	Obj idx = R[2];
 	Obj o = R[3];
-	coraReturn(co, vectorSet(co->gc, v, fixnum(idx), o));
+	int64_t i = fixnum(idx);
+	assert(i >= 0 && i <= INT_MAX);
+	coraReturn(co, vectorSet(co->gc, v, i, o));
 }
 
 static void
diff --git a/src/types.c b/src/types.c
index bf3f7d6..cf4cf01 100644
--- a/src/types.c
+++ b/src/types.c
@@ -2,6 +2,7 @@
 #include "gc.h"
 #include "map.h"
 #include "str.h"
+#include <limits.h>
 #include <stdarg.h>
 #include <stddef.h>
 #include <stdio.h>
@@ -259,7 +260,9 @@ nativeRequired(Obj o) {
 
 Obj
 makeVector(GC *gc, int size, int cap) {
-	assert(size <= cap);
+	assert(size >= 0 && size <= cap);
+	// the size of the object in bytes is an int
+	assert(cap <= (int)((INT_MAX - sizeof(struct scmVector)) / sizeof(Obj)));
 	struct scmVector *vec =
 		newObj(gc, scmHeadVector, sizeof(struct scmVector) + sizeof(Obj) * cap);
 	vec->head.rset = NULL;
-- 
2.43.0


From 38017f1174acdc6ae52b9dac489d6627047170e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:06 +0000
Subject: [PATCH 15/27] fix: a byte buffer of negative or narrowed length is
 refused

---
 src/runtime.c | 3 ++-
 src/types.c   | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime.c b/src/runtime.c
index 97b955d..5eebbff 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -263,7 +263,8 @@ symbolToString(Cora *co, int lable, Obj *R) {
 void
 builtinBytes(Cora *co, int label, Obj *R) {
 	TRACE_SCOPE("builtinBytes");
-	int n = fixnum(R[1]);
+	int64_t n = fixnum(R[1]);
+	assert(n >= 0 && n <= INT_MAX);
 	Obj val = makeBytes(co->gc, n);
 	coraReturn(co, val);
 }
diff --git a/src/types.c b/src/types.c
index cf4cf01..7001fa8 100644
--- a/src/types.c
+++ b/src/types.c
@@ -102,6 +102,7 @@ Obj
 makeBytes(GC *gc, int len) {
 	// sz is the actural length but we malloc a extra byte to be compatible with
 	// C.
+	assert(len >= 0 && len < (int)(INT_MAX - sizeof(struct scmBytes)));
 	int alloc = len + sizeof(struct scmBytes) + 1;
 	struct scmBytes *str = newObj(gc, scmHeadBytes, alloc);
 	str->len = len;
-- 
2.43.0


From 1e6f2e90112edc0c36acb3cc0968cb849b334127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:42 +0000
Subject: [PATCH 16/27] fix: the reader keeps within its buffers, ends on
 unterminated lists and reads integers beyond 32 bits

---
 src/reader.c | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 38a7c35..03d0c7b 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -47,7 +47,7 @@ eatWhitespace(FILE *in) {
 	}
 }
 
-static char
+static int
 peekFirstChar(FILE *in) {
 	eatWhitespace(in);
 	return getc(in);
@@ -60,6 +60,11 @@ readCons(GC *gc, FILE *in, int *errCode) {
 		// read the empty list
 		return Nil;
 	}
+	if (c == EOF) {
+		// non-terminated list
+		*errCode = 1;
+		return Nil;
+	}
 
 	ungetc(c, in);
 	Obj hd = sexpRead(gc, in, errCode);
@@ -86,7 +91,7 @@ static Obj
 readListMacro(GC *gc, FILE *in, int *errCode) {
 	Obj hd = intern("list");
 	Obj ret = Nil;
-	char b = peekFirstChar(in);
+	int b = peekFirstChar(in);
 	while (b != EOF && b != ']') {
 		if (b == '.') {
 			hd = intern("list-rest");
@@ -105,8 +110,14 @@ readNumber(FILE *in) {
 	char buf[30];
 	memset(buf, 0, 30);
 	int i = 0;
-	char c = getc(in);
+	int c = getc(in);
 	while (c != EOF && isdigit(c)) {
+		/* subtract 1 to save space for '\0' terminator */
+		if (i >= (int)sizeof(buf) - 1) {
+			fprintf(stderr, "number too long. Maximum length is %d\n",
+				(int)sizeof(buf) - 1);
+			exit(1);
+		}
 		buf[i] = c;
 		c = getc(in);
 		i++;
@@ -115,7 +126,7 @@ readNumber(FILE *in) {
 	if (c != EOF) {
 		ungetc(c, in);
 	}
-	Obj ret = makeNumber(atoi(buf));
+	Obj ret = makeNumber(strtoll(buf, NULL, 10));
 	return ret;
 }
 
@@ -123,7 +134,7 @@ Obj
 sexpRead(GC *gc, FILE *in, int *errCode) {
 	int c;
 	int i;
-	char buffer[512];
+	char buffer[1000];
 
 	eatWhitespace(in);
 	c = getc(in);
@@ -172,12 +183,12 @@ sexpRead(GC *gc, FILE *in, int *errCode) {
 				exit(1);
 			}
 			/* subtract 1 to save space for '\0' terminator */
-			if (i < 1000 - 1) {
+			if (i < (int)sizeof(buffer) - 1) {
 				buffer[i++] = c;
 			} else {
 				fprintf(stderr,
 					"string too long. Maximum length is %d\n",
-					1000);
+					(int)sizeof(buffer));
 				exit(1);
 			}
 		}
@@ -189,6 +200,13 @@ sexpRead(GC *gc, FILE *in, int *errCode) {
 		/* int firstDot = -1; */
 		i = 0;
 		while (isIdentifierChar(c)) {
+			/* subtract 1 to save space for '\0' terminator */
+			if (i >= (int)sizeof(buffer) - 1) {
+				fprintf(stderr,
+					"symbol too long. Maximum length is %d\n",
+					(int)sizeof(buffer) - 1);
+				exit(1);
+			}
 			buffer[i] = c;
 			if (c == '.') {
 				/* firstDot = i; */
@@ -213,7 +231,7 @@ sexpRead(GC *gc, FILE *in, int *errCode) {
 				}
 			}
 			if (allDigit) {
-				Obj num = makeNumber(atoi(buffer));
+				Obj num = makeNumber(strtoll(buffer, NULL, 10));
 				return num;
 			}
 		}
-- 
2.43.0


From 13dc80f443154858891177c0f05f01401efcecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:42 +0000
Subject: [PATCH 17/27] fix: the text of a symbol reads back whatever its
 length

---
 src/reader.c  | 10 +++++++---
 src/runtime.c | 24 +++++++++++++++++++-----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 03d0c7b..b2dd695 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -278,9 +278,13 @@ printObj(FILE *to, Obj o) {
 	} else if (iscons(o)) {
 		printCons(to, o, true);
 	} else if (issymbol(o)) {
-		char dest[256];
-		symbolStr(o, dest, 256);
-		fprintf(to, "%s", dest);
+		if (tag(o) == TAG_SYMBOL) {
+			fprintf(to, "%s", toCStr(ptr(o)));
+		} else {
+			char dest[256];
+			symbolStr(o, dest, 256);
+			fprintf(to, "%s", dest);
+		}
 	} else if (isboolean(o)) {
 		if (o == True) {
 			fprintf(to, "true");
diff --git a/src/runtime.c b/src/runtime.c
index 5eebbff..6fd5846 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -254,9 +254,17 @@ primIsString(Obj x) {
 void
 symbolToString(Cora *co, int lable, Obj *R) {
 	Obj sym = R[1];
-	char dest[256];
-	symbolStr(sym, dest, 256);
-	Obj val = makeCString(co->gc, dest);
+	Obj val;
+	assert(issymbol(sym));
+	if (tag(sym) == TAG_SYMBOL) {
+		// the text of an interned symbol may have any length
+		str s = toStr(ptr(sym));
+		val = makeString(co->gc, s.str, s.len);
+	} else {
+		char dest[256];
+		symbolStr(sym, dest, 256);
+		val = makeCString(co->gc, dest);
+	}
 	coraReturn(co, val);
 }
 
@@ -687,8 +695,14 @@ static void
 builtinSymbolCooked(Cora *co, int label, Obj *R) {
 	Obj sym = R[1];
 	char dst[256];
-	symbolStr(sym, dst, 256);
-	for (char *s = dst; *s != 0; s++) {
+	char *text = dst;
+	assert(issymbol(sym));
+	if (tag(sym) == TAG_SYMBOL) {
+		text = toCStr(ptr(sym));
+	} else {
+		symbolStr(sym, dst, 256);
+	}
+	for (char *s = text; *s != 0; s++) {
 		if (*s == '#') {
 			coraReturn(co, True);
 			return;
-- 
2.43.0


From 8133668950cff768395b788818b7cecab5d19e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:00 +0000
Subject: [PATCH 18/27] fix: partial and over application by coraCall from C

coraCall returned the partial application, or saved the frame for the
remaining arguments, before coraRun saved the frame to return to.
---
 src/runtime.c | 56 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index 6fd5846..f289843 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -153,17 +153,32 @@ makeCurry(Cora *co, Obj fn, int nargs, Obj *args) {
 	return makeNaNPtr(&clo->head, TAG_NATIVE);
 }
 
-// The continuation of an over application: R[0] is the number of the remaining
-// arguments, which follow it. Apply the result of the first call to them.
 static void
-applyRemaining(Cora *co, int label, Obj *R) {
-	int nargs = fixnum(R[0]);
-	Obj args[nargs];
-	memcpy(args, R + 1, nargs * sizeof(Obj));
+returnPartial(Cora *co, int label, Obj *R) {
+	coraReturn(co, R[0]);
+}
+
+// An over application: R[0] is the number of arguments, R[1] the function and
+// the arguments follow. Call the function, then its result on the arguments
+// that are left.
+static void
+applyOver(Cora *co, int label, Obj *R) {
+	Obj fn = R[1];
+	int required = nativeRequired(fn);
+	if (label == 0) {
+		saveCont(co, applyOver, 1, R);
+		coraCall(co, fn, required, R + 2);
+		return;
+	}
+	int remain = fixnum(R[0]) - required;
+	Obj args[remain];
+	memcpy(args, R + 2 + required, remain * sizeof(Obj));
 	co->ctx.sp = R;
-	coraCall(co, co->res, nargs, args);
+	coraCall(co, co->res, remain, args);
 }
 
+// The frame to return to after a call from C is saved by coraRun, which comes
+// later, so leave everything that returns or saves a frame to the trampoline.
 static void
 coraDispatch(Cora *co, Obj fn, int nargs, Obj *args) {
 	struct scmNative *f = mustNative(fn);
@@ -171,26 +186,17 @@ coraDispatch(Cora *co, Obj fn, int nargs, Obj *args) {
 	assert(nargs != required);
 	if (nargs < required) {
 		Obj ret = makeCurry(co, fn, nargs, args);
-		coraReturn(co, ret);
+		Obj *R = stackAlloc(co, 1);
+		R[0] = ret;
+		co->ctx.fn = returnPartial;
 	} else {
-		// keep the remaining arguments in a frame, for the next call.
-		int remain = nargs - required;
-		Obj *saved = stackAlloc(co, remain + 1);
-		saved[0] = makeNumber(remain);
-		for (int i = 0; i < remain; i++) {
-			saved[i + 1] = args[required + i];
-		}
-		saveCont(co, applyRemaining, 0, saved);
-		// eval the first call, its result is applied to the remaining arguments.
-		Obj *R = stackAlloc(co, f->nframe);
-		R[0] = fn;
-		for (int i = 0; i < required; i++) {
-			R[i + 1] = args[i];
-		}
-		co->ctx.fn = f->fn;
-		co->ctx.label = 0;
+		Obj *R = stackAlloc(co, nargs + 2);
+		R[0] = makeNumber(nargs);
+		R[1] = fn;
+		memcpy(R + 2, args, nargs * sizeof(Obj));
+		co->ctx.fn = applyOver;
 	}
-	return;
+	co->ctx.label = 0;
 }
 
 Binding
-- 
2.43.0


From e00fc3aa45d71d02bf4e6dba018964183d081aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 19/27] fix: a resumed continuation gives its stack segments
 back to the machine

The collector kept reading the frames and segments of a continuation after it
was resumed, when they had been freed or reused; a second resumption freed
them twice.
---
 src/runtime.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/runtime.c b/src/runtime.c
index f289843..6443a9d 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -837,6 +837,7 @@ continuationAsClosure(Cora *co, int label, Obj *R) {
 
 	// Replace the current stack with the delimited continuation.
 	struct scmContinuation *cont = (struct scmContinuation *)ptr(contObj);
+	assert(cont->count > 0);
 	Frame *p = (Frame *)cont->data;
 	for (int i = 0; i < cont->len; i++) {
 		vecAppend(&co->callstack, p[i]);
@@ -845,6 +846,16 @@ continuationAsClosure(Cora *co, int label, Obj *R) {
 	for (int i = 0; i < cont->count; i++) {
 		vecAppend(&co->stk.data, stk[i]);
 	}
+	// The stack segments belong to the machine again and are freed when their
+	// frames return: the continuation can't be resumed again, nor be marked.
+	// What it referred to when the collection began is marked before that.
+	for (int i = 0; i < cont->len; i++) {
+		for (Obj *q = p[i].bp; q < p[i].sp; q++) {
+			writeBarrierForIncremental(co->gc, q, *q);
+		}
+	}
+	cont->len = 0;
+	cont->count = 0;
 	Obj *stack = vecGet(&co->stk.data, vecLen(&co->stk.data) - 1);
 	co->stk.begin = stack;
 	co->stk.end = stack + INIT_STACK_SIZE;
-- 
2.43.0


From e44c3fa7e16976795a52ee45b41c24b71d725602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 20/27] fix: throw outside of any try popped an empty vector

---
 src/runtime.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime.c b/src/runtime.c
index 6443a9d..59dc129 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -867,6 +867,7 @@ continuationAsClosure(Cora *co, int label, Obj *R) {
 static void
 builtinThrow(Cora *co, int label, Obj *R) {
 	TRACE_SCOPE("builtinThrow");
+	assert(vecLen(&co->trystack) > 0);
 	struct tryMark mark = vecPop(&co->trystack);
 	Obj v = R[1];
 
-- 
2.43.0


From e3fe548ed1ca9c6868110eadc9f7011bac529b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:11 +0000
Subject: [PATCH 21/27] fix: positions given to string-slice, string-index and
 memcpy are checked before they are narrowed or used

---
 lib/string.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/string.c b/lib/string.c
index 8b5b551..1eee200 100644
--- a/lib/string.c
+++ b/lib/string.c
@@ -11,11 +11,11 @@ static void
 stringSlice(struct Cora *co, int label, Obj *R) {
 	Obj str1 = R[1];
 	int len = bytesLen(str1);
-	int beg = fixnum(R[2]);
+	int64_t beg = fixnum(R[2]);
 	if (beg < 0) {
 		beg = len + beg;
 	}
-	int end = fixnum(R[3]);
+	int64_t end = fixnum(R[3]);
 	if (end < 0) {
 		end = len + end;
 	}
@@ -65,7 +65,8 @@ stringIndex(struct Cora *co, int label, Obj *R) {
 	Obj y = R[2];
 
 	char *str = bytesData(x);
-	int idx = fixnum(y);
+	int64_t idx = fixnum(y);
+	assert(idx >= 0 && idx < bytesLen(x));
 	Obj ret = makeString(co->gc, str + idx, 1);
 	coraReturn(co, ret);
 }
@@ -166,9 +167,13 @@ bytesMemCpy(struct Cora *co, int label, Obj *R) {
 	Obj off2 = R[4];
 	Obj size = R[5];
 
+	int64_t n = fixnum(size);
+	assert(n >= 0);
+	assert(fixnum(off1) >= 0 && fixnum(off1) <= bytesLen(to) - n);
+	assert(fixnum(off2) >= 0 && fixnum(off2) <= bytesLen(from) - n);
 	char *dst = bytesData(to) + fixnum(off1);
 	char *src = bytesData(from) + fixnum(off2);
-	memcpy(dst, src, fixnum(size));
+	memmove(dst, src, n);
 	coraReturn(co, Nil);
 }
 
-- 
2.43.0


From d1416e8efe476bd1c2a39feec1bff3ca7ad18369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:11 +0000
Subject: [PATCH 22/27] fix: string-split splits at a separator that starts the
 text too

---
 lib/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/string.c b/lib/string.c
index 1eee200..c33d126 100644
--- a/lib/string.c
+++ b/lib/string.c
@@ -147,7 +147,7 @@ stringSplit(struct Cora *co, int label, Obj *R) {
 	str s = from;
 	while (1) {
 		int pos = strStr(s, split);
-		if (pos > 0) {
+		if (pos >= 0 && strLen(split) > 0) {
 			str find = strSub(s, 0, pos);
 			res = makeCons(co->gc, makeString(co->gc, find.str, strLen(find)), res);
 			s = strSub(s, pos + strLen(split), strLen(s));
-- 
2.43.0


From 484e3f9ea2199fe3f6dfc2846c468589224ab2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:11 +0000
Subject: [PATCH 23/27] fix: byte-ref and string->list give bytes above 127 as
 numbers from 128 to 255

---
 lib/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/string.c b/lib/string.c
index c33d126..4c07127 100644
--- a/lib/string.c
+++ b/lib/string.c
@@ -182,7 +182,7 @@ bytesRef(struct Cora *co, int label, Obj *R) {
 	Obj str = R[1];
 	Obj idx = fixnum(R[2]);
 	assert(idx < bytesLen(str));
-	Obj ret = makeNumber(bytesData(str)[idx]);
+	Obj ret = makeNumber((uint8_t)bytesData(str)[idx]);
 	coraReturn(co, ret);
 }
 
@@ -193,7 +193,7 @@ stringToList(struct Cora *co, int label, Obj *R) {
 	int len = bytesLen(str);
 	Obj res = Nil;
 	for (int i = 0; i < len; i++) {
-		res = makeCons(co->gc, makeNumber(bs[i]), res);
+		res = makeCons(co->gc, makeNumber((uint8_t)bs[i]), res);
 	}
 	coraReturn(co, reverse(co->gc, res));
 }
-- 
2.43.0


From e998037febb2c3a11d208c47983ba4c2e7d41a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:28 +0000
Subject: [PATCH 24/27] fix: texts are compared by their bytes, not by bytes
 read as signed characters

---
 src/str.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/str.c b/src/str.c
index 429789b..304cc92 100644
--- a/src/str.c
+++ b/src/str.c
@@ -85,10 +85,12 @@ strRchr(str s, char c) {
 int
 strCmp(str s1, str s2) {
 	for (int i = 0; i < s1.len && i < s2.len; i++) {
-		if (s1.str[i] > s2.str[i]) {
+		unsigned char c1 = s1.str[i];
+		unsigned char c2 = s2.str[i];
+		if (c1 > c2) {
 			return 1;
 		}
-		if (s1.str[i] < s2.str[i]) {
+		if (c1 < c2) {
 			return -1;
 		}
 	}
-- 
2.43.0


From 101b6ff481c94131eefd38e203da55a0597a1dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:28 +0000
Subject: [PATCH 25/27] fix: escape-str escapes backslashes and carriage
 returns

---
 lib/toc/internal.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/toc/internal.c b/lib/toc/internal.c
index b34c0a5..02f3cee 100644
--- a/lib/toc/internal.c
+++ b/lib/toc/internal.c
@@ -70,6 +70,14 @@ builtinEscapeStr(struct Cora *co, int label, Obj *R) {
 			dst = strAppend(dst, '\\');
 			dst = strAppend(dst, 't');
 			break;
+		case '\r':
+			dst = strAppend(dst, '\\');
+			dst = strAppend(dst, 'r');
+			break;
+		case '\\':
+			dst = strAppend(dst, '\\');
+			dst = strAppend(dst, '\\');
+			break;
 		default:
 			dst = strAppend(dst, c);
 		};
-- 
2.43.0


From cc59648385a544077b85bcb398654d4136e6e4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:28 +0000
Subject: [PATCH 26/27] fix: the C name of a symbol with bytes above 127
 contains no minus sign

---
 lib/toc/internal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/toc/internal.c b/lib/toc/internal.c
index 02f3cee..a606bc0 100644
--- a/lib/toc/internal.c
+++ b/lib/toc/internal.c
@@ -29,7 +29,7 @@ builtinGenerateSym(struct Cora *co, int label, Obj *R) {
 		} else if (*p == '_') {
 			fprintf(out, "__");
 		} else {
-			fprintf(out, "_%d", *p);
+			fprintf(out, "_%d", (unsigned char)*p);
 		}
 	}
 	coraReturn(co, Nil);
-- 
2.43.0


From d84ac40ba2988e55b2486e85b348e70987b106fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:55 +0000
Subject: [PATCH 27/27] fix: a list of no elements may contain white space and
 comments

---
 src/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index b2dd695..bba438f 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -55,7 +55,7 @@ peekFirstChar(FILE *in) {
 
 static Obj
 readCons(GC *gc, FILE *in, int *errCode) {
-	int c = getc(in);
+	int c = peekFirstChar(in);
 	if (c == ')') {
 		// read the empty list
 		return Nil;
-- 
2.43.0

