From 93ad0a10aeae847ce6ab361cea92318b77f74f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 01/40] fix: use unaligned loads in ReduceMathOpFast and
 UnaryOpFast (SIGSEGV on arrays that are not 32-byte aligned)

---
 src/atop/ops_binary.cpp | 4 ++--
 src/atop/ops_unary.cpp  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index d59e778..55cc994 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -209,8 +209,8 @@ inline void ReduceMathOpFast(void* pDataIn1X, void* pDataOutX, void* pStartVal,
             pDataIn256 += NUM_LOOPS_UNROLLED;
 
             while (pDataIn256 < pEnd_256) {
-                m0 = MATH_OP256(m0, pDataIn256[0]);
-                m1 = MATH_OP256(m1, pDataIn256[1]);
+                m0 = MATH_OP256(m0, LOADU(pDataIn256));
+                m1 = MATH_OP256(m1, LOADU(pDataIn256 + 1));
                 pDataIn256 += NUM_LOOPS_UNROLLED;
             }
 
diff --git a/src/atop/ops_unary.cpp b/src/atop/ops_unary.cpp
index 7d249fc..2abab67 100644
--- a/src/atop/ops_unary.cpp
+++ b/src/atop/ops_unary.cpp
@@ -355,7 +355,7 @@ static inline void UnaryOpFast(void* pDataIn, void* pDataOut, int64_t len, int64
         do {
             // Use 256 bit registers which hold 8 floats or 4 doubles
             // The first operand should allow unaligned loads
-            STOREU(pOut_256, MATH_OP256(*pIn1_256));
+            STOREU(pOut_256, MATH_OP256(LOADU(pIn1_256)));
             pIn1_256 += 1;
             pOut_256 += 1;
 
-- 
2.43.0


From 4c58f0dd80f7115f0d9bb92ef6cb6be19caaa7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 02/40] fix: ReduceMathOpFastUpcast read past its four double
 accumulators

---
 src/atop/ops_binary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index 55cc994..eed3863 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -267,7 +267,7 @@ inline void ReduceMathOpFastUpcast(void* pDataIn1X, void* pDataOutX, void* pStar
         // TJD: testing indicates unrolling size of 2 is 3% faster
         const int64_t NUM_LOOPS_UNROLLED = 2;
         const int64_t chunkSize = NUM_LOOPS_UNROLLED * (sizeof(U256) / sizeof(DOWNCAST));
-        int64_t perReg = sizeof(U256) / sizeof(DOWNCAST);
+        int64_t perReg = sizeof(U256d) / sizeof(UPCAST);
 
         // NOTE: numpy uses the output val to seed the first input
         UPCAST startval = *(DOWNCAST*)pStartVal;
-- 
2.43.0


From 0577e3a4b906ef2ec48e98450596c535d7f85df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 03/40] fix: minimum/maximum of floats dropped a nan in the
 first operand

---
 src/atop/ops_binary.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index eed3863..0098b11 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -59,8 +59,8 @@ static const inline void STOREA(__m256i* x, __m256i y) { _mm256_store_si256((__m
 template<typename T> static const inline T AddOp(T x, T y) { return x + y; }
 template<typename T> static const inline T SubOp(T x, T y) { return x - y; }
 template<typename T> static const inline T MulOp(T x, T y) { return x * y; }
-template<typename T> static const inline T MinOp(T x, T y) { return x < y? x : y; }
-template<typename T> static const inline T MaxOp(T x, T y) { return x > y? x : y; }
+template<typename T> static const inline T MinOp(T x, T y) { return (x < y || x != x) ? x : y; }
+template<typename T> static const inline T MaxOp(T x, T y) { return (x > y || x != x) ? x : y; }
 template<typename T> static const inline double DivOp(T x, T y) { return (double)x / (double)y; }
 template<typename T> static const inline float DivOp(float x, T y) { return x / y; }
 template<typename T> static const inline long double DivOp(long double x, T y) { return x / y; }
@@ -143,8 +143,9 @@ static const inline __m256i MIN_OP_256u16(__m256i x, __m256i y) { return _mm256_
 static const inline __m256i MIN_OP_256i16(__m256i x, __m256i y) { return _mm256_min_epi16(x, y); }
 static const inline __m256i MIN_OP_256i32(__m256i x, __m256i y) { return _mm256_min_epi32(x, y); }
 static const inline __m256i MIN_OP_256u32(__m256i x, __m256i y) { return _mm256_min_epu32(x, y); }
-static const inline __m256  MIN_OP_256f32(__m256 x, __m256 y) { return _mm256_min_ps(x, y); }
-static const inline __m256d MIN_OP_256f64(__m256d x, __m256d y) { return _mm256_min_pd(x, y); }
+// NOTE: the min/max intrinsics return the second operand when either is nan; numpy returns nan if either is nan
+static const inline __m256  MIN_OP_256f32(__m256 x, __m256 y) { return _mm256_blendv_ps(_mm256_min_ps(x, y), x, _mm256_cmp_ps(x, x, _CMP_UNORD_Q)); }
+static const inline __m256d MIN_OP_256f64(__m256d x, __m256d y) { return _mm256_blendv_pd(_mm256_min_pd(x, y), x, _mm256_cmp_pd(x, x, _CMP_UNORD_Q)); }
 
 static const inline __m256i MAX_OP_256i8(__m256i x, __m256i y) { return _mm256_max_epi8(x, y); }
 static const inline __m256i MAX_OP_256u8(__m256i x, __m256i y) { return _mm256_max_epu8(x, y); }
@@ -152,8 +153,8 @@ static const inline __m256i MAX_OP_256u16(__m256i x, __m256i y) { return _mm256_
 static const inline __m256i MAX_OP_256i16(__m256i x, __m256i y) { return _mm256_max_epi16(x, y); }
 static const inline __m256i MAX_OP_256i32(__m256i x, __m256i y) { return _mm256_max_epi32(x, y); }
 static const inline __m256i MAX_OP_256u32(__m256i x, __m256i y) { return _mm256_max_epu32(x, y); }
-static const inline __m256  MAX_OP_256f32(__m256 x, __m256 y) { return _mm256_max_ps(x, y); }
-static const inline __m256d MAX_OP_256f64(__m256d x, __m256d y) { return _mm256_max_pd(x, y); }
+static const inline __m256  MAX_OP_256f32(__m256 x, __m256 y) { return _mm256_blendv_ps(_mm256_max_ps(x, y), x, _mm256_cmp_ps(x, x, _CMP_UNORD_Q)); }
+static const inline __m256d MAX_OP_256f64(__m256d x, __m256d y) { return _mm256_blendv_pd(_mm256_max_pd(x, y), x, _mm256_cmp_pd(x, x, _CMP_UNORD_Q)); }
 
 // mask off low 32bits
 static const __m256i masklo = _mm256_set1_epi64x(0xFFFFFFFFLL);
-- 
2.43.0


From 5eb8c608a09aa762f3cdc277be99e862d5327cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 04/40] fix: vectorized negative returned +0.0 for +0.0

---
 src/atop/ops_unary.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/atop/ops_unary.cpp b/src/atop/ops_unary.cpp
index 2abab67..5d4fc31 100644
--- a/src/atop/ops_unary.cpp
+++ b/src/atop/ops_unary.cpp
@@ -293,15 +293,13 @@ static const inline __m256i NEG_OP_256i16(__m256i x) { const __m256i m8 = _mm256
 static const inline __m256i NEG_OP_256i8(__m256i x) { const __m256i m8 = _mm256_setzero_si256(); return _mm256_sub_epi8(m8, x); }
 
 template<typename T> static const inline __m256  NEG_OP_256(__m256 x) {
-    const __m256 m8 = _mm256_setzero_ps();
-    // The second operand does not need to be unaligned loaded
-    return _mm256_sub_ps(m8, x);
+    // flip the sign bit (0 - x would turn +0.0 into +0.0 instead of -0.0)
+    return _mm256_xor_ps(_mm256_set1_ps(-0.0f), x);
 }
 
 template<typename T> static const inline __m256d  NEG_OP_256(__m256d x) {
-    const __m256d m8 = _mm256_setzero_pd();
-    // The second operand does not need to be unaligned loaded
-    return _mm256_sub_pd(m8, x);
+    // flip the sign bit (0 - x would turn +0.0 into +0.0 instead of -0.0)
+    return _mm256_xor_pd(_mm256_set1_pd(-0.0), x);
 }
 
 template<typename T> static const inline __m256  ROUND_OP_256(__m256 x) { return _mm_roundme_ps(x); }
-- 
2.43.0


From 123d5896544e080fca87d658a4ae9f7f3e5a7577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 05/40] fix: scalar tail of absolute kept the sign of -0.0

---
 src/atop/ops_unary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atop/ops_unary.cpp b/src/atop/ops_unary.cpp
index 5d4fc31..7975d7a 100644
--- a/src/atop/ops_unary.cpp
+++ b/src/atop/ops_unary.cpp
@@ -180,7 +180,7 @@ const union
 //
 
 
-template<typename T> static const inline T ABS_OP(T x) { return x < 0 ? -x : x; }
+template<typename T> static const inline T ABS_OP(T x) { return x <= 0 ? 0 - x : x; }
 template<typename T> static const inline double FABS_OP(T x) { return x < 0 ? -x : x; }
 
 // Invalid int mode (consider if we should return invalid when we discover invalid)
-- 
2.43.0


From f1ce42e233a97a06dbd9f3ec9bb42b637bdc8512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 06/40] fix: in-place int8/bool comparison recomputed its first
 elements from its own output

---
 src/atop/ops_compare.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/atop/ops_compare.cpp b/src/atop/ops_compare.cpp
index e857711..bb1f551 100644
--- a/src/atop/ops_compare.cpp
+++ b/src/atop/ops_compare.cpp
@@ -1238,6 +1238,7 @@ static void CompareInt8(void* pDataIn, void* pDataIn2, void* pDataOut, int64_t l
                     for (int64_t i = 0; i < len; i++) {
                         pDataOutX[i] = COMPARE(pDataInX[i], pDataIn2X[i]);
                     }
+                    return;
                 }
             }
     }
-- 
2.43.0


From 8e08417e226ac96390eb60108d006625cc6ca9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:29 +0000
Subject: [PATCH 07/40] fix: floor_divide of floats differed from numpy (1.0 //
 0.1, infinities, signed zero)

---
 src/atop/ops_binary.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index 0098b11..7caf94e 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -77,9 +77,21 @@ template<typename T> static const inline T FloorDivOp(T x, T y) {
     }
     else return 0;
 }
-template<typename T> static const inline long double FloorDivOp(long double x, long double y) { if (y == y) return floorl(x / y); else return NAN; }
-template<typename T> static const inline double FloorDivOp(double x, double y) { if (y == y) return floor(x / y); else return NAN; }
-template<typename T> static const inline float FloorDivOp(float x, float y) { if (y == y) return floorf(x / y); else return NAN; }
+
+// Same result as numpy/python: the quotient is derived from fmod, because x / y may round up to the next integer
+template<typename T> static const inline T FloorDivFloat(T x, T y) {
+    if (y == 0) return x / y;
+    T mod = std::fmod(x, y);
+    T div = (x - mod) / y;
+    if (mod != 0 && (y < 0) != (mod < 0)) div -= 1;
+    if (div == 0) return std::copysign((T)0, x / y);
+    T result = std::floor(div);
+    if (div - result > (T)0.5) result += 1;
+    return result;
+}
+template<typename T> static const inline long double FloorDivOp(long double x, long double y) { return FloorDivFloat(x, y); }
+template<typename T> static const inline double FloorDivOp(double x, double y) { return FloorDivFloat(x, y); }
+template<typename T> static const inline float FloorDivOp(float x, float y) { return FloorDivFloat(x, y); }
 
 // bitwise operations
 template<typename T> static const inline T AndOp(T x, T y) { return x & y; }
-- 
2.43.0


From ab8317317a02b342b2d5608827ea1dc126676f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 08/40] fix: threaded reduce of non-associative ops and of the
 original numpy loops returned wrong results

---
 src/pnumpy/_pnumpy.cpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index b73b4c1..2cf47bb 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -632,6 +632,27 @@ GetReduceStartVal(int funcop, int atype) {
 }
 
 
+//============================================================================
+// A reduce can be split into chunks only if the chunk results can be recombined:
+// the op must be associative and each chunk must begin with an identity start value
+// (see GetReduceStartVal) or, for idempotent ops, may begin with the original value.
+static bool CanThreadReduce(int funcop, int atype) {
+    switch (funcop) {
+    case BINARY_OPERATION::ADD:
+    case BINARY_OPERATION::MUL:
+        return GetReduceStartVal(funcop, atype) != NULL;
+    case BINARY_OPERATION::MIN:
+    case BINARY_OPERATION::MAX:
+    case BINARY_OPERATION::LOGICAL_AND:
+    case BINARY_OPERATION::LOGICAL_OR:
+    case BINARY_OPERATION::BITWISE_AND:
+    case BINARY_OPERATION::BITWISE_OR:
+        return true;
+    }
+    return false;
+}
+
+
 //============================================================================
 // For binary math functions like add, sbutract, multiply.
 // 2 inputs and 1 output
@@ -640,7 +661,8 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
     if (!g_Settings.LedgerEnabled) {
         stUFunc* pstUFunc = &g_UFuncLUT[funcop][atype];
         npy_intp n = dimensions[0];
-        stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(n);
+        bool canThread = IS_BINARY_REDUCE ? CanThreadReduce(funcop, atype) : true;
+        stMATH_WORKER_ITEM* pWorkItem = canThread ? THREADER->GetWorkItem(n) : NULL;
         LOGGING("called with %d %d   funcp: %p  len:%lld   inputs: %p %p %p  steps: %lld %lld %lld  pWorkItem: %p\n", funcop, atype, g_UFuncLUT[funcop][atype].pOldFunc, (long long)n, args[0], args[1], args[2], (long long)steps[0], (long long)steps[1], (long long)steps[2], pWorkItem);
 
         if (IS_BINARY_REDUCE) {
@@ -723,7 +745,10 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
                     // todo, check if only 1 dimension for reduce
                     dimensions[0] = chunks;
 
-                    pstUFunc->pOldFunc(newargs, dimensions, steps, innerloop);
+                    // the chunk results are contiguous
+                    npy_intp newsteps[3] = { 0, (npy_intp)itemsize, 0 };
+
+                    pstUFunc->pOldFunc(newargs, dimensions, newsteps, innerloop);
                 }
                 // Free if not on the stack
                 POSSIBLY_STACK_FREE(allocsize, pReduceOfReduce);
-- 
2.43.0


From 2710fefe4096f362ace360f79d8b7d747d3254d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:56 +0000
Subject: [PATCH 09/40] fix: threading split loops whose output feeds later
 elements (accumulate, overlapping in/out)

---
 src/pnumpy/_pnumpy.cpp | 43 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 2cf47bb..5d77c7b 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -632,6 +632,30 @@ GetReduceStartVal(int funcop, int atype) {
 }
 
 
+//============================================================================
+// Returns true if the chunks of a loop may be computed in any order.
+// Not the case if the output of one element is (or might be) the input of another,
+// for instance in an accumulate, or if all elements share one output.
+static bool CanSplitLoop(const char* pIn, npy_intp strideIn, const char* pOut, npy_intp strideOut, npy_intp n, int64_t itemsizeIn) {
+    if (strideOut == 0) return false;
+
+    // the output elements do not overlap each other, so the stride bounds their size
+    npy_intp itemsizeOut = strideOut < 0 ? -strideOut : strideOut;
+
+    // in place: each element only depends on itself
+    if (pIn == pOut && strideIn == strideOut) return true;
+
+    npy_intp spanIn = (n - 1) * strideIn;
+    npy_intp spanOut = (n - 1) * strideOut;
+    const char* pInFirst = spanIn < 0 ? pIn + spanIn : pIn;
+    const char* pInLast = (spanIn < 0 ? pIn : pIn + spanIn) + itemsizeIn;
+    const char* pOutFirst = spanOut < 0 ? pOut + spanOut : pOut;
+    const char* pOutLast = (spanOut < 0 ? pOut : pOut + spanOut) + itemsizeOut;
+
+    return pInLast <= pOutFirst || pOutLast <= pInFirst;
+}
+
+
 //============================================================================
 // A reduce can be split into chunks only if the chunk results can be recombined:
 // the op must be associative and each chunk must begin with an identity start value
@@ -661,7 +685,10 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
     if (!g_Settings.LedgerEnabled) {
         stUFunc* pstUFunc = &g_UFuncLUT[funcop][atype];
         npy_intp n = dimensions[0];
-        bool canThread = IS_BINARY_REDUCE ? CanThreadReduce(funcop, atype) : true;
+        int64_t sizeIn = convert_atop_to_itemsize[atype];
+        bool canThread = IS_BINARY_REDUCE ? CanThreadReduce(funcop, atype) :
+            CanSplitLoop(args[0], steps[0], args[2], steps[2], n, sizeIn) &&
+            CanSplitLoop(args[1], steps[1], args[2], steps[2], n, sizeIn);
         stMATH_WORKER_ITEM* pWorkItem = canThread ? THREADER->GetWorkItem(n) : NULL;
         LOGGING("called with %d %d   funcp: %p  len:%lld   inputs: %p %p %p  steps: %lld %lld %lld  pWorkItem: %p\n", funcop, atype, g_UFuncLUT[funcop][atype].pOldFunc, (long long)n, args[0], args[1], args[2], (long long)steps[0], (long long)steps[1], (long long)steps[2], pWorkItem);
 
@@ -832,7 +859,11 @@ static void AtopCompareMathFunction(char** args, const npy_intp* dimensions, con
         // LOGGING("comparison called with %d %d   funcp: %p  len: %lld\n", funcop, atype, g_CompFuncLUT[funcop][atype].pOldFunc, (long long)dimensions[0]);
         stUFunc* pstUFunc = &g_CompFuncLUT[funcop][atype];
         npy_intp n = dimensions[0];
-        stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(n);
+        int64_t sizeIn = convert_atop_to_itemsize[atype];
+        bool canThread =
+            CanSplitLoop(args[0], steps[0], args[2], steps[2], n, sizeIn) &&
+            CanSplitLoop(args[1], steps[1], args[2], steps[2], n, sizeIn);
+        stMATH_WORKER_ITEM* pWorkItem = canThread ? THREADER->GetWorkItem(n) : NULL;
         ANY_TWO_FUNC pBinaryFunc = pstUFunc->pBinaryFunc;
 
         // Check if threading allowed
@@ -903,7 +934,9 @@ static void AtopUnaryMathFunction(char** args, const npy_intp* dimensions, const
         UNARY_FUNC pUnaryFunc = pstUFunc->pUnaryFunc;
         LOGGING("unary called with %d %d   funcp: %p  len: %lld  inputs: %p %p  steps: %lld %lld\n", funcop, atype, g_UFuncLUT[funcop][atype].pOldFunc, n, args[0], args[1], (int64_t)steps[0], (int64_t)steps[1]);
 
-        stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(n);
+        int64_t sizeIn = convert_atop_to_itemsize[atype];
+        bool canThread = CanSplitLoop(args[0], steps[0], args[1], steps[1], n, sizeIn);
+        stMATH_WORKER_ITEM* pWorkItem = canThread ? THREADER->GetWorkItem(n) : NULL;
         int64_t strideOut = steps[1];
         if (strideOut == 0) {
             pUnaryFunc = NULL;
@@ -967,7 +1000,9 @@ static void AtopTrigMathFunction(char** args, const npy_intp* dimensions, const
         UNARY_FUNC pUnaryFunc = pstUFunc->pUnaryFunc;
         //printf("trig called with %d %d   funcp: %p  len: %lld  inputs: %p %p  steps: %lld %lld\n", funcop, atype, pstUFunc->pOldFunc, n, args[0], args[1], (int64_t)steps[0], (int64_t)steps[1]);
 
-        stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(n);
+        int64_t sizeIn = convert_atop_to_itemsize[atype];
+        bool canThread = CanSplitLoop(args[0], steps[0], args[1], steps[1], n, sizeIn);
+        stMATH_WORKER_ITEM* pWorkItem = canThread ? THREADER->GetWorkItem(n) : NULL;
         int64_t strideOut = steps[1];
         if (strideOut == 0) {
             pUnaryFunc = NULL;
-- 
2.43.0


From 2dc35f6ebcb2cb68981970da3481fb7e6facb82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 10/40] fix: the thread drawing index 0 of indexed work quit,
 which hung the caller if no worker was awake

---
 src/atop/threads.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/atop/threads.h b/src/atop/threads.h
index 20214c0..f3d2146 100644
--- a/src/atop/threads.h
+++ b/src/atop/threads.h
@@ -1115,7 +1115,8 @@ public:
         }
 
         pWorkItem->BlocksCompleted = 0;
-        pWorkItem->BlockNext = 0;
+        // custom mode: the first index is 1, and index 0 would stop the thread that drew it
+        pWorkItem->BlockNext = bGenericMode ? 0 : 1;
         pWorkItem->BlockSize = BlockSize;
 
         int32_t threads = (threadWakeup + 1);
-- 
2.43.0


From 31bce142fcea7ddda54dd76f5905634c94b2b7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 11/40] fix: workers could run a reserved work item before the
 main thread filled it in

---
 src/atop/threads.cpp | 2 +-
 src/atop/threads.h   | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/atop/threads.cpp b/src/atop/threads.cpp
index e3f670b..dd69d9d 100644
--- a/src/atop/threads.cpp
+++ b/src/atop/threads.cpp
@@ -110,7 +110,7 @@ WorkerThreadFunction(void* lpParam)
 
         // See if work to do
         if (workIndex > workIndexCompleted) {
-            stMATH_WORKER_ITEM* pWorkItem = pWorkerRing->GetExistingWorkItem();
+            stMATH_WORKER_ITEM* pWorkItem = pWorkerRing->GetExistingWorkItem(workIndex);
 
             // check if the work was for our thread
             if ((int64_t)core <= pWorkItem->ThreadWakeup) {
diff --git a/src/atop/threads.h b/src/atop/threads.h
index f3d2146..624c627 100644
--- a/src/atop/threads.h
+++ b/src/atop/threads.h
@@ -477,9 +477,10 @@ struct stWorkerRing {
         return pWorkItem;
     }
 
-    FORCE_INLINE stMATH_WORKER_ITEM* GetExistingWorkItem() {
-        // Note: not safe when multiproc used
-        return  &WorkerQueue[MainWorkIndex  & RING_BUFFER_MASK];
+    // workIndex must be published (see SetWorkItem): MainWorkIndex may refer to an item
+    // that the main thread has reserved but has not filled in yet
+    FORCE_INLINE stMATH_WORKER_ITEM* GetExistingWorkItem(int64_t workIndex) {
+        return  &WorkerQueue[workIndex & RING_BUFFER_MASK];
     }
 
     FORCE_INLINE void WakeupWorkItem(int pool, int32_t maxThreadsToWake) {
-- 
2.43.0


From 7518c3994ef297b0bc4190d67797e863be8f99fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:12 +0000
Subject: [PATCH 12/40] fix: rint of float64 rounded halves away from zero
 instead of to even

---
 src/atop/ops_unary.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/atop/ops_unary.cpp b/src/atop/ops_unary.cpp
index 7975d7a..070f1df 100644
--- a/src/atop/ops_unary.cpp
+++ b/src/atop/ops_unary.cpp
@@ -208,9 +208,9 @@ template<typename T> static const inline bool ISNORMAL_OP(T x) { return std::isn
 template<typename T> static const inline bool ISNOTNORMAL_OP(T x) { return !std::isnormal(x); }
 template<typename T> static const inline bool ISNANORZERO_OP(T x) { return x == 0.0 || std::isnan(x); }
 
-template<typename T> static const inline long double ROUND_OP(long double x) { return roundl(x); }
-template<typename T> static const inline double ROUND_OP(double x) { return round(x); }
-template<typename T> static const inline float ROUND_OP(float x) { return roundf(x); }
+template<typename T> static const inline long double ROUND_OP(long double x) { return rintl(x); }
+template<typename T> static const inline double ROUND_OP(double x) { return rint(x); }
+template<typename T> static const inline float ROUND_OP(float x) { return rintf(x); }
 
 template<typename T> static const inline long double FLOOR_OP(long double x) { return floorl(x); }
 template<typename T> static const inline double FLOOR_OP(double x) { return floor(x); }
-- 
2.43.0


From 7ffb6c40cdba9479b6c1521bae8a343f659dee91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:02 +0000
Subject: [PATCH 13/40] fix: sin/cos/exp/log of float64 arrays returned wrong
 values (AVX2 double versions)

---
 src/atop/ops_trig.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/atop/ops_trig.cpp b/src/atop/ops_trig.cpp
index faa1dc5..b157d92 100644
--- a/src/atop/ops_trig.cpp
+++ b/src/atop/ops_trig.cpp
@@ -585,7 +585,7 @@ UNARY_FUNC GetTrigOpFast(int func, int atopInType1, int* wantedOutType) {
         *wantedOutType = atopInType1;
         switch (atopInType1) {
         case ATOP_FLOAT:  return UnaryOpFast<float, __m256, SIN_OP<float>, SIN_OP_256<__m256>>;
-        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, SIN_OP<double>, SIN_OP_256<__m256d>>;
+        // double: the AVX2 version is not accurate to double precision, use the numpy loop
         }
         break;
 
@@ -593,7 +593,7 @@ UNARY_FUNC GetTrigOpFast(int func, int atopInType1, int* wantedOutType) {
         *wantedOutType = atopInType1;
         switch (atopInType1) {
         case ATOP_FLOAT:  return UnaryOpFast<float, __m256, COS_OP<float>, COS_OP_256<__m256>>;
-        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, COS_OP<double>, COS_OP_256<__m256d>>;
+        // double: the AVX2 version is not accurate to double precision, use the numpy loop
         }
         break;
     case TRIG_OPERATION::TAN:
@@ -704,7 +704,7 @@ UNARY_FUNC GetTrigOpFast(int func, int atopInType1, int* wantedOutType) {
         *wantedOutType = atopInType1;
         switch (atopInType1) {
         case ATOP_FLOAT:  return UnaryOpFast<float, __m256, EXP_OP<float>, EXP_OP_256<__m256>>;
-        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, EXP_OP<double>, EXP_OP_256<__m256d>>;
+        // double: the AVX2 version is not accurate to double precision, use the numpy loop
         }
         break;
 
@@ -732,7 +732,7 @@ UNARY_FUNC GetTrigOpFast(int func, int atopInType1, int* wantedOutType) {
         *wantedOutType = atopInType1;
         switch (atopInType1) {
         case ATOP_FLOAT:  return UnaryOpFast<float, __m256, LOG_OP<float>, LOG_OP_256<__m256>>;
-        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, LOG_OP<double>, LOG_OP_256<__m256d>>;
+        // double: the AVX2 version is not accurate to double precision, use the numpy loop
         }
         break;
 
-- 
2.43.0


From a33ddab96509234f50e73903d5c8db34b0bcc55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 14/40] fix: sin/cos/exp/log of float32 returned wrong values
 outside the range the AVX2 versions handle

---
 src/atop/ops_trig.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/atop/ops_trig.cpp b/src/atop/ops_trig.cpp
index b157d92..a408452 100644
--- a/src/atop/ops_trig.cpp
+++ b/src/atop/ops_trig.cpp
@@ -134,14 +134,30 @@ template<typename T> static const inline float ATANH_OP(float x) { return atanhf
 //template<typename T> static const inline __m256  EXP_OP_256(__m256 x) { return _mm256_exp_ps(x); }
 //template<typename T> static const inline __m256d EXP_OP_256(__m256d x) { return _mm256_exp_pd(x); }
 
+// The float versions only handle a range of inputs, lanes outside of it (or nan) are computed again
+template<float MATH_OP(float)>
+static const inline __m256 FIX_LANES(__m256 x, __m256 result, float low, float high) {
+    __m256 inside = _mm256_and_ps(_mm256_cmp_ps(x, _mm256_set1_ps(low), _CMP_GE_OQ), _mm256_cmp_ps(x, _mm256_set1_ps(high), _CMP_LE_OQ));
+    if (_mm256_movemask_ps(inside) != 255) {
+        float in[8], out[8];
+        _mm256_storeu_ps(in, x);
+        _mm256_storeu_ps(out, result);
+        for (int i = 0; i < 8; i++) {
+            if (!(in[i] >= low && in[i] <= high)) out[i] = MATH_OP(in[i]);
+        }
+        result = _mm256_loadu_ps(out);
+    }
+    return result;
+}
+
 // Our custom sped up routines
-template<typename T> static const inline __m256  SIN_OP_256(__m256 x) { return sin256_ps(x);}
+template<typename T> static const inline __m256  SIN_OP_256(__m256 x) { return FIX_LANES<sinf>(x, sin256_ps(x), -8192.0f, 8192.0f); }
 template<typename T> static const inline __m256d SIN_OP_256(__m256d x) { return sin256_pd(x); }
-template<typename T> static const inline __m256  COS_OP_256(__m256 x) { return cos256_ps(x); }
+template<typename T> static const inline __m256  COS_OP_256(__m256 x) { return FIX_LANES<cosf>(x, cos256_ps(x), -8192.0f, 8192.0f); }
 template<typename T> static const inline __m256d COS_OP_256(__m256d x) { return cos256_pd(x); }
-template<typename T> static const inline __m256  LOG_OP_256(__m256 x) { return log256_ps(x); }
+template<typename T> static const inline __m256  LOG_OP_256(__m256 x) { return FIX_LANES<logf>(x, log256_ps(x), 1.17549435e-38f, 3.402823466e+38f); }
 template<typename T> static const inline __m256d LOG_OP_256(__m256d x) { return log256_pd(x); }
-template<typename T> static const inline __m256  EXP_OP_256(__m256 x) { return exp256_ps(x); }
+template<typename T> static const inline __m256  EXP_OP_256(__m256 x) { return FIX_LANES<expf>(x, exp256_ps(x), -87.0f, 88.0f); }
 template<typename T> static const inline __m256d EXP_OP_256(__m256d x) { return exp256_pd(x); }
 
 #if defined(RT_COMPILER_MSVC)
-- 
2.43.0


From 13dfbc3e44df4b073fadf85aa1a14d1ae825b152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:56 +0000
Subject: [PATCH 15/40] fix: boolean getitem of strided items of odd size wrote
 its last elements outside the result

---
 src/pnumpy/getitem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index b708352..a37b4a8 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -475,7 +475,7 @@ BooleanIndexInternal(
                         for (int64_t i = 0; i < blength; i++) {
                             if (*pBooleanMask++) {
                                 memcpy(pValuesOut, pValuesIn, itemSize);
-                                pValuesOut += strideValues;
+                                pValuesOut += itemSize;
                             }
                             pValuesIn += strideValues;
                         }
-- 
2.43.0


From 577a65eaf66c84a6c5501869905cccc12f51ef8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:56 +0000
Subject: [PATCH 16/40] fix: threaded getitem of strided values wrote outside
 the result

---
 src/pnumpy/getitem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index a37b4a8..03422ca 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -906,7 +906,8 @@ static int64_t GetItemCallback(struct stMATH_WORKER_ITEM* pstWorkerItem, int cor
         // Calculate how much to adjust the pointers to get to the data for this work block
         int64_t blockStart = workBlock * pstWorkerItem->BlockSize;
 
-        int64_t valueAdj = blockStart * strideValue;
+        // the output is always contiguous
+        int64_t valueAdj = blockStart * valueItemSize;
         int64_t indexAdj = blockStart * strideIndex;
 
         LOGGING("%d : workBlock %lld   blocksize: %lld    lenx: %lld  %lld  %lld  %lld %lld\n", core, workBlock, pstWorkerItem->BlockSize, lenX, typeSizeValues, typeSizeIndex, valueAdj, indexAdj);
-- 
2.43.0


From dcd32e271b91b949a40918e2597aa53f6204d569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:56 +0000
Subject: [PATCH 17/40] fix: getitem read unsigned indexes as signed, out of
 the range of the values

---
 src/pnumpy/getitem.cpp | 48 +++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 03422ca..84e0666 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -944,12 +944,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     case NPY_UINT8:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int8_t>;
-        case 2:  return GetItemUInt<int16_t, int8_t>;
-        case 4:  return GetItemUInt<int32_t, int8_t>;
-        case 8:  return GetItemUInt<int64_t, int8_t>;
-        case 16:  return GetItemUInt<__m128, int8_t>;
-        default: return GetItemUIntVariable<int8_t>;
+        case 1:  return GetItemUInt<int8_t, uint8_t>;
+        case 2:  return GetItemUInt<int16_t, uint8_t>;
+        case 4:  return GetItemUInt<int32_t, uint8_t>;
+        case 8:  return GetItemUInt<int64_t, uint8_t>;
+        case 16:  return GetItemUInt<__m128, uint8_t>;
+        default: return GetItemUIntVariable<uint8_t>;
         }
         break;
 
@@ -965,12 +965,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     case NPY_UINT16:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int16_t>;
-        case 2:  return GetItemUInt<int16_t, int16_t>;
-        case 4:  return GetItemUInt<int32_t, int16_t>;
-        case 8:  return GetItemUInt<int64_t, int16_t>;
-        case 16:  return GetItemUInt<__m128, int16_t>;
-        default: return GetItemUIntVariable<int16_t>;
+        case 1:  return GetItemUInt<int8_t, uint16_t>;
+        case 2:  return GetItemUInt<int16_t, uint16_t>;
+        case 4:  return GetItemUInt<int32_t, uint16_t>;
+        case 8:  return GetItemUInt<int64_t, uint16_t>;
+        case 16:  return GetItemUInt<__m128, uint16_t>;
+        default: return GetItemUIntVariable<uint16_t>;
         }
         break;
 
@@ -986,12 +986,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     CASE_NPY_UINT32:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int32_t>;
-        case 2:  return GetItemUInt<int16_t, int32_t>;
-        case 4:  return GetItemUInt<int32_t, int32_t>;
-        case 8:  return GetItemUInt<int64_t, int32_t>;
-        case 16:  return GetItemUInt<__m128, int32_t>;
-        default: return GetItemUIntVariable<int32_t>;
+        case 1:  return GetItemUInt<int8_t, uint32_t>;
+        case 2:  return GetItemUInt<int16_t, uint32_t>;
+        case 4:  return GetItemUInt<int32_t, uint32_t>;
+        case 8:  return GetItemUInt<int64_t, uint32_t>;
+        case 16:  return GetItemUInt<__m128, uint32_t>;
+        default: return GetItemUIntVariable<uint32_t>;
         }
         break;
 
@@ -1007,12 +1007,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     CASE_NPY_UINT64:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int64_t>;
-        case 2:  return GetItemUInt<int16_t, int64_t>;
-        case 4:  return GetItemUInt<int32_t, int64_t>;
-        case 8:  return GetItemUInt<int64_t, int64_t>;
-        case 16:  return GetItemUInt<__m128, int64_t>;
-        default: return GetItemUIntVariable<int64_t>;
+        case 1:  return GetItemUInt<int8_t, uint64_t>;
+        case 2:  return GetItemUInt<int16_t, uint64_t>;
+        case 4:  return GetItemUInt<int32_t, uint64_t>;
+        case 8:  return GetItemUInt<int64_t, uint64_t>;
+        case 16:  return GetItemUInt<__m128, uint64_t>;
+        default: return GetItemUIntVariable<uint64_t>;
         }
         break;
     }
-- 
2.43.0


From b1b17c35ee2723a5356ec8b24bd2e46429542ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:56 +0000
Subject: [PATCH 18/40] fix: getitem with unsigned indexes and items of odd
 size ran past the result

---
 src/pnumpy/getitem.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 84e0666..9743175 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -826,7 +826,6 @@ static void GetItemUIntVariable(void* aValues, void* aIndex, void* aDataOut, int
             //    memcpy(pDataOut, pSrc, itemSize);
 
             pIndex++;
-            pDataOut += itemSize;
         }
     }
     else {
@@ -852,7 +851,6 @@ static void GetItemUIntVariable(void* aValues, void* aIndex, void* aDataOut, int
                 *pDataOut++ = *pSrc++;
             }
             pIndex = STRIDE_NEXT(const INDEX, pIndex, strideIndex);
-            pDataOut += itemSize;
         }
     }
 }
-- 
2.43.0


From 20a141494f6be06776cbb755f77a431403120beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:22 +0000
Subject: [PATCH 19/40] fix: getitem of multi-dimensional arrays used the first
 stride as the distance of all elements

---
 src/pnumpy/getitem.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 9743175..ccd73d2 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -143,6 +143,13 @@ int64_t SumBooleanMask(const int8_t* const pData, const int64_t length, const in
     return result;
 }
 
+//===================================================
+// The distance between the elements of a one dimensional array or of a C contiguous array
+//
+static int64_t FlatStride(PyArrayObject* inArr) {
+    return PyArray_NDIM(inArr) == 1 ? PyArray_STRIDE(inArr, 0) : PyArray_ITEMSIZE(inArr);
+}
+
 //===================================================
 // Input: boolean array
 // Output: chunk count and ppChunkCount
@@ -199,7 +206,7 @@ int64_t BooleanCount(PyArrayObject* aIndex, int64_t** ppChunkCount) {
         BSCallbackStruct stBSCallback;
         stBSCallback.pChunkCount = pChunkCount;
         stBSCallback.pBooleanMask = pBooleanMask;
-        stBSCallback.strideBoolean = PyArray_STRIDE(aIndex, 0);
+        stBSCallback.strideBoolean = FlatStride(aIndex);
 
         BOOL didMtWork = THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBSCallback, &stBSCallback);
 
@@ -564,8 +571,8 @@ BooleanIndexInternal(
             stBICallback.pValuesIn = (char*)PyArray_BYTES(aValues);
             stBICallback.pValuesOut = (char*)PyArray_BYTES(pReturnArray);
             stBICallback.itemSize = PyArray_ITEMSIZE(aValues);
-            stBICallback.strideBoolean = PyArray_STRIDE(aIndex, 0);
-            stBICallback.strideValues = PyArray_STRIDE(aValues, 0);
+            stBICallback.strideBoolean = FlatStride(aIndex);
+            stBICallback.strideValues = FlatStride(aValues);
 
             THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBICallback2, &stBICallback);
         }
@@ -1083,18 +1090,20 @@ getitem(PyObject* self, PyObject* args)
     int64_t strideValue = 0;
     int64_t strideIndex = 0;
 
-    int result1 = GetStridesAndContig(aValues, ndimValue, strideValue);
-    int result2 = GetStridesAndContig(aIndex, ndimIndex, strideIndex);
+    GetStridesAndContig(aValues, ndimValue, strideValue);
+    GetStridesAndContig(aIndex, ndimIndex, strideIndex);
+    if (ndimValue != 1) strideValue = FlatStride(aValues);
+    if (ndimIndex != 1) strideIndex = FlatStride(aIndex);
 
 
     // This logic is not quite correct, if the strides on all dimensions are the same, we can use this routine
-    if (result1 != 0) {
+    if (ndimValue > 1) {
         if (!PyArray_ISCONTIGUOUS(aValues)) {
             PyErr_Format(PyExc_ValueError, "Dont know how to handle multidimensional array %d using index dtype: %d", numpyValuesType, numpyIndexType);
             return NULL;
         }
     }
-    if (result2 != 0) {
+    if (ndimIndex > 1) {
         if (!PyArray_ISCONTIGUOUS(aIndex)) {
             PyErr_Format(PyExc_ValueError, "Dont know how to handle multidimensional array %d using index dtype: %d", numpyValuesType, numpyIndexType);
             return NULL;
-- 
2.43.0


From 2f835901eb0db8e12ba8a2e39a83882648bfadf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:22 +0000
Subject: [PATCH 20/40] fix: getitem lost the byte order, datetime unit or
 fields of its values and misread byte swapped indexes

---
 src/pnumpy/common.cpp  | 12 ++++--------
 src/pnumpy/getitem.cpp |  5 +++++
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index 8cb9acb..8f7965c 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -157,14 +157,10 @@ PyArrayObject* AllocateNumpyArray(int ndim, npy_intp* dims, int32_t numpyType, i
 //-----------------------------------------------------------------------------------
 // NOTE: will only allocate 1 dim arrays
 PyArrayObject* AllocateLikeResize(PyArrayObject* inArr, npy_intp rowSize) {
-    int numpyType = PyArray_TYPE(inArr);
-
-    PyArrayObject* result = NULL;
-
-    int64_t itemSize = PyArray_ITEMSIZE(inArr);
-    result = AllocateNumpyArray(1, &rowSize, numpyType, itemSize);
-
-    return result;
+    // keep the dtype itself: byte order, datetime unit and field names are not part of the type number
+    PyArray_Descr* descr = PyArray_DESCR(inArr);
+    Py_INCREF(descr);
+    return (PyArrayObject*)PyArray_NewFromDescr(pPyArray_Type, descr, 1, &rowSize, NULL, NULL, 0, NULL);
 }
 
 //-----------------------------------------------------------------------------------
diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index ccd73d2..ec45685 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -1080,6 +1080,11 @@ getitem(PyObject* self, PyObject* args)
         return NULL;
     }
 
+    if (!PyArray_ISNOTSWAPPED(aIndex)) {
+        PyErr_Format(PyExc_ValueError, "Dont know how to handle a byte swapped index array");
+        return NULL;
+    }
+
     if (numpyIndexType == NPY_BOOL) {
         // special path for boolean
         return BooleanIndexInternal(aValues, aIndex);
-- 
2.43.0


From 429f9b700b7902160016402720d897e0b839fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:22 +0000
Subject: [PATCH 21/40] fix: getitem of object arrays copied references it did
 not own

---
 src/pnumpy/getitem.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index ec45685..0a0a0d9 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -575,6 +575,11 @@ BooleanIndexInternal(
             stBICallback.strideValues = FlatStride(aValues);
 
             THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBICallback2, &stBICallback);
+
+            if (PyDataType_REFCHK(PyArray_DESCR(pReturnArray))) {
+                // the result holds its own references to the objects copied
+                PyArray_INCREF(pReturnArray);
+            }
         }
     }  else {
         // ran out of memory
@@ -1090,6 +1095,12 @@ getitem(PyObject* self, PyObject* args)
         return BooleanIndexInternal(aValues, aIndex);
     }
 
+    if (PyDataType_REFCHK(PyArray_DESCR(aValues))) {
+        // no default for positions out of range
+        PyErr_Format(PyExc_ValueError, "Dont know how to convert these types %d using index dtype: %d", numpyValuesType, numpyIndexType);
+        return NULL;
+    }
+
     int ndimValue;
     int ndimIndex;
     int64_t strideValue = 0;
-- 
2.43.0


From 180fff9cde659d0d410d64e6c8ff2c208bd4e0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:54 +0000
Subject: [PATCH 22/40] fix: getitem of 16 byte items crashed on addresses that
 are not a multiple of 16

---
 src/pnumpy/getitem.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 0a0a0d9..a4d1567 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -936,6 +936,12 @@ static int64_t GetItemCallback(struct stMATH_WORKER_ITEM* pstWorkerItem, int cor
 
 
 
+// complex128 and longdouble items, which can be at any address
+struct ITEM16 {
+    int64_t low;
+    int64_t high;
+};
+
 //------------------------------------------------------------
 // itemSize is Values itemSize
 // indexType is Index type
@@ -948,7 +954,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int8_t>;
         case 4:  return GetItemInt<int32_t, int8_t>;
         case 8:  return GetItemInt<int64_t, int8_t>;
-        case 16:  return GetItemInt<__m128, int8_t>;
+        case 16:  return GetItemInt<ITEM16, int8_t>;
         default: return GetItemIntVariable<int8_t>;
         }
         break;
@@ -958,7 +964,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, uint8_t>;
         case 4:  return GetItemUInt<int32_t, uint8_t>;
         case 8:  return GetItemUInt<int64_t, uint8_t>;
-        case 16:  return GetItemUInt<__m128, uint8_t>;
+        case 16:  return GetItemUInt<ITEM16, uint8_t>;
         default: return GetItemUIntVariable<uint8_t>;
         }
         break;
@@ -969,7 +975,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int16_t>;
         case 4:  return GetItemInt<int32_t, int16_t>;
         case 8:  return GetItemInt<int64_t, int16_t>;
-        case 16:  return GetItemInt<__m128, int16_t>;
+        case 16:  return GetItemInt<ITEM16, int16_t>;
         default: return GetItemIntVariable<int16_t>;
         }
         break;
@@ -979,7 +985,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, uint16_t>;
         case 4:  return GetItemUInt<int32_t, uint16_t>;
         case 8:  return GetItemUInt<int64_t, uint16_t>;
-        case 16:  return GetItemUInt<__m128, uint16_t>;
+        case 16:  return GetItemUInt<ITEM16, uint16_t>;
         default: return GetItemUIntVariable<uint16_t>;
         }
         break;
@@ -990,7 +996,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int32_t>;
         case 4:  return GetItemInt<int32_t, int32_t>;
         case 8:  return GetItemInt<int64_t, int32_t>;
-        case 16:  return GetItemInt<__m128, int32_t>;
+        case 16:  return GetItemInt<ITEM16, int32_t>;
         default: return GetItemIntVariable<int32_t>;
         }
         break;
@@ -1000,7 +1006,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, uint32_t>;
         case 4:  return GetItemUInt<int32_t, uint32_t>;
         case 8:  return GetItemUInt<int64_t, uint32_t>;
-        case 16:  return GetItemUInt<__m128, uint32_t>;
+        case 16:  return GetItemUInt<ITEM16, uint32_t>;
         default: return GetItemUIntVariable<uint32_t>;
         }
         break;
@@ -1011,7 +1017,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int64_t>;
         case 4:  return GetItemInt<int32_t, int64_t>;
         case 8:  return GetItemInt<int64_t, int64_t>;
-        case 16:  return GetItemInt<__m128, int64_t>;
+        case 16:  return GetItemInt<ITEM16, int64_t>;
         default: return GetItemIntVariable<int64_t>;
         }
         break;
@@ -1021,7 +1027,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, uint64_t>;
         case 4:  return GetItemUInt<int32_t, uint64_t>;
         case 8:  return GetItemUInt<int64_t, uint64_t>;
-        case 16:  return GetItemUInt<__m128, uint64_t>;
+        case 16:  return GetItemUInt<ITEM16, uint64_t>;
         default: return GetItemUIntVariable<uint64_t>;
         }
         break;
-- 
2.43.0


From 62e6794840cb9c84bd724ea34facca15648c5a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:54 +0000
Subject: [PATCH 23/40] fix: getitem read past or ignored its default for
 complex, longdouble, string and other wide types

---
 src/pnumpy/common.cpp  | 24 ++++++++++++++++++++++--
 src/pnumpy/getitem.cpp | 36 +++++++++++++++++++++++++++++++++---
 2 files changed, 55 insertions(+), 5 deletions(-)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index 8f7965c..766ad8b 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -30,6 +30,12 @@ static uint8_t  gDefaultUInt8 = 0xFF;
 
 static float  gDefaultFloat = NAN;
 static double gDefaultDouble = NAN;
+static uint16_t gDefaultHalf = 0x7E00;
+static long double gDefaultLongDouble = NAN;
+// complex types, real and imaginary part
+static float  gDefaultCFloat[2] = { NAN, NAN };
+static double gDefaultCDouble[2] = { NAN, NAN };
+static long double gDefaultCLongDouble[2] = { NAN, NAN };
 static int8_t   gDefaultBool = 0;
 static char   gString[1024] = { 0,0,0,0 };
 
@@ -42,7 +48,20 @@ void* GetDefaultForType(int numpyInType) {
     switch (numpyInType) {
     case NPY_FLOAT:  pgDefault = &gDefaultFloat;
         break;
-    case NPY_LONGDOUBLE:
+    case NPY_LONGDOUBLE: pgDefault = &gDefaultLongDouble;
+        break;
+    case NPY_HALF:   pgDefault = &gDefaultHalf;
+        break;
+    case NPY_CFLOAT: pgDefault = &gDefaultCFloat;
+        break;
+    case NPY_CDOUBLE: pgDefault = &gDefaultCDouble;
+        break;
+    case NPY_CLONGDOUBLE: pgDefault = &gDefaultCLongDouble;
+        break;
+        // NaT
+    case NPY_DATETIME:
+    case NPY_TIMEDELTA: pgDefault = &gDefaultInt64;
+        break;
     case NPY_DOUBLE: pgDefault = &gDefaultDouble;
         break;
         // BOOL should not really have an invalid value inhabiting the type
@@ -66,7 +85,8 @@ void* GetDefaultForType(int numpyInType) {
         break;
     case NPY_STRING: pgDefault = &gString;
         break;
-    case NPY_UNICODE: pgDefault = &gString;
+    case NPY_UNICODE:
+    case NPY_VOID: pgDefault = &gString;
         break;
     default:
         printf("!!! likely problem in GetDefaultForType\n");
diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index a4d1567..ed422be 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -1156,19 +1156,48 @@ getitem(PyObject* self, PyObject* args)
             void* pDefault = GetDefaultForType(numpyValuesType);
 
             // reserve a full 16 bytes for default in case we have oneS
-            char tempDefault[128];
+            alignas(32) char tempDefault[128];
+            PyArrayObject* defaultArray = NULL;
 
             // Check if a default value was passed in as third parameter
             if (defaultValue != Py_None) {
-                BOOL result;
+                BOOL result = FALSE;
                 int64_t itemSize;
                 void* pTempData = NULL;
                 // Try to convert the scalar
-                result = ConvertScalarObject(defaultValue, &tempDefault, numpyValuesType, &pTempData, &itemSize);
+                if (numpyValuesType <= NPY_DOUBLE && PyArray_ISNOTSWAPPED(aValues) && !PyBytes_Check(defaultValue) && !PyUnicode_Check(defaultValue)) {
+                    result = ConvertScalarObject(defaultValue, &tempDefault, numpyValuesType, &pTempData, &itemSize);
+                    PyErr_Clear();
+                }
                 if (result) {
                     // Assign the new default for out of range indexes
                     pDefault = &tempDefault;
                 }
+                else {
+                    // Let numpy convert it to the dtype of the values
+                    defaultArray = AllocateLikeResize(aValues, 1);
+                    if (!defaultArray || PyArray_SETITEM(defaultArray, (char*)PyArray_BYTES(defaultArray), defaultValue) < 0) {
+                        Py_XDECREF(defaultArray);
+                        Py_DECREF(outArray);
+                        return NULL;
+                    }
+                    pDefault = PyArray_BYTES(defaultArray);
+                }
+            }
+            else if (!PyArray_ISNOTSWAPPED(aValues) || aValueItemSize > 1024) {
+                // The invalid value of the type, in the byte order and size of the values
+                defaultArray = AllocateLikeResize(aValues, 1);
+                if (!defaultArray) {
+                    Py_DECREF(outArray);
+                    return NULL;
+                }
+                char* pItem = (char*)PyArray_BYTES(defaultArray);
+                memset(pItem, 0, aValueItemSize);
+                if (!PyTypeNum_ISFLEXIBLE(numpyValuesType)) {
+                    memcpy(pItem, pDefault, aValueItemSize);
+                    PyArray_DESCR(aValues)->f->copyswap(pItem, NULL, 1, defaultArray);
+                }
+                pDefault = pItem;
             }
 
             stMATH_WORKER_ITEM* pWorkItem = THREADER ? THREADER->GetWorkItem(aIndexLength) : NULL;
@@ -1210,6 +1239,7 @@ getitem(PyObject* self, PyObject* args)
                 //g_cMathWorker->WorkMain(pWorkItem, aIndexLength);
             }
 
+            Py_XDECREF(defaultArray);
             return (PyObject*)outArray;
         }
         PyErr_Format(PyExc_ValueError, "GetItem ran out of memory %d %d", numpyValuesType, numpyIndexType);
-- 
2.43.0


From b801822887df9aa30ed0e37e2a6fc7db74b0004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:54 +0000
Subject: [PATCH 24/40] fix: the getitem hook accepted boolean masks of another
 shape than the array

---
 src/pnumpy/_pnumpy.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 5d77c7b..379f924 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -1748,7 +1748,10 @@ PyObject * GetItemHook(PyObject* aValues, PyObject* aIndex) {
 
         PyObject* result = NULL;
         if (numpyIndexType == NPY_BOOL) {
-            // special path for boolean
+            // special path for boolean, a mask of another shape selects rows or is an error
+            if (!PyArray_SAMESHAPE((PyArrayObject*)aValues, (PyArrayObject*)aIndex)) {
+                return g_Settings.NumpyGetItem(aValues, aIndex);
+            }
             result = BooleanIndexInternal((PyArrayObject*)aValues, (PyArrayObject*)aIndex);
             if (result) {
                 return result;
-- 
2.43.0


From 7bcb94c9b55a2a14d95033ffa0888ec6c0afdfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:34 +0000
Subject: [PATCH 25/40] fix: getitem defaults beyond 64 bits became -1 and bool
 defaults other than 0 and 1 made invalid bools

---
 src/pnumpy/common.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index 766ad8b..1893bfc 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -322,8 +322,13 @@ BOOL ConvertScalarObject(PyObject* inObject1,  void* pDestVoid, int16_t numpyOut
                 // overflow of -1 indicate past LONG_MIN which we do not handle
                 // PyLong_AsLongLong will RAISE an overflow exception
 
+                if (overflow != 0) {
+                    // does not fit in 64 bits
+                    return FALSE;
+                }
+
                 // If the value is negative, conversion to unsigned not allowed
-                if (value >= 0 || overflow == 1) {
+                if (value >= 0) {
                     value2 = PyLong_AsUnsignedLongLongMask(inObject1);
                 }
                 else {
@@ -351,6 +356,8 @@ BOOL ConvertScalarObject(PyObject* inObject1,  void* pDestVoid, int16_t numpyOut
 
             switch (numpyOutType) {
             case NPY_BOOL:
+                pDest->i = _mm256_set1_epi8(value != 0);
+                break;
             case NPY_INT8:
                 pDest->i = _mm256_set1_epi8((int8_t)value);
                 break;
@@ -394,6 +401,8 @@ BOOL ConvertScalarObject(PyObject* inObject1,  void* pDestVoid, int16_t numpyOut
 
             switch (numpyOutType) {
             case NPY_BOOL:
+                pDest->i = _mm256_set1_epi8(value != 0);
+                break;
             case NPY_INT8:
                 pDest->i = _mm256_set1_epi8((int8_t)value);
                 break;
-- 
2.43.0


From 0d03513d5f07f6227ba74685d2ac1f49c83abec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:43 +0000
Subject: [PATCH 26/40] fix: recarray_to_colmajor raised a NameError for every
 record array

---
 src/pnumpy/recarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/recarray.py b/src/pnumpy/recarray.py
index e18c49b..53e9829 100644
--- a/src/pnumpy/recarray.py
+++ b/src/pnumpy/recarray.py
@@ -36,7 +36,7 @@ def recarray_to_colmajor(item, parallel=True):
                 break;
 
         d={}
-        if successs and parallel:
+        if success and parallel:
             offsets=[]
             arrays=np.empty(len(item.dtype.fields), dtype='O')
             arrlen = len(item)
-- 
2.43.0


From f1e81445356c434a4d471101429d2fd8c4428e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:43 +0000
Subject: [PATCH 27/40] fix: recarray_to_colmajor wrote past its columns for
 other shapes and trusted offsets, types and sizes

---
 src/pnumpy/conversions.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/pnumpy/conversions.cpp b/src/pnumpy/conversions.cpp
index 037b3e4..a3c394f 100644
--- a/src/pnumpy/conversions.cpp
+++ b/src/pnumpy/conversions.cpp
@@ -44,6 +44,11 @@ recarray_to_colmajor(PyObject* self, PyObject* args) {
         return NULL;
     }
 
+    if (!PyArray_Check(inArr) || !PyArray_Check(offsetArr) || !PyArray_Check(arrArr) || PyArray_NDIM(inArr) < 1) {
+        PyErr_Format(PyExc_ValueError, "recarray_to_colmajor must input 3 numpy arrays");
+        return NULL;
+    }
+
     int64_t itemSize = PyArray_ITEMSIZE(inArr);
 
     if (itemSize != PyArray_STRIDE(inArr, 0)) {
@@ -69,10 +74,31 @@ recarray_to_colmajor(PyObject* self, PyObject* args) {
         return NULL;
     }
 
+    if (PyArray_TYPE(offsetArr) != NPY_INT64 || !PyArray_ISCARRAY_RO(offsetArr) || !PyArray_ISCARRAY_RO(arrArr)) {
+        PyErr_Format(PyExc_ValueError, "recarray_to_colmajor second and third param must be contiguous, offsets int64");
+        return NULL;
+    }
+
     int64_t totalRows = length;
     int64_t* pOffsets = (int64_t*)PyArray_BYTES(offsetArr);
     PyArrayObject** ppArrays = (PyArrayObject**)PyArray_BYTES(arrArr);
 
+    // Each column must have room for all the rows and lie within a record
+    for (int64_t i = 0; i < numArrays; i++) {
+        PyArrayObject* column = ppArrays[i];
+        if (!column || !PyArray_Check(column) || ArrayLength(column) != length || !PyArray_ISCONTIGUOUS(column) ||
+            !PyArray_ISWRITEABLE(column) || PyDataType_REFCHK(PyArray_DESCR(column)) ||
+            pOffsets[i] < 0 || pOffsets[i] > itemSize - PyArray_ITEMSIZE(column)) {
+            PyErr_Format(PyExc_ValueError, "recarray_to_colmajor column %lld does not match the records", i);
+            return NULL;
+        }
+    }
+
+    // No rows or nothing in them
+    if (length == 0 || itemSize == 0) {
+        RETURN_NONE;
+    }
+
     stRecarrayOffsets* pstOffset;
 
     // TODO allocate this on the stack
-- 
2.43.0


From 002d5195cac7532e42fdbe46576f503c4c8c2f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:55 +0000
Subject: [PATCH 28/40] fix: argsort and lexsort misplaced NaN of arrays with
 more than 15 values

---
 src/atop/sort.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index 4f7416c..37a2ab3 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1162,7 +1162,8 @@ amergesort0_(UINDEX* pl, UINDEX* pr, const T* v, UINDEX* pw)
         // moving from workspace into left
 
         while (pw < pwEnd && pm < pr) {
-            if (v[*pm] < v[*pw]) {
+            // the left side can hold nans
+            if (COMPARE_LT(v[*pm], v[*pw])) {
                 *pl++ = *pm++;
             }
             else {
-- 
2.43.0


From f392ebf6e1d8fd988dbafe4c82f86f2ba1527774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:55 +0000
Subject: [PATCH 29/40] fix: sort ordered half floats by their bits, lexsort
 did not sort them

---
 src/atop/sort.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index 37a2ab3..26918d2 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -199,6 +199,15 @@ HALF_LT(atop_half a, atop_half b)
     return ret;
 }
 
+// A half float held in a type of its own, so that it sorts as a float and not as its bits
+struct HALF_SORT { atop_half h; };
+FORCE_INLINE static bool COMPARE_LT(HALF_SORT X, HALF_SORT Y) { return HALF_LT(X.h, Y.h); }
+FORCE_INLINE static bool operator<=(HALF_SORT X, HALF_SORT Y) {
+    return !atop_half_isnan(X.h) && !atop_half_isnan(Y.h) && !atop_half_lt_nonan(Y.h, X.h);
+}
+FORCE_INLINE static HALF_SORT* FIND_NANS(HALF_SORT* pr, HALF_SORT* pm)
+    { do { if (!atop_half_isnan((pr - 1)->h)) return pr; --pr; } while (pm < pr); return pr; };
+
 //======================================
 // For one byte strings
 FORCE_INLINE static bool
@@ -2328,6 +2337,8 @@ static int SortIndex(
         return SortIndex<double, UINDEX>(pCutOffs, cutOffLength, pDataIn1, pDataOut1, arraySize1, mode);
     case ATOP_LONGDOUBLE:
         return SortIndex<long double, UINDEX>(pCutOffs, cutOffLength, pDataIn1, pDataOut1, arraySize1, mode);
+    case ATOP_HALF_FLOAT:
+        return SortIndex<HALF_SORT, UINDEX>(pCutOffs, cutOffLength, pDataIn1, pDataOut1, arraySize1, mode);
     case ATOP_UNICODE:
         mergeStepOne.argsortstringfunc = ParMergeString<const uint32_t*, UINDEX>;
         return par_amergesort<char, UINDEX>(pCutOffs, cutOffLength, (char*)pDataIn1, pDataOut1, arraySize1, strlen, PAR_SORT_TYPE::Unicode, mergeStepOne);
@@ -2404,7 +2415,7 @@ static SORT_FUNCTION GetSortFunction(void* pDataIn1, int64_t arraySize1, int32_t
     case ATOP_LONGDOUBLE:
         return SortInPlace<long double>(mode);
     case ATOP_HALF_FLOAT:
-        return SortInPlace<atop_half>(mode);
+        return SortInPlace<HALF_SORT>(mode);
     default:
         LOGGING("SortArray does not understand type %d\n", atype);
         return NULL;
@@ -2476,7 +2487,7 @@ extern "C" int Sort(
     case ATOP_LONGDOUBLE:
         return par_sort<long double>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
     case ATOP_HALF_FLOAT:
-        return par_sort<atop_half>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
+        return par_sort<HALF_SORT>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
     case ATOP_STRING:
         return par_sort<unsigned char>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
     case ATOP_UNICODE:
-- 
2.43.0


From 291f6112cf74bbb207339b8da5b7cb79adbc4512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:55 +0000
Subject: [PATCH 30/40] fix: sort of a large strided array read it as
 contiguous

---
 src/atop/sort.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index 26918d2..d53298a 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1583,6 +1583,9 @@ struct MERGE_STEP_ONE_CALLBACK {
     int64_t AllocChunk;
     int64_t TypeSizeInput;
 
+    // distance between the values to sort, used when they are copied before an inplace sort
+    int64_t StridesInput;
+
     // not valid for inplace sorting, otherwise is sizeof(int32) or sizeof(int64) depending on index size
     int64_t TypeSizeOutput;
 
@@ -1814,10 +1817,9 @@ static int64_t ParMergeInPlaceThreadCallback(struct stMATH_WORKER_ITEM* pstWorke
         char* pWorkSpace1 = Callback->pWorkSpace + (index * Callback->AllocChunk * itemSizeInput);
 
         // Copy data over
-        // TODO: Fix for strided data
         // For a pure inplace sort, pSrcData will be the same as pData
         if (pSrcData != pData)
-            CopyData(pSrcData + (pFirst * itemSizeInput), MergeSize, Callback->TypeSizeInput, Callback->StrLen, pData + (pFirst * itemSizeInput), Callback->TypeSizeOutput);
+            CopyData(pSrcData + (pFirst * Callback->StridesInput), MergeSize, Callback->StridesInput, itemSizeInput, pData + (pFirst * itemSizeInput), Callback->TypeSizeOutput);
 
         if (Callback->SortCallbackOne.sortfunc) {
             Callback->SortCallbackOne.sortfunc(pData + (pFirst * itemSizeInput), MergeSize);
@@ -2178,6 +2180,7 @@ par_sort(
         stParMergeCallback.AllocChunk = allocChunk;
         stParMergeCallback.pWorkSpace = (char*)pWorkSpace;
         stParMergeCallback.TypeSizeInput = itemSize;
+        stParMergeCallback.StridesInput = stridesIn;
         stParMergeCallback.TypeSizeOutput = stridesOut;
 
         // This will notify the worker threads of a new work item
-- 
2.43.0


From 91f7c5ba2edac9fe2436ecd8443c76b1f37de011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:55 +0000
Subject: [PATCH 31/40] fix: sort of a large string array merged single
 characters past its end

---
 src/atop/sort.cpp | 43 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index d53298a..67a9774 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1431,6 +1431,40 @@ ParInPlaceMerge(void* pValue1, int64_t totalLen, int64_t strlen, void* pWorkSpac
 
 }
 
+//---------------------------------------------------------------------------
+// Called to combine the result of the left and right merge of strings
+// T is the type of one character
+//
+template <typename T>
+static void
+ParInPlaceMergeString(void* pValue1, int64_t totalLen, int64_t strlen, void* pWorkSpace1) {
+    char* pw = (char*)pWorkSpace1;
+    char* pk = (char*)pValue1;
+    char* pm = pk + (totalLen >> 1) * strlen;
+    char* pr = pk + totalLen * strlen;
+
+    // quickcheck to see if we have to copy
+    if (STRING_LT((T*)pm, (T*)(pm - strlen), strlen)) {
+
+        char* pi = pw + (pm - pk);
+        char* pj = pw;
+        MEMCPYR(pw, pk, pm - pk);
+
+        while (pj < pi && pm < pr) {
+            if (STRING_LT((T*)pm, (T*)pj, strlen)) {
+                STRING_COPY(pk, pm, strlen);
+                pm += strlen;
+            }
+            else {
+                STRING_COPY(pk, pj, strlen);
+                pj += strlen;
+            }
+            pk += strlen;
+        }
+        MEMCPYR(pk, pj, pi - pj);
+    }
+}
+
 typedef int(*SORT_FUNCTION)(void* pValue, int64_t length);
 typedef int(*SORT_FUNCTION_STRING)(void* pValue, int64_t length, int64_t strlen);
 struct SORT_FUNCTION_ANY {
@@ -2137,7 +2171,8 @@ par_sort(
     int64_t         itemSize,
     void*           pOut,
     int64_t         stridesOut,
-    SORT_FUNCTION_ANY   pSortFunction)
+    SORT_FUNCTION_ANY   pSortFunction,
+    SORT_STEP_TWO   pMergeFunction = ParInPlaceMerge<DATATYPE>)
 {
     // If size is large, go parallel
     LOGGING("Parallel version  %p  %p  %p\n", pSortFunction.sortfunc, pOut , pValues);
@@ -2171,7 +2206,7 @@ par_sort(
         stParMergeCallback.SortCallbackOne = pSortFunction;
 
         // second pass is a mergesort in place
-        stParMergeCallback.SortCallbackTwo = ParInPlaceMerge<DATATYPE>;
+        stParMergeCallback.SortCallbackTwo = pMergeFunction;
 
         stParMergeCallback.pValues = pValues;
         stParMergeCallback.pToSort = pOut;
@@ -2492,9 +2527,9 @@ extern "C" int Sort(
     case ATOP_HALF_FLOAT:
         return par_sort<HALF_SORT>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
     case ATOP_STRING:
-        return par_sort<unsigned char>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
+        return par_sort<unsigned char>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction, ParInPlaceMergeString<unsigned char>);
     case ATOP_UNICODE:
-        return par_sort<uint32_t>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
+        return par_sort<uint32_t>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction, ParInPlaceMergeString<uint32_t>);
     default:
         LOGGING("SortArray does not understand type %d\n", atype);
         return -1;
-- 
2.43.0


From 2ccc512bf0a08124c5f6a10f9977b49e6f08796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:56 +0000
Subject: [PATCH 32/40] fix: lexsort of large string arrays compared the wrong
 string before a merge

---
 src/atop/sort.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index 67a9774..b926f62 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1296,9 +1296,7 @@ ParMergeMergeString(void* pValue1, void* pToSort1, int64_t totalLen, int64_t str
     UINDEX* pi, * pj, * pk, * pm;
     pm = pl + ((pr - pl) >> 1);
 
-    PLOGGING("Comparing %s to %s  ALSO %s\n", pValue + (*pm) * strlen, pValue + (*pm - 1) * strlen, pValue + (*pm + 1) * strlen);
-
-    if ( STRING_LT((DATATYPE)(pValue + (*pm) * strlen), (DATATYPE)(pValue + (*pm - 1) * strlen), strlen)) {
+    if ( STRING_LT((DATATYPE)(pValue + (*pm) * strlen), (DATATYPE)(pValue + (*(pm - 1)) * strlen), strlen)) {
 
         // copy the left to workspace
         MEMCPYR(pWorkSpace, pl, (pm - pl) * sizeof(UINDEX));
-- 
2.43.0


From afb3197718485eb9b990fa2ea4b0b44abc6c54b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:12 +0000
Subject: [PATCH 33/40] fix: the sort hook sorted the array instead of the
 values NumPy passed

---
 src/pnumpy/_pnumpy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 379f924..3719a41 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -1093,7 +1093,7 @@ static int AtopSortMathFunction(void* pDest, npy_intp length, void* pArrayObject
                         if (PyArray_ITEMSIZE(pSrcObject) == itemsize && PyArray_STRIDE(pSrcObject, 0) == itemsize) {
                             SORT_MODE sortmode = (SORT_MODE)sortkind;
                             int result =
-                                Sort(sortmode, atype, PyArray_BYTES(pSrcObject), ArrayLength(pSrcObject), PyArray_STRIDE(pSrcObject, 1), PyArray_ITEMSIZE(pSrcObject), pDest, PyArray_ITEMSIZE(pSrcObject));
+                                Sort(sortmode, atype, pDest, length, itemsize, itemsize, pDest, itemsize);
 
                             LOGGING("result is %d  %d   len: %lld\n", result, atype, length);
                             if (result >= 0)
-- 
2.43.0


From 53168d5f0006728da3609c9f2539ec8964d815d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:12 +0000
Subject: [PATCH 34/40] fix: sort and lexsort took byte swapped values for
 native ones

---
 src/pnumpy/sorting.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index ddee8af..3ee54aa 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -396,6 +396,10 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
                 PyErr_Format(PyExc_ValueError, "LexSort cannot handle type %d\n",dtype);
                 return NULL;
             }
+            if (!PyArray_ISNOTSWAPPED(mlp.aInfo[i].pObject)) {
+                PyErr_Format(PyExc_ValueError, "LexSort cannot handle an array which is byte swapped");
+                return NULL;
+            }
         }
 
 
@@ -540,6 +544,11 @@ extern "C" PyObject* sort(PyObject* self, PyObject* args, PyObject* kwargs) {
         PyErr_Format(PyExc_ValueError, "Sort cannot handle type %d\n", dtype);
         return NULL;
     }
+    if (!PyArray_ISNOTSWAPPED(inArrValues)) {
+        PyErr_Format(PyExc_ValueError, "Sort: dont know how to handle an array which is byte swapped");
+        return NULL;
+    }
+
     int ndimValue;
     int64_t strideValue = 0;
 
-- 
2.43.0


From 0f83ff120b56729dca9a0c80fbaed577c2cb2057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:12 +0000
Subject: [PATCH 35/40] fix: lexsort returned None with an exception set, or
 crashed, for arrays it cannot sort

---
 src/pnumpy/common.cpp  | 6 +++++-
 src/pnumpy/sorting.cpp | 9 +++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index 1893bfc..6fb75e1 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -728,8 +728,12 @@ ArrayInfo* BuildArrayInfo(
                 //    goto EXIT_ROUTINE;
                 //}
 
-                int64_t stride0 = PyArray_STRIDE((PyArrayObject*)inObject, 0);
+                // strides do not matter when there is nothing to step over
                 int64_t itemSize = aInfo[i].ItemSize;
+                int64_t stride0 = itemSize;
+                if (aInfo[i].NDim > 0 && aInfo[i].ArrayLength > 1) {
+                    stride0 = PyArray_STRIDE((PyArrayObject*)inObject, 0);
+                }
 
                 if (checkrows) {
                     if (aInfo[i].NDim != 1) {
diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index 3ee54aa..da49b98 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -372,6 +372,11 @@ template<typename UINDEX>
 PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
     CMultiListPrepare mlp(args);
 
+    // wrong arrays, or arrays of different lengths
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
+
     if (mlp.aInfo && mlp.tupleSize > 0) {
         int64_t    arraySize1 = mlp.totalRows;
 
@@ -390,6 +395,10 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
 
         // Check types that we can sort
         for (UINDEX i = 0; i < mlp.tupleSize; i++) {
+            if (!mlp.aInfo[i].pObject) {
+                PyErr_Format(PyExc_ValueError, "LexSort cannot sort None");
+                return NULL;
+            }
             int dtype = mlp.aInfo[i].NumpyDType;
             int atype = dtype_to_atop(dtype);
             if (atype == -1 || (atype > ATOP_LONGDOUBLE && (atype != ATOP_STRING && atype != ATOP_UNICODE))) {
-- 
2.43.0


From 6631862f11490cf7765faf41cee67d19f836659f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:13 +0000
Subject: [PATCH 36/40] fix: lexsort trusted its cutoffs

---
 src/pnumpy/sorting.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index da49b98..3da437b 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -189,6 +189,11 @@ int64_t* GetCutOffs(PyObject* kwargs, int64_t& cutoffLength) {
     if (pCutOffs != NULL) {
         switch (PyArray_TYPE(pCutOffs)) {
         CASE_NPY_INT64:
+            if (!PyArray_ISCARRAY_RO(pCutOffs)) {
+                printf("Bad cutoff array... make sure contiguous\n");
+                cutoffLength = -1;
+                return NULL;
+            }
             cutoffLength = ArrayLength(pCutOffs);
             return (int64_t*)PyArray_BYTES(pCutOffs);
         default:
@@ -384,14 +389,25 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
         int64_t* pCutOffs = GetCutOffs(kwargs, cutOffLength);
         SORT_MODE sortmode = (SORT_MODE)GetKind(kwargs, SORT_MODE_MERGE);
 
-        if (pCutOffs && pCutOffs[cutOffLength - 1] != arraySize1) {
-            PyErr_Format(PyExc_ValueError, "LexSort last cutoff length does not match array length %lld", arraySize1);
-            return NULL;
-        }
         if (cutOffLength == -1) {
             PyErr_Format(PyExc_ValueError, "LexSort 'cutoffs' must be an array of type int64_t");
             return NULL;
         }
+        if (pCutOffs && (cutOffLength == 0 || pCutOffs[cutOffLength - 1] != arraySize1)) {
+            PyErr_Format(PyExc_ValueError, "LexSort last cutoff length does not match array length %lld", arraySize1);
+            return NULL;
+        }
+        if (pCutOffs) {
+            // every partition must lie inside the arrays
+            int64_t startPos = 0;
+            for (int64_t i = 0; i < cutOffLength; i++) {
+                if (pCutOffs[i] < startPos) {
+                    PyErr_Format(PyExc_ValueError, "LexSort 'cutoffs' must not be negative or decrease");
+                    return NULL;
+                }
+                startPos = pCutOffs[i];
+            }
+        }
 
         // Check types that we can sort
         for (UINDEX i = 0; i < mlp.tupleSize; i++) {
-- 
2.43.0


From 01fc6137d67111ca61877ab56ffe946fb1d7a17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:13 +0000
Subject: [PATCH 37/40] fix: lexsort trusted its index

---
 src/pnumpy/sorting.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index 3da437b..80a8571 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -440,7 +440,7 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
             return NULL;
         }
 
-        if (indexLength > 0) {
+        if (index) {
             if (indexLength > arraySize1) {
                 PyErr_Format(PyExc_ValueError, "LexSort 'index' is larger than value array");
                 return NULL;
@@ -456,6 +456,25 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
                 return NULL;
             }
 
+            if (pCutOffs) {
+                PyErr_Format(PyExc_ValueError, "LexSort cannot handle both 'index' and 'cutoffs'");
+                return NULL;
+            }
+
+            // the index is sorted in place
+            if (!PyArray_ISCARRAY(index)) {
+                PyErr_Format(PyExc_ValueError, "LexSort 'index' must be contiguous and writeable");
+                return NULL;
+            }
+
+            UINDEX* pIndex = (UINDEX*)PyArray_BYTES(index);
+            for (int64_t i = 0; i < indexLength; i++) {
+                if (pIndex[i] < 0 || pIndex[i] >= arraySize1) {
+                    PyErr_Format(PyExc_ValueError, "LexSort 'index' is out of range");
+                    return NULL;
+                }
+            }
+
             // reduce what we sort to the startindex
             arraySize1 = indexLength;
             result = index;
-- 
2.43.0


From 562b66e10af99767f62bc2fe193887a774dd2cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:53 +0000
Subject: [PATCH 38/40] fix: lexsort of no keys read past its empty table of
 arrays

---
 src/pnumpy/sorting.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index 80a8571..0894e09 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -329,7 +329,7 @@ public:
         int64_t listSize = 0;
         aInfo = BuildArrayInfo(args, &listSize, &totalItemSize);
 
-        if (aInfo) {
+        if (aInfo && listSize > 0) {
 
             totalRows = aInfo[0].ArrayLength;
 
-- 
2.43.0


From 9978e40ab2dbbb013b2ba0c30e02f50dfb22ff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:32 +0000
Subject: [PATCH 39/40] fix: arange replaced its second value, which other
 threads read, by a rounded one

---
 src/atop/fill.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/atop/fill.cpp b/src/atop/fill.cpp
index eca8480..c01d4db 100644
--- a/src/atop/fill.cpp
+++ b/src/atop/fill.cpp
@@ -70,6 +70,9 @@ ArangeFillType(char *pBufferV, void* pFirstV, void* pNextValueV, int64_t start,
 
     delta -= first;
 
+    // The first two values stay as numpy stored them (other threads read them)
+    if (start < 2) start = 2;
+
     // TOOD: vectorize this code
     for (int64_t i = start; i < length; i++) {
         pBuffer[i] = (TYPE)(first + i * delta);
-- 
2.43.0


From 4793a52f1aa19e03c56ba4f67c6c4bfbf9bf59ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:27 +0000
Subject: [PATCH 40/40] fix: the ledger read a second dimension, which inner
 loops do not have

---
 src/pnumpy/ledger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/ledger.cpp b/src/pnumpy/ledger.cpp
index 59709d8..fcfe29c 100644
--- a/src/pnumpy/ledger.cpp
+++ b/src/pnumpy/ledger.cpp
@@ -241,7 +241,7 @@ void LedgerRecord(int32_t op_category, int64_t start_time, int64_t end_time, cha
     pEntry->StrCatName = strCatName;
     pEntry->StrOpName = g_str_ufunc_name[op_category][funcop];
     pEntry->ArrayLength1 = (int64_t)dimensions[0];
-    pEntry->ArrayLength2 = (int64_t)dimensions[1];
+    pEntry->ArrayLength2 = 0; // inner loops have one dimension
 
     // temporary for debugging print out results
     printf ("%lld \tlen: %lld   %s,  %s,  %s\n", (long long)deltaTime, (long long)dimensions[0], pEntry->StrOpName, gStrAtopTypes[atype], strCatName);
-- 
2.43.0

