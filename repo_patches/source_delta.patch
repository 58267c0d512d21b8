From c6912e2a10c2601749b4b2a1ef65404887dc582e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 01/60] fix: build correct Python ints from C ints (zero,
 negative and >= 2**30 values)

---
 pyfastutil/src/utils/PythonUtils.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index 2f16d17..b0056c0 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -147,11 +147,8 @@ static __forceinline char PyFast_AsChar(const PyObject *__restrict obj) noexcept
 }
 
 static __forceinline PyObject *PyFast_FromInt(const int value) noexcept {
-#ifdef IS_PYTHON_312_OR_LATER
-    return (PyObject *) _PyLong_FromDigits(value < 0, 1, (digit *) (&value));
-#else
+    // an int doesn't always fit in one digit, and the digits of a negative int hold its absolute value
     return PyLong_FromLong(value);
-#endif
 }
 
 
-- 
2.43.0


From d881d6626a59b82321bd806389af3c533e84d3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 02/60] fix: read negative and multi-digit ints correctly when
 filling 16 and 8 bit lanes

---
 pyfastutil/src/utils/PythonUtils.h | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index b0056c0..8496b91 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -124,26 +124,12 @@ static __forceinline int PyFast_AsInt(PyObject *obj) noexcept {
 #endif
 }
 
-static __forceinline short PyFast_AsShort(const PyObject *__restrict obj) noexcept {
-    const Py_ssize_t size = Py_SIZE(obj);
-    if (size == 0) {
-        return 0;
-    } else if (size < 0) {
-        return (short) (-(int) *PyLong_DIGITS((PyLongObject *) obj));
-    } else {
-        return (short) *PyLong_DIGITS((PyLongObject *) obj);
-    }
+static __forceinline short PyFast_AsShort(PyObject *__restrict obj) noexcept {
+    return (short) PyLong_AsLong(obj);
 }
 
-static __forceinline char PyFast_AsChar(const PyObject *__restrict obj) noexcept {
-    const Py_ssize_t size = Py_SIZE(obj);
-    if (size == 0) {
-        return 0;
-    } else if (size < 0) {
-        return (char) (-(int) *PyLong_DIGITS((PyLongObject *) obj));
-    } else {
-        return (char) *PyLong_DIGITS((PyLongObject *) obj);
-    }
+static __forceinline char PyFast_AsChar(PyObject *__restrict obj) noexcept {
+    return (char) PyLong_AsLong(obj);
 }
 
 static __forceinline PyObject *PyFast_FromInt(const int value) noexcept {
-- 
2.43.0


From 030fcd9205172942a181e1438db3d2a663900271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 03/60] fix: SIMD functions raise on arguments that cannot be
 converted instead of touching memory

---
 pyfastutil/src/unsafe/SIMD.cpp | 63 ++++++++++++++++++++++++++++++----
 1 file changed, 57 insertions(+), 6 deletions(-)

diff --git a/pyfastutil/src/unsafe/SIMD.cpp b/pyfastutil/src/unsafe/SIMD.cpp
index 9f18d47..901ccfb 100644
--- a/pyfastutil/src/unsafe/SIMD.cpp
+++ b/pyfastutil/src/unsafe/SIMD.cpp
@@ -46,6 +46,11 @@ static __forceinline PyObject *SIMD_memcpy(PyObject *const *args, Py_ssize_t nar
     auto *addressTo = reinterpret_cast<T *>(PyLong_AsUnsignedLongLong(args[1]));
     size_t count = PyLong_AsSize_t(args[2]);
 
+    // Check for conversion errors
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+
     // Perform the memory copy
     simd::simdMemCpy(addressFrom, addressTo, count);
 
@@ -66,6 +71,11 @@ static __forceinline PyObject *SIMD_memcpyAligned(PyObject *const *args, Py_ssiz
     auto *addressTo = reinterpret_cast<T *>(PyLong_AsVoidPtr(args[1]));
     size_t count = PyLong_AsSize_t(args[2]);
 
+    // Check for conversion errors
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+
     // Perform the memory copy
     simd::simdMemCpyAligned(addressFrom, addressTo, count);
 
@@ -84,6 +94,11 @@ static __forceinline PyObject *SIMD_reverse(PyObject *const *args, Py_ssize_t na
     auto *address = reinterpret_cast<T *>(PyLong_AsVoidPtr(args[0]));
     size_t count = PyLong_AsSize_t(args[1]);
 
+    // Check for conversion errors
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+
     // Perform the memory copy
     simd::simdReverse(address, count);
 
@@ -143,12 +158,18 @@ static PyObject *SIMD_setAVX512Vector32([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m512i *) PyLong_AsVoidPtr(args[0]))) = _mm512_set_epi32(
+    const __m512i vector = _mm512_set_epi32(
             PyFast_AsInt(args[1]), PyFast_AsInt(args[2]), PyFast_AsInt(args[3]), PyFast_AsInt(args[4]),
             PyFast_AsInt(args[5]), PyFast_AsInt(args[6]), PyFast_AsInt(args[7]), PyFast_AsInt(args[8]),
             PyFast_AsInt(args[9]), PyFast_AsInt(args[10]), PyFast_AsInt(args[11]), PyFast_AsInt(args[12]),
             PyFast_AsInt(args[13]), PyFast_AsInt(args[14]), PyFast_AsInt(args[15]), PyFast_AsInt(args[16])
     );
+    auto *ptr = (__m512i *) PyLong_AsVoidPtr(args[0]);
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+
+    *ptr = vector;
 
     Py_RETURN_NONE;
 #else
@@ -165,7 +186,7 @@ static PyObject *SIMD_setAVX512Vector16([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m512i *) PyLong_AsVoidPtr(args[0]))) = _mm512_set_epi16(
+    const __m512i vector = _mm512_set_epi16(
             PyFast_AsShort(args[1]), PyFast_AsShort(args[2]), PyFast_AsShort(args[3]), PyFast_AsShort(args[4]),
             PyFast_AsShort(args[5]), PyFast_AsShort(args[6]), PyFast_AsShort(args[7]), PyFast_AsShort(args[8]),
             PyFast_AsShort(args[9]), PyFast_AsShort(args[10]), PyFast_AsShort(args[11]), PyFast_AsShort(args[12]),
@@ -175,6 +196,12 @@ static PyObject *SIMD_setAVX512Vector16([[maybe_unused]] PyObject *pySelf,
             PyFast_AsShort(args[25]), PyFast_AsShort(args[26]), PyFast_AsShort(args[27]), PyFast_AsShort(args[28]),
             PyFast_AsShort(args[29]), PyFast_AsShort(args[30]), PyFast_AsShort(args[31]), PyFast_AsShort(args[32])
     );
+    auto *ptr = (__m512i *) PyLong_AsVoidPtr(args[0]);
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+
+    *ptr = vector;
 
     Py_RETURN_NONE;
 #else
@@ -191,7 +218,7 @@ static PyObject *SIMD_setAVX512Vector8([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m512i *) PyLong_AsVoidPtr(args[0]))) = _mm512_set_epi8(
+    const __m512i vector = _mm512_set_epi8(
             PyFast_AsChar(args[1]), PyFast_AsChar(args[2]), PyFast_AsChar(args[3]), PyFast_AsChar(args[4]),
             PyFast_AsChar(args[5]), PyFast_AsChar(args[6]), PyFast_AsChar(args[7]), PyFast_AsChar(args[8]),
             PyFast_AsChar(args[9]), PyFast_AsChar(args[10]), PyFast_AsChar(args[11]), PyFast_AsChar(args[12]),
@@ -209,6 +236,12 @@ static PyObject *SIMD_setAVX512Vector8([[maybe_unused]] PyObject *pySelf,
             PyFast_AsChar(args[57]), PyFast_AsChar(args[58]), PyFast_AsChar(args[59]), PyFast_AsChar(args[60]),
             PyFast_AsChar(args[61]), PyFast_AsChar(args[62]), PyFast_AsChar(args[63]), PyFast_AsChar(args[64])
     );
+    auto *ptr = (__m512i *) PyLong_AsVoidPtr(args[0]);
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+
+    *ptr = vector;
 
     Py_RETURN_NONE;
 #else
@@ -225,10 +258,16 @@ static PyObject *SIMD_setAVX2Vector32([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m256i *) PyLong_AsVoidPtr(args[0]))) = _mm256_set_epi32(
+    const __m256i vector = _mm256_set_epi32(
             PyFast_AsInt(args[1]), PyFast_AsInt(args[2]), PyFast_AsInt(args[3]), PyFast_AsInt(args[4]),
             PyFast_AsInt(args[5]), PyFast_AsInt(args[6]), PyFast_AsInt(args[7]), PyFast_AsInt(args[8])
     );
+    auto *ptr = (__m256i *) PyLong_AsVoidPtr(args[0]);
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+
+    *ptr = vector;
 
     Py_RETURN_NONE;
 #else
@@ -245,12 +284,18 @@ static PyObject *SIMD_setAVX2Vector16([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m256i *) PyLong_AsVoidPtr(args[0]))) = _mm256_set_epi16(
+    const __m256i vector = _mm256_set_epi16(
             PyFast_AsShort(args[1]), PyFast_AsShort(args[2]), PyFast_AsShort(args[3]), PyFast_AsShort(args[4]),
             PyFast_AsShort(args[5]), PyFast_AsShort(args[6]), PyFast_AsShort(args[7]), PyFast_AsShort(args[8]),
             PyFast_AsShort(args[9]), PyFast_AsShort(args[10]), PyFast_AsShort(args[11]), PyFast_AsShort(args[12]),
             PyFast_AsShort(args[13]), PyFast_AsShort(args[14]), PyFast_AsShort(args[15]), PyFast_AsShort(args[16])
     );
+    auto *ptr = (__m256i *) PyLong_AsVoidPtr(args[0]);
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+
+    *ptr = vector;
 
     Py_RETURN_NONE;
 #else
@@ -267,7 +312,7 @@ static PyObject *SIMD_setAVX2Vector8([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m256i *) PyLong_AsVoidPtr(args[0]))) = _mm256_set_epi8(
+    const __m256i vector = _mm256_set_epi8(
             PyFast_AsChar(args[1]), PyFast_AsChar(args[2]), PyFast_AsChar(args[3]), PyFast_AsChar(args[4]),
             PyFast_AsChar(args[5]), PyFast_AsChar(args[6]), PyFast_AsChar(args[7]), PyFast_AsChar(args[8]),
             PyFast_AsChar(args[9]), PyFast_AsChar(args[10]), PyFast_AsChar(args[11]), PyFast_AsChar(args[12]),
@@ -277,6 +322,12 @@ static PyObject *SIMD_setAVX2Vector8([[maybe_unused]] PyObject *pySelf,
             PyFast_AsChar(args[25]), PyFast_AsChar(args[26]), PyFast_AsChar(args[27]), PyFast_AsChar(args[28]),
             PyFast_AsChar(args[29]), PyFast_AsChar(args[30]), PyFast_AsChar(args[31]), PyFast_AsChar(args[32])
     );
+    auto *ptr = (__m256i *) PyLong_AsVoidPtr(args[0]);
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+
+    *ptr = vector;
 
     Py_RETURN_NONE;
 #else
-- 
2.43.0


From 7ef932bb3c6222860466f55b0a9ab7513c196d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:03 +0000
Subject: [PATCH 04/60] fix: sort SIMD blocks with a real sorting network
 instead of duplicating the smallest values

---
 pyfastutil/src/utils/simd/BitonicSort.cpp | 152 +++++++++++++---------
 1 file changed, 94 insertions(+), 58 deletions(-)

diff --git a/pyfastutil/src/utils/simd/BitonicSort.cpp b/pyfastutil/src/utils/simd/BitonicSort.cpp
index e7558a7..af8cb06 100644
--- a/pyfastutil/src/utils/simd/BitonicSort.cpp
+++ b/pyfastutil/src/utils/simd/BitonicSort.cpp
@@ -34,7 +34,8 @@ namespace simd {
         alignas(64) const __m512i M1 = _mm512_set_epi32(15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0);
         alignas(64) const __m512i M2 = _mm512_set_epi32(14, 15, 12, 13, 10, 11, 8, 9, 6, 7, 4, 5, 2, 3, 0, 1);
         alignas(64) const __m512i M3 = _mm512_set_epi32(13, 12, 15, 14, 9, 8, 11, 10, 5, 4, 7, 6, 1, 0, 3, 2);
-        alignas(64) const __m512i M4 = _mm512_set_epi32(11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0, 15, 14, 13, 12);
+        alignas(64) const __m512i M4 = _mm512_set_epi32(11, 10, 9, 8, 15, 14, 13, 12, 3, 2, 1, 0, 7, 6, 5, 4);
+        alignas(64) const __m512i M5 = _mm512_set_epi32(7, 6, 5, 4, 3, 2, 1, 0, 15, 14, 13, 12, 11, 10, 9, 8);
     };
 
     static AVX2_MARKS *avx2Marks = nullptr;
@@ -57,69 +58,104 @@ namespace simd {
 #pragma ide diagnostic ignored "NullDereference"
 #if !defined(__arm__) && !defined(__arm64__)
 
-    __forceinline void sort8Epi32AVX2(__m256i &vec) {
-        __m256i swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M1);
-        vec = _mm256_min_epi32(vec, swapped);
+    /**
+     * Lanes that keep the larger value in step (K, J) of a bitonic sorting network,
+     * where lane i is compared with lane i ^ J.
+     */
+    template<size_t LANES, size_t K, size_t J, bool REVERSED>
+    constexpr unsigned int maxLanes() {
+        unsigned int result = 0;
+        for (size_t i = 0; i < LANES; ++i) {
+            const bool upper = (i & J) != 0;
+            const bool ascending = ((i & K) == 0) != REVERSED;
+            if (upper == ascending) {
+                result |= 1u << i;
+            }
+        }
+        return result;
+    }
 
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M2);
-        vec = _mm256_min_epi32(vec, swapped);
+    template<size_t K, size_t J, bool REVERSED>
+    __forceinline void step8Epi32AVX2(__m256i &vec, const __m256i &mark) {
+        const __m256i swapped = _mm256_permutevar8x32_epi32(vec, mark);
+        vec = _mm256_blend_epi32(_mm256_min_epi32(vec, swapped), _mm256_max_epi32(vec, swapped),
+                                 (maxLanes<8, K, J, REVERSED>()));
+    }
 
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M3);
-        vec = _mm256_min_epi32(vec, swapped);
+    template<size_t K, size_t J, bool REVERSED>
+    __forceinline void step4Epi64AVX2(__m256i &vec, const __m256i &mark) {
+        const __m256i swapped = _mm256_permutevar8x32_epi32(vec, mark);
+        const __m256i greater = _mm256_cmpgt_epi64(vec, swapped);
+        const __m256i minVals = _mm256_blendv_epi8(vec, swapped, greater);
+        const __m256i maxVals = _mm256_blendv_epi8(swapped, vec, greater);
+        vec = _mm256_blend_epi32(minVals, maxVals, (maxLanes<8, K * 2, J * 2, REVERSED>()));
+    }
 
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M4);
-        vec = _mm256_min_epi32(vec, swapped);
+    template<size_t K, size_t J, bool REVERSED>
+    __forceinline void step16Epi32AVX512(__m512i &vec, const __m512i &mark) {
+        const __m512i swapped = _mm512_permutexvar_epi32(mark, vec);
+        vec = _mm512_mask_max_epi32(_mm512_min_epi32(vec, swapped),
+                                    (maxLanes<16, K, J, REVERSED>()), vec, swapped);
+    }
+
+    template<size_t K, size_t J, bool REVERSED>
+    __forceinline void step8Epi64AVX512(__m512i &vec, const __m512i &mark) {
+        const __m512i swapped = _mm512_permutexvar_epi32(mark, vec);
+        vec = _mm512_mask_max_epi64(_mm512_min_epi64(vec, swapped),
+                                    (maxLanes<8, K, J, REVERSED>()), vec, swapped);
     }
 
     /**
-     * sort 8 nums with avx2 reversed
+     * sort 8 ints with avx2
      */
-    __forceinline void sort8Epi32AVX2Reversed(__m256i &vec) {
-        __m256i swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M1);
-        vec = _mm256_max_epi32(vec, swapped);
-
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M2);
-        vec = _mm256_max_epi32(vec, swapped);
-
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M3);
-        vec = _mm256_max_epi32(vec, swapped);
-
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M4);
-        vec = _mm256_max_epi32(vec, swapped);
+    template<bool REVERSED>
+    __forceinline void sortBlockAVX2(__m256i &vec, [[maybe_unused]] const int *data) {
+        step8Epi32AVX2<2, 1, REVERSED>(vec, avx2Marks->M2);
+        step8Epi32AVX2<4, 2, REVERSED>(vec, avx2Marks->M3);
+        step8Epi32AVX2<4, 1, REVERSED>(vec, avx2Marks->M2);
+        step8Epi32AVX2<8, 4, REVERSED>(vec, avx2Marks->M4);
+        step8Epi32AVX2<8, 2, REVERSED>(vec, avx2Marks->M3);
+        step8Epi32AVX2<8, 1, REVERSED>(vec, avx2Marks->M2);
     }
 
     /**
-     * sort 16 nums with avx512
+     * sort 4 long longs with avx2
      */
-    __forceinline void sort16Epi32AVX512(__m512i &vec) {
-        __m512i swapped = _mm512_permutexvar_epi32(avx512Marks->M1, vec);
-        vec = _mm512_min_epi32(vec, swapped);
-
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M2, vec);
-        vec = _mm512_min_epi32(vec, swapped);
-
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M3, vec);
-        vec = _mm512_min_epi32(vec, swapped);
-
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M4, vec);
-        vec = _mm512_min_epi32(vec, swapped);
+    template<bool REVERSED>
+    __forceinline void sortBlockAVX2(__m256i &vec, [[maybe_unused]] const long long *data) {
+        step4Epi64AVX2<2, 1, REVERSED>(vec, avx2Marks->M3);
+        step4Epi64AVX2<4, 2, REVERSED>(vec, avx2Marks->M4);
+        step4Epi64AVX2<4, 1, REVERSED>(vec, avx2Marks->M3);
     }
 
     /**
-     * sort 16 nums with avx512
+     * sort 16 ints with avx512
      */
-    __forceinline void sort16Epi32AVX512Reversed(__m512i &vec) {
-        __m512i swapped = _mm512_permutexvar_epi32(avx512Marks->M1, vec);
-        vec = _mm512_max_epi32(vec, swapped);
-
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M2, vec);
-        vec = _mm512_max_epi32(vec, swapped);
-
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M3, vec);
-        vec = _mm512_max_epi32(vec, swapped);
+    template<bool REVERSED>
+    __forceinline void sortBlockAVX512(__m512i &vec, [[maybe_unused]] const int *data) {
+        step16Epi32AVX512<2, 1, REVERSED>(vec, avx512Marks->M2);
+        step16Epi32AVX512<4, 2, REVERSED>(vec, avx512Marks->M3);
+        step16Epi32AVX512<4, 1, REVERSED>(vec, avx512Marks->M2);
+        step16Epi32AVX512<8, 4, REVERSED>(vec, avx512Marks->M4);
+        step16Epi32AVX512<8, 2, REVERSED>(vec, avx512Marks->M3);
+        step16Epi32AVX512<8, 1, REVERSED>(vec, avx512Marks->M2);
+        step16Epi32AVX512<16, 8, REVERSED>(vec, avx512Marks->M5);
+        step16Epi32AVX512<16, 4, REVERSED>(vec, avx512Marks->M4);
+        step16Epi32AVX512<16, 2, REVERSED>(vec, avx512Marks->M3);
+        step16Epi32AVX512<16, 1, REVERSED>(vec, avx512Marks->M2);
+    }
 
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M4, vec);
-        vec = _mm512_max_epi32(vec, swapped);
+    /**
+     * sort 8 long longs with avx512
+     */
+    template<bool REVERSED>
+    __forceinline void sortBlockAVX512(__m512i &vec, [[maybe_unused]] const long long *data) {
+        step8Epi64AVX512<2, 1, REVERSED>(vec, avx512Marks->M3);
+        step8Epi64AVX512<4, 2, REVERSED>(vec, avx512Marks->M4);
+        step8Epi64AVX512<4, 1, REVERSED>(vec, avx512Marks->M3);
+        step8Epi64AVX512<8, 4, REVERSED>(vec, avx512Marks->M5);
+        step8Epi64AVX512<8, 2, REVERSED>(vec, avx512Marks->M4);
+        step8Epi64AVX512<8, 1, REVERSED>(vec, avx512Marks->M3);
     }
 
     [[maybe_unused]] __forceinline void doSingleMerge(const size_t &left, const size_t &mid, const size_t &right,
@@ -514,9 +550,9 @@ namespace simd {
 
                 __m512i vec = _mm512_load_si512(data + sortedCount);  // load
                 if (reverse) {  // sort
-                    sort16Epi32AVX512Reversed(vec);
+                    sortBlockAVX512<true>(vec, data);
                 } else {
-                    sort16Epi32AVX512(vec);
+                    sortBlockAVX512<false>(vec, data);
                 }
                 _mm512_store_si512(data + sortedCount, vec);  // store
             }
@@ -532,13 +568,13 @@ namespace simd {
 
                 __m256i vec = _mm256_load_si256((__m256i *) (data + sortedCount));  // load
                 if (reverse) {  // sort
-                    sort8Epi32AVX2Reversed(vec);
+                    sortBlockAVX2<true>(vec, data);
                 } else {
-                    sort8Epi32AVX2(vec);
+                    sortBlockAVX2<false>(vec, data);
                 }
                 _mm256_store_si256((__m256i *) (data + sortedCount), vec);  // store
             }
-            minBlockSize = 8;
+            minBlockSize = AVX2_INTS;
         }
 
         if (sortedCount < size) {
@@ -627,9 +663,9 @@ namespace simd {
 
                 __m512i vec = _mm512_load_si512(data + sortedCount);  // load
                 if (reverse) {  // sort
-                    sort16Epi32AVX512Reversed(vec);
+                    sortBlockAVX512<true>(vec, data);
                 } else {
-                    sort16Epi32AVX512(vec);
+                    sortBlockAVX512<false>(vec, data);
                 }
                 _mm512_store_si512(data + sortedCount, vec);  // store
             }
@@ -645,13 +681,13 @@ namespace simd {
 
                 __m256i vec = _mm256_load_si256((__m256i *) (data + sortedCount));  // load
                 if (reverse) {  // sort
-                    sort8Epi32AVX2Reversed(vec);
+                    sortBlockAVX2<true>(vec, data);
                 } else {
-                    sort8Epi32AVX2(vec);
+                    sortBlockAVX2<false>(vec, data);
                 }
                 _mm256_store_si256((__m256i *) (data + sortedCount), vec);  // store
             }
-            minBlockSize = 8;
+            minBlockSize = AVX2_LONG_LONGS;
         }
 
         if (sortedCount < size) {
-- 
2.43.0


From 5ab5ab527e029ba4249c5e8537b981c02e8eb437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 05/60] fix: merge sorted blocks without dropping or
 duplicating elements

---
 pyfastutil/src/utils/simd/BitonicSort.cpp | 156 ----------------------
 1 file changed, 156 deletions(-)

diff --git a/pyfastutil/src/utils/simd/BitonicSort.cpp b/pyfastutil/src/utils/simd/BitonicSort.cpp
index af8cb06..918b941 100644
--- a/pyfastutil/src/utils/simd/BitonicSort.cpp
+++ b/pyfastutil/src/utils/simd/BitonicSort.cpp
@@ -163,48 +163,6 @@ namespace simd {
                                                       std::vector<int, AlignedAllocator<int, 64>> &dst) {
         size_t i = left, j = mid + 1, k = left;
 
-        // merge 2 sorted blocks with AVX-512
-        if (IS_AVX512_SUPPORTED) {
-            while (i <= mid - AVX512_INTS + 1 && j <= right - AVX512_INTS + 1) {
-                __m512i vec_i = _mm512_load_si512(&(src[i]));
-                __m512i vec_j = _mm512_load_si512(&(src[j]));
-
-                __m512i min_vals = _mm512_min_epi32(vec_i, vec_j);
-
-                _mm512_store_si512(&(dst[k]), min_vals);
-                k += AVX512_INTS;
-                i += AVX512_INTS;
-            }
-        }
-
-        // merge 2 sorted blocks with AVX2
-        if (IS_AVX2_SUPPORTED) {
-            while (i <= mid - AVX2_INTS + 1 && j <= right - AVX2_INTS + 1) {
-                __m256i vec_i = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[i])));
-                __m256i vec_j = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[j])));
-
-                __m256i min_vals = _mm256_min_epi32(vec_i, vec_j);
-
-                _mm256_store_si256((__m256i *) &(dst[k]), min_vals);
-                k += AVX2_INTS;
-                i += AVX2_INTS;
-            }
-        }
-
-        // merge 2 sorted blocks with SSE4.1
-        if (IS_SSE41_SUPPORTED) {
-            while (i <= mid - SSE41_INTS + 1 && j <= right - SSE41_INTS + 1) {
-                __m128i vec_i = _mm_load_si128((__m128i *) &(src[i]));
-                __m128i vec_j = _mm_load_si128((__m128i *) &(src[j]));
-
-                __m128i min_vals = _mm_min_epi32(vec_i, vec_j);
-
-                _mm_store_si128((__m128i *) &(dst[k]), min_vals);
-                k += SSE41_INTS;
-                i += SSE41_INTS;
-            }
-        }
-
         // elements left
         while (i <= mid && j <= right) {
             if (src[i] < src[j]) {
@@ -228,48 +186,6 @@ namespace simd {
                                      std::vector<long long, AlignedAllocator<long long, 64>> &dst) {
         size_t i = left, j = mid + 1, k = left;
 
-        // merge 2 sorted blocks with AVX-512
-        if (IS_AVX512_SUPPORTED) {
-            while (i <= mid - AVX512_LONG_LONGS + 1 && j <= right - AVX512_LONG_LONGS + 1) {
-                __m512i vec_i = _mm512_load_si512(&(src[i]));
-                __m512i vec_j = _mm512_load_si512(&(src[j]));
-
-                __m512i min_vals = _mm512_min_epi32(vec_i, vec_j);
-
-                _mm512_store_si512(&(dst[k]), min_vals);
-                k += AVX512_LONG_LONGS;
-                i += AVX512_LONG_LONGS;
-            }
-        }
-
-        // merge 2 sorted blocks with AVX2
-        if (IS_AVX2_SUPPORTED) {
-            while (i <= mid - AVX2_LONG_LONGS + 1 && j <= right - AVX2_LONG_LONGS + 1) {
-                __m256i vec_i = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[i])));
-                __m256i vec_j = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[j])));
-
-                __m256i min_vals = _mm256_min_epi32(vec_i, vec_j);
-
-                _mm256_store_si256((__m256i *) &(dst[k]), min_vals);
-                k += AVX2_LONG_LONGS;
-                i += AVX2_LONG_LONGS;
-            }
-        }
-
-        // merge 2 sorted blocks with SSE4.1
-        if (IS_SSE41_SUPPORTED) {
-            while (i <= mid - SSE41_LONG_LONGS + 1 && j <= right - SSE41_LONG_LONGS + 1) {
-                __m128i vec_i = _mm_load_si128((__m128i *) &(src[i]));
-                __m128i vec_j = _mm_load_si128((__m128i *) &(src[j]));
-
-                __m128i min_vals = _mm_min_epi32(vec_i, vec_j);
-
-                _mm_store_si128((__m128i *) &(dst[k]), min_vals);
-                k += SSE41_LONG_LONGS;
-                i += SSE41_LONG_LONGS;
-            }
-        }
-
         // elements left
         while (i <= mid && j <= right) {
             if (src[i] < src[j]) {
@@ -294,42 +210,6 @@ namespace simd {
                           std::vector<int, AlignedAllocator<int, 64>> &dst) {
         size_t i = left, j = mid + 1, k = left;
 
-        // merge 2 sorted blocks with AVX-512
-        while (IS_AVX512_SUPPORTED && i <= mid - AVX512_INTS + 1 && j <= right - AVX512_INTS + 1) {
-            __m512i vec_i = _mm512_load_si512(&(src[i]));
-            __m512i vec_j = _mm512_load_si512(&(src[j]));
-
-            __m512i max_vals = _mm512_max_epi32(vec_i, vec_j);
-
-            _mm512_store_si512(&(dst[k]), max_vals);
-            k += AVX512_INTS;
-            j += AVX512_INTS;
-        }
-
-        // merge 2 sorted blocks with AVX2
-        while (IS_AVX2_SUPPORTED && i <= mid - AVX2_INTS + 1 && j <= right - AVX2_INTS + 1) {
-            __m256i vec_i = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[i])));
-            __m256i vec_j = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[j])));
-
-            __m256i max_vals = _mm256_max_epi32(vec_i, vec_j);
-
-            _mm256_store_si256((__m256i *) &(dst[k]), max_vals);
-            k += AVX2_INTS;
-            j += AVX2_INTS;
-        }
-
-        // merge 2 sorted blocks with SSE4.1
-        while (IS_SSE41_SUPPORTED && i <= mid - SSE41_INTS + 1 && j <= right - SSE41_INTS + 1) {
-            __m128i vec_i = _mm_load_si128((__m128i *) &(src[i]));
-            __m128i vec_j = _mm_load_si128((__m128i *) &(src[j]));
-
-            __m128i max_vals = _mm_max_epi32(vec_i, vec_j);
-
-            _mm_store_si128((__m128i *) &(dst[k]), max_vals);
-            k += SSE41_INTS;
-            j += SSE41_INTS;
-        }
-
         // elements left
         while (i <= mid && j <= right) {
             if (src[i] > src[j]) {
@@ -354,42 +234,6 @@ namespace simd {
                           std::vector<long long, AlignedAllocator<long long, 64>> &dst) {
         size_t i = left, j = mid + 1, k = left;
 
-        // merge 2 sorted blocks with AVX-512
-        while (IS_AVX512_SUPPORTED && i <= mid - AVX512_LONG_LONGS + 1 && j <= right - AVX512_LONG_LONGS + 1) {
-            __m512i vec_i = _mm512_load_si512(&(src[i]));
-            __m512i vec_j = _mm512_load_si512(&(src[j]));
-
-            __m512i max_vals = _mm512_max_epi32(vec_i, vec_j);
-
-            _mm512_store_si512(&(dst[k]), max_vals);
-            k += AVX512_LONG_LONGS;
-            j += AVX512_LONG_LONGS;
-        }
-
-        // merge 2 sorted blocks with AVX2
-        while (IS_AVX2_SUPPORTED && i <= mid - AVX2_LONG_LONGS + 1 && j <= right - AVX2_LONG_LONGS + 1) {
-            __m256i vec_i = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[i])));
-            __m256i vec_j = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[j])));
-
-            __m256i max_vals = _mm256_max_epi32(vec_i, vec_j);
-
-            _mm256_store_si256((__m256i *) &(dst[k]), max_vals);
-            k += AVX2_LONG_LONGS;
-            j += AVX2_LONG_LONGS;
-        }
-
-        // merge 2 sorted blocks with SSE4.1
-        while (IS_SSE41_SUPPORTED && i <= mid - SSE41_LONG_LONGS + 1 && j <= right - SSE41_LONG_LONGS + 1) {
-            __m128i vec_i = _mm_load_si128((__m128i *) &(src[i]));
-            __m128i vec_j = _mm_load_si128((__m128i *) &(src[j]));
-
-            __m128i max_vals = _mm_max_epi32(vec_i, vec_j);
-
-            _mm_store_si128((__m128i *) &(dst[k]), max_vals);
-            k += SSE41_LONG_LONGS;
-            j += SSE41_LONG_LONGS;
-        }
-
         // elements left
         while (i <= mid && j <= right) {
             if (src[i] > src[j]) {
-- 
2.43.0


From 538d20ca565e1b2804895a67970c065a5f2a3298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 06/60] fix: construct array list storage in tp_new and report
 constructor argument errors

__init__ called twice leaked the old storage, __new__ without __init__ gave an
object whose vector was never constructed, and argument parsing errors were
ignored (SystemError: returned a result with an exception set).
---
 pyfastutil/src/ints/BigIntArrayList.cpp | 25 +++++++++++++++++++------
 pyfastutil/src/ints/IntArrayList.cpp    | 25 +++++++++++++++++++------
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index e0f781f..7c6d32a 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -20,32 +20,45 @@ static PyTypeObject BigIntArrayListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-__forceinline void parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
+__forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
     static constexpr const char *kwlist[] = {"iterable", "exceptSize", nullptr};
 
     PyObject *arg1 = nullptr;
 
     // parse args
     if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|On", const_cast<char **>(kwlist), &arg1, &pySize)) {
-        return;
+        return false;
     }
 
-    if (arg1 == nullptr) return;
+    if (arg1 == nullptr) return true;
 
     if (PyLong_Check(arg1)) {
         pySize = PyLong_AsSsize_t(arg1);
+        if (pySize == -1 && PyErr_Occurred()) return false;
     } else {
         pyIterable = arg1;
     }
+    return true;
 }
 
-static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject *kwargs) {
+static PyObject *BigIntArrayList_new(PyTypeObject *type, [[maybe_unused]] PyObject *args,
+                                  [[maybe_unused]] PyObject *kwargs) {
+    auto *self = reinterpret_cast<BigIntArrayList *>(type->tp_alloc(type, 0));
+    if (self == nullptr) return nullptr;
+
     new(&self->vector) std::vector<long long, AlignedAllocator<long long, 64>>();
+    return reinterpret_cast<PyObject *>(self);
+}
 
+static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject *kwargs) {
     PyObject *pyIterable = nullptr;
     Py_ssize_t pySize = -1;
 
-    parseArgs(args, kwargs, pyIterable, pySize);
+    if (!parseArgs(args, kwargs, pyIterable, pySize)) {
+        return -1;
+    }
+
+    self->vector.clear();
 
     // init vector
     try {
@@ -1236,7 +1249,7 @@ void initializeBigIntArrayListType(PyTypeObject &type) {
     type.tp_iter = BigIntArrayList_iter;
     type.tp_methods = BigIntArrayList_methods;
     type.tp_init = (initproc) BigIntArrayList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = BigIntArrayList_new;
     type.tp_dealloc = (destructor) BigIntArrayList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 36a2586..1c510d4 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -20,32 +20,45 @@ static PyTypeObject IntArrayListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-__forceinline void parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
+__forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
     static constexpr const char *kwlist[] = {"iterable", "exceptSize", nullptr};
 
     PyObject *arg1 = nullptr;
 
     // parse args
     if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|On", const_cast<char **>(kwlist), &arg1, &pySize)) {
-        return;
+        return false;
     }
 
-    if (arg1 == nullptr) return;
+    if (arg1 == nullptr) return true;
 
     if (PyLong_Check(arg1)) {
         pySize = PyLong_AsSsize_t(arg1);
+        if (pySize == -1 && PyErr_Occurred()) return false;
     } else {
         pyIterable = arg1;
     }
+    return true;
 }
 
-static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwargs) {
+static PyObject *IntArrayList_new(PyTypeObject *type, [[maybe_unused]] PyObject *args,
+                                  [[maybe_unused]] PyObject *kwargs) {
+    auto *self = reinterpret_cast<IntArrayList *>(type->tp_alloc(type, 0));
+    if (self == nullptr) return nullptr;
+
     new(&self->vector) std::vector<int, AlignedAllocator<int, 64>>();
+    return reinterpret_cast<PyObject *>(self);
+}
 
+static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwargs) {
     PyObject *pyIterable = nullptr;
     Py_ssize_t pySize = -1;
 
-    parseArgs(args, kwargs, pyIterable, pySize);
+    if (!parseArgs(args, kwargs, pyIterable, pySize)) {
+        return -1;
+    }
+
+    self->vector.clear();
 
     // init vector
     try {
@@ -1234,7 +1247,7 @@ void initializeIntArrayListType(PyTypeObject &type) {
     type.tp_iter = IntArrayList_iter;
     type.tp_methods = IntArrayList_methods;
     type.tp_init = (initproc) IntArrayList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = IntArrayList_new;
     type.tp_dealloc = (destructor) IntArrayList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
-- 
2.43.0


From 7254773ac8b34ab14e526dafe5254398da663052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 07/60] fix: IntArrayList rejects ints out of the C int range
 instead of truncating them

Conversions also happen before the bounds checks now, because __index__ can change the list.
---
 pyfastutil/src/ints/BigIntArrayList.cpp | 67 ++++++++++--------
 pyfastutil/src/ints/IntArrayList.cpp    | 94 +++++++++++++------------
 2 files changed, 84 insertions(+), 77 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 7c6d32a..254a04c 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -306,36 +306,33 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
 static PyObject *BigIntArrayList_pop(PyObject *pySelf, PyObject *const *args, const Py_ssize_t nargs) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
-    if (self->vector.empty()) {
-        PyErr_SetString(PyExc_IndexError, "pop from empty list");
+    if (nargs > 1) {
+        PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
         return nullptr;
     }
 
-    const auto vecSize = static_cast<Py_ssize_t>(self->vector.size());
-    Py_ssize_t index = vecSize - 1;
-
+    Py_ssize_t index = -1;
     if (nargs == 1) {
-        index = PyLong_AsSsize_t(args[0]);
+        // convert first, it can call back to python
+        index = PyNumber_AsSsize_t(args[0], PyExc_IndexError);
         if (index == -1 && PyErr_Occurred()) {
             return nullptr;
         }
+    }
 
-        if (index < 0) {
-            index += vecSize;
-        }
-
-        if (index < 0 || index >= vecSize) {
-            PyErr_SetString(PyExc_IndexError, "index out of range");
-            return nullptr;
-        }
-    } else if (nargs > 1) {
-        PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
+    if (self->vector.empty()) {
+        PyErr_SetString(PyExc_IndexError, "pop from empty list");
         return nullptr;
-    } else {
-        const auto popped = self->vector[static_cast<size_t>(index)];
-        self->vector.pop_back();
+    }
 
-        return PyLong_FromLongLong(popped);
+    const auto vecSize = static_cast<Py_ssize_t>(self->vector.size());
+    if (index < 0) {
+        index += vecSize;
+    }
+
+    if (index < 0 || index >= vecSize) {
+        PyErr_SetString(PyExc_IndexError, "index out of range");
+        return nullptr;
     }
 
     const auto popped = self->vector[static_cast<size_t>(index)];
@@ -583,6 +580,15 @@ static PyObject *BigIntArrayList_getitem_slice(PyObject *pySelf, PyObject *slice
 static int BigIntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *pyValue) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
+    long long value = 0;
+    if (pyValue != nullptr) {
+        // convert first, it can call back to python
+        value = PyLong_AsLongLong(pyValue);
+        if (value == -1 && PyErr_Occurred()) {
+            return -1;
+        }
+    }
+
     auto size = static_cast<Py_ssize_t>(self->vector.size());
 
     if (pyIndex < 0) {
@@ -597,11 +603,6 @@ static int BigIntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObjec
         if (pyValue == nullptr) {
             self->vector.erase(self->vector.begin() + pyIndex);
         } else {
-            long long value = PyLong_AsLongLong(pyValue);
-            if (PyErr_Occurred()) {
-                return -1;
-            }
-
             self->vector[static_cast<size_t>(pyIndex)] = value;
         }
     } catch (const std::exception &e) {
@@ -651,7 +652,7 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
                     return -1;
                 }
 
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
+                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLongLong(item);
                 SAFE_DECREF(item);
                 if (PyErr_Occurred()) {
                     return -1;
@@ -664,7 +665,7 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
                     return -1;
                 }
 
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
+                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLongLong(item);
                 SAFE_DECREF(item);
                 if (PyErr_Occurred()) {
                     return -1;
@@ -682,7 +683,7 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
                     return -1;
                 }
 
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
+                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLongLong(item);
                 SAFE_DECREF(item);
                 if (PyErr_Occurred()) {
                     return -1;
@@ -697,7 +698,7 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
 
                 self->vector.insert(
                         self->vector.begin() + start + i,
-                        PyLong_AsLong(item)
+                        PyLong_AsLongLong(item)
                 );
                 SAFE_DECREF(item);
                 if (PyErr_Occurred()) {
@@ -886,8 +887,12 @@ static int BigIntArrayList_contains(PyObject *pySelf, PyObject *key) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
     long long value = PyLong_AsLongLong(key);
-    if (PyErr_Occurred()) {
-        return -1;
+    if (value == -1 && PyErr_Occurred()) {
+        if (!PyErr_ExceptionMatches(PyExc_OverflowError)) {
+            return -1;
+        }
+        PyErr_Clear();  // out of the element range, can't be in the list
+        return 0;
     }
 
     try {
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 1c510d4..5c2b7ab 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -82,7 +82,7 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
                 const auto size = PySequence_Fast_GET_SIZE(fastKeys);
                 auto items = PySequence_Fast_ITEMS(fastKeys);
                 for (Py_ssize_t i = 0; i < size; ++i) {
-                    int value = PyLong_AsLong(items[i]);
+                    int value = PyFast_AsInt(items[i]);
                     if (PyErr_Occurred()) {
                         SAFE_DECREF(fastKeys);
                         PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
@@ -102,7 +102,7 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
 
             PyObject *item;
             while ((item = PyIter_Next(iter)) != nullptr) {
-                int value = PyLong_AsLong(item);
+                int value = PyFast_AsInt(item);
                 if (PyErr_Occurred()) {
                     SAFE_DECREF(iter);
                     SAFE_DECREF(item);
@@ -234,7 +234,7 @@ static PyObject *IntArrayList_copy(PyObject *pySelf) {
 static PyObject *IntArrayList_append(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    int value = PyLong_AsLong(object);
+    int value = PyFast_AsInt(object);
     if (PyErr_Occurred()) {
         return nullptr;
     }
@@ -282,7 +282,7 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
     // do extend
     PyObject *item;
     while ((item = PyIter_Next(iter)) != nullptr) {
-        int value = PyLong_AsLong(item);
+        int value = PyFast_AsInt(item);
         SAFE_DECREF(item);
 
         if (PyErr_Occurred()) {
@@ -306,45 +306,39 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
 static PyObject *IntArrayList_pop(PyObject *pySelf, PyObject *const *args, const Py_ssize_t nargs) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
+    if (nargs > 1) {
+        PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
+        return nullptr;
+    }
+
+    Py_ssize_t index = -1;
+    if (nargs == 1) {
+        // convert first, it can call back to python
+        index = PyNumber_AsSsize_t(args[0], PyExc_IndexError);
+        if (index == -1 && PyErr_Occurred()) {
+            return nullptr;
+        }
+    }
+
     if (self->vector.empty()) {
         PyErr_SetString(PyExc_IndexError, "pop from empty list");
         return nullptr;
     }
 
     const auto vecSize = static_cast<Py_ssize_t>(self->vector.size());
-    Py_ssize_t index = vecSize - 1;
-
-    int popped;
-    switch (nargs) {
-        case 0:
-            popped = self->vector.back();
-            self->vector.pop_back();
-
-            return PyFast_FromInt(popped);
-        case 1:
-            index = PyLong_AsSsize_t(args[0]);
-            if (index == -1 && PyErr_Occurred()) {
-                return nullptr;
-            }
-
-            if (index < 0) {
-                index += vecSize;
-            }
+    if (index < 0) {
+        index += vecSize;
+    }
 
-            if (index < 0 || index >= vecSize) {
-                PyErr_SetString(PyExc_IndexError, "index out of range");
-                return nullptr;
-            }
+    if (index < 0 || index >= vecSize) {
+        PyErr_SetString(PyExc_IndexError, "index out of range");
+        return nullptr;
+    }
 
-            popped = self->vector[static_cast<size_t>(index)];
-            self->vector.erase(self->vector.begin() + index);
+    const auto popped = self->vector[static_cast<size_t>(index)];
+    self->vector.erase(self->vector.begin() + index);
 
-            return PyFast_FromInt(popped);
-        default:
-            PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
-            return nullptr;
-    }
-    Py_UNREACHABLE();
+    return PyFast_FromInt(popped);
 }
 
 static PyObject *IntArrayList_index(PyObject *pySelf, PyObject *args) {
@@ -391,7 +385,7 @@ static PyObject *IntArrayList_index(PyObject *pySelf, PyObject *args) {
 static PyObject *IntArrayList_count(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    int value = PyLong_AsLong(object);
+    int value = PyFast_AsInt(object);
     if (value == -1 && PyErr_Occurred()) {
         return nullptr;
     }
@@ -438,7 +432,7 @@ static PyObject *IntArrayList_insert(PyObject *pySelf, PyObject *args) {
 static PyObject *IntArrayList_remove(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    int value = PyLong_AsLong(object);
+    int value = PyFast_AsInt(object);
     if (PyErr_Occurred()) {
         return nullptr;
     }
@@ -581,6 +575,15 @@ static PyObject *IntArrayList_getitem_slice(PyObject *pySelf, PyObject *slice) {
 static int IntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *pyValue) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
+    int value = 0;
+    if (pyValue != nullptr) {
+        // convert first, it can call back to python
+        value = PyFast_AsInt(pyValue);
+        if (value == -1 && PyErr_Occurred()) {
+            return -1;
+        }
+    }
+
     auto size = static_cast<Py_ssize_t>(self->vector.size());
 
     if (pyIndex < 0) {
@@ -595,11 +598,6 @@ static int IntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *
         if (pyValue == nullptr) {
             self->vector.erase(self->vector.begin() + pyIndex);
         } else {
-            int value = PyLong_AsLong(pyValue);
-            if (PyErr_Occurred()) {
-                return -1;
-            }
-
             self->vector[static_cast<size_t>(pyIndex)] = value;
         }
     } catch (const std::exception &e) {
@@ -773,7 +771,7 @@ static PyObject *IntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
     // do extend
     PyObject *item;
     while ((item = PyIter_Next(iter)) != nullptr) {
-        int value = PyLong_AsLong(item);
+        int value = PyFast_AsInt(item);
         SAFE_DECREF(item);
 
         if (PyErr_Occurred()) {
@@ -883,13 +881,17 @@ static int IntArrayList_contains(PyObject *pySelf, PyObject *key) {
 
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    long value = PyLong_AsLong(key);
-    if (PyErr_Occurred()) {
-        return -1;
+    int value = PyFast_AsInt(key);
+    if (value == -1 && PyErr_Occurred()) {
+        if (!PyErr_ExceptionMatches(PyExc_OverflowError)) {
+            return -1;
+        }
+        PyErr_Clear();  // out of the element range, can't be in the list
+        return 0;
     }
 
     try {
-        if (std::find(self->vector.begin(), self->vector.end(), static_cast<int>(value)) != self->vector.end()) {
+        if (std::find(self->vector.begin(), self->vector.end(), value) != self->vector.end()) {
             return 1;  // true
         } else {
             return 0;  // false
-- 
2.43.0


From a6fe469423d6f21f0c3b296b0e5f1358ebd0ec26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 08/60] fix: array list slice assignment handles deletion, self
 assignment and failing elements

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 109 +++++++++---------------
 pyfastutil/src/ints/IntArrayList.cpp    | 109 +++++++++---------------
 2 files changed, 78 insertions(+), 140 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 254a04c..3dbbe3c 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -79,11 +79,13 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
                     return -1;
                 }
 
-                const auto size = PySequence_Fast_GET_SIZE(fastKeys);
-                auto items = PySequence_Fast_ITEMS(fastKeys);
-                for (Py_ssize_t i = 0; i < size; ++i) {
-                    long long value = PyLong_AsLongLong(items[i]);
-                    if (PyErr_Occurred()) {
+                for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(fastKeys); ++i) {
+                    // the conversion can call back to python and change the source
+                    PyObject *item = PySequence_Fast_GET_ITEM(fastKeys, i);
+                    Py_INCREF(item);
+                    long long value = PyLong_AsLongLong(item);
+                    Py_DECREF(item);
+                    if (value == -1 && PyErr_Occurred()) {
                         SAFE_DECREF(fastKeys);
                         PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C long long during iteration.");
                         return -1;
@@ -624,90 +626,57 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
 
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
-    Py_ssize_t start, stop, step, sliceLength;
+    Py_ssize_t start, stop, step;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
-
-    if (!PySequence_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
-        return -1;
-    }
-
-    Py_ssize_t newLength = PySequence_Size(value);
-
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
-    PyObject *item = nullptr;
     try {
-        if (newLength == sliceLength) {  // only change elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLongLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
-        } else if (newLength < sliceLength) {  // less elements
-            for (Py_ssize_t i = 0; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLongLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
+        // collect the new elements first, it can fail, call back to python or read from this list
+        std::vector<long long, AlignedAllocator<long long, 64>> elements;
+        if (value == nullptr) {
+            // del list[start:stop]
+        } else if (Py_TYPE(value) == &BigIntArrayListType) {
+            elements = reinterpret_cast<BigIntArrayList *>(value)->vector;
+        } else {
+            PyObject *sequence = PySequence_Fast(value, "can only assign an iterable");
+            if (sequence == nullptr) {
+                return -1;
             }
 
-            self->vector.erase(
-                    self->vector.begin() + start + newLength,
-                    self->vector.begin() + stop
-            );
-        } else {  // more elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLongLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
+            for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(sequence); i++) {
+                PyObject *item = PySequence_Fast_GET_ITEM(sequence, i);
+                Py_INCREF(item);
+                long long element = PyLong_AsLongLong(item);
+                Py_DECREF(item);
+                if (element == -1 && PyErr_Occurred()) {
+                    Py_DECREF(sequence);
                     return -1;
                 }
+                elements.push_back(element);
             }
+            Py_DECREF(sequence);
+        }
 
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
+        PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+        if (stop < start) {
+            stop = start;
+        }
 
-                self->vector.insert(
-                        self->vector.begin() + start + i,
-                        PyLong_AsLongLong(item)
-                );
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
+        const auto sliceLength = stop - start;
+        const auto newLength = static_cast<Py_ssize_t>(elements.size());
+        if (newLength > sliceLength) {  // more elements
+            self->vector.insert(self->vector.begin() + stop, elements.begin() + sliceLength, elements.end());
+        } else {  // less elements
+            self->vector.erase(self->vector.begin() + start + newLength, self->vector.begin() + stop);
         }
+        std::copy_n(elements.begin(), std::min(sliceLength, newLength), self->vector.begin() + start);
     } catch (const std::exception &e) {
-        SAFE_DECREF(item);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 5c2b7ab..959f0a9 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -79,11 +79,13 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
                     return -1;
                 }
 
-                const auto size = PySequence_Fast_GET_SIZE(fastKeys);
-                auto items = PySequence_Fast_ITEMS(fastKeys);
-                for (Py_ssize_t i = 0; i < size; ++i) {
-                    int value = PyFast_AsInt(items[i]);
-                    if (PyErr_Occurred()) {
+                for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(fastKeys); ++i) {
+                    // the conversion can call back to python and change the source
+                    PyObject *item = PySequence_Fast_GET_ITEM(fastKeys, i);
+                    Py_INCREF(item);
+                    int value = PyFast_AsInt(item);
+                    Py_DECREF(item);
+                    if (value == -1 && PyErr_Occurred()) {
                         SAFE_DECREF(fastKeys);
                         PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
                         return -1;
@@ -619,90 +621,57 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
 
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    Py_ssize_t start, stop, step, sliceLength;
+    Py_ssize_t start, stop, step;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
-
-    if (!PySequence_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
-        return -1;
-    }
-
-    Py_ssize_t newLength = PySequence_Size(value);
-
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
-    PyObject *item = nullptr;
     try {
-        if (newLength == sliceLength) {  // only change elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
-        } else if (newLength < sliceLength) {  // less elements
-            for (Py_ssize_t i = 0; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
+        // collect the new elements first, it can fail, call back to python or read from this list
+        std::vector<int, AlignedAllocator<int, 64>> elements;
+        if (value == nullptr) {
+            // del list[start:stop]
+        } else if (Py_TYPE(value) == &IntArrayListType) {
+            elements = reinterpret_cast<IntArrayList *>(value)->vector;
+        } else {
+            PyObject *sequence = PySequence_Fast(value, "can only assign an iterable");
+            if (sequence == nullptr) {
+                return -1;
             }
 
-            self->vector.erase(
-                self->vector.begin() + start + newLength,
-                self->vector.begin() + stop
-            );
-        } else {  // more elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
+            for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(sequence); i++) {
+                PyObject *item = PySequence_Fast_GET_ITEM(sequence, i);
+                Py_INCREF(item);
+                int element = PyFast_AsInt(item);
+                Py_DECREF(item);
+                if (element == -1 && PyErr_Occurred()) {
+                    Py_DECREF(sequence);
                     return -1;
                 }
+                elements.push_back(element);
             }
+            Py_DECREF(sequence);
+        }
 
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
+        PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+        if (stop < start) {
+            stop = start;
+        }
 
-                self->vector.insert(
-                    self->vector.begin() + start + i,
-                    PyLong_AsLong(item)
-                );
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
+        const auto sliceLength = stop - start;
+        const auto newLength = static_cast<Py_ssize_t>(elements.size());
+        if (newLength > sliceLength) {  // more elements
+            self->vector.insert(self->vector.begin() + stop, elements.begin() + sliceLength, elements.end());
+        } else {  // less elements
+            self->vector.erase(self->vector.begin() + start + newLength, self->vector.begin() + stop);
         }
+        std::copy_n(elements.begin(), std::min(sliceLength, newLength), self->vector.begin() + start);
     } catch (const std::exception &e) {
-        SAFE_DECREF(item);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
-- 
2.43.0


From 17529ccba08a0df63b519bc90d3762cb4f83e4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 09/60] fix: array lists can extend themselves, += returns the
 list and + with the same type works

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 75 +++++++++++--------------
 pyfastutil/src/ints/IntArrayList.cpp    | 75 +++++++++++--------------
 2 files changed, 64 insertions(+), 86 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 3dbbe3c..5ce5909 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -265,7 +265,14 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
     // fast extend
     if (Py_TYPE(iterable) == &BigIntArrayListType) {
         auto *iter = reinterpret_cast<BigIntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
+        try {
+            const auto count = iter->vector.size();  // iter may be self
+            self->vector.resize(self->vector.size() + count);
+            std::copy_n(iter->vector.begin(), count, self->vector.end() - static_cast<Py_ssize_t>(count));
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         Py_RETURN_NONE;
     }
 
@@ -277,8 +284,16 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
 
     // pre alloc
     Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
+    if (hint < 0) {
+        SAFE_DECREF(iter);
+        return nullptr;
+    }
     if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
+        try {
+            self->vector.reserve(self->vector.size() + hint);
+        } catch (const std::exception &) {
+            // it's only a hint
+        }
     }
 
     // do extend
@@ -292,7 +307,13 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
             return nullptr;
         }
 
-        self->vector.push_back(value);
+        try {
+            self->vector.push_back(value);
+        } catch (const std::exception &e) {
+            SAFE_DECREF(iter);
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
     }
 
     if (PyErr_Occurred()) {
@@ -685,16 +706,19 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
 }
 
 static PyObject *BigIntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
-    if (Py_TYPE(pyValue) == &BigIntArrayListType) {
+    if (PyObject_TypeCheck(pyValue, &BigIntArrayListType)) {
         // fast add -> BigIntArrayList
         auto *value = reinterpret_cast<BigIntArrayList *>(pyValue);
 
-        auto *result = Py_CreateObj<BigIntArrayList>(BigIntArrayListType, pySelf);
+        auto *result = Py_CreateObj<BigIntArrayList>(BigIntArrayListType);
         if (result == nullptr) {
             return PyErr_NoMemory();
         }
 
         try {
+            const auto &selfVector = reinterpret_cast<BigIntArrayList *>(pySelf)->vector;
+            result->vector.reserve(selfVector.size() + value->vector.size());
+            result->vector.insert(result->vector.end(), selfVector.begin(), selfVector.end());
             result->vector.insert(result->vector.end(), value->vector.begin(), value->vector.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
@@ -721,47 +745,12 @@ static PyObject *BigIntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
 }
 
 static PyObject *BigIntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
-    auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
-
-    // fast extend
-    if (Py_TYPE(iterable) == &BigIntArrayListType) {
-        auto *iter = reinterpret_cast<BigIntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        Py_RETURN_NONE;
-    }
-
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
-
-    // pre alloc
-    Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
-    }
-
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        long long value = PyLong_AsLongLong(item);
-        SAFE_DECREF(item);
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
-        }
-
-        self->vector.push_back(value);
-    }
-
-    if (PyErr_Occurred()) {
-        SAFE_DECREF(iter);
+    PyObject *result = BigIntArrayList_extend(pySelf, &iterable, 1);
+    if (result == nullptr) {
         return nullptr;
     }
+    SAFE_DECREF(result);
 
-    SAFE_DECREF(iter);
     Py_INCREF(pySelf);
     return pySelf;
 }
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 959f0a9..419c722 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -265,7 +265,14 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
     // fast extend
     if (Py_TYPE(iterable) == &IntArrayListType) {
         auto *iter = reinterpret_cast<IntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
+        try {
+            const auto count = iter->vector.size();  // iter may be self
+            self->vector.resize(self->vector.size() + count);
+            std::copy_n(iter->vector.begin(), count, self->vector.end() - static_cast<Py_ssize_t>(count));
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         Py_RETURN_NONE;
     }
 
@@ -277,8 +284,16 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
 
     // pre alloc
     Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
+    if (hint < 0) {
+        SAFE_DECREF(iter);
+        return nullptr;
+    }
     if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
+        try {
+            self->vector.reserve(self->vector.size() + hint);
+        } catch (const std::exception &) {
+            // it's only a hint
+        }
     }
 
     // do extend
@@ -292,7 +307,13 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
             return nullptr;
         }
 
-        self->vector.push_back(value);
+        try {
+            self->vector.push_back(value);
+        } catch (const std::exception &e) {
+            SAFE_DECREF(iter);
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
     }
 
     if (PyErr_Occurred()) {
@@ -680,16 +701,19 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
 }
 
 static PyObject *IntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
-    if (Py_TYPE(pyValue) == &IntArrayListType) {
+    if (PyObject_TypeCheck(pyValue, &IntArrayListType)) {
         // fast add -> IntArrayList
         auto *value = reinterpret_cast<IntArrayList *>(pyValue);
 
-        auto *result = Py_CreateObj<IntArrayList>(IntArrayListType, pySelf);
+        auto *result = Py_CreateObj<IntArrayList>(IntArrayListType);
         if (result == nullptr) {
             return PyErr_NoMemory();
         }
 
         try {
+            const auto &selfVector = reinterpret_cast<IntArrayList *>(pySelf)->vector;
+            result->vector.reserve(selfVector.size() + value->vector.size());
+            result->vector.insert(result->vector.end(), selfVector.begin(), selfVector.end());
             result->vector.insert(result->vector.end(), value->vector.begin(), value->vector.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
@@ -716,47 +740,12 @@ static PyObject *IntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
 }
 
 static PyObject *IntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
-    auto *self = reinterpret_cast<IntArrayList *>(pySelf);
-
-    // fast extend
-    if (Py_TYPE(iterable) == &IntArrayListType) {
-        auto *iter = reinterpret_cast<IntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        Py_RETURN_NONE;
-    }
-
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
-
-    // pre alloc
-    Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
-    }
-
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        int value = PyFast_AsInt(item);
-        SAFE_DECREF(item);
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
-        }
-
-        self->vector.push_back(value);
-    }
-
-    if (PyErr_Occurred()) {
-        SAFE_DECREF(iter);
+    PyObject *result = IntArrayList_extend(pySelf, &iterable, 1);
+    if (result == nullptr) {
         return nullptr;
     }
+    SAFE_DECREF(result);
 
-    SAFE_DECREF(iter);
     Py_INCREF(pySelf);
     return pySelf;
 }
-- 
2.43.0


From 06465d34fe318df7928529524d9590ed2da509ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 10/60] fix: array list repetition copies to the right place,
 checks the size and keeps the GIL

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 35 ++++++++++++-------------
 pyfastutil/src/ints/IntArrayList.cpp    | 35 ++++++++++++-------------
 2 files changed, 34 insertions(+), 36 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 5ce5909..220244c 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -768,19 +768,21 @@ static PyObject *BigIntArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
         return PyErr_NoMemory();
     }
 
-    if (n == 0) {
+    if (n == 0 || self->vector.empty()) {
         return reinterpret_cast<PyObject *>(result);
     }
 
     try {
         const auto selfSize = self->vector.size();
+        if (static_cast<size_t>(n) > self->vector.max_size() / selfSize) {
+            SAFE_DECREF(result);
+            return PyErr_NoMemory();
+        }
 
-        Py_BEGIN_ALLOW_THREADS
-            result->vector.resize(selfSize * n);
-            for (Py_ssize_t i = 0; i < n; ++i) {
-                simd::simdMemCpyAligned(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
-            }
-        Py_END_ALLOW_THREADS
+        result->vector.resize(selfSize * n);
+        for (Py_ssize_t i = 0; i < n; ++i) {
+            simd::simdMemCpy(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
+        }
 
         return reinterpret_cast<PyObject *>(result);
     } catch (const std::exception &e) {
@@ -814,19 +816,16 @@ static PyObject *BigIntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
     try {
         if (n == 0) {
             self->vector.clear();
-        } else {
+        } else if (!self->vector.empty()) {
             const auto selfSize = self->vector.size();
+            if (static_cast<size_t>(n) > self->vector.max_size() / selfSize) {
+                return PyErr_NoMemory();
+            }
 
-            Py_BEGIN_ALLOW_THREADS
-                self->vector.resize(selfSize * n);
-                for (Py_ssize_t i = 1; i < n; ++i) {
-                    simd::simdMemCpyAligned(
-                            self->vector.data(),
-                            self->vector.data() + selfSize * sizeof(long long) * i,
-                            selfSize
-                    );
-                }
-            Py_END_ALLOW_THREADS
+            self->vector.resize(selfSize * n);
+            for (Py_ssize_t i = 1; i < n; ++i) {
+                simd::simdMemCpy(self->vector.data(), self->vector.data() + selfSize * i, selfSize);
+            }
         }
 
         Py_INCREF(pySelf);
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 419c722..a469f70 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -763,19 +763,21 @@ static PyObject *IntArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
         return PyErr_NoMemory();
     }
 
-    if (n == 0) {
+    if (n == 0 || self->vector.empty()) {
         return reinterpret_cast<PyObject *>(result);
     }
 
     try {
         const auto selfSize = self->vector.size();
+        if (static_cast<size_t>(n) > self->vector.max_size() / selfSize) {
+            SAFE_DECREF(result);
+            return PyErr_NoMemory();
+        }
 
-        Py_BEGIN_ALLOW_THREADS
-            result->vector.resize(selfSize * n);
-            for (Py_ssize_t i = 0; i < n; ++i) {
-                simd::simdMemCpyAligned(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
-            }
-        Py_END_ALLOW_THREADS
+        result->vector.resize(selfSize * n);
+        for (Py_ssize_t i = 0; i < n; ++i) {
+            simd::simdMemCpy(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
+        }
 
         return reinterpret_cast<PyObject *>(result);
     } catch (const std::exception &e) {
@@ -809,19 +811,16 @@ static PyObject *IntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
     try {
         if (n == 0) {
             self->vector.clear();
-        } else {
+        } else if (!self->vector.empty()) {
             const auto selfSize = self->vector.size();
+            if (static_cast<size_t>(n) > self->vector.max_size() / selfSize) {
+                return PyErr_NoMemory();
+            }
 
-            Py_BEGIN_ALLOW_THREADS
-                self->vector.resize(selfSize * n);
-                for (Py_ssize_t i = 1; i < n; ++i) {
-                    simd::simdMemCpyAligned(
-                            self->vector.data(),
-                            self->vector.data() + selfSize * sizeof(int) * i,
-                            selfSize
-                    );
-                }
-            Py_END_ALLOW_THREADS
+            self->vector.resize(selfSize * n);
+            for (Py_ssize_t i = 1; i < n; ++i) {
+                simd::simdMemCpy(self->vector.data(), self->vector.data() + selfSize * i, selfSize);
+            }
         }
 
         Py_INCREF(pySelf);
-- 
2.43.0


From a4c0d34d2b80d90325ae9beb991ca9612913d0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 11/60] fix: array lists keep the GIL while sorting and
 reversing their storage in place

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 8 ++------
 pyfastutil/src/ints/IntArrayList.cpp    | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 220244c..4207994 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -494,9 +494,7 @@ static PyObject *BigIntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
     try {
         if (keyFunc == Py_None) {
             // simd sort with auto-fallback
-            Py_BEGIN_ALLOW_THREADS
-                simd::simdsort(self->vector, reverse);
-            Py_END_ALLOW_THREADS
+            simd::simdsort(self->vector, reverse);
         } else {
             // sort with key function, costs extra memory
             const auto vecSize = self->vector.size();
@@ -875,9 +873,7 @@ static PyObject *BigIntArrayList_reversed(PyObject *pySelf) {
 static PyObject *BigIntArrayList_reverse(PyObject *pySelf) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
-    Py_BEGIN_ALLOW_THREADS
-        simd::simdReverse(self->vector.data(), self->vector.size());
-    Py_END_ALLOW_THREADS
+    simd::simdReverse(self->vector.data(), self->vector.size());
     Py_RETURN_NONE;
 }
 
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index a469f70..5e5850e 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -494,9 +494,7 @@ static PyObject *IntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *k
     try {
         if (keyFunc == nullptr || keyFunc == Py_None) {
             // simd sort with auto-fallback
-            Py_BEGIN_ALLOW_THREADS
-                simd::simdsort(self->vector, reverse);
-            Py_END_ALLOW_THREADS
+            simd::simdsort(self->vector, reverse);
         } else {
             // sort with key function, costs extra memory
             const auto vecSize = self->vector.size();
@@ -870,9 +868,7 @@ static PyObject *IntArrayList_reversed(PyObject *pySelf) {
 static PyObject *IntArrayList_reverse(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    Py_BEGIN_ALLOW_THREADS
-        simd::simdReverse(self->vector.data(), self->vector.size());
-    Py_END_ALLOW_THREADS
+    simd::simdReverse(self->vector.data(), self->vector.size());
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From dd1f3d5d66eb0860f8504617d913c02c34d90879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 12/60] fix: array list sort with a key reports errors and
 survives changes made by the key function

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 34 ++++++++++++++++++++-----
 pyfastutil/src/ints/IntArrayList.cpp    | 34 ++++++++++++++++++++-----
 2 files changed, 54 insertions(+), 14 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 4207994..077e197 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -481,14 +481,14 @@ static PyObject *BigIntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
     PyObject *keyFunc = Py_None;
-    int reverseInt = 0;  // default: false
+    int reverseFlag = 0;  // default: false
     static constexpr const char *kwlist[] = {"key", "reverse", nullptr};
 
-    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Oi", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Op", const_cast<char **>(kwlist), &keyFunc, &reverseFlag)) {
         return nullptr;
     }
 
-    const bool reverse = reverseInt == 1;
+    const bool reverse = reverseFlag != 0;
 
     // do sort
     try {
@@ -497,8 +497,9 @@ static PyObject *BigIntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
             simd::simdsort(self->vector, reverse);
         } else {
             // sort with key function, costs extra memory
+            // python code can change the list while we are sorting
+            const auto original = self->vector;
             const auto vecSize = self->vector.size();
-            auto vecData = self->vector.data();
             auto **pyData = static_cast<PyObject **>(PyMem_Malloc(sizeof(PyObject *) * vecSize));
             if (pyData == nullptr) {
                 PyErr_NoMemory();
@@ -506,17 +507,36 @@ static PyObject *BigIntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
             }
 
             for (size_t i = 0; i < vecSize; ++i) {
-                pyData[i] = PyLong_FromLongLong(vecData[i]);
+                pyData[i] = PyLong_FromLongLong(self->vector[i]);
+                if (pyData[i] == nullptr) {
+                    while (i-- > 0) {
+                        Py_DECREF(pyData[i]);
+                    }
+                    PyMem_FREE(pyData);
+                    return nullptr;
+                }
             }
 
-            CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
+            PyObject *result = CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseFlag);
 
+            const bool modified = self->vector != original;
             for (size_t i = 0; i < vecSize; ++i) {
-                vecData[i] = PyLong_AsLongLong(pyData[i]);
+                if (result != nullptr && !modified) {
+                    self->vector[i] = PyLong_AsLongLong(pyData[i]);
+                }
                 Py_DECREF(pyData[i]);
             }
 
             PyMem_FREE(pyData);
+
+            if (result == nullptr) {
+                return nullptr;
+            }
+            Py_DECREF(result);
+            if (modified) {
+                PyErr_SetString(PyExc_ValueError, "list modified during sort");
+                return nullptr;
+            }
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 5e5850e..6c90411 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -481,14 +481,14 @@ static PyObject *IntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *k
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
     PyObject *keyFunc = nullptr;
-    int reverseInt = 0;  // default: false
+    int reverseFlag = 0;  // default: false
     static constexpr const char *kwlist[] = {"key", "reverse", nullptr};
 
-    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Oi", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Op", const_cast<char **>(kwlist), &keyFunc, &reverseFlag)) {
         return nullptr;
     }
 
-    const bool reverse = reverseInt == 1;
+    const bool reverse = reverseFlag != 0;
 
     // do sort
     try {
@@ -497,8 +497,9 @@ static PyObject *IntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *k
             simd::simdsort(self->vector, reverse);
         } else {
             // sort with key function, costs extra memory
+            // python code can change the list while we are sorting
+            const auto original = self->vector;
             const auto vecSize = self->vector.size();
-            auto vecData = self->vector.data();
             auto **pyData = static_cast<PyObject **>(PyMem_Malloc(sizeof(PyObject *) * vecSize));
             if (pyData == nullptr) {
                 PyErr_NoMemory();
@@ -506,17 +507,36 @@ static PyObject *IntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *k
             }
 
             for (size_t i = 0; i < vecSize; ++i) {
-                pyData[i] = PyFast_FromInt(vecData[i]);
+                pyData[i] = PyFast_FromInt(self->vector[i]);
+                if (pyData[i] == nullptr) {
+                    while (i-- > 0) {
+                        Py_DECREF(pyData[i]);
+                    }
+                    PyMem_FREE(pyData);
+                    return nullptr;
+                }
             }
 
-            CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
+            PyObject *result = CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseFlag);
 
+            const bool modified = self->vector != original;
             for (size_t i = 0; i < vecSize; ++i) {
-                vecData[i] = PyFast_AsInt(pyData[i]);
+                if (result != nullptr && !modified) {
+                    self->vector[i] = PyFast_AsInt(pyData[i]);
+                }
                 Py_DECREF(pyData[i]);
             }
 
             PyMem_FREE(pyData);
+
+            if (result == nullptr) {
+                return nullptr;
+            }
+            Py_DECREF(result);
+            if (modified) {
+                PyErr_SetString(PyExc_ValueError, "list modified during sort");
+                return nullptr;
+            }
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
-- 
2.43.0


From 2dc65bd64223e613222d9a907fec57a1a1e41e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 13/60] fix: array list comparisons with other sequences follow
 list order and report errors

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 95 +++----------------------
 pyfastutil/src/ints/IntArrayList.cpp    | 95 +++----------------------
 pyfastutil/src/utils/PythonUtils.h      | 53 ++++++++++++++
 3 files changed, 73 insertions(+), 170 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 077e197..8bc425c 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -912,40 +912,21 @@ static __forceinline PyObject *BigIntArrayList_eq(PyObject *pySelf, PyObject *py
         auto *value = reinterpret_cast<BigIntArrayList *>(pyValue);
         if (value->vector.size() != self->vector.size())
             Py_RETURN_FALSE;
-        if (memcmp(self->vector.data(), value->vector.data(), self->vector.size() * sizeof(long long)) == 0)
+        if (self->vector == value->vector)
             Py_RETURN_TRUE;
         else
             Py_RETURN_FALSE;
     }
 
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_FALSE;
-
-    // for others
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
-        Py_RETURN_FALSE;
-
-    for (Py_ssize_t i = 0; i < seq_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
-        long long other_value = PyLong_AsLongLong(item);
-        if (PyErr_Occurred()) {  // can't be converted to int
-            SAFE_DECREF(item);
-            Py_RETURN_FALSE;
-        }
-        SAFE_DECREF(item);
-        if (self_value != other_value)
-            Py_RETURN_FALSE;
-    }
-
-    Py_RETURN_TRUE;
+    return PyFast_SequenceCompare(pySelf, pyValue, Py_EQ);
 }
 
 static __forceinline PyObject *BigIntArrayList_ne(PyObject *pySelf, PyObject *pyValue) {
     PyObject *isEq = BigIntArrayList_eq(pySelf, pyValue);
-    if (PyObject_IsTrue(isEq)) {
+    if (isEq == nullptr || isEq == Py_NotImplemented) {
+        return isEq;
+    }
+    if (isEq == Py_True) {
         SAFE_DECREF(isEq);
         Py_RETURN_FALSE;
     } else {
@@ -969,21 +950,7 @@ static __forceinline PyObject *BigIntArrayList_lt(PyObject *pySelf, PyObject *py
         Py_RETURN_BOOL(self->vector.size() < value->vector.size())
     }
 
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_FALSE;
-
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
-
-    for (Py_ssize_t i = 0; i < min_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
-        long long other_value = PyLong_AsLongLong(item);
-        SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value < other_value)
-    }
-    Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seq_size))
+    return PyFast_SequenceCompare(pySelf, pyValue, Py_LT);
 }
 
 static __forceinline PyObject *BigIntArrayList_le(PyObject *pySelf, PyObject *pyValue) {
@@ -1001,21 +968,7 @@ static __forceinline PyObject *BigIntArrayList_le(PyObject *pySelf, PyObject *py
         Py_RETURN_BOOL(self->vector.size() <= value->vector.size())
     }
 
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_FALSE;
-
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
-
-    for (Py_ssize_t i = 0; i < min_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
-        long long other_value = PyLong_AsLongLong(item);
-        Py_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value <= other_value)
-    }
-    Py_RETURN_BOOL(self->vector.size() <= static_cast<size_t>(seq_size))
+    return PyFast_SequenceCompare(pySelf, pyValue, Py_LE);
 }
 
 static __forceinline PyObject *BigIntArrayList_gt(PyObject *pySelf, PyObject *pyValue) {
@@ -1033,21 +986,7 @@ static __forceinline PyObject *BigIntArrayList_gt(PyObject *pySelf, PyObject *py
         Py_RETURN_BOOL(self->vector.size() > value->vector.size())
     }
 
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_FALSE;
-
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
-
-    for (Py_ssize_t i = 0; i < min_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
-        long long other_value = PyLong_AsLongLong(item);
-        Py_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value > other_value)
-    }
-    Py_RETURN_BOOL(self->vector.size() > static_cast<size_t>(seq_size))
+    return PyFast_SequenceCompare(pySelf, pyValue, Py_GT);
 }
 
 static __forceinline PyObject *BigIntArrayList_ge(PyObject *pySelf, PyObject *pyValue) {
@@ -1065,21 +1004,7 @@ static __forceinline PyObject *BigIntArrayList_ge(PyObject *pySelf, PyObject *py
         Py_RETURN_BOOL(self->vector.size() >= value->vector.size())
     }
 
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_FALSE;
-
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
-
-    for (Py_ssize_t i = 0; i < min_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
-        long long other_value = PyLong_AsLongLong(item);
-        Py_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value >= other_value)
-    }
-    Py_RETURN_BOOL(self->vector.size() >= static_cast<size_t>(seq_size))
+    return PyFast_SequenceCompare(pySelf, pyValue, Py_GE);
 }
 
 static PyObject *BigIntArrayList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 6c90411..37970c2 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -907,40 +907,21 @@ static __forceinline PyObject *IntArrayList_eq(PyObject *pySelf, PyObject *pyVal
         auto *value = reinterpret_cast<IntArrayList *>(pyValue);
         if (value->vector.size() != self->vector.size())
             Py_RETURN_FALSE;
-        if (memcmp(self->vector.data(), value->vector.data(), self->vector.size() * sizeof(int)) == 0)
+        if (self->vector == value->vector)
             Py_RETURN_TRUE;
         else
             Py_RETURN_FALSE;
     }
 
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_FALSE;
-
-    // for others
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
-        Py_RETURN_FALSE;
-
-    for (Py_ssize_t i = 0; i < seq_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
-        if (PyErr_Occurred()) {  // can't be converted to int
-            SAFE_DECREF(item);
-            Py_RETURN_FALSE;
-        }
-        SAFE_DECREF(item);
-        if (self_value != other_value)
-            Py_RETURN_FALSE;
-    }
-
-    Py_RETURN_TRUE;
+    return PyFast_SequenceCompare(pySelf, pyValue, Py_EQ);
 }
 
 static __forceinline PyObject *IntArrayList_ne(PyObject *pySelf, PyObject *pyValue) {
     PyObject *isEq = IntArrayList_eq(pySelf, pyValue);
-    if (PyObject_IsTrue(isEq)) {
+    if (isEq == nullptr || isEq == Py_NotImplemented) {
+        return isEq;
+    }
+    if (isEq == Py_True) {
         SAFE_DECREF(isEq);
         Py_RETURN_FALSE;
     } else {
@@ -964,21 +945,7 @@ static __forceinline PyObject *IntArrayList_lt(PyObject *pySelf, PyObject *pyVal
         Py_RETURN_BOOL(self->vector.size() < value->vector.size())
     }
 
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_FALSE;
-
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
-
-    for (Py_ssize_t i = 0; i < min_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value < other_value)
-    }
-    Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seq_size))
+    return PyFast_SequenceCompare(pySelf, pyValue, Py_LT);
 }
 
 static __forceinline PyObject *IntArrayList_le(PyObject *pySelf, PyObject *pyValue) {
@@ -996,21 +963,7 @@ static __forceinline PyObject *IntArrayList_le(PyObject *pySelf, PyObject *pyVal
         Py_RETURN_BOOL(self->vector.size() <= value->vector.size())
     }
 
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_FALSE;
-
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
-
-    for (Py_ssize_t i = 0; i < min_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
-        Py_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value <= other_value)
-    }
-    Py_RETURN_BOOL(self->vector.size() <= static_cast<size_t>(seq_size))
+    return PyFast_SequenceCompare(pySelf, pyValue, Py_LE);
 }
 
 static __forceinline PyObject *IntArrayList_gt(PyObject *pySelf, PyObject *pyValue) {
@@ -1028,21 +981,7 @@ static __forceinline PyObject *IntArrayList_gt(PyObject *pySelf, PyObject *pyVal
         Py_RETURN_BOOL(self->vector.size() > value->vector.size())
     }
 
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_FALSE;
-
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
-
-    for (Py_ssize_t i = 0; i < min_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
-        Py_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value > other_value)
-    }
-    Py_RETURN_BOOL(self->vector.size() > static_cast<size_t>(seq_size))
+    return PyFast_SequenceCompare(pySelf, pyValue, Py_GT);
 }
 
 static __forceinline PyObject *IntArrayList_ge(PyObject *pySelf, PyObject *pyValue) {
@@ -1060,21 +999,7 @@ static __forceinline PyObject *IntArrayList_ge(PyObject *pySelf, PyObject *pyVal
         Py_RETURN_BOOL(self->vector.size() >= value->vector.size())
     }
 
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_FALSE;
-
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
-
-    for (Py_ssize_t i = 0; i < min_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
-        Py_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value >= other_value)
-    }
-    Py_RETURN_BOOL(self->vector.size() >= static_cast<size_t>(seq_size))
+    return PyFast_SequenceCompare(pySelf, pyValue, Py_GE);
 }
 
 static PyObject *IntArrayList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index 8496b91..fff22d2 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -93,6 +93,59 @@ static __forceinline bool PyParse_EvalRange(PyObject *&args,
 
 #define Py_RETURN_BOOL(b) { if (b) Py_RETURN_TRUE; else Py_RETURN_FALSE; }
 
+/**
+ * Compare two sequences in the same way as built-in lists do.
+ * The elements' comparison can call back to python, so nothing is cached between two elements.
+ */
+[[maybe_unused]] static PyObject *PyFast_SequenceCompare(PyObject *left, PyObject *right, const int op) noexcept {
+    if (!PySequence_Check(right) || Py_TYPE(right)->tp_as_sequence->sq_length == nullptr) {
+        Py_RETURN_NOTIMPLEMENTED;
+    }
+
+    Py_ssize_t leftSize = PySequence_Size(left);
+    if (leftSize < 0) return nullptr;
+    Py_ssize_t rightSize = PySequence_Size(right);
+    if (rightSize < 0) return nullptr;
+
+    if (leftSize != rightSize && (op == Py_EQ || op == Py_NE)) {
+        Py_RETURN_BOOL(op == Py_NE)
+    }
+
+    for (Py_ssize_t i = 0; i < leftSize && i < rightSize; i++) {
+        PyObject *leftItem = PySequence_GetItem(left, i);
+        if (leftItem == nullptr) return nullptr;
+        PyObject *rightItem = PySequence_GetItem(right, i);
+        if (rightItem == nullptr) {
+            Py_DECREF(leftItem);
+            return nullptr;
+        }
+
+        const int equal = PyObject_RichCompareBool(leftItem, rightItem, Py_EQ);
+        if (equal == 0) {
+            PyObject *result;
+            if (op == Py_EQ || op == Py_NE) {
+                result = PyBool_FromLong(op == Py_NE);
+            } else {
+                result = PyObject_RichCompare(leftItem, rightItem, op);
+            }
+            Py_DECREF(leftItem);
+            Py_DECREF(rightItem);
+            return result;
+        }
+
+        Py_DECREF(leftItem);
+        Py_DECREF(rightItem);
+        if (equal < 0) return nullptr;
+
+        leftSize = PySequence_Size(left);
+        if (leftSize < 0) return nullptr;
+        rightSize = PySequence_Size(right);
+        if (rightSize < 0) return nullptr;
+    }
+
+    Py_RETURN_RICHCOMPARE(leftSize, rightSize, op);
+}
+
 #ifdef IS_PYTHON_312_OR_LATER
 #define PyLong_DIGITS(obj) ((obj)->long_value.ob_digit)
 #else
-- 
2.43.0


From 52f0881d03ab40c0d36030eb17bc48919fa60ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 14/60] fix: from_range handles negative steps, explicit
 PY_SSIZE_T_MAX arguments and elements out of range

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 24 ++++--------------
 pyfastutil/src/ints/IntArrayList.cpp    | 33 +++++++++++--------------
 pyfastutil/src/ints/IntLinkedList.cpp   | 33 +++++++++++--------------
 pyfastutil/src/utils/PythonUtils.h      | 24 ++++++++++++++----
 4 files changed, 52 insertions(+), 62 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 8bc425c..89cbccc 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -137,34 +137,20 @@ static PyObject *BigIntArrayList_from_range([[maybe_unused]] PyObject *cls, PyOb
         return nullptr;
     }
 
+    const size_t elements = PyRange_Length(start, stop, step);
+
     auto *list = Py_CreateObj<BigIntArrayList>(BigIntArrayListType);
     if (list == nullptr) return PyErr_NoMemory();
 
     try {
-        Py_ssize_t elements;
-        if (step > 0) {
-            if (start >= stop) {
-                return reinterpret_cast<PyObject *>(list);
-            }
-            elements = (stop - start + step - 1) / step;
-        } else { // step < 0
-            if (start <= stop) {
-                return reinterpret_cast<PyObject *>(list);
-            }
-            elements = ((start - stop) / (-step));
-        }
-
         list->vector.resize(elements);
 
-        Py_ssize_t current = start;
-        for (Py_ssize_t idx = 0; idx < elements; ++idx) {
-            list->vector[idx] = static_cast<long long>(current);
-            current += step;
+        for (size_t idx = 0; idx < elements; ++idx) {
+            list->vector[idx] = static_cast<long long>(static_cast<size_t>(start) + idx * static_cast<size_t>(step));
         }
 
     } catch (const std::exception &e) {
-        list->vector.~vector();
-        PyObject_Del(list);
+        Py_DECREF(list);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 37970c2..efdeaa0 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -137,34 +137,29 @@ static PyObject *IntArrayList_from_range([[maybe_unused]] PyObject *cls, PyObjec
         return nullptr;
     }
 
+    const size_t elements = PyRange_Length(start, stop, step);
+    if (elements > 0) {
+        // the first and the last element are the outermost ones
+        const auto last = static_cast<Py_ssize_t>(
+                static_cast<size_t>(start) + (elements - 1) * static_cast<size_t>(step));
+        if (start < INT_MIN || start > INT_MAX || last < INT_MIN || last > INT_MAX) {
+            PyErr_SetString(PyExc_OverflowError, "range element is out of range for a C int");
+            return nullptr;
+        }
+    }
+
     auto *list = Py_CreateObj<IntArrayList>(IntArrayListType);
     if (list == nullptr) return PyErr_NoMemory();
 
     try {
-        Py_ssize_t elements;
-        if (step > 0) {
-            if (start >= stop) {
-                return reinterpret_cast<PyObject *>(list);
-            }
-            elements = (stop - start + step - 1) / step;
-        } else { // step < 0
-            if (start <= stop) {
-                return reinterpret_cast<PyObject *>(list);
-            }
-            elements = ((start - stop) / (-step));
-        }
-
         list->vector.resize(elements);
 
-        Py_ssize_t current = start;
-        for (Py_ssize_t idx = 0; idx < elements; ++idx) {
-            list->vector[idx] = static_cast<int>(current);
-            current += step;
+        for (size_t idx = 0; idx < elements; ++idx) {
+            list->vector[idx] = static_cast<int>(static_cast<size_t>(start) + idx * static_cast<size_t>(step));
         }
 
     } catch (const std::exception &e) {
-        list->vector.~vector();
-        PyObject_Del(list);
+        Py_DECREF(list);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index b7096fa..e6f8e3c 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -104,32 +104,27 @@ static PyObject *IntLinkedList_from_range([[maybe_unused]] PyObject *cls, PyObje
         return nullptr;
     }
 
+    const size_t elements = PyRange_Length(start, stop, step);
+    if (elements > 0) {
+        // the first and the last element are the outermost ones
+        const auto last = static_cast<Py_ssize_t>(
+                static_cast<size_t>(start) + (elements - 1) * static_cast<size_t>(step));
+        if (start < INT_MIN || start > INT_MAX || last < INT_MIN || last > INT_MAX) {
+            PyErr_SetString(PyExc_OverflowError, "range element is out of range for a C int");
+            return nullptr;
+        }
+    }
+
     auto *list = Py_CreateObj<IntLinkedList>(IntLinkedListType);
     if (list == nullptr) return PyErr_NoMemory();
 
     try {
-        Py_ssize_t elements;
-        if (step > 0) {
-            if (start >= stop) {
-                return reinterpret_cast<PyObject *>(list);
-            }
-            elements = (stop - start + step - 1) / step;
-        } else { // step < 0
-            if (start <= stop) {
-                return reinterpret_cast<PyObject *>(list);
-            }
-            elements = ((start - stop) / (-step));
-        }
-
-        Py_ssize_t current = start;
-        for (Py_ssize_t idx = 0; idx < elements; ++idx) {
-            list->list.push_back(static_cast<int>(current));
-            current += step;
+        for (size_t idx = 0; idx < elements; ++idx) {
+            list->list.push_back(static_cast<int>(static_cast<size_t>(start) + idx * static_cast<size_t>(step)));
         }
 
     } catch (const std::exception &e) {
-        list->list.~list();
-        PyObject_Del(list);
+        Py_DECREF(list);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index fff22d2..49e85f7 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -63,19 +63,19 @@ static __forceinline T *Py_CreateObjNoInit(PyTypeObject &typeObj) noexcept {
  */
 static __forceinline bool PyParse_EvalRange(PyObject *&args,
                                             Py_ssize_t &start, Py_ssize_t &stop, Py_ssize_t &step) noexcept {
-    Py_ssize_t arg1 = PY_SSIZE_T_MAX;
-    Py_ssize_t arg2 = PY_SSIZE_T_MAX;
-    Py_ssize_t arg3 = PY_SSIZE_T_MAX;
+    Py_ssize_t arg1 = 0;
+    Py_ssize_t arg2 = 0;
+    Py_ssize_t arg3 = 0;
 
     if (!PyArg_ParseTuple(args, "n|nn", &arg1, &arg2, &arg3)) {
         return false;
     }
 
-    if (arg2 == PY_SSIZE_T_MAX) {
+    if (PyTuple_GET_SIZE(args) == 1) {
         start = 0;
         stop = arg1;
         step = 1;
-    } else if (arg3 == PY_SSIZE_T_MAX) {
+    } else if (PyTuple_GET_SIZE(args) == 2) {
         start = arg1;
         stop = arg2;
         step = 1;
@@ -91,6 +91,20 @@ static __forceinline bool PyParse_EvalRange(PyObject *&args,
     return true;
 }
 
+/**
+ * @return the number of elements of range(start, stop, step)
+ */
+static __forceinline size_t PyRange_Length(const Py_ssize_t start, const Py_ssize_t stop,
+                                           const Py_ssize_t step) noexcept {
+    // unsigned, because the distance and -step don't always fit in Py_ssize_t
+    const auto first = static_cast<size_t>(start);
+    const auto last = static_cast<size_t>(stop);
+    if (step > 0) {
+        return start < stop ? (last - 1 - first) / static_cast<size_t>(step) + 1 : 0;
+    }
+    return start > stop ? (first - 1 - last) / (0 - static_cast<size_t>(step)) + 1 : 0;
+}
+
 #define Py_RETURN_BOOL(b) { if (b) Py_RETURN_TRUE; else Py_RETURN_FALSE; }
 
 /**
-- 
2.43.0


From 6c47b148a7ca209762ec60ffce1d5ad4adb39798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 15/60] fix: array list buffers keep the storage alive and
 honour the consumer's request

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 93 ++++++++++++++++++++++---
 pyfastutil/src/ints/BigIntArrayList.h   |  1 +
 pyfastutil/src/ints/IntArrayList.cpp    | 93 ++++++++++++++++++++++---
 pyfastutil/src/ints/IntArrayList.h      |  1 +
 4 files changed, 170 insertions(+), 18 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 89cbccc..914ccb6 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -41,6 +41,14 @@ __forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIt
     return true;
 }
 
+static __forceinline bool BigIntArrayList_resizable(BigIntArrayList *self) {
+    if (self->exports > 0) {
+        PyErr_SetString(PyExc_BufferError, "Existing exports of data: object cannot be re-sized");
+        return false;
+    }
+    return true;
+}
+
 static PyObject *BigIntArrayList_new(PyTypeObject *type, [[maybe_unused]] PyObject *args,
                                   [[maybe_unused]] PyObject *kwargs) {
     auto *self = reinterpret_cast<BigIntArrayList *>(type->tp_alloc(type, 0));
@@ -58,6 +66,10 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
         return -1;
     }
 
+    if (!BigIntArrayList_resizable(self)) {
+        return -1;
+    }
+
     self->vector.clear();
 
     // init vector
@@ -90,6 +102,10 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
                         PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C long long during iteration.");
                         return -1;
                     }
+                    if (!BigIntArrayList_resizable(self)) {
+                        SAFE_DECREF(fastKeys);
+                        return -1;
+                    }
                     self->vector.push_back(value);
                 }
                 SAFE_DECREF(fastKeys);
@@ -111,8 +127,12 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
                     PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C long long during iteration.");
                     return -1;
                 }
-                self->vector.push_back(value);
                 SAFE_DECREF(item);
+                if (!BigIntArrayList_resizable(self)) {
+                    SAFE_DECREF(iter);
+                    return -1;
+                }
+                self->vector.push_back(value);
             }
             SAFE_DECREF(iter);
             if (PyErr_Occurred()) return -1;
@@ -172,6 +192,10 @@ static PyObject *BigIntArrayList_resize(PyObject *pySelf, PyObject *pySize) {
         return nullptr;
     }
 
+    if (static_cast<size_t>(pySSize) != self->vector.size() && !BigIntArrayList_resizable(self)) {
+        return nullptr;
+    }
+
     try {
         self->vector.resize(static_cast<size_t>(pySSize));
     } catch (const std::exception &e) {
@@ -227,6 +251,10 @@ static PyObject *BigIntArrayList_append(PyObject *pySelf, PyObject *object) {
         return nullptr;
     }
 
+    if (!BigIntArrayList_resizable(self)) {
+        return nullptr;
+    }
+
     try {
         self->vector.push_back(value);
     } catch (const std::exception &e) {
@@ -251,6 +279,10 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
     // fast extend
     if (Py_TYPE(iterable) == &BigIntArrayListType) {
         auto *iter = reinterpret_cast<BigIntArrayList *>(iterable);
+        if (!iter->vector.empty() && !BigIntArrayList_resizable(self)) {
+            return nullptr;
+        }
+
         try {
             const auto count = iter->vector.size();  // iter may be self
             self->vector.resize(self->vector.size() + count);
@@ -274,7 +306,7 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
         SAFE_DECREF(iter);
         return nullptr;
     }
-    if (hint > 0) {
+    if (hint > 0 && self->exports == 0) {
         try {
             self->vector.reserve(self->vector.size() + hint);
         } catch (const std::exception &) {
@@ -293,6 +325,11 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
             return nullptr;
         }
 
+        if (!BigIntArrayList_resizable(self)) {
+            SAFE_DECREF(iter);
+            return nullptr;
+        }
+
         try {
             self->vector.push_back(value);
         } catch (const std::exception &e) {
@@ -344,6 +381,10 @@ static PyObject *BigIntArrayList_pop(PyObject *pySelf, PyObject *const *args, co
         return nullptr;
     }
 
+    if (!BigIntArrayList_resizable(self)) {
+        return nullptr;
+    }
+
     const auto popped = self->vector[static_cast<size_t>(index)];
     self->vector.erase(self->vector.begin() + index);
 
@@ -427,6 +468,10 @@ static PyObject *BigIntArrayList_insert(PyObject *pySelf, PyObject *args) {
         index = vecSize;
     }
 
+    if (!BigIntArrayList_resizable(self)) {
+        return nullptr;
+    }
+
     // do insert
     try {
         self->vector.insert(self->vector.begin() + index, value);
@@ -450,6 +495,9 @@ static PyObject *BigIntArrayList_remove(PyObject *pySelf, PyObject *object) {
         auto it = std::find(self->vector.begin(), self->vector.end(), value);
 
         if (it != self->vector.end()) {
+            if (!BigIntArrayList_resizable(self)) {
+                return nullptr;
+            }
             self->vector.erase(it);
         } else {
             PyErr_SetString(PyExc_ValueError, "Value is not in list.");
@@ -628,6 +676,9 @@ static int BigIntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObjec
 
     try {
         if (pyValue == nullptr) {
+            if (!BigIntArrayList_resizable(self)) {
+                return -1;
+            }
             self->vector.erase(self->vector.begin() + pyIndex);
         } else {
             self->vector[static_cast<size_t>(pyIndex)] = value;
@@ -695,6 +746,10 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
 
         const auto sliceLength = stop - start;
         const auto newLength = static_cast<Py_ssize_t>(elements.size());
+        if (newLength != sliceLength && !BigIntArrayList_resizable(self)) {
+            return -1;
+        }
+
         if (newLength > sliceLength) {  // more elements
             self->vector.insert(self->vector.begin() + stop, elements.begin() + sliceLength, elements.end());
         } else {  // less elements
@@ -817,6 +872,10 @@ static PyObject *BigIntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
         n = 0;
     }
 
+    if (n != 1 && !self->vector.empty() && !BigIntArrayList_resizable(self)) {
+        return nullptr;
+    }
+
     try {
         if (n == 0) {
             self->vector.clear();
@@ -886,6 +945,10 @@ static PyObject *BigIntArrayList_reverse(PyObject *pySelf) {
 static PyObject *BigIntArrayList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
+    if (!self->vector.empty() && !BigIntArrayList_resizable(self)) {
+        return nullptr;
+    }
+
     self->vector.clear();
     Py_RETURN_NONE;
 }
@@ -1054,25 +1117,37 @@ static PyObject *BigIntArrayList_str(PyObject *pySelf) {
     return BigIntArrayList_repr(pySelf);
 }
 
-static int BigIntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, [[maybe_unused]] int flags) {
-    if (view == nullptr) return -1;
+static int BigIntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, int flags) {
+    static long long emptyBuffer = 0;  // some consumers don't accept a null buffer
+
+    if (view == nullptr) {
+        PyErr_SetString(PyExc_BufferError, "view is null in get_buffer");
+        return -1;
+    }
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
     self->shape = static_cast<Py_ssize_t>(self->vector.size());
-    view->format = const_cast<char *>("q");
-    view->buf = self->vector.data();
+    self->exports++;
+    Py_INCREF(pySelf);
+    view->obj = pySelf;
+    view->format = (flags & PyBUF_FORMAT) ? const_cast<char *>("q") : nullptr;
+    view->buf = self->vector.empty() ? &emptyBuffer : self->vector.data();
     view->len = static_cast<Py_ssize_t>(self->vector.size() * sizeof(long long));
     view->itemsize = sizeof(long long);
     view->readonly = 0;
     view->ndim = 1;
-    view->shape = &self->shape;
-    view->strides = nullptr;
+    view->shape = (flags & PyBUF_ND) ? &self->shape : nullptr;
+    view->strides = (flags & PyBUF_STRIDES) == PyBUF_STRIDES ? &view->itemsize : nullptr;
     view->suboffsets = nullptr;
     view->internal = nullptr;
 
     return 0;
 }
 
+static void BigIntArrayList_release_buffer(PyObject *pySelf, [[maybe_unused]] Py_buffer *view) {
+    reinterpret_cast<BigIntArrayList *>(pySelf)->exports--;
+}
+
 static PyMethodDef BigIntArrayList_methods[] = {
         {"from_range", (PyCFunction) BigIntArrayList_from_range, METH_VARARGS | METH_STATIC},
         {"resize", (PyCFunction) BigIntArrayList_resize, METH_O},
@@ -1125,7 +1200,7 @@ static PyMappingMethods BigIntArrayList_asMapping = {
 
 static PyBufferProcs BigIntArrayList_asBuffer = {
         BigIntArrayList_get_buffer,
-        nullptr
+        BigIntArrayList_release_buffer
 };
 
 void initializeBigIntArrayListType(PyTypeObject &type) {
diff --git a/pyfastutil/src/ints/BigIntArrayList.h b/pyfastutil/src/ints/BigIntArrayList.h
index 8a018c3..77a6509 100644
--- a/pyfastutil/src/ints/BigIntArrayList.h
+++ b/pyfastutil/src/ints/BigIntArrayList.h
@@ -15,6 +15,7 @@ typedef struct BigIntArrayList {
     // we use 64 bytes memory aligned to support faster SIMD, suggestion by ChatGPT.
     std::vector<long long, AlignedAllocator<long long, 64>> vector;
     Py_ssize_t shape = 0;
+    Py_ssize_t exports = 0;  // buffers in use, they need the storage to stay where it is
 } BigIntArrayList;
 }
 
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index efdeaa0..7e47099 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -41,6 +41,14 @@ __forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIt
     return true;
 }
 
+static __forceinline bool IntArrayList_resizable(IntArrayList *self) {
+    if (self->exports > 0) {
+        PyErr_SetString(PyExc_BufferError, "Existing exports of data: object cannot be re-sized");
+        return false;
+    }
+    return true;
+}
+
 static PyObject *IntArrayList_new(PyTypeObject *type, [[maybe_unused]] PyObject *args,
                                   [[maybe_unused]] PyObject *kwargs) {
     auto *self = reinterpret_cast<IntArrayList *>(type->tp_alloc(type, 0));
@@ -58,6 +66,10 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
         return -1;
     }
 
+    if (!IntArrayList_resizable(self)) {
+        return -1;
+    }
+
     self->vector.clear();
 
     // init vector
@@ -90,6 +102,10 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
                         PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
                         return -1;
                     }
+                    if (!IntArrayList_resizable(self)) {
+                        SAFE_DECREF(fastKeys);
+                        return -1;
+                    }
                     self->vector.push_back(value);
                 }
                 SAFE_DECREF(fastKeys);
@@ -111,8 +127,12 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
                     PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
                     return -1;
                 }
-                self->vector.push_back(value);
                 SAFE_DECREF(item);
+                if (!IntArrayList_resizable(self)) {
+                    SAFE_DECREF(iter);
+                    return -1;
+                }
+                self->vector.push_back(value);
             }
             SAFE_DECREF(iter);
             if (PyErr_Occurred()) return -1;
@@ -181,6 +201,10 @@ static PyObject *IntArrayList_resize(PyObject *pySelf, PyObject *pySize) {
         return nullptr;
     }
 
+    if (static_cast<size_t>(pySSize) != self->vector.size() && !IntArrayList_resizable(self)) {
+        return nullptr;
+    }
+
     try {
         self->vector.resize(static_cast<size_t>(pySSize));
     } catch (const std::exception &e) {
@@ -236,6 +260,10 @@ static PyObject *IntArrayList_append(PyObject *pySelf, PyObject *object) {
         return nullptr;
     }
 
+    if (!IntArrayList_resizable(self)) {
+        return nullptr;
+    }
+
     try {
         self->vector.push_back(value);
     } catch (const std::exception &e) {
@@ -260,6 +288,10 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
     // fast extend
     if (Py_TYPE(iterable) == &IntArrayListType) {
         auto *iter = reinterpret_cast<IntArrayList *>(iterable);
+        if (!iter->vector.empty() && !IntArrayList_resizable(self)) {
+            return nullptr;
+        }
+
         try {
             const auto count = iter->vector.size();  // iter may be self
             self->vector.resize(self->vector.size() + count);
@@ -283,7 +315,7 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
         SAFE_DECREF(iter);
         return nullptr;
     }
-    if (hint > 0) {
+    if (hint > 0 && self->exports == 0) {
         try {
             self->vector.reserve(self->vector.size() + hint);
         } catch (const std::exception &) {
@@ -302,6 +334,11 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
             return nullptr;
         }
 
+        if (!IntArrayList_resizable(self)) {
+            SAFE_DECREF(iter);
+            return nullptr;
+        }
+
         try {
             self->vector.push_back(value);
         } catch (const std::exception &e) {
@@ -353,6 +390,10 @@ static PyObject *IntArrayList_pop(PyObject *pySelf, PyObject *const *args, const
         return nullptr;
     }
 
+    if (!IntArrayList_resizable(self)) {
+        return nullptr;
+    }
+
     const auto popped = self->vector[static_cast<size_t>(index)];
     self->vector.erase(self->vector.begin() + index);
 
@@ -436,6 +477,10 @@ static PyObject *IntArrayList_insert(PyObject *pySelf, PyObject *args) {
         index = vecSize;
     }
 
+    if (!IntArrayList_resizable(self)) {
+        return nullptr;
+    }
+
     // do insert
     try {
         self->vector.insert(self->vector.begin() + index, value);
@@ -459,6 +504,9 @@ static PyObject *IntArrayList_remove(PyObject *pySelf, PyObject *object) {
         auto it = std::find(self->vector.begin(), self->vector.end(), value);
 
         if (it != self->vector.end()) {
+            if (!IntArrayList_resizable(self)) {
+                return nullptr;
+            }
             self->vector.erase(it);
         } else {
             PyErr_SetString(PyExc_ValueError, "Value is not in list.");
@@ -632,6 +680,9 @@ static int IntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *
 
     try {
         if (pyValue == nullptr) {
+            if (!IntArrayList_resizable(self)) {
+                return -1;
+            }
             self->vector.erase(self->vector.begin() + pyIndex);
         } else {
             self->vector[static_cast<size_t>(pyIndex)] = value;
@@ -699,6 +750,10 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
 
         const auto sliceLength = stop - start;
         const auto newLength = static_cast<Py_ssize_t>(elements.size());
+        if (newLength != sliceLength && !IntArrayList_resizable(self)) {
+            return -1;
+        }
+
         if (newLength > sliceLength) {  // more elements
             self->vector.insert(self->vector.begin() + stop, elements.begin() + sliceLength, elements.end());
         } else {  // less elements
@@ -821,6 +876,10 @@ static PyObject *IntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
         n = 0;
     }
 
+    if (n != 1 && !self->vector.empty() && !IntArrayList_resizable(self)) {
+        return nullptr;
+    }
+
     try {
         if (n == 0) {
             self->vector.clear();
@@ -890,6 +949,10 @@ static PyObject *IntArrayList_reverse(PyObject *pySelf) {
 static PyObject *IntArrayList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
+    if (!self->vector.empty() && !IntArrayList_resizable(self)) {
+        return nullptr;
+    }
+
     self->vector.clear();
     Py_RETURN_NONE;
 }
@@ -1058,25 +1121,37 @@ static PyObject *IntArrayList_str(PyObject *pySelf) {
     return IntArrayList_repr(pySelf);
 }
 
-static int IntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, [[maybe_unused]] int flags) {
-    if (view == nullptr) return -1;
+static int IntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, int flags) {
+    static int emptyBuffer = 0;  // some consumers don't accept a null buffer
+
+    if (view == nullptr) {
+        PyErr_SetString(PyExc_BufferError, "view is null in get_buffer");
+        return -1;
+    }
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
     self->shape = static_cast<Py_ssize_t>(self->vector.size());
-    view->format = const_cast<char *>("i");
-    view->buf = self->vector.data();
+    self->exports++;
+    Py_INCREF(pySelf);
+    view->obj = pySelf;
+    view->format = (flags & PyBUF_FORMAT) ? const_cast<char *>("i") : nullptr;
+    view->buf = self->vector.empty() ? &emptyBuffer : self->vector.data();
     view->len = static_cast<Py_ssize_t>(self->vector.size() * sizeof(int));
     view->itemsize = sizeof(int);
     view->readonly = 0;
     view->ndim = 1;
-    view->shape = &self->shape;
-    view->strides = nullptr;
+    view->shape = (flags & PyBUF_ND) ? &self->shape : nullptr;
+    view->strides = (flags & PyBUF_STRIDES) == PyBUF_STRIDES ? &view->itemsize : nullptr;
     view->suboffsets = nullptr;
     view->internal = nullptr;
 
     return 0;
 }
 
+static void IntArrayList_release_buffer(PyObject *pySelf, [[maybe_unused]] Py_buffer *view) {
+    reinterpret_cast<IntArrayList *>(pySelf)->exports--;
+}
+
 static PyMethodDef IntArrayList_methods[] = {
         {"from_range", (PyCFunction) IntArrayList_from_range, METH_VARARGS | METH_STATIC},
         {"resize", (PyCFunction) IntArrayList_resize, METH_O},
@@ -1129,7 +1204,7 @@ static PyMappingMethods IntArrayList_asMapping = {
 
 static PyBufferProcs IntArrayList_asBuffer = {
         IntArrayList_get_buffer,
-        nullptr
+        IntArrayList_release_buffer
 };
 
 void initializeIntArrayListType(PyTypeObject &type) {
diff --git a/pyfastutil/src/ints/IntArrayList.h b/pyfastutil/src/ints/IntArrayList.h
index 24d5598..407f637 100644
--- a/pyfastutil/src/ints/IntArrayList.h
+++ b/pyfastutil/src/ints/IntArrayList.h
@@ -15,6 +15,7 @@ typedef struct IntArrayList {
     // we use 64 bytes memory aligned to support faster SIMD, suggestion by ChatGPT.
     std::vector<int, AlignedAllocator<int, 64>> vector;
     Py_ssize_t shape = 0;
+    Py_ssize_t exports = 0;  // buffers in use, they need the storage to stay where it is
 } IntArrayList;
 }
 
-- 
2.43.0


From 41aaa17b09d757d127fa064f571da57b88532c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 16/60] fix: iterators walk every element once while the list
 changes and stay exhausted

The reversed array iterators read past the storage of a list that shrank, the
reversed linked iterators returned the last element instead of the first one
and dereferenced erased nodes, and subclasses of iterators crashed.
---
 pyfastutil/src/ints/BigIntArrayListIter.cpp   | 38 ++++---------
 pyfastutil/src/ints/IntArrayListIter.cpp      | 38 ++++---------
 pyfastutil/src/ints/IntLinkedListIter.cpp     | 53 +++++------------
 .../src/objects/ObjectArrayListIter.cpp       | 42 ++++----------
 .../src/objects/ObjectLinkedListIter.cpp      | 57 ++++++-------------
 5 files changed, 65 insertions(+), 163 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayListIter.cpp b/pyfastutil/src/ints/BigIntArrayListIter.cpp
index 321d759..370bc00 100644
--- a/pyfastutil/src/ints/BigIntArrayListIter.cpp
+++ b/pyfastutil/src/ints/BigIntArrayListIter.cpp
@@ -18,7 +18,7 @@ BigIntArrayListIter *BigIntArrayListIter_create(BigIntArrayList *list, bool reve
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : 0;
+        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : SIZE_MAX;
         instance->reversed = true;
     } else {
         instance->index = 0;
@@ -36,37 +36,21 @@ static void BigIntArrayListIter_dealloc(BigIntArrayListIter *self) {
 static PyObject *BigIntArrayListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<BigIntArrayListIter *>(pySelf);
 
-    if (self->container->vector.empty()) {
+    if (self->index >= self->container->vector.size()) {
+        self->index = SIZE_MAX;  // an exhausted iterator stays exhausted
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
 
-    if (self->reversed) {
-        if (self->index == 0) {
-            // last iteration
-            long long element = self->container->vector[self->index];
-            self->index = SIZE_MAX;
-            return PyLong_FromLongLong(element);
-        }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
-        long long element = self->container->vector[self->index];
-        self->index--;
-        return PyLong_FromLongLong(element);
-    } else {
-        if (self->index >= self->container->vector.size()) {
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
-        long long element = self->container->vector[self->index];
+    long long element = self->container->vector[self->index];
+    if (!self->reversed) {
         self->index++;
-        return PyLong_FromLongLong(element);
+    } else if (self->index == 0) {
+        self->index = SIZE_MAX;  // last iteration
+    } else {
+        self->index--;
     }
+    return PyLong_FromLongLong(element);
 }
 
 static PyObject *BigIntArrayListIter_iter(PyObject *pySelf) {
@@ -90,7 +74,7 @@ void initializeBigIntArrayListIterType(PyTypeObject &type) {
     type.tp_name = "BigIntArrayListIter";
     type.tp_basicsize = sizeof(BigIntArrayListIter);
     type.tp_itemsize = 0;
-    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE;
+    type.tp_flags = Py_TPFLAGS_DEFAULT;
     type.tp_iter = BigIntArrayListIter_iter;
     type.tp_iternext = BigIntArrayListIter_next;
     type.tp_methods = BigIntArrayListIter_methods;
diff --git a/pyfastutil/src/ints/IntArrayListIter.cpp b/pyfastutil/src/ints/IntArrayListIter.cpp
index 358eae2..fb78226 100644
--- a/pyfastutil/src/ints/IntArrayListIter.cpp
+++ b/pyfastutil/src/ints/IntArrayListIter.cpp
@@ -18,7 +18,7 @@ IntArrayListIter *IntArrayListIter_create(IntArrayList *list, bool reversed) {
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : 0;
+        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : SIZE_MAX;
         instance->reversed = true;
     } else {
         instance->index = 0;
@@ -36,37 +36,21 @@ static void IntArrayListIter_dealloc(IntArrayListIter *self) {
 static PyObject *IntArrayListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntArrayListIter *>(pySelf);
 
-    if (self->container->vector.empty()) {
+    if (self->index >= self->container->vector.size()) {
+        self->index = SIZE_MAX;  // an exhausted iterator stays exhausted
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
 
-    if (self->reversed) {
-        if (self->index == 0) {
-            // last iteration
-            int element = self->container->vector[self->index];
-            self->index = SIZE_MAX;
-            return PyFast_FromInt(element);
-        }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
-        int element = self->container->vector[self->index];
-        self->index--;
-        return PyFast_FromInt(element);
-    } else {
-        if (self->index >= self->container->vector.size()) {
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
-        int element = self->container->vector[self->index];
+    int element = self->container->vector[self->index];
+    if (!self->reversed) {
         self->index++;
-        return PyFast_FromInt(element);
+    } else if (self->index == 0) {
+        self->index = SIZE_MAX;  // last iteration
+    } else {
+        self->index--;
     }
+    return PyFast_FromInt(element);
 }
 
 static PyObject *IntArrayListIter_iter(PyObject *pySelf) {
@@ -90,7 +74,7 @@ void initializeIntArrayListIterType(PyTypeObject &type) {
     type.tp_name = "IntArrayListIter";
     type.tp_basicsize = sizeof(IntArrayListIter);
     type.tp_itemsize = 0;
-    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE;
+    type.tp_flags = Py_TPFLAGS_DEFAULT;
     type.tp_iter = IntArrayListIter_iter;
     type.tp_iternext = IntArrayListIter_next;
     type.tp_methods = IntArrayListIter_methods;
diff --git a/pyfastutil/src/ints/IntLinkedListIter.cpp b/pyfastutil/src/ints/IntLinkedListIter.cpp
index deff949..0370f89 100644
--- a/pyfastutil/src/ints/IntLinkedListIter.cpp
+++ b/pyfastutil/src/ints/IntLinkedListIter.cpp
@@ -19,9 +19,9 @@ IntLinkedListIter *IntLinkedListIter_create(IntLinkedList *list, bool reversed)
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->list.empty()) ? list->list.size() - 1 : 0;
+        instance->index = (!list->list.empty()) ? list->list.size() - 1 : SIZE_MAX;
         instance->reversed = true;
-        instance->cacheIter = --list->list.end();
+        instance->cacheIter = (!list->list.empty()) ? --list->list.end() : list->list.end();
     } else {
         instance->index = 0;
         instance->reversed = false;
@@ -42,54 +42,31 @@ static __forceinline void updateCache(IntLinkedListIter *&self) {
         return;
     }
 
-    auto newIter = at(self->container->list, self->index);
-    if (self->reversed) {
-        self->index--;
-    } else {
-        self->index++;
-    }
-    self->cacheIter = newIter;
+    self->cacheIter = at(self->container->list, self->index);
     self->cacheModCount = self->container->modCount;
 }
 
 static PyObject *IntLinkedListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntLinkedListIter *>(pySelf);
 
-    if (self->container->list.empty()) {
+    if (self->index >= self->container->list.size()) {
+        self->index = SIZE_MAX;  // an exhausted iterator stays exhausted
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
 
-    if (self->reversed) {
-        if (self->index == 0) {
-            // last iteration
-            int element = *(--self->container->list.end());
-            self->index = SIZE_MAX;
-            return PyFast_FromInt(element);
-        }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
-        updateCache(self);
-        int element = *self->cacheIter;
-        self->index--;
-        self->cacheIter--;
-        return PyFast_FromInt(element);
-    } else {
-        if (self->index >= self->container->list.size()) {
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
-        updateCache(self);
-        int element = *self->cacheIter;
+    updateCache(self);
+    int element = *self->cacheIter;
+    if (!self->reversed) {
         self->index++;
         self->cacheIter++;
-        return PyFast_FromInt(element);
+    } else if (self->index == 0) {
+        self->index = SIZE_MAX;  // last iteration
+    } else {
+        self->index--;
+        self->cacheIter--;
     }
+    return PyFast_FromInt(element);
 }
 
 static PyObject *IntLinkedListIter_iter(PyObject *pySelf) {
@@ -113,7 +90,7 @@ void initializeIntLinkedListIterType(PyTypeObject &type) {
     type.tp_name = "IntLinkedListIter";
     type.tp_basicsize = sizeof(IntLinkedListIter);
     type.tp_itemsize = 0;
-    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE;
+    type.tp_flags = Py_TPFLAGS_DEFAULT;
     type.tp_iter = IntLinkedListIter_iter;
     type.tp_iternext = IntLinkedListIter_next;
     type.tp_methods = IntLinkedListIter_methods;
diff --git a/pyfastutil/src/objects/ObjectArrayListIter.cpp b/pyfastutil/src/objects/ObjectArrayListIter.cpp
index 9447d5b..3bf4604 100644
--- a/pyfastutil/src/objects/ObjectArrayListIter.cpp
+++ b/pyfastutil/src/objects/ObjectArrayListIter.cpp
@@ -18,7 +18,7 @@ ObjectArrayListIter *ObjectArrayListIter_create(ObjectArrayList *list, bool reve
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : 0;
+        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : SIZE_MAX;
         instance->reversed = true;
     } else {
         instance->index = 0;
@@ -36,40 +36,22 @@ static void ObjectArrayListIter_dealloc(ObjectArrayListIter *self) {
 static PyObject *ObjectArrayListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectArrayListIter *>(pySelf);
 
-    if (self->container->vector.empty()) {
+    if (self->index >= self->container->vector.size()) {
+        self->index = SIZE_MAX;  // an exhausted iterator stays exhausted
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
 
-    if (self->reversed) {
-        if (self->index == 0) {
-            // last iteration
-            PyObject *element = self->container->vector[self->index];
-            self->index = SIZE_MAX;
-            Py_INCREF(element);
-            return element;
-        }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
-        PyObject *element = self->container->vector[self->index];
-        self->index--;
-        Py_INCREF(element);
-        return element;
-    } else {
-        if (self->index >= self->container->vector.size()) {
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
-        PyObject *element = self->container->vector[self->index];
+    PyObject *element = self->container->vector[self->index];
+    if (!self->reversed) {
         self->index++;
-        Py_INCREF(element);
-        return element;
+    } else if (self->index == 0) {
+        self->index = SIZE_MAX;  // last iteration
+    } else {
+        self->index--;
     }
+    Py_INCREF(element);
+    return element;
 }
 
 static PyObject *ObjectArrayListIter_iter(PyObject *pySelf) {
@@ -93,7 +75,7 @@ void initializeObjectArrayListIterType(PyTypeObject &type) {
     type.tp_name = "ObjectArrayListIter";
     type.tp_basicsize = sizeof(ObjectArrayListIter);
     type.tp_itemsize = 0;
-    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE;
+    type.tp_flags = Py_TPFLAGS_DEFAULT;
     type.tp_iter = ObjectArrayListIter_iter;
     type.tp_iternext = ObjectArrayListIter_next;
     type.tp_methods = ObjectArrayListIter_methods;
diff --git a/pyfastutil/src/objects/ObjectLinkedListIter.cpp b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
index d8dcf16..29c71b8 100644
--- a/pyfastutil/src/objects/ObjectLinkedListIter.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
@@ -19,9 +19,9 @@ ObjectLinkedListIter *ObjectLinkedListIter_create(ObjectLinkedList *list, bool r
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->list.empty()) ? list->list.size() - 1 : 0;
+        instance->index = (!list->list.empty()) ? list->list.size() - 1 : SIZE_MAX;
         instance->reversed = true;
-        instance->cacheIter = --list->list.end();
+        instance->cacheIter = (!list->list.empty()) ? --list->list.end() : list->list.end();
     } else {
         instance->index = 0;
         instance->reversed = false;
@@ -42,57 +42,32 @@ static __forceinline void updateCache(ObjectLinkedListIter *&self) {
         return;
     }
 
-    auto newIter = at(self->container->list, self->index);
-    if (self->reversed) {
-        self->index--;
-    } else {
-        self->index++;
-    }
-    self->cacheIter = newIter;
+    self->cacheIter = at(self->container->list, self->index);
     self->cacheModCount = self->container->modCount;
 }
 
 static PyObject *ObjectLinkedListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectLinkedListIter *>(pySelf);
 
-    if (self->container->list.empty()) {
+    if (self->index >= self->container->list.size()) {
+        self->index = SIZE_MAX;  // an exhausted iterator stays exhausted
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
 
-    if (self->reversed) {
-        if (self->index == 0) {
-            // last iteration
-            PyObject *element = *(--self->container->list.end());
-            self->index = SIZE_MAX;
-            Py_INCREF(element);
-            return element;
-        }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
-        updateCache(self);
-        PyObject *element = *self->cacheIter;
-        self->index--;
-        self->cacheIter--;
-        Py_INCREF(element);
-        return element;
-    } else {
-        if (self->index >= self->container->list.size()) {
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
-        updateCache(self);
-        PyObject *element = *self->cacheIter;
+    updateCache(self);
+    PyObject *element = *self->cacheIter;
+    if (!self->reversed) {
         self->index++;
         self->cacheIter++;
-        Py_INCREF(element);
-        return element;
+    } else if (self->index == 0) {
+        self->index = SIZE_MAX;  // last iteration
+    } else {
+        self->index--;
+        self->cacheIter--;
     }
+    Py_INCREF(element);
+    return element;
 }
 
 static PyObject *ObjectLinkedListIter_iter(PyObject *pySelf) {
@@ -116,7 +91,7 @@ void initializeObjectLinkedListIterType(PyTypeObject &type) {
     type.tp_name = "ObjectLinkedListIter";
     type.tp_basicsize = sizeof(ObjectLinkedListIter);
     type.tp_itemsize = 0;
-    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE;
+    type.tp_flags = Py_TPFLAGS_DEFAULT;
     type.tp_iter = ObjectLinkedListIter_iter;
     type.tp_iternext = ObjectLinkedListIter_next;
     type.tp_methods = ObjectLinkedListIter_methods;
-- 
2.43.0


From e227749324378f3947c5e5c02b284059968bdd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 17/60] fix: don't count references of immortal objects

---
 pyfastutil/src/utils/PythonUtils.h | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index 49e85f7..b2dcdc1 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -9,33 +9,24 @@
 #include "PythonPCH.h"
 #include "Compat.h"
 
+// the C API knows how immortal objects are marked, they must not be counted
 template<typename T>
-static __forceinline constexpr void PyFast_INCREF(T *object) noexcept {
-    if (UNLIKELY(((PyObject *) object)->ob_refcnt < 0))
-        return;
-    ((PyObject *) object)->ob_refcnt++;
+static __forceinline void PyFast_INCREF(T *object) noexcept {
+    Py_INCREF((PyObject *) object);
 }
 
 template<typename T>
-static __forceinline constexpr void PyFast_DECREF(T *object) noexcept {
-    if (UNLIKELY(((PyObject *) object)->ob_refcnt < 0))
-        return;
-    if (--((PyObject *) object)->ob_refcnt == 0)
-        _Py_Dealloc((PyObject *) object);
+static __forceinline void PyFast_DECREF(T *object) noexcept {
+    Py_DECREF((PyObject *) object);
 }
 
 template<typename T>
-static __forceinline constexpr void PyFast_XDECREF(T *object) noexcept {
-    if (UNLIKELY(object == nullptr))
-        return;
-    if (UNLIKELY(((PyObject *) object)->ob_refcnt < 0))
-        return;
-    if (--((PyObject *) object)->ob_refcnt == 0)
-        _Py_Dealloc((PyObject *) object);
+static __forceinline void PyFast_XDECREF(T *object) noexcept {
+    Py_XDECREF((PyObject *) object);
 }
 
 template<typename T>
-static __forceinline constexpr void SAFE_DECREF(T *&object) noexcept {
+static __forceinline void SAFE_DECREF(T *&object) noexcept {
     assert(object != nullptr);
     PyFast_DECREF(object);
     object = nullptr;
-- 
2.43.0


From 2d528c4b8328d1a17ca690a1c6fa9f627e8398b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 18/60] fix: construct IntLinkedList storage in tp_new with its
 element type and dont leak every returned int

---
 pyfastutil/src/ints/IntLinkedList.cpp | 28 ++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index e6f8e3c..637220c 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -20,10 +20,17 @@ static PyTypeObject IntLinkedListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwargs) {
-    new(&self->list) std::list<PyObject *>();
+static PyObject *IntLinkedList_new(PyTypeObject *type, [[maybe_unused]] PyObject *args,
+                                   [[maybe_unused]] PyObject *kwargs) {
+    auto *self = reinterpret_cast<IntLinkedList *>(type->tp_alloc(type, 0));
+    if (self == nullptr) return nullptr;
+
+    new(&self->list) std::list<int>();
     self->modCount = 0;
+    return reinterpret_cast<PyObject *>(self);
+}
 
+static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwargs) {
     PyObject *pyIterable = nullptr;
 
     static constexpr const char *kwlist[] = {"iterable", nullptr};
@@ -33,6 +40,9 @@ static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwa
         return -1;
     }
 
+    self->list.clear();
+    self->modCount++;
+
     // init list
     try {
         if (pyIterable != nullptr) {
@@ -142,9 +152,12 @@ static PyObject *IntLinkedList_to_list(PyObject *pySelf) {
     auto iter = self->list.begin();
     for (Py_ssize_t i = 0; i < size; ++i, ++iter) {
         PyObject *item = PyFast_FromInt(*iter);
+        if (item == nullptr) {
+            SAFE_DECREF(result);
+            return nullptr;
+        }
 
-        PyList_SET_ITEM(result, i, item);
-        Py_INCREF(item);
+        PyList_SET_ITEM(result, i, item);  // PyList_SET_ITEM handle this ref
     }
 
     return result;
@@ -471,9 +484,7 @@ static PyObject *IntLinkedList_getitem(PyObject *pySelf, Py_ssize_t pyIndex) {
     }
 
     try {
-        PyObject *item = PyFast_FromInt(*at(self->list, static_cast<size_t>(pyIndex)));
-        Py_INCREF(item);
-        return item;
+        return PyFast_FromInt(*at(self->list, static_cast<size_t>(pyIndex)));
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
@@ -506,7 +517,6 @@ static PyObject *IntLinkedList_getitem_slice(PyObject *pySelf, PyObject *slice)
     for (Py_ssize_t i = 0; i < sliceLength; i++) {
         Py_ssize_t index = start + i * step;
         PyObject *item = PyFast_FromInt(*at(self->list, static_cast<size_t>(index)));
-        Py_INCREF(item);
         if (item == nullptr) {
             SAFE_DECREF(result);
             return nullptr;
@@ -1139,7 +1149,7 @@ void initializeIntLinkedListType(PyTypeObject &type) {
     type.tp_iter = IntLinkedList_iter;
     type.tp_methods = IntLinkedList_methods;
     type.tp_init = (initproc) IntLinkedList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = IntLinkedList_new;
     type.tp_dealloc = (destructor) IntLinkedList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
-- 
2.43.0


From 4c1939b6cb614f845e828b1799081271c1ca49b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 19/60] fix: IntLinkedList writes only converted elements and
 tells iterators about every change

Failed conversions stored an element, out of range ints were truncated, pop read
the erased node, extending and slice assignment with itself looped or mixed
elements, *= grew exponentially and deletions left iterators on freed nodes.
---
 pyfastutil/src/ints/IntLinkedList.cpp | 289 +++++++++++---------------
 1 file changed, 127 insertions(+), 162 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 637220c..7f3cc9a 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -58,11 +58,13 @@ static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwa
                     return -1;
                 }
 
-                const auto size = PySequence_Fast_GET_SIZE(fastKeys);
-                auto items = PySequence_Fast_ITEMS(fastKeys);
-                for (Py_ssize_t i = 0; i < size; ++i) {
-                    int value = PyLong_AsLong(items[i]);
-                    if (PyErr_Occurred()) {
+                for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(fastKeys); ++i) {
+                    // the conversion can call back to python and change the source
+                    PyObject *item = PySequence_Fast_GET_ITEM(fastKeys, i);
+                    Py_INCREF(item);
+                    int value = PyFast_AsInt(item);
+                    Py_DECREF(item);
+                    if (value == -1 && PyErr_Occurred()) {
                         SAFE_DECREF(fastKeys);
                         PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
                         return -1;
@@ -81,8 +83,8 @@ static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwa
 
             PyObject *item;
             while ((item = PyIter_Next(iter)) != nullptr) {
-                int value = PyLong_AsLong(item);
-                if (PyErr_Occurred()) {
+                int value = PyFast_AsInt(item);
+                if (value == -1 && PyErr_Occurred()) {
                     SAFE_DECREF(iter);
                     SAFE_DECREF(item);
                     PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
@@ -183,13 +185,13 @@ static PyObject *IntLinkedList_copy(PyObject *pySelf) {
 static PyObject *IntLinkedList_append(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    PyObject *value = object;
-    if (PyErr_Occurred()) {
+    int value = PyFast_AsInt(object);
+    if (value == -1 && PyErr_Occurred()) {
         return nullptr;
     }
 
     try {
-        self->list.push_back(PyLong_AsLong(value));
+        self->list.push_back(value);
         self->modCount++;
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
@@ -213,8 +215,14 @@ static PyObject *IntLinkedList_extend(PyObject *pySelf, PyObject *const *args, c
     // fast extend
     if (Py_TYPE(iterable) == &IntLinkedListType) {
         auto *iter = reinterpret_cast<IntLinkedList *>(iterable);
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        self->modCount++;
+        try {
+            auto elements = iter->list;  // iter may be self
+            self->list.splice(self->list.end(), elements);
+            self->modCount++;
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         Py_RETURN_NONE;
     }
 
@@ -227,16 +235,23 @@ static PyObject *IntLinkedList_extend(PyObject *pySelf, PyObject *const *args, c
     // do extend
     PyObject *item;
     while ((item = PyIter_Next(iter)) != nullptr) {
-        if (PyErr_Occurred()) {
+        int value = PyFast_AsInt(item);
+        SAFE_DECREF(item);
+
+        if (value == -1 && PyErr_Occurred()) {
             SAFE_DECREF(iter);
-            SAFE_DECREF(item);
             return nullptr;
         }
 
-        self->list.push_back(PyLong_AsLong(item));
-        SAFE_DECREF(item);
+        try {
+            self->list.push_back(value);
+            self->modCount++;
+        } catch (const std::exception &e) {
+            SAFE_DECREF(iter);
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
     }
-    self->modCount++;
 
     if (PyErr_Occurred()) {
         SAFE_DECREF(iter);
@@ -251,42 +266,40 @@ static PyObject *IntLinkedList_extend(PyObject *pySelf, PyObject *const *args, c
 static PyObject *IntLinkedList_pop(PyObject *pySelf, PyObject *const *args, const Py_ssize_t nargs) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    if (self->list.empty()) {
-        PyErr_SetString(PyExc_IndexError, "pop from empty list");
+    if (nargs > 1) {
+        PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
         return nullptr;
     }
 
-    const auto vecSize = static_cast<Py_ssize_t>(self->list.size());
-    Py_ssize_t index;
-
+    Py_ssize_t index = -1;
     if (nargs == 1) {
-        index = PyLong_AsSsize_t(args[0]);
+        // convert first, it can call back to python
+        index = PyNumber_AsSsize_t(args[0], PyExc_IndexError);
         if (index == -1 && PyErr_Occurred()) {
             return nullptr;
         }
+    }
 
-        if (index < 0) {
-            index += vecSize;
-        }
+    if (self->list.empty()) {
+        PyErr_SetString(PyExc_IndexError, "pop from empty list");
+        return nullptr;
+    }
 
-        if (index < 0 || index >= vecSize) {
-            PyErr_SetString(PyExc_IndexError, "index out of range");
-            return nullptr;
-        }
-    } else if (nargs > 1) {
-        PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
+    const auto vecSize = static_cast<Py_ssize_t>(self->list.size());
+    if (index < 0) {
+        index += vecSize;
+    }
+
+    if (index < 0 || index >= vecSize) {
+        PyErr_SetString(PyExc_IndexError, "index out of range");
         return nullptr;
-    } else {
-        const auto popped = self->list.back();
-        self->list.pop_back();
-        self->modCount++;
-        return PyFast_FromInt(popped);
     }
 
-    auto popped = at(self->list, index);
-    self->list.erase(popped);
+    auto iter = at(self->list, index);
+    const auto popped = *iter;
+    self->list.erase(iter);
     self->modCount++;
-    return PyFast_FromInt(*popped);
+    return PyFast_FromInt(popped);
 }
 
 static PyObject *IntLinkedList_index(PyObject *pySelf, PyObject *args) {
@@ -334,7 +347,7 @@ static PyObject *IntLinkedList_index(PyObject *pySelf, PyObject *args) {
 static PyObject *IntLinkedList_count(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    int value = PyLong_AsLong(object);
+    int value = PyFast_AsInt(object);
     if (value == -1 && PyErr_Occurred()) {
         return nullptr;
     }
@@ -382,7 +395,7 @@ static PyObject *IntLinkedList_insert(PyObject *pySelf, PyObject *args) {
 static PyObject *IntLinkedList_remove(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    int value = PyLong_AsLong(object);
+    int value = PyFast_AsInt(object);
     if (PyErr_Occurred()) {
         return nullptr;
     }
@@ -529,6 +542,15 @@ static PyObject *IntLinkedList_getitem_slice(PyObject *pySelf, PyObject *slice)
 static int IntLinkedList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *pyValue) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
+    int value = 0;
+    if (pyValue != nullptr) {
+        // convert first, it can call back to python
+        value = PyFast_AsInt(pyValue);
+        if (value == -1 && PyErr_Occurred()) {
+            return -1;
+        }
+    }
+
     auto size = static_cast<Py_ssize_t>(self->list.size());
 
     if (pyIndex < 0) {
@@ -543,13 +565,9 @@ static int IntLinkedList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject
         if (pyValue == nullptr) {
             auto iter = at(self->list, static_cast<size_t>(pyIndex));
             self->list.erase(iter);
+            self->modCount++;
         } else {
-            PyObject *value = pyValue;
-            if (PyErr_Occurred()) {
-                return -1;
-            }
-
-            *at(self->list, static_cast<size_t>(pyIndex)) = PyLong_AsLong(value);
+            *at(self->list, static_cast<size_t>(pyIndex)) = value;
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
@@ -570,93 +588,54 @@ static int IntLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObje
 
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    Py_ssize_t start, stop, step, sliceLength;
+    Py_ssize_t start, stop, step;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
-
-    if (!PySequence_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
-        return -1;
-    }
-
-    Py_ssize_t newLength = PySequence_Size(value);
-
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
     try {
-        auto iter = at(self->list, static_cast<size_t>(start));
-
-        if (newLength == sliceLength) {  // only change elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                *iter = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-
-                ++iter;
-            }
-        } else if (newLength < sliceLength) {  // less elements
-            for (Py_ssize_t i = 0; i < newLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                *iter = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-
-                ++iter;
-            }
-
-            auto eraseStart = iter;
-            for (Py_ssize_t i = newLength; i < sliceLength; i++) {
-                ++iter;
+        // collect the new elements first, it can fail, call back to python or read from this list
+        std::list<int> elements;
+        if (value == nullptr) {
+            // del list[start:stop]
+        } else if (Py_TYPE(value) == &IntLinkedListType) {
+            elements = reinterpret_cast<IntLinkedList *>(value)->list;
+        } else {
+            PyObject *sequence = PySequence_Fast(value, "can only assign an iterable");
+            if (sequence == nullptr) {
+                return -1;
             }
-            self->list.erase(eraseStart, iter);
-        } else {  // more elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
 
-                *iter = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
+            for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(sequence); i++) {
+                PyObject *item = PySequence_Fast_GET_ITEM(sequence, i);
+                Py_INCREF(item);
+                int element = PyFast_AsInt(item);
+                Py_DECREF(item);
+                if (element == -1 && PyErr_Occurred()) {
+                    Py_DECREF(sequence);
                     return -1;
                 }
-
-                ++iter;
+                elements.push_back(element);
             }
+            Py_DECREF(sequence);
+        }
 
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->list.insert(iter, PyLong_AsLong(item));
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
+        PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
+        if (stop < start) {
+            stop = start;
         }
+
+        auto eraseStart = at(self->list, static_cast<size_t>(start));
+        auto eraseStop = eraseStart;
+        std::advance(eraseStop, stop - start);
+        auto iter = self->list.erase(eraseStart, eraseStop);
+        self->list.splice(iter, elements);
+        self->modCount++;
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
@@ -666,16 +645,17 @@ static int IntLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObje
 }
 
 static PyObject *IntLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
-    if (Py_TYPE(pyValue) == &IntLinkedListType) {
+    if (PyObject_TypeCheck(pyValue, &IntLinkedListType)) {
         // fast add -> IntLinkedList
         auto *value = reinterpret_cast<IntLinkedList *>(pyValue);
 
-        auto *result = Py_CreateObj<IntLinkedList>(IntLinkedListType, pySelf);
+        auto *result = Py_CreateObj<IntLinkedList>(IntLinkedListType);
         if (result == nullptr) {
             return PyErr_NoMemory();
         }
 
         try {
+            result->list = reinterpret_cast<IntLinkedList *>(pySelf)->list;
             result->list.insert(result->list.end(), value->list.begin(), value->list.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
@@ -702,40 +682,12 @@ static PyObject *IntLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
 }
 
 static PyObject *IntLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
-    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
-
-    // fast extend
-    if (Py_TYPE(iterable) == &IntLinkedListType) {
-        auto *iter = reinterpret_cast<IntLinkedList *>(iterable);
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        Py_RETURN_NONE;
-    }
-
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
-
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            SAFE_DECREF(item);
-            return nullptr;
-        }
-
-        self->list.push_back(PyLong_AsLong(item));
-        SAFE_DECREF(item);
-    }
-
-    if (PyErr_Occurred()) {
-        SAFE_DECREF(iter);
+    PyObject *result = IntLinkedList_extend(pySelf, &iterable, 1);
+    if (result == nullptr) {
         return nullptr;
     }
+    SAFE_DECREF(result);
 
-    SAFE_DECREF(iter);
     Py_INCREF(pySelf);
     return pySelf;
 }
@@ -753,10 +705,15 @@ static PyObject *IntLinkedList_mul(PyObject *pySelf, Py_ssize_t n) {
         return PyErr_NoMemory();
     }
 
-    if (n == 0) {
+    if (n == 0 || self->list.empty()) {
         return reinterpret_cast<PyObject *>(result);
     }
 
+    if (static_cast<size_t>(n) > self->list.max_size() / self->list.size()) {
+        SAFE_DECREF(result);
+        return PyErr_NoMemory();
+    }
+
     try {
         for (Py_ssize_t i = 0; i < n; ++i) {
             result->list.insert(result->list.end(), self->list.begin(), self->list.end());
@@ -794,13 +751,18 @@ static PyObject *IntLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
     try {
         if (n == 0) {
             self->list.clear();
-        } else {
-            const auto begin = self->list.begin();
-            const auto end = self->list.end();
+        } else if (n > 1 && !self->list.empty()) {
+            if (static_cast<size_t>(n) > self->list.max_size() / self->list.size()) {
+                return PyErr_NoMemory();
+            }
+
+            std::list<int> elements;
             for (Py_ssize_t i = 1; i < n; ++i) {
-                self->list.insert(self->list.end(), begin, end);
+                elements.insert(elements.end(), self->list.begin(), self->list.end());
             }
+            self->list.splice(self->list.end(), elements);
         }
+        self->modCount++;
 
         Py_INCREF(pySelf);
         return pySelf;
@@ -817,9 +779,13 @@ static int IntLinkedList_contains(PyObject *pySelf, PyObject *key) {
 
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    int value = PyLong_AsLong(key);
-    if (PyErr_Occurred()) {
-        return -1;
+    int value = PyFast_AsInt(key);
+    if (value == -1 && PyErr_Occurred()) {
+        if (!PyErr_ExceptionMatches(PyExc_OverflowError)) {
+            return -1;
+        }
+        PyErr_Clear();  // out of the element range, can't be in the list
+        return 0;
     }
 
     try {
@@ -845,9 +811,7 @@ static PyObject *IntLinkedList_reversed(PyObject *pySelf) {
 static PyObject *IntLinkedList_reverse(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    Py_BEGIN_ALLOW_THREADS
-        std::reverse(self->list.begin(), self->list.end());
-    Py_END_ALLOW_THREADS
+    std::reverse(self->list.begin(), self->list.end());
     Py_RETURN_NONE;
 }
 
@@ -855,6 +819,7 @@ static PyObject *IntLinkedList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
     self->list.clear();
+    self->modCount++;
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From 0f44d1cc431bd615de0febd5c3aca7618e2e6348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 20/60] fix: IntLinkedList sort with a key reports errors and
 survives changes made by the key function

---
 pyfastutil/src/ints/IntLinkedList.cpp | 37 +++++++++++++++++++++------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 7f3cc9a..1540f7d 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -422,15 +422,15 @@ static PyObject *IntLinkedList_sort(PyObject *pySelf, PyObject *args, PyObject *
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
     PyObject *keyFunc = Py_None;
-    int reverseInt = 0;  // default: false
+    int reverseFlag = 0;  // default: false
     static constexpr const char *kwlist[] = {"key", "reverse", nullptr};
 
-    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Oi", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Op", const_cast<char **>(kwlist), &keyFunc, &reverseFlag)) {
         return nullptr;
     }
 
     if (keyFunc == Py_None) {
-        if (reverseInt == 1) {
+        if (reverseFlag) {
             self->list.sort(std::greater());
         } else {
             self->list.sort();
@@ -438,6 +438,8 @@ static PyObject *IntLinkedList_sort(PyObject *pySelf, PyObject *args, PyObject *
         self->modCount++;
     } else {
         // costs extra memory
+        // python code can change the list while we are sorting
+        const auto original = self->list;
         const auto vecSize = self->list.size();
         auto **pyData = static_cast<PyObject **>(PyMem_Malloc(sizeof(PyObject *) * vecSize));
         if (pyData == nullptr) {
@@ -448,20 +450,39 @@ static PyObject *IntLinkedList_sort(PyObject *pySelf, PyObject *args, PyObject *
         auto iter = self->list.begin();
         for (size_t i = 0; i < vecSize; ++i, ++iter) {
             pyData[i] = PyFast_FromInt(*iter);
+            if (pyData[i] == nullptr) {
+                while (i-- > 0) {
+                    Py_DECREF(pyData[i]);
+                }
+                PyMem_FREE(pyData);
+                return nullptr;
+            }
         }
 
-        CPython_sort(pyData,
-                     static_cast<Py_ssize_t>(vecSize),
-                     keyFunc, reverseInt);
+        PyObject *result = CPython_sort(pyData,
+                                        static_cast<Py_ssize_t>(vecSize),
+                                        keyFunc, reverseFlag);
 
+        const bool modified = self->list != original;
         iter = self->list.begin();
-        for (size_t i = 0; i < vecSize; ++i, ++iter) {
-            *iter = PyFast_AsInt(pyData[i]);
+        for (size_t i = 0; i < vecSize; ++i) {
+            if (result != nullptr && !modified) {
+                *iter++ = PyFast_AsInt(pyData[i]);
+            }
             Py_DECREF(pyData[i]);
         }
 
         PyMem_FREE(pyData);
         self->modCount++;
+
+        if (result == nullptr) {
+            return nullptr;
+        }
+        Py_DECREF(result);
+        if (modified) {
+            PyErr_SetString(PyExc_ValueError, "list modified during sort");
+            return nullptr;
+        }
     }
 
     Py_RETURN_NONE;
-- 
2.43.0


From 65e06fd3eb0386501290cf540f4b76fb446a04e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 21/60] fix: IntLinkedList comparisons follow list order and
 report errors

---
 pyfastutil/src/ints/IntLinkedList.cpp | 198 +++-----------------------
 1 file changed, 17 insertions(+), 181 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 1540f7d..4f80bbf 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -844,194 +844,30 @@ static PyObject *IntLinkedList_clear(PyObject *pySelf) {
     Py_RETURN_NONE;
 }
 
-static __forceinline PyObject *IntLinkedList_eq(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_FALSE;
-
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    if (seq_size != static_cast<Py_ssize_t>(self->list.size()))
-        Py_RETURN_FALSE;
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seq_size; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr)
-            return nullptr;
-
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
-        if (PyErr_Occurred()) {  // can't be convert to int
-            SAFE_DECREF(item);
-            Py_RETURN_FALSE;
-        }
-
-        SAFE_DECREF(item);
-        if (self_value != other_value)
-            Py_RETURN_FALSE;
-    }
-
-    Py_RETURN_TRUE;
-}
-
-static __forceinline PyObject *IntLinkedList_ne(PyObject *pySelf, PyObject *pyValue) {
-    PyObject *isEq = IntLinkedList_eq(pySelf, pyValue);
-    if (PyObject_IsTrue(isEq)) {
-        SAFE_DECREF(isEq);
-        Py_RETURN_FALSE;
-    } else {
-        SAFE_DECREF(isEq);
-        Py_RETURN_TRUE;
-    }
-}
-
-static __forceinline PyObject *IntLinkedList_lt(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value < other_value)
-    }
-
-    Py_RETURN_FALSE;
-}
-
-static __forceinline PyObject *IntLinkedList_le(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value <= other_value)
-    }
-
-    Py_RETURN_FALSE;
-}
-
-static __forceinline PyObject *IntLinkedList_gt(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value > other_value)
-    }
-
-    Py_RETURN_FALSE;
-}
-
-static __forceinline PyObject *IntLinkedList_ge(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
-
+static PyObject *IntLinkedList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
     if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
+        Py_RETURN_NOTIMPLEMENTED;
     }
 
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
+    // accessing a linked list by index is slow
+    PyObject *left = IntLinkedList_to_list(pySelf);
+    if (left == nullptr) return nullptr;
+    PyObject *right;
+    if (PyObject_TypeCheck(pyValue, &IntLinkedListType)) {
+        right = IntLinkedList_to_list(pyValue);
+        if (right == nullptr) {
+            Py_DECREF(left);
             return nullptr;
         }
-
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value >= other_value)
+    } else {
+        right = pyValue;
+        Py_INCREF(right);
     }
 
-    Py_RETURN_FALSE;
-}
-
-static PyObject *IntLinkedList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
-    switch (op) {
-        case Py_EQ:  // ==
-            return IntLinkedList_eq(pySelf, pyValue);
-        case Py_NE:  // !=
-            return IntLinkedList_ne(pySelf, pyValue);
-        case Py_LT:  // <
-            return IntLinkedList_lt(pySelf, pyValue);
-        case Py_LE:  // <=
-            return IntLinkedList_le(pySelf, pyValue);
-        case Py_GT:  // >
-            return IntLinkedList_gt(pySelf, pyValue);
-        case Py_GE:  // >=
-            return IntLinkedList_ge(pySelf, pyValue);
-        default:
-            PyErr_SetString(PyExc_AssertionError, "Invalid comparison operation.");
-            return nullptr;
-    }
+    PyObject *result = PyFast_SequenceCompare(left, right, op);
+    Py_DECREF(left);
+    Py_DECREF(right);
+    return result;
 }
 
 #ifdef IS_PYTHON_39_OR_LATER
-- 
2.43.0


From 1be5be0bed12992b4f2ab21575a0b4b5e8a619e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 22/60] fix: construct ObjectArrayList storage in tp_new, own
 the copied references and release them safely

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 50 +++++++++++++++-------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 09ceb8f..497a1fd 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -20,32 +20,54 @@ static PyTypeObject ObjectArrayListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-__forceinline void parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
+__forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
     static constexpr const char *kwlist[] = {"iterable", "exceptSize", nullptr};
 
     PyObject *arg1 = nullptr;
 
     // parse args
     if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|On", const_cast<char **>(kwlist), &arg1, &pySize)) {
-        return;
+        return false;
     }
 
-    if (arg1 == nullptr) return;
+    if (arg1 == nullptr) return true;
 
     if (PyLong_Check(arg1)) {
         pySize = PyLong_AsSsize_t(arg1);
+        if (pySize == -1 && PyErr_Occurred()) return false;
     } else {
         pyIterable = arg1;
     }
+    return true;
 }
 
-static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject *kwargs) {
+static PyObject *ObjectArrayList_new(PyTypeObject *type, [[maybe_unused]] PyObject *args,
+                                     [[maybe_unused]] PyObject *kwargs) {
+    auto *self = reinterpret_cast<ObjectArrayList *>(type->tp_alloc(type, 0));
+    if (self == nullptr) return nullptr;
+
     new(&self->vector) std::vector<PyObject *>();
+    return reinterpret_cast<PyObject *>(self);
+}
+
+static void ObjectArrayList_clear_items(ObjectArrayList *self) {
+    // take the items out first, a destructor can use this list
+    std::vector<PyObject *> items;
+    items.swap(self->vector);
+    for (PyObject *item: items) {
+        SAFE_DECREF(item);
+    }
+}
 
+static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject *kwargs) {
     PyObject *pyIterable = nullptr;
     Py_ssize_t pySize = -1;
 
-    parseArgs(args, kwargs, pyIterable, pySize);
+    if (!parseArgs(args, kwargs, pyIterable, pySize)) {
+        return -1;
+    }
+
+    ObjectArrayList_clear_items(self);
 
     // init vector
     try {
@@ -57,6 +79,9 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
             if (Py_TYPE(pyIterable) == &ObjectArrayListType) {  // ObjectArrayList is a final class
                 auto *iter = reinterpret_cast<ObjectArrayList *>(pyIterable);
                 self->vector = iter->vector;
+                for (const auto &item: self->vector) {
+                    Py_INCREF(item);
+                }
                 return 0;
             }
 
@@ -69,12 +94,12 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
                 const auto size = PySequence_Fast_GET_SIZE(fastIter);
                 auto items = PySequence_Fast_ITEMS(fastIter);
 
+                self->vector.insert(self->vector.end(), items, items + size);  // even faster than memcpy!!
+
                 for (Py_ssize_t i = 0; i < size; ++i) {
                     Py_INCREF(items[i]);
                 }
 
-                self->vector.insert(self->vector.end(), items, items + size);  // even faster than memcpy!!
-
                 SAFE_DECREF(fastIter);
                 return 0;
             }
@@ -101,9 +126,7 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
 }
 
 static void ObjectArrayList_dealloc(ObjectArrayList *self) {
-    for (PyObject *item: self->vector) {
-        SAFE_DECREF(item);
-    }
+    ObjectArrayList_clear_items(self);
     self->vector.~vector();
     Py_TYPE(self)->tp_free((PyObject *) self);
 }
@@ -866,10 +889,7 @@ static PyObject *ObjectArrayList_reverse(PyObject *pySelf) {
 static PyObject *ObjectArrayList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    for (auto &item: self->vector) {
-        SAFE_DECREF(item);
-    }
-    self->vector.clear();
+    ObjectArrayList_clear_items(self);
     Py_RETURN_NONE;
 }
 
@@ -1195,7 +1215,7 @@ void initializeObjectArrayListType(PyTypeObject &type) {
     type.tp_iter = ObjectArrayList_iter;
     type.tp_methods = ObjectArrayList_methods;
     type.tp_init = (initproc) ObjectArrayList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = ObjectArrayList_new;
     type.tp_dealloc = (destructor) ObjectArrayList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
-- 
2.43.0


From 2cdbe5e6dea7d2f016b2f457a3a8ffc80f46ee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 23/60] fix: ObjectArrayList releases replaced and dropped
 items and repeats or extends itself correctly

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 177 ++++++++++-----------
 1 file changed, 86 insertions(+), 91 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 497a1fd..4e7fe99 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -147,16 +147,19 @@ static PyObject *ObjectArrayList_resize(PyObject *pySelf, PyObject *pySize) {
 
     try {
         const auto newSize = static_cast<size_t>(pySSize);
+        const auto size = self->vector.size();
+        std::vector<PyObject *> removed;
+        if (newSize < size) {
+            removed.assign(self->vector.begin() + pySSize, self->vector.end());
+        }
         self->vector.resize(newSize, Py_None);
-        // No need to call Py_INCREF on Py_None or other constant objects
-        // because, the reference count operations on global singleton objects
-        // like None, True, and False have been optimized to be no-ops.
-//        if (newSize > size) {
-//            const auto addedNone = newSize - size;
-//            for (size_t i = 0; i < addedNone; ++i) {
-//                Py_INCREF(Py_None);
-//            }
-//        }
+        for (size_t i = size; i < newSize; ++i) {
+            Py_INCREF(Py_None);
+        }
+        // a destructor can use this list
+        for (PyObject *item: removed) {
+            SAFE_DECREF(item);
+        }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
@@ -194,7 +197,7 @@ static PyObject *ObjectArrayList_copy(PyObject *pySelf) {
             Py_INCREF(item);
         }
     } catch (const std::exception &e) {
-        PyObject_Del(copy);
+        Py_DECREF(copy);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
@@ -235,9 +238,15 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
     // fast extend
     if (Py_TYPE(iterable) == &ObjectArrayListType) {
         auto *iter = reinterpret_cast<ObjectArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        for (const auto &item: iter->vector) {
-            Py_INCREF(item);
+        try {
+            const auto items = iter->vector;  // iter may be self
+            self->vector.insert(self->vector.end(), items.begin(), items.end());
+            for (const auto &item: items) {
+                Py_INCREF(item);
+            }
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
         }
         Py_RETURN_NONE;
     }
@@ -245,7 +254,12 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
     if (Py_TYPE(iterable) == &PyList_Type) {
         const auto *iter = reinterpret_cast<PyListObject *>(iterable);
         const auto last = iter->ob_item + PyList_GET_SIZE(iter);
-        self->vector.insert(self->vector.end(), iter->ob_item, last);
+        try {
+            self->vector.insert(self->vector.end(), iter->ob_item, last);
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         for (PyObject **item = iter->ob_item; item < last; ++item) {
             Py_INCREF(*item);
         }
@@ -260,19 +274,29 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
 
     // pre alloc
     Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
+    if (hint < 0) {
+        SAFE_DECREF(iter);
+        return nullptr;
+    }
     if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
+        try {
+            self->vector.reserve(self->vector.size() + hint);
+        } catch (const std::exception &) {
+            // it's only a hint
+        }
     }
 
     // do extend
     PyObject *item;
     while ((item = PyIter_Next(iter)) != nullptr) {
-        if (PyErr_Occurred()) {
+        try {
+            self->vector.push_back(item);
+        } catch (const std::exception &e) {
             SAFE_DECREF(iter);
+            SAFE_DECREF(item);
+            PyErr_SetString(PyExc_RuntimeError, e.what());
             return nullptr;
         }
-
-        self->vector.push_back(item);
     }
 
     if (PyErr_Occurred()) {
@@ -288,36 +312,33 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
 static PyObject *ObjectArrayList_pop(PyObject *pySelf, PyObject *const *args, const Py_ssize_t nargs) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    if (self->vector.empty()) {
-        PyErr_SetString(PyExc_IndexError, "pop from empty list");
+    if (nargs > 1) {
+        PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
         return nullptr;
     }
 
-    const auto vecSize = static_cast<Py_ssize_t>(self->vector.size());
-    Py_ssize_t index = vecSize - 1;
-
+    Py_ssize_t index = -1;
     if (nargs == 1) {
-        index = PyLong_AsSsize_t(args[0]);
+        // convert first, it can call back to python
+        index = PyNumber_AsSsize_t(args[0], PyExc_IndexError);
         if (index == -1 && PyErr_Occurred()) {
             return nullptr;
         }
+    }
 
-        if (index < 0) {
-            index += vecSize;
-        }
-
-        if (index < 0 || index >= vecSize) {
-            PyErr_SetString(PyExc_IndexError, "index out of range");
-            return nullptr;
-        }
-    } else if (nargs > 1) {
-        PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
+    if (self->vector.empty()) {
+        PyErr_SetString(PyExc_IndexError, "pop from empty list");
         return nullptr;
-    } else {
-        const auto popped = self->vector[static_cast<size_t>(index)];
-        self->vector.pop_back();
+    }
 
-        return popped;
+    const auto vecSize = static_cast<Py_ssize_t>(self->vector.size());
+    if (index < 0) {
+        index += vecSize;
+    }
+
+    if (index < 0 || index >= vecSize) {
+        PyErr_SetString(PyExc_IndexError, "index out of range");
+        return nullptr;
     }
 
     const auto popped = self->vector[static_cast<size_t>(index)];
@@ -535,16 +556,19 @@ static int ObjectArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObjec
 
     try {
         if (pyValue == nullptr) {
-            SAFE_DECREF(self->vector[static_cast<size_t>(pyIndex)]);
+            PyObject *oldValue = self->vector[static_cast<size_t>(pyIndex)];
             self->vector.erase(self->vector.begin() + pyIndex);
+            SAFE_DECREF(oldValue);  // a destructor can use this list
         } else {
             PyObject *value = pyValue;
             if (PyErr_Occurred()) {
                 return -1;
             }
 
-            self->vector[static_cast<size_t>(pyIndex)] = value;
+            PyObject *oldValue = self->vector[static_cast<size_t>(pyIndex)];
             Py_INCREF(value);
+            self->vector[static_cast<size_t>(pyIndex)] = value;
+            SAFE_DECREF(oldValue);  // a destructor can use this list
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
@@ -679,20 +703,23 @@ static int ObjectArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
 }
 
 static PyObject *ObjectArrayList_add(PyObject *pySelf, PyObject *pyValue) {
-    if (Py_TYPE(pyValue) == &ObjectArrayListType) {
+    if (PyObject_TypeCheck(pyValue, &ObjectArrayListType)) {
         // fast add -> ObjectArrayList
         auto *value = reinterpret_cast<ObjectArrayList *>(pyValue);
 
-        auto *result = Py_CreateObj<ObjectArrayList>(ObjectArrayListType, pySelf);
+        auto *result = Py_CreateObj<ObjectArrayList>(ObjectArrayListType);
         if (result == nullptr) {
             return PyErr_NoMemory();
         }
 
         try {
-            for (const auto &item: value->vector) {
+            const auto &selfVector = reinterpret_cast<ObjectArrayList *>(pySelf)->vector;
+            result->vector.reserve(selfVector.size() + value->vector.size());
+            result->vector.insert(result->vector.end(), selfVector.begin(), selfVector.end());
+            result->vector.insert(result->vector.end(), value->vector.begin(), value->vector.end());
+            for (const auto &item: result->vector) {
                 Py_INCREF(item);
             }
-            result->vector.insert(result->vector.end(), value->vector.begin(), value->vector.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
             SAFE_DECREF(result);
@@ -718,49 +745,12 @@ static PyObject *ObjectArrayList_add(PyObject *pySelf, PyObject *pyValue) {
 }
 
 static PyObject *ObjectArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
-    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
-
-    // fast extend
-    if (Py_TYPE(iterable) == &ObjectArrayListType) {
-        auto *iter = reinterpret_cast<ObjectArrayList *>(iterable);
-        for (const auto &item: iter->vector) {
-            Py_INCREF(item);
-        }
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        Py_RETURN_NONE;
-    }
-
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
-
-    // pre alloc
-    Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
-    }
-
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        PyObject *value = item;
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
-        }
-
-        self->vector.push_back(value);
-    }
-
-    if (PyErr_Occurred()) {
-        SAFE_DECREF(iter);
+    PyObject *result = ObjectArrayList_extend(pySelf, &iterable, 1);
+    if (result == nullptr) {
         return nullptr;
     }
+    SAFE_DECREF(result);
 
-    SAFE_DECREF(iter);
     Py_INCREF(pySelf);
     return pySelf;
 }
@@ -778,12 +768,16 @@ static PyObject *ObjectArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
         return PyErr_NoMemory();
     }
 
-    if (n == 0) {
+    if (n == 0 || self->vector.empty()) {
         return reinterpret_cast<PyObject *>(result);
     }
 
     try {
         const auto selfSize = self->vector.size();
+        if (static_cast<size_t>(n) > self->vector.max_size() / selfSize) {
+            SAFE_DECREF(result);
+            return PyErr_NoMemory();
+        }
 
         result->vector.reserve(selfSize * n);
         for (Py_ssize_t i = 0; i < n; ++i) {
@@ -824,13 +818,16 @@ static PyObject *ObjectArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
 
     try {
         if (n == 0) {
-            self->vector.clear();
-        } else {
+            ObjectArrayList_clear_items(self);
+        } else if (!self->vector.empty()) {
             const auto selfSize = self->vector.size();
+            if (static_cast<size_t>(n) > self->vector.max_size() / selfSize) {
+                return PyErr_NoMemory();
+            }
 
             self->vector.reserve(selfSize * n);
             for (Py_ssize_t i = 1; i < n; ++i) {
-                for (size_t j = 0; j < self->vector.size(); ++j) {
+                for (size_t j = 0; j < selfSize; ++j) {
                     self->vector.push_back(self->vector[j]);
                     Py_INCREF(self->vector[j]);
                 }
@@ -880,9 +877,7 @@ static PyObject *ObjectArrayList_reversed(PyObject *pySelf) {
 static PyObject *ObjectArrayList_reverse(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    Py_BEGIN_ALLOW_THREADS
-        simd::simdReverse(self->vector.data(), self->vector.size());
-    Py_END_ALLOW_THREADS
+    simd::simdReverse(self->vector.data(), self->vector.size());
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From e13466224d219226b1249c9698ab4d201f017e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 24/60] fix: ObjectArrayList slice assignment handles deletion,
 self assignment and destructors using the list

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 131 ++++++---------------
 1 file changed, 38 insertions(+), 93 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 4e7fe99..207c798 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -588,117 +588,62 @@ static int ObjectArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
 
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    Py_ssize_t start, stop, step, sliceLength;
+    Py_ssize_t start, stop, step;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
-
-    if (!PySequence_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
-        return -1;
-    }
-
-    Py_ssize_t newLength = PySequence_Size(value);
-
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
-    try {
-        PyObject **startPtr = self->vector.data() + start;
+    // collect the new elements first, it can fail, call back to python or read from this list
+    PyObject *elements;
+    if (value == nullptr) {  // del list[start:stop]
+        elements = PyTuple_New(0);
+    } else if (Py_TYPE(value) == &ObjectArrayListType) {
+        elements = ObjectArrayList_to_list(value);
+    } else {
+        elements = PySequence_Fast(value, "can only assign an iterable");
+    }
+    if (elements == nullptr) {
+        return -1;
+    }
 
-        // Helper function to handle fast memcpy and reference counting
-        static const auto fastCopy = [](PyObject **dest, PyObject **src, Py_ssize_t length) {
-            for (Py_ssize_t i = 0; i < length; i++) {
-                SAFE_DECREF(dest[i]);  // Decrease reference for old item
-                Py_INCREF(src[i]);    // Increase reference for new item
-            }
-            fast_memcpy(dest, src, length * sizeof(PyObject *));
-        };
-
-        // Helper function to handle generic copy (non-optimized path)
-        static const auto genericCopy = [](PyObject **dest, PyObject *srcSeq, Py_ssize_t length) {
-            for (Py_ssize_t i = 0; i < length; i++) {
-                PyObject *item = PySequence_GetItem(srcSeq, i);
-                if (item == nullptr) {
-                    return -1;  // Exception already set
-                }
-                SAFE_DECREF(dest[i]);
-                dest[i] = item;
-            }
-            return 0;
-        };
-
-        if (newLength == sliceLength) {  // Case 1: Replace elements
-            if (Py_TYPE(value) == &ObjectArrayListType) {
-                auto *fastValue = reinterpret_cast<ObjectArrayList *>(value);
-                fastCopy(startPtr, fastValue->vector.data(), sliceLength);
-            } else if (Py_TYPE(value) == &PyList_Type) {
-                auto *fastValue = reinterpret_cast<PyListObject *>(value);
-                fastCopy(startPtr, fastValue->ob_item, sliceLength);
-            } else {
-                if (genericCopy(startPtr, value, sliceLength) < 0) {
-                    return -1;
-                }
-            }
-        } else if (newLength < sliceLength) {  // Case 2: Replace and remove extra elements
-            if (Py_TYPE(value) == &ObjectArrayListType) {
-                auto *fastValue = reinterpret_cast<ObjectArrayList *>(value);
-                fastCopy(startPtr, fastValue->vector.data(), newLength);
-            } else if (Py_TYPE(value) == &PyList_Type) {
-                auto *fastValue = reinterpret_cast<PyListObject *>(value);
-                fastCopy(startPtr, fastValue->ob_item, newLength);
-            } else {
-                if (genericCopy(startPtr, value, newLength) < 0) {
-                    return -1;
-                }
-            }
+    PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+    if (stop < start) {
+        stop = start;
+    }
 
-            // Remove extra elements
-            for (Py_ssize_t i = newLength; i < sliceLength; i++) {
-                SAFE_DECREF(startPtr[i]);
-            }
+    std::vector<PyObject *> removed;
+    try {
+        PyObject **items = PySequence_Fast_ITEMS(elements);
+        const auto newLength = PySequence_Fast_GET_SIZE(elements);
+        const auto sliceLength = stop - start;
+        removed.assign(self->vector.begin() + start, self->vector.begin() + stop);
+
+        if (newLength > sliceLength) {  // more elements
+            self->vector.insert(self->vector.begin() + stop, items + sliceLength, items + newLength);
+        } else {  // less elements
             self->vector.erase(self->vector.begin() + start + newLength, self->vector.begin() + stop);
-        } else {  // Case 3: Replace and insert additional elements
-            if (Py_TYPE(value) == &ObjectArrayListType) {
-                auto *fastValue = reinterpret_cast<ObjectArrayList *>(value);
-                fastCopy(startPtr, fastValue->vector.data(), sliceLength);
-                self->vector.insert(
-                        self->vector.begin() + start + sliceLength,
-                        fastValue->vector.data() + sliceLength,
-                        fastValue->vector.data() + newLength
-                );
-            } else if (Py_TYPE(value) == &PyList_Type) {
-                auto *fastValue = reinterpret_cast<PyListObject *>(value);
-                fastCopy(startPtr, fastValue->ob_item, sliceLength);
-                self->vector.insert(
-                        self->vector.begin() + start + sliceLength,
-                        fastValue->ob_item + sliceLength,
-                        fastValue->ob_item + newLength
-                );
-            } else {
-                if (genericCopy(startPtr, value, sliceLength) < 0) {
-                    return -1;
-                }
-
-                // Insert additional elements
-                for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                    PyObject *item = PySequence_GetItem(value, i);
-                    if (item == nullptr) {
-                        return -1;
-                    }
-                    self->vector.insert(self->vector.begin() + start + i, item);
-                }
-            }
+        }
+        std::copy_n(items, std::min(sliceLength, newLength), self->vector.begin() + start);
+        for (Py_ssize_t i = 0; i < newLength; i++) {
+            Py_INCREF(items[i]);
         }
     } catch (const std::exception &e) {
+        SAFE_DECREF(elements);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
 
+    // a destructor can use this list
+    SAFE_DECREF(elements);
+    for (PyObject *item: removed) {
+        SAFE_DECREF(item);
+    }
+
     return 0;
 }
 
-- 
2.43.0


From 9d5b51e2ee56d7297555ab087d50ca0115b20bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 25/60] fix: ObjectArrayList finds elements that compare equal

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 89 +++++++++++-----------
 1 file changed, 46 insertions(+), 43 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 207c798..f9dc4c9 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -347,6 +347,26 @@ static PyObject *ObjectArrayList_pop(PyObject *pySelf, PyObject *const *args, co
     return popped;
 }
 
+/**
+ * Find an element that is the same object or compares equal, the comparison can call back to python.
+ * @return the index, -1 if there is no such element and -2 if the comparison failed.
+ */
+static Py_ssize_t ObjectArrayList_find(ObjectArrayList *self, PyObject *value, Py_ssize_t start, Py_ssize_t stop) {
+    for (Py_ssize_t i = start; i < stop && i < static_cast<Py_ssize_t>(self->vector.size()); ++i) {
+        PyObject *item = self->vector[i];
+        Py_INCREF(item);
+        const int equal = PyObject_RichCompareBool(item, value, Py_EQ);
+        Py_DECREF(item);
+        if (equal < 0) {
+            return -2;
+        }
+        if (equal > 0) {
+            return i;
+        }
+    }
+    return -1;
+}
+
 static PyObject *ObjectArrayList_index(PyObject *pySelf, PyObject *args) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
@@ -377,28 +397,31 @@ static PyObject *ObjectArrayList_index(PyObject *pySelf, PyObject *args) {
         return nullptr;
     }
 
-    auto it = std::find(self->vector.begin() + start, self->vector.begin() + stop, value);
-
-    if (it == self->vector.begin() + stop) {
+    const Py_ssize_t index = ObjectArrayList_find(self, value, start, stop);
+    if (index == -2) {
+        return nullptr;
+    }
+    if (index < 0) {
         PyErr_SetString(PyExc_ValueError, "Value is not in list.");
         return nullptr;
     }
 
-    Py_ssize_t index = std::distance(self->vector.begin(), it);
     return PyLong_FromSsize_t(index);
 }
 
 static PyObject *ObjectArrayList_count(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    try {
-        size_t result = std::count(self->vector.begin(), self->vector.end(), object);
-
-        return PyLong_FromSize_t(result);
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
+    Py_ssize_t result = 0;
+    Py_ssize_t index = -1;
+    while ((index = ObjectArrayList_find(self, object, index + 1, PY_SSIZE_T_MAX)) >= 0) {
+        result++;
+    }
+    if (index == -2) {
         return nullptr;
     }
+
+    return PyLong_FromSsize_t(result);
 }
 
 static PyObject *ObjectArrayList_insert(PyObject *pySelf, PyObject *args) {
@@ -434,27 +457,21 @@ static PyObject *ObjectArrayList_insert(PyObject *pySelf, PyObject *args) {
 static PyObject *ObjectArrayList_remove(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    PyObject *value = object;
-    if (PyErr_Occurred()) {
+    const Py_ssize_t index = ObjectArrayList_find(self, object, 0, PY_SSIZE_T_MAX);
+    if (index == -2) {
         return nullptr;
     }
-
-    try {
-        const auto end = self->vector.end();
-        const auto it = std::find(self->vector.begin(), end, value);
-
-        if (it != end) {
-            self->vector.erase(it);
-            SAFE_DECREF(value);
-        } else {
-            PyErr_SetString(PyExc_ValueError, "Value is not in list.");
-            return nullptr;
-        }
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
+    if (index < 0) {
+        PyErr_SetString(PyExc_ValueError, "Value is not in list.");
         return nullptr;
     }
 
+    if (static_cast<size_t>(index) < self->vector.size()) {  // the comparison can change the list
+        PyObject *removed = self->vector[static_cast<size_t>(index)];
+        self->vector.erase(self->vector.begin() + index);
+        SAFE_DECREF(removed);
+    }
+
     Py_RETURN_NONE;
 }
 
@@ -788,27 +805,13 @@ static PyObject *ObjectArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
 }
 
 static int ObjectArrayList_contains(PyObject *pySelf, PyObject *key) {
-    if (!PyLong_Check(key)) {
-        return 0;
-    }
-
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    PyObject *value = key;
-    if (PyErr_Occurred()) {
-        return -1;
-    }
-
-    try {
-        if (std::find(self->vector.begin(), self->vector.end(), value) != self->vector.end()) {
-            return 1;  // true
-        } else {
-            return 0;  // false
-        }
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
+    const Py_ssize_t index = ObjectArrayList_find(self, key, 0, PY_SSIZE_T_MAX);
+    if (index == -2) {
         return -1;
     }
+    return index >= 0;
 }
 
 static PyObject *ObjectArrayList_reversed(PyObject *pySelf) {
-- 
2.43.0


From a48a290e78b942694984e17ace41f7eca2a5e647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 26/60] fix: ObjectArrayList sort survives changes made by key
 functions and comparisons

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 39 +++++++++++++++++++---
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index f9dc4c9..c9b3829 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -479,17 +479,46 @@ static PyObject *ObjectArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
     PyObject *keyFunc = Py_None;
-    int reverseInt = 0;  // default: false
+    int reverseFlag = 0;  // default: false
     static constexpr const char *kwlist[] = {"key", "reverse", nullptr};
 
-    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Oi", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Op", const_cast<char **>(kwlist), &keyFunc, &reverseFlag)) {
         return nullptr;
     }
 
+    // python code can change the list while we are sorting
+    std::vector<PyObject *> original;
+    std::vector<PyObject *> sorted;
+    try {
+        original = self->vector;
+        sorted = self->vector;
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
+    }
+    for (const auto &item: original) {
+        Py_INCREF(item);
+    }
+
     // do sort
-    return CPython_sort(self->vector.data(),
-                        static_cast<Py_ssize_t>(self->vector.size()),
-                        keyFunc == Py_None ? nullptr : keyFunc, reverseInt);
+    PyObject *result = CPython_sort(sorted.data(),
+                                    static_cast<Py_ssize_t>(sorted.size()),
+                                    keyFunc == Py_None ? nullptr : keyFunc, reverseFlag);
+
+    const bool modified = self->vector != original;
+    if (result != nullptr && !modified) {
+        self->vector.swap(sorted);
+    }
+    for (PyObject *item: original) {
+        SAFE_DECREF(item);
+    }
+
+    if (result != nullptr && modified) {
+        SAFE_DECREF(result);
+        PyErr_SetString(PyExc_ValueError, "list modified during sort");
+        return nullptr;
+    }
+    return result;
 }
 
 static Py_ssize_t ObjectArrayList_len(PyObject *pySelf) {
-- 
2.43.0


From e65438e76893817129fe03b99ba474159cf19cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 27/60] fix: ObjectArrayList comparisons follow list order

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 218 +--------------------
 1 file changed, 1 insertion(+), 217 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index c9b3829..bf92634 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -865,224 +865,8 @@ static PyObject *ObjectArrayList_clear(PyObject *pySelf) {
     Py_RETURN_NONE;
 }
 
-static __forceinline PyObject *ObjectArrayList_eq(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
-
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_FALSE;
-
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
-        Py_RETURN_FALSE;
-
-    for (Py_ssize_t i = 0; i < seq_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr)
-            return nullptr;
-
-        PyObject *self_value = self->vector[i];
-        PyObject *other_value = item;
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_EQ);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-
-        if (cmpResult == 0) {
-            Py_RETURN_FALSE;
-        }
-    }
-
-    Py_RETURN_TRUE;
-}
-
-static __forceinline PyObject *ObjectArrayList_ne(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
-
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_TRUE;
-
-    // compare
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
-        Py_RETURN_TRUE;
-
-    for (Py_ssize_t i = 0; i < seq_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        PyObject *self_value = self->vector[i];
-        PyObject *other_value = item;
-
-        int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_NE);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-
-        if (cmpResult != 0) {
-            Py_RETURN_TRUE;
-        }
-    }
-
-    Py_RETURN_FALSE;
-}
-
-static __forceinline PyObject *ObjectArrayList_lt(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
-
-    for (Py_ssize_t i = 0; i < seqSize; ++i) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_LT);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] < item
-    }
-
-    Py_RETURN_FALSE;
-}
-
-static __forceinline PyObject *ObjectArrayList_le(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
-
-    for (Py_ssize_t i = 0; i < seqSize; ++i) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_LE);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] <= item
-    }
-
-    Py_RETURN_FALSE;
-}
-
-static __forceinline PyObject *ObjectArrayList_gt(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
-
-    for (Py_ssize_t i = 0; i < seqSize; ++i) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_GT);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] > item
-    }
-
-    Py_RETURN_FALSE;
-}
-
-static __forceinline PyObject *ObjectArrayList_ge(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
-
-    for (Py_ssize_t i = 0; i < seqSize; ++i) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_GE);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] >= item
-    }
-
-    Py_RETURN_FALSE;
-}
-
 static PyObject *ObjectArrayList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
-    switch (op) {
-        case Py_EQ:  // ==
-            return ObjectArrayList_eq(pySelf, pyValue);
-        case Py_NE:  // !=
-            return ObjectArrayList_ne(pySelf, pyValue);
-        case Py_LT:  // <
-            return ObjectArrayList_lt(pySelf, pyValue);
-        case Py_LE:  // <=
-            return ObjectArrayList_le(pySelf, pyValue);
-        case Py_GT:  // >
-            return ObjectArrayList_gt(pySelf, pyValue);
-        case Py_GE:  // >=
-            return ObjectArrayList_ge(pySelf, pyValue);
-        default:
-            PyErr_SetString(PyExc_AssertionError, "Invalid comparison operation.");
-            return nullptr;
-    }
+    return PyFast_SequenceCompare(pySelf, pyValue, op);
 }
 
 #ifdef IS_PYTHON_39_OR_LATER
-- 
2.43.0


From df6d9d3d9091846adbdf6a147b8b1dd08ca78a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 28/60] fix: repr of an ObjectArrayList that contains itself or
 changes

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 33 ++++++++++++++--------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index bf92634..d470862 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -884,27 +884,36 @@ static __forceinline PyObject *ObjectArrayList_repr(PyObject *pySelf) {
         return PyUnicode_FromString("[]");
     }
 
-    PyObject *reprList = PyUnicode_FromString("[");
-    if (reprList == nullptr) {
-        return nullptr;
+    const int entered = Py_ReprEnter(pySelf);
+    if (entered != 0) {  // the list contains itself
+        return entered > 0 ? PyUnicode_FromString("[...]") : nullptr;
     }
 
-    // generate string
-    for (size_t i = 0; i < vec.size() - 1; ++i) {
-        PyObject *itemRepr = PyObject_Repr(vec[i]);
+    PyObject *reprList = PyUnicode_FromString("[");
+
+    // generate string, repr of an item can change the list
+    for (size_t i = 0; i < vec.size() && reprList != nullptr; ++i) {
+        if (i > 0) {
+            PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString(", "));
+        }
+
+        PyObject *item = vec[i];
+        Py_INCREF(item);
+        PyObject *itemRepr = PyObject_Repr(item);
+        Py_DECREF(item);
         if (itemRepr == nullptr) {
-            SAFE_DECREF(reprList);
-            return nullptr;
+            Py_CLEAR(reprList);
+            break;
         }
 
         PyUnicode_AppendAndDel(&reprList, itemRepr);
-        PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString(", "));
     }
 
-    PyObject *itemRepr = PyObject_Repr(vec[vec.size() - 1]);
-    PyUnicode_AppendAndDel(&reprList, itemRepr);
-    PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString("]"));
+    if (reprList != nullptr) {
+        PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString("]"));
+    }
 
+    Py_ReprLeave(pySelf);
     return reprList;
 }
 
-- 
2.43.0


From 51c7ec457c25e82ec569e675ab978b0b4abd10a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 29/60] fix: reference cycles through an ObjectArrayList are
 collected

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index d470862..1dba545 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -125,10 +125,25 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
     return 0;
 }
 
+static int ObjectArrayList_traverse(PyObject *pySelf, visitproc visit, void *arg) {
+    for (PyObject *item: reinterpret_cast<ObjectArrayList *>(pySelf)->vector) {
+        Py_VISIT(item);
+    }
+    return 0;
+}
+
+static int ObjectArrayList_gc_clear(PyObject *pySelf) {
+    ObjectArrayList_clear_items(reinterpret_cast<ObjectArrayList *>(pySelf));
+    return 0;
+}
+
 static void ObjectArrayList_dealloc(ObjectArrayList *self) {
+    PyObject_GC_UnTrack(self);
+    Py_TRASHCAN_BEGIN(self, ObjectArrayList_dealloc)
     ObjectArrayList_clear_items(self);
     self->vector.~vector();
     Py_TYPE(self)->tp_free((PyObject *) self);
+    Py_TRASHCAN_END
 }
 
 static PyObject *ObjectArrayList_resize(PyObject *pySelf, PyObject *pySize) {
@@ -974,7 +989,7 @@ void initializeObjectArrayListType(PyTypeObject &type) {
     type.tp_name = "ObjectArrayList";
     type.tp_basicsize = sizeof(ObjectArrayList);
     type.tp_itemsize = 0;
-    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE;
+    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE | Py_TPFLAGS_HAVE_GC;
     type.tp_as_sequence = &ObjectArrayList_asSequence;
     type.tp_as_mapping = &ObjectArrayList_asMapping;
     type.tp_iter = ObjectArrayList_iter;
@@ -983,7 +998,9 @@ void initializeObjectArrayListType(PyTypeObject &type) {
     type.tp_new = ObjectArrayList_new;
     type.tp_dealloc = (destructor) ObjectArrayList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
-    type.tp_free = PyObject_Del;
+    type.tp_free = PyObject_GC_Del;
+    type.tp_traverse = ObjectArrayList_traverse;
+    type.tp_clear = ObjectArrayList_gc_clear;
     type.tp_hash = PyObject_HashNotImplemented;
     type.tp_richcompare = ObjectArrayList_compare;
     type.tp_repr = ObjectArrayList_repr;
-- 
2.43.0


From e9ecdb66ab6c5787539e2f0c86db310d675fd423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 30/60] fix: construct ObjectLinkedList storage in tp_new, own
 the copied references and release them safely

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 42 +++++++++++++++------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 3143c81..4074bf3 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -20,10 +20,27 @@ static PyTypeObject ObjectLinkedListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObject *kwargs) {
+static PyObject *ObjectLinkedList_new(PyTypeObject *type, [[maybe_unused]] PyObject *args,
+                                      [[maybe_unused]] PyObject *kwargs) {
+    auto *self = reinterpret_cast<ObjectLinkedList *>(type->tp_alloc(type, 0));
+    if (self == nullptr) return nullptr;
+
     new(&self->list) std::list<PyObject *>();
     self->modCount = 0;
+    return reinterpret_cast<PyObject *>(self);
+}
 
+static void ObjectLinkedList_clear_items(ObjectLinkedList *self) {
+    // take the items out first, a destructor can use this list
+    std::list<PyObject *> items;
+    items.swap(self->list);
+    self->modCount++;
+    for (PyObject *item: items) {
+        SAFE_DECREF(item);
+    }
+}
+
+static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObject *kwargs) {
     PyObject *pyIterable = nullptr;
 
     static constexpr const char *kwlist[] = {"iterable", nullptr};
@@ -33,12 +50,18 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
         return -1;
     }
 
+    ObjectLinkedList_clear_items(self);
+
     // init list
     try {
         if (pyIterable != nullptr) {
             if (Py_TYPE(pyIterable) == &ObjectLinkedListType) {  // ObjectLinkedList is a final class
                 auto *iter = reinterpret_cast<ObjectLinkedList *>(pyIterable);
                 self->list = iter->list;
+                self->modCount++;
+                for (const auto &item: self->list) {
+                    Py_INCREF(item);
+                }
                 return 0;
             }
 
@@ -52,9 +75,10 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
                 auto items = PySequence_Fast_ITEMS(fastKeys);
                 for (Py_ssize_t i = 0; i < size; ++i) {
                     PyObject *value = items[i];
-                    Py_INCREF(value);
                     self->list.push_back(value);
+                    Py_INCREF(value);
                 }
+                self->modCount++;
                 SAFE_DECREF(fastKeys);
                 return 0;
             }
@@ -68,6 +92,7 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
             PyObject *item;
             while ((item = PyIter_Next(iter)) != nullptr) {
                 self->list.push_back(item);
+                self->modCount++;
             }
             SAFE_DECREF(iter);
             if (PyErr_Occurred()) return -1;
@@ -81,9 +106,7 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
 }
 
 static void ObjectLinkedList_dealloc(ObjectLinkedList *self) {
-    for (PyObject *item: self->list) {
-        SAFE_DECREF(item);
-    }
+    ObjectLinkedList_clear_items(self);
     self->list.~list();
     Py_TYPE(self)->tp_free((PyObject *) self);
 }
@@ -122,7 +145,7 @@ static PyObject *ObjectLinkedList_copy(PyObject *pySelf) {
             Py_INCREF(item);
         }
     } catch (const std::exception &e) {
-        PyObject_Del(copy);
+        Py_DECREF(copy);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
@@ -770,10 +793,7 @@ static PyObject *ObjectLinkedList_reverse(PyObject *pySelf) {
 static PyObject *ObjectLinkedList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    for (auto &item: self->list) {
-        SAFE_DECREF(item);
-    }
-    self->list.clear();
+    ObjectLinkedList_clear_items(self);
     Py_RETURN_NONE;
 }
 
@@ -1105,7 +1125,7 @@ void initializeObjectLinkedListType(PyTypeObject &type) {
     type.tp_iter = ObjectLinkedList_iter;
     type.tp_methods = ObjectLinkedList_methods;
     type.tp_init = (initproc) ObjectLinkedList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = ObjectLinkedList_new;
     type.tp_dealloc = (destructor) ObjectLinkedList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
-- 
2.43.0


From 218bc07054a9e89e6292819ccec6272a92868163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 31/60] fix: ObjectLinkedList pops, replaces and drops items
 without using freed memory and repeats or extends itself correctly

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 141 ++++++++++----------
 1 file changed, 67 insertions(+), 74 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 4074bf3..f46a29e 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -187,11 +187,17 @@ static PyObject *ObjectLinkedList_extend(PyObject *pySelf, PyObject *const *args
     // fast extend
     if (Py_TYPE(iterable) == &ObjectLinkedListType) {
         auto *iter = reinterpret_cast<ObjectLinkedList *>(iterable);
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        for (const auto &item: iter->list) {
-            Py_INCREF(item);
+        try {
+            auto items = iter->list;  // iter may be self
+            for (const auto &item: items) {
+                Py_INCREF(item);
+            }
+            self->list.splice(self->list.end(), items);
+            self->modCount++;
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
         }
-        self->modCount++;
         Py_RETURN_NONE;
     }
 
@@ -204,14 +210,16 @@ static PyObject *ObjectLinkedList_extend(PyObject *pySelf, PyObject *const *args
     // do extend
     PyObject *item;
     while ((item = PyIter_Next(iter)) != nullptr) {
-        if (PyErr_Occurred()) {
+        try {
+            self->list.push_back(item);
+            self->modCount++;
+        } catch (const std::exception &e) {
             SAFE_DECREF(iter);
+            SAFE_DECREF(item);
+            PyErr_SetString(PyExc_RuntimeError, e.what());
             return nullptr;
         }
-
-        self->list.push_back(item);
     }
-    self->modCount++;
 
     if (PyErr_Occurred()) {
         SAFE_DECREF(iter);
@@ -226,42 +234,40 @@ static PyObject *ObjectLinkedList_extend(PyObject *pySelf, PyObject *const *args
 static PyObject *ObjectLinkedList_pop(PyObject *pySelf, PyObject *const *args, const Py_ssize_t nargs) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    if (self->list.empty()) {
-        PyErr_SetString(PyExc_IndexError, "pop from empty list");
+    if (nargs > 1) {
+        PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
         return nullptr;
     }
 
-    const auto vecSize = static_cast<Py_ssize_t>(self->list.size());
-    Py_ssize_t index;
-
+    Py_ssize_t index = -1;
     if (nargs == 1) {
-        index = PyLong_AsSsize_t(args[0]);
+        // convert first, it can call back to python
+        index = PyNumber_AsSsize_t(args[0], PyExc_IndexError);
         if (index == -1 && PyErr_Occurred()) {
             return nullptr;
         }
+    }
 
-        if (index < 0) {
-            index += vecSize;
-        }
+    if (self->list.empty()) {
+        PyErr_SetString(PyExc_IndexError, "pop from empty list");
+        return nullptr;
+    }
 
-        if (index < 0 || index >= vecSize) {
-            PyErr_SetString(PyExc_IndexError, "index out of range");
-            return nullptr;
-        }
-    } else if (nargs > 1) {
-        PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
+    const auto vecSize = static_cast<Py_ssize_t>(self->list.size());
+    if (index < 0) {
+        index += vecSize;
+    }
+
+    if (index < 0 || index >= vecSize) {
+        PyErr_SetString(PyExc_IndexError, "index out of range");
         return nullptr;
-    } else {
-        const auto popped = self->list.back();
-        self->list.pop_back();
-        self->modCount++;
-        return popped;
     }
 
-    auto popped = at(self->list, index);
-    self->list.erase(popped);
+    const auto iter = at(self->list, static_cast<size_t>(index));
+    PyObject *popped = *iter;
+    self->list.erase(iter);
     self->modCount++;
-    return *popped;
+    return popped;
 }
 
 static PyObject *ObjectLinkedList_index(PyObject *pySelf, PyObject *args) {
@@ -507,16 +513,21 @@ static int ObjectLinkedList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObje
     try {
         if (pyValue == nullptr) {
             auto iter = at(self->list, static_cast<size_t>(pyIndex));
-            SAFE_DECREF(*iter);
+            PyObject *oldValue = *iter;
             self->list.erase(iter);
+            self->modCount++;
+            SAFE_DECREF(oldValue);  // a destructor can use this list
         } else {
             PyObject *value = pyValue;
             if (PyErr_Occurred()) {
                 return -1;
             }
 
-            *at(self->list, static_cast<size_t>(pyIndex)) = value;
+            const auto iter = at(self->list, static_cast<size_t>(pyIndex));
+            PyObject *oldValue = *iter;
             Py_INCREF(value);
+            *iter = value;
+            SAFE_DECREF(oldValue);  // a destructor can use this list
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
@@ -596,20 +607,23 @@ static int ObjectLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyO
 }
 
 static PyObject *ObjectLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
-    if (Py_TYPE(pyValue) == &ObjectLinkedListType) {
+    if (PyObject_TypeCheck(pyValue, &ObjectLinkedListType)) {
         // fast add -> ObjectLinkedList
         auto *value = reinterpret_cast<ObjectLinkedList *>(pyValue);
 
-        auto *result = Py_CreateObj<ObjectLinkedList>(ObjectLinkedListType, pySelf);
+        auto *result = Py_CreateObj<ObjectLinkedList>(ObjectLinkedListType);
         if (result == nullptr) {
             return PyErr_NoMemory();
         }
 
         try {
-            for (const auto &item: value->list) {
+            const auto &selfList = reinterpret_cast<ObjectLinkedList *>(pySelf)->list;
+            result->list.insert(result->list.end(), selfList.begin(), selfList.end());
+            auto items = value->list;
+            result->list.splice(result->list.end(), items);
+            for (const auto &item: result->list) {
                 Py_INCREF(item);
             }
-            result->list.insert(result->list.end(), value->list.begin(), value->list.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
             SAFE_DECREF(result);
@@ -635,43 +649,12 @@ static PyObject *ObjectLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
 }
 
 static PyObject *ObjectLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
-
-    // fast extend
-    if (Py_TYPE(iterable) == &ObjectLinkedListType) {
-        auto *iter = reinterpret_cast<ObjectLinkedList *>(iterable);
-        for (const auto &item: iter->list) {
-            Py_INCREF(item);
-        }
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        Py_RETURN_NONE;
-    }
-
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
-
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        PyObject *value = item;
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
-        }
-
-        self->list.push_back(value);
-    }
-
-    if (PyErr_Occurred()) {
-        SAFE_DECREF(iter);
+    PyObject *result = ObjectLinkedList_extend(pySelf, &iterable, 1);
+    if (result == nullptr) {
         return nullptr;
     }
+    SAFE_DECREF(result);
 
-    SAFE_DECREF(iter);
     Py_INCREF(pySelf);
     return pySelf;
 }
@@ -689,11 +672,16 @@ static PyObject *ObjectLinkedList_mul(PyObject *pySelf, Py_ssize_t n) {
         return PyErr_NoMemory();
     }
 
-    if (n == 0) {
+    if (n == 0 || self->list.empty()) {
         return reinterpret_cast<PyObject *>(result);
     }
 
     try {
+        if (static_cast<size_t>(n) > self->list.max_size() / self->list.size()) {
+            SAFE_DECREF(result);
+            return PyErr_NoMemory();
+        }
+
         for (Py_ssize_t i = 0; i < n; ++i) {
             for (const auto obj: self->list) {
                 result->list.push_back(obj);
@@ -732,14 +720,19 @@ static PyObject *ObjectLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
 
     try {
         if (n == 0) {
-            self->list.clear();
-        } else {
+            ObjectLinkedList_clear_items(self);
+        } else if (!self->list.empty()) {
             const auto size = self->list.size();
+            if (static_cast<size_t>(n) > self->list.max_size() / size) {
+                return PyErr_NoMemory();
+            }
+
             for (Py_ssize_t i = 1; i < n; ++i) {
                 auto iter = self->list.begin();
                 for (size_t j = 0; j < size; ++j, ++iter) {
                     self->list.push_back(*iter);
                     Py_INCREF(*iter);
+                    self->modCount++;
                 }
             }
         }
-- 
2.43.0


From 54c5152b30d011de003f1ce546e8e72d0153ebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 32/60] fix: ObjectLinkedList slice assignment handles
 deletion, self assignment and destructors using the list

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 94 ++++++++++++---------
 1 file changed, 52 insertions(+), 42 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index f46a29e..d442e5f 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -488,10 +488,6 @@ static PyObject *ObjectLinkedList_getitem_slice(PyObject *pySelf, PyObject *slic
         Py_ssize_t index = start + i * step;
         PyObject *item = *at(self->list, static_cast<size_t>(index));
         Py_INCREF(item);
-        if (item == nullptr) {
-            SAFE_DECREF(result);
-            return nullptr;
-        }
         PyList_SET_ITEM(result, i, item);
     }
     return result;
@@ -548,60 +544,74 @@ static int ObjectLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyO
 
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    Py_ssize_t start, stop, step, sliceLength;
+    Py_ssize_t start, stop, step;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
-
-    if (!PySequence_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
+    if (value == nullptr && step != 1) {
+        PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice deletion");
         return -1;
     }
 
-    Py_ssize_t newLength = PySequence_Size(value);
-    if (newLength < 0) {
+    // collect the new elements first, it can fail, call back to python or read from this list
+    PyObject *elements;
+    if (value == nullptr) {  // del list[start:stop]
+        elements = PyTuple_New(0);
+    } else if (Py_TYPE(value) == &ObjectLinkedListType) {
+        elements = ObjectLinkedList_to_list(value);
+    } else {
+        elements = PySequence_Fast(value, "can only assign an iterable");
+    }
+    if (elements == nullptr) {
         return -1;
     }
 
-    PyObject *item = nullptr;
-    try {
-        if (newLength < sliceLength) {
-            auto iter = at(self->list, static_cast<size_t>(start + newLength * step));
-            for (Py_ssize_t i = newLength; i < sliceLength; i++) {
-                SAFE_DECREF(*iter);
-                iter = self->list.erase(iter);
-            }
-        } else if (newLength > sliceLength) {
-            auto iter = at(self->list, static_cast<size_t>(stop));
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-                iter = self->list.insert(iter, item);
-                ++iter;
-            }
-        }
+    const auto sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
+    PyObject **items = PySequence_Fast_ITEMS(elements);
+    const auto newLength = PySequence_Fast_GET_SIZE(elements);
 
-        for (Py_ssize_t i = 0; i < newLength; i++) {
-            Py_ssize_t index = start + i * step;
-            auto iter = at(self->list, static_cast<size_t>(index));
-
-            item = PySequence_GetItem(value, i);
-            if (item == nullptr) {
-                return -1;
-            }
+    if (step != 1 && newLength != sliceLength) {
+        PyErr_Format(PyExc_ValueError,
+                     "attempt to assign sequence of size %zd to extended slice of size %zd",
+                     newLength, sliceLength);
+        SAFE_DECREF(elements);
+        return -1;
+    }
 
-            SAFE_DECREF(*iter);
-            *iter = item;
-        }
+    std::list<PyObject *> added;
+    std::list<PyObject *> removed;
+    try {
+        added.assign(items, items + newLength);
     } catch (const std::exception &e) {
-        SAFE_DECREF(item);
+        SAFE_DECREF(elements);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
+    for (PyObject *item: added) {
+        Py_INCREF(item);
+    }
+
+    if (step == 1) {
+        const auto first = at(self->list, static_cast<size_t>(start));
+        const auto last = std::next(first, sliceLength);
+        removed.splice(removed.end(), self->list, first, last);
+        self->list.splice(last, added);
+    } else {
+        Py_ssize_t index = start;
+        for (auto &item: added) {
+            std::swap(item, *at(self->list, static_cast<size_t>(index)));
+            index += step;
+        }
+        removed.swap(added);
+    }
+    self->modCount++;
+
+    // a destructor can use this list
+    SAFE_DECREF(elements);
+    for (PyObject *item: removed) {
+        SAFE_DECREF(item);
+    }
 
     return 0;
 }
-- 
2.43.0


From a2c3f7bdfefdde8fd24b4450610a5d1467644f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 33/60] fix: ObjectLinkedList finds elements that compare equal

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 106 ++++++++++++--------
 1 file changed, 65 insertions(+), 41 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index d442e5f..7de194f 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -270,6 +270,33 @@ static PyObject *ObjectLinkedList_pop(PyObject *pySelf, PyObject *const *args, c
     return popped;
 }
 
+/**
+ * Find an element that is the same object or compares equal, the comparison can call back to python.
+ * @return the index, -1 if there is no such element and -2 if the comparison failed.
+ */
+static Py_ssize_t ObjectLinkedList_find(ObjectLinkedList *self, PyObject *value, Py_ssize_t start, Py_ssize_t stop) {
+    auto iter = at(self->list, static_cast<size_t>(start));
+    auto modCount = self->modCount;
+    for (Py_ssize_t i = start; i < stop && i < static_cast<Py_ssize_t>(self->list.size()); ++i) {
+        if (modCount != self->modCount) {
+            iter = at(self->list, static_cast<size_t>(i));
+            modCount = self->modCount;
+        }
+
+        PyObject *item = *iter++;
+        Py_INCREF(item);
+        const int equal = PyObject_RichCompareBool(item, value, Py_EQ);
+        Py_DECREF(item);
+        if (equal < 0) {
+            return -2;
+        }
+        if (equal > 0) {
+            return i;
+        }
+    }
+    return -1;
+}
+
 static PyObject *ObjectLinkedList_index(PyObject *pySelf, PyObject *args) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
@@ -300,29 +327,41 @@ static PyObject *ObjectLinkedList_index(PyObject *pySelf, PyObject *args) {
         return nullptr;
     }
 
-    auto stopIter = at(self->list, stop);
-    auto it = std::find(at(self->list, start), stopIter, value);
-
-    if (it == stopIter) {
+    const Py_ssize_t index = ObjectLinkedList_find(self, value, start, stop);
+    if (index == -2) {
+        return nullptr;
+    }
+    if (index < 0) {
         PyErr_SetString(PyExc_ValueError, "Value is not in list.");
         return nullptr;
     }
 
-    Py_ssize_t index = std::distance(self->list.begin(), it);
     return PyLong_FromSsize_t(index);
 }
 
 static PyObject *ObjectLinkedList_count(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    try {
-        size_t result = std::count(self->list.begin(), self->list.end(), object);
+    Py_ssize_t result = 0;
+    auto iter = self->list.begin();
+    auto modCount = self->modCount;
+    for (size_t i = 0; i < self->list.size(); ++i) {
+        if (modCount != self->modCount) {
+            iter = at(self->list, i);
+            modCount = self->modCount;
+        }
 
-        return PyLong_FromSize_t(result);
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
-        return nullptr;
+        PyObject *item = *iter++;
+        Py_INCREF(item);
+        const int equal = PyObject_RichCompareBool(item, object, Py_EQ);
+        Py_DECREF(item);
+        if (equal < 0) {
+            return nullptr;
+        }
+        result += equal;
     }
+
+    return PyLong_FromSsize_t(result);
 }
 
 static PyObject *ObjectLinkedList_insert(PyObject *pySelf, PyObject *args) {
@@ -359,27 +398,23 @@ static PyObject *ObjectLinkedList_insert(PyObject *pySelf, PyObject *args) {
 static PyObject *ObjectLinkedList_remove(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    PyObject *value = object;
-    if (PyErr_Occurred()) {
+    const Py_ssize_t index = ObjectLinkedList_find(self, object, 0, PY_SSIZE_T_MAX);
+    if (index == -2) {
         return nullptr;
     }
-
-    try {
-        auto it = std::find(self->list.begin(), self->list.end(), value);
-
-        if (it != self->list.end()) {
-            self->list.erase(it);
-            SAFE_DECREF(value);
-            self->modCount++;
-        } else {
-            PyErr_SetString(PyExc_ValueError, "Value is not in list.");
-            return nullptr;
-        }
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
+    if (index < 0) {
+        PyErr_SetString(PyExc_ValueError, "Value is not in list.");
         return nullptr;
     }
 
+    const auto iter = at(self->list, static_cast<size_t>(index));
+    if (iter != self->list.end()) {  // the comparison can change the list
+        PyObject *removed = *iter;
+        self->list.erase(iter);
+        self->modCount++;
+        SAFE_DECREF(removed);
+    }
+
     Py_RETURN_NONE;
 }
 
@@ -756,24 +791,13 @@ static PyObject *ObjectLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
 }
 
 static int ObjectLinkedList_contains(PyObject *pySelf, PyObject *key) {
-    if (!PyLong_Check(key)) {
-        return 0;
-    }
-
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    PyObject *value = key;
-
-    try {
-        if (std::find(self->list.begin(), self->list.end(), value) != self->list.end()) {
-            return 1;  // true
-        } else {
-            return 0;  // false
-        }
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
+    const Py_ssize_t index = ObjectLinkedList_find(self, key, 0, PY_SSIZE_T_MAX);
+    if (index == -2) {
         return -1;
     }
+    return index >= 0;
 }
 
 static PyObject *ObjectLinkedList_reversed(PyObject *pySelf) {
-- 
2.43.0


From 254376301f075916c3cdf398b23b3d61124c33c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 34/60] fix: ObjectLinkedList sort reports errors and survives
 changes made by key functions and comparisons

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 54 ++++++++++++---------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 7de194f..748cd6c 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -4,6 +4,7 @@
 
 #include "ObjectLinkedList.h"
 #include <list>
+#include <vector>
 #include <algorithm>
 #include <stdexcept>
 #include "utils/PythonUtils.h"
@@ -422,39 +423,48 @@ static PyObject *ObjectLinkedList_sort(PyObject *pySelf, PyObject *args, PyObjec
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
     PyObject *keyFunc = Py_None;
-    int reverseInt = 0;  // default: false
+    int reverseFlag = 0;  // default: false
     static constexpr const char *kwlist[] = {"key", "reverse", nullptr};
 
-    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Oi", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Op", const_cast<char **>(kwlist), &keyFunc, &reverseFlag)) {
         return nullptr;
     }
 
     // costs extra memory
-    const auto vecSize = self->list.size();
-    auto **pyData = static_cast<PyObject **>(PyMem_Malloc(sizeof(PyObject *) * vecSize));
-    if (pyData == nullptr) {
-        PyErr_NoMemory();
+    // python code can change the list while we are sorting
+    std::vector<PyObject *> original;
+    std::vector<PyObject *> sorted;
+    try {
+        original.assign(self->list.begin(), self->list.end());
+        sorted = original;
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
-
-    auto iter = self->list.begin();
-    for (size_t i = 0; i < vecSize; ++i, ++iter) {
-        pyData[i] = *iter;
+    for (const auto &item: original) {
+        Py_INCREF(item);
     }
 
-    CPython_sort(pyData,
-                 static_cast<Py_ssize_t>(vecSize),
-                 keyFunc == Py_None ? nullptr : keyFunc, reverseInt);
+    // do sort
+    PyObject *result = CPython_sort(sorted.data(),
+                                    static_cast<Py_ssize_t>(sorted.size()),
+                                    keyFunc == Py_None ? nullptr : keyFunc, reverseFlag);
 
-    iter = self->list.begin();
-    for (size_t i = 0; i < vecSize; ++i, ++iter) {
-        *iter = pyData[i];
+    const bool modified = !std::equal(self->list.begin(), self->list.end(), original.begin(), original.end());
+    if (result != nullptr && !modified) {
+        std::copy(sorted.begin(), sorted.end(), self->list.begin());
+        self->modCount++;
+    }
+    for (PyObject *item: original) {
+        SAFE_DECREF(item);
     }
 
-    PyMem_FREE(pyData);
-    self->modCount++;
-
-    Py_RETURN_NONE;
+    if (result != nullptr && modified) {
+        SAFE_DECREF(result);
+        PyErr_SetString(PyExc_ValueError, "list modified during sort");
+        return nullptr;
+    }
+    return result;
 }
 
 static Py_ssize_t ObjectLinkedList_len(PyObject *pySelf) {
@@ -811,9 +821,7 @@ static PyObject *ObjectLinkedList_reversed(PyObject *pySelf) {
 static PyObject *ObjectLinkedList_reverse(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    Py_BEGIN_ALLOW_THREADS
-        std::reverse(self->list.begin(), self->list.end());
-    Py_END_ALLOW_THREADS
+    std::reverse(self->list.begin(), self->list.end());
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From ced7a5769cbd4652973d9bac148975fdcbbe34b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 35/60] fix: ObjectLinkedList comparisons follow list order

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 230 ++------------------
 1 file changed, 13 insertions(+), 217 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 748cd6c..795d8dc 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -832,230 +832,26 @@ static PyObject *ObjectLinkedList_clear(PyObject *pySelf) {
     Py_RETURN_NONE;
 }
 
-static __forceinline PyObject *ObjectLinkedList_eq(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_FALSE;
-
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    if (seq_size != static_cast<Py_ssize_t>(self->list.size()))
-        Py_RETURN_FALSE;
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seq_size; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr)
-            return nullptr;
-
-        PyObject *self_value = *iter;
-        PyObject *other_value = item;
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_EQ);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-
-        if (cmpResult == 0) {
-            Py_RETURN_FALSE;
-        }
-    }
-
-    Py_RETURN_TRUE;
-}
-
-static __forceinline PyObject *ObjectLinkedList_ne(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_TRUE;
-
-    // compare
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    if (seq_size != static_cast<Py_ssize_t>(self->list.size()))
-        Py_RETURN_TRUE;
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seq_size; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        PyObject *self_value = *iter;
-        PyObject *other_value = item;
-
-        int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_NE);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-
-        if (cmpResult != 0) {
-            Py_RETURN_TRUE;
-        }
-    }
-
-    Py_RETURN_FALSE;
-}
-
-static __forceinline PyObject *ObjectLinkedList_lt(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_LT);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] < item
-    }
-
-    Py_RETURN_FALSE;
-}
-
-static __forceinline PyObject *ObjectLinkedList_le(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_LE);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] <= item
-    }
-
-    Py_RETURN_FALSE;
-}
-
-static __forceinline PyObject *ObjectLinkedList_gt(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_GT);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] > item
-    }
-
-    Py_RETURN_FALSE;
-}
-
-static __forceinline PyObject *ObjectLinkedList_ge(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
+static PyObject *ObjectLinkedList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
+    // random access to a linked list is slow
+    PyObject *selfList = ObjectLinkedList_to_list(pySelf);
+    if (selfList == nullptr) {
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_GE);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
+    PyObject *valueList = nullptr;
+    if (PyObject_TypeCheck(pyValue, &ObjectLinkedListType)) {
+        valueList = ObjectLinkedList_to_list(pyValue);
+        if (valueList == nullptr) {
+            SAFE_DECREF(selfList);
             return nullptr;
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] >= item
     }
 
-    Py_RETURN_FALSE;
-}
-
-static PyObject *ObjectLinkedList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
-    switch (op) {
-        case Py_EQ:  // ==
-            return ObjectLinkedList_eq(pySelf, pyValue);
-        case Py_NE:  // !=
-            return ObjectLinkedList_ne(pySelf, pyValue);
-        case Py_LT:  // <
-            return ObjectLinkedList_lt(pySelf, pyValue);
-        case Py_LE:  // <=
-            return ObjectLinkedList_le(pySelf, pyValue);
-        case Py_GT:  // >
-            return ObjectLinkedList_gt(pySelf, pyValue);
-        case Py_GE:  // >=
-            return ObjectLinkedList_ge(pySelf, pyValue);
-        default:
-            PyErr_SetString(PyExc_AssertionError, "Invalid comparison operation.");
-            return nullptr;
-    }
+    PyObject *result = PyFast_SequenceCompare(selfList, valueList != nullptr ? valueList : pyValue, op);
+    SAFE_DECREF(selfList);
+    Py_XDECREF(valueList);
+    return result;
 }
 
 #ifdef IS_PYTHON_39_OR_LATER
-- 
2.43.0


From 000b0f8fd9c412c2498f38b4e01166d2a33b51b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 36/60] fix: repr of an ObjectLinkedList that contains itself
 or changes

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 39 ++++++++++++++-------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 795d8dc..181f744 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -869,28 +869,43 @@ static __forceinline PyObject *ObjectLinkedList_repr(PyObject *pySelf) {
         return PyUnicode_FromString("[]");
     }
 
-    PyObject *reprList = PyUnicode_FromString("[");
-    if (reprList == nullptr) {
-        return nullptr;
+    const int entered = Py_ReprEnter(pySelf);
+    if (entered != 0) {  // the list contains itself
+        return entered > 0 ? PyUnicode_FromString("[...]") : nullptr;
     }
 
-    // generate string
+    PyObject *reprList = PyUnicode_FromString("[");
+
+    // generate string, repr of an item can change the list
     auto iter = self->list.begin();
-    for (size_t i = 0; i < vec.size() - 1; ++i, ++iter) {
-        PyObject *itemRepr = PyObject_Repr(*iter);
+    auto modCount = self->modCount;
+    for (size_t i = 0; i < vec.size() && reprList != nullptr; ++i) {
+        if (modCount != self->modCount) {
+            iter = at(self->list, i);
+            modCount = self->modCount;
+        }
+
+        if (i > 0) {
+            PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString(", "));
+        }
+
+        PyObject *item = *iter++;
+        Py_INCREF(item);
+        PyObject *itemRepr = PyObject_Repr(item);
+        Py_DECREF(item);
         if (itemRepr == nullptr) {
-            SAFE_DECREF(reprList);
-            return nullptr;
+            Py_CLEAR(reprList);
+            break;
         }
 
         PyUnicode_AppendAndDel(&reprList, itemRepr);
-        PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString(", "));
     }
 
-    PyObject *itemRepr = PyObject_Repr(vec.back());
-    PyUnicode_AppendAndDel(&reprList, itemRepr);
-    PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString("]"));
+    if (reprList != nullptr) {
+        PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString("]"));
+    }
 
+    Py_ReprLeave(pySelf);
     return reprList;
 }
 
-- 
2.43.0


From 05afd9eea5813c97a67fd7b1b621fa56914cee4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 37/60] fix: reference cycles through an ObjectLinkedList are
 collected

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 181f744..6a05e5c 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -106,10 +106,25 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
     return 0;
 }
 
+static int ObjectLinkedList_traverse(PyObject *pySelf, visitproc visit, void *arg) {
+    for (PyObject *item: reinterpret_cast<ObjectLinkedList *>(pySelf)->list) {
+        Py_VISIT(item);
+    }
+    return 0;
+}
+
+static int ObjectLinkedList_gc_clear(PyObject *pySelf) {
+    ObjectLinkedList_clear_items(reinterpret_cast<ObjectLinkedList *>(pySelf));
+    return 0;
+}
+
 static void ObjectLinkedList_dealloc(ObjectLinkedList *self) {
+    PyObject_GC_UnTrack(self);
+    Py_TRASHCAN_BEGIN(self, ObjectLinkedList_dealloc)
     ObjectLinkedList_clear_items(self);
     self->list.~list();
     Py_TYPE(self)->tp_free((PyObject *) self);
+    Py_TRASHCAN_END
 }
 
 static PyObject *ObjectLinkedList_to_list(PyObject *pySelf) {
@@ -965,7 +980,7 @@ void initializeObjectLinkedListType(PyTypeObject &type) {
     type.tp_name = "ObjectLinkedList";
     type.tp_basicsize = sizeof(ObjectLinkedList);
     type.tp_itemsize = 0;
-    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE;
+    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE | Py_TPFLAGS_HAVE_GC;
     type.tp_as_sequence = &ObjectLinkedList_asSequence;
     type.tp_as_mapping = &ObjectLinkedList_asMapping;
     type.tp_iter = ObjectLinkedList_iter;
@@ -974,7 +989,9 @@ void initializeObjectLinkedListType(PyTypeObject &type) {
     type.tp_new = ObjectLinkedList_new;
     type.tp_dealloc = (destructor) ObjectLinkedList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
-    type.tp_free = PyObject_Del;
+    type.tp_free = PyObject_GC_Del;
+    type.tp_traverse = ObjectLinkedList_traverse;
+    type.tp_clear = ObjectLinkedList_gc_clear;
     type.tp_hash = PyObject_HashNotImplemented;
     type.tp_richcompare = ObjectLinkedList_compare;
     type.tp_repr = ObjectLinkedList_repr;
-- 
2.43.0


From b0f6568e978dc4ed7069010f34ce945575bc35bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 38/60] fix: reference cycles through object list iterators are
 collected

---
 pyfastutil/src/objects/ObjectArrayListIter.cpp  | 14 +++++++++++---
 pyfastutil/src/objects/ObjectLinkedListIter.cpp | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayListIter.cpp b/pyfastutil/src/objects/ObjectArrayListIter.cpp
index 3bf4604..4b1f01e 100644
--- a/pyfastutil/src/objects/ObjectArrayListIter.cpp
+++ b/pyfastutil/src/objects/ObjectArrayListIter.cpp
@@ -12,7 +12,7 @@ static PyTypeObject ObjectArrayListIterType = {
 };
 
 ObjectArrayListIter *ObjectArrayListIter_create(ObjectArrayList *list, bool reversed) {
-    auto *instance = Py_CreateObjNoInit<ObjectArrayListIter>(ObjectArrayListIterType);
+    auto *instance = PyObject_GC_New(ObjectArrayListIter, &ObjectArrayListIterType);
     if (instance == nullptr) return nullptr;
 
     Py_INCREF(list);
@@ -25,10 +25,17 @@ ObjectArrayListIter *ObjectArrayListIter_create(ObjectArrayList *list, bool reve
         instance->reversed = false;
     }
 
+    PyObject_GC_Track(instance);
     return instance;
 }
 
+static int ObjectArrayListIter_traverse(PyObject *pySelf, visitproc visit, void *arg) {
+    Py_VISIT(reinterpret_cast<ObjectArrayListIter *>(pySelf)->container);
+    return 0;
+}
+
 static void ObjectArrayListIter_dealloc(ObjectArrayListIter *self) {
+    PyObject_GC_UnTrack(self);
     SAFE_DECREF(self->container);
     Py_TYPE(self)->tp_free((PyObject *) self);
 }
@@ -75,13 +82,14 @@ void initializeObjectArrayListIterType(PyTypeObject &type) {
     type.tp_name = "ObjectArrayListIter";
     type.tp_basicsize = sizeof(ObjectArrayListIter);
     type.tp_itemsize = 0;
-    type.tp_flags = Py_TPFLAGS_DEFAULT;
+    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_HAVE_GC;
     type.tp_iter = ObjectArrayListIter_iter;
     type.tp_iternext = ObjectArrayListIter_next;
     type.tp_methods = ObjectArrayListIter_methods;
     type.tp_dealloc = (destructor) ObjectArrayListIter_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
-    type.tp_free = PyObject_Del;
+    type.tp_free = PyObject_GC_Del;
+    type.tp_traverse = ObjectArrayListIter_traverse;
 }
 
 #pragma clang diagnostic push
diff --git a/pyfastutil/src/objects/ObjectLinkedListIter.cpp b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
index 29c71b8..931b60a 100644
--- a/pyfastutil/src/objects/ObjectLinkedListIter.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
@@ -13,7 +13,7 @@ static PyTypeObject ObjectLinkedListIterType = {
 };
 
 ObjectLinkedListIter *ObjectLinkedListIter_create(ObjectLinkedList *list, bool reversed) {
-    auto *instance = Py_CreateObjNoInit<ObjectLinkedListIter>(ObjectLinkedListIterType);
+    auto *instance = PyObject_GC_New(ObjectLinkedListIter, &ObjectLinkedListIterType);
     if (instance == nullptr) return nullptr;
 
     Py_INCREF(list);
@@ -29,10 +29,17 @@ ObjectLinkedListIter *ObjectLinkedListIter_create(ObjectLinkedList *list, bool r
     }
     instance->cacheModCount = list->modCount;
 
+    PyObject_GC_Track(instance);
     return instance;
 }
 
+static int ObjectLinkedListIter_traverse(PyObject *pySelf, visitproc visit, void *arg) {
+    Py_VISIT(reinterpret_cast<ObjectLinkedListIter *>(pySelf)->container);
+    return 0;
+}
+
 static void ObjectLinkedListIter_dealloc(ObjectLinkedListIter *self) {
+    PyObject_GC_UnTrack(self);
     SAFE_DECREF(self->container);
     Py_TYPE(self)->tp_free((PyObject *) self);
 }
@@ -91,13 +98,14 @@ void initializeObjectLinkedListIterType(PyTypeObject &type) {
     type.tp_name = "ObjectLinkedListIter";
     type.tp_basicsize = sizeof(ObjectLinkedListIter);
     type.tp_itemsize = 0;
-    type.tp_flags = Py_TPFLAGS_DEFAULT;
+    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_HAVE_GC;
     type.tp_iter = ObjectLinkedListIter_iter;
     type.tp_iternext = ObjectLinkedListIter_next;
     type.tp_methods = ObjectLinkedListIter_methods;
     type.tp_dealloc = (destructor) ObjectLinkedListIter_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
-    type.tp_free = PyObject_Del;
+    type.tp_free = PyObject_GC_Del;
+    type.tp_traverse = ObjectLinkedListIter_traverse;
 }
 
 #pragma clang diagnostic push
-- 
2.43.0


From 8f672ca34aa4062a61f3c7a486b1687659710237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 39/60] fix: aligned allocations whose size is not a multiple
 of the alignment

---
 pyfastutil/src/utils/memory/AlignedAllocator.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyfastutil/src/utils/memory/AlignedAllocator.h b/pyfastutil/src/utils/memory/AlignedAllocator.h
index 0004a11..0fe9b07 100644
--- a/pyfastutil/src/utils/memory/AlignedAllocator.h
+++ b/pyfastutil/src/utils/memory/AlignedAllocator.h
@@ -14,12 +14,11 @@ __forceinline void *alignedAlloc(const size_t &n, const size_t &alignment) {
 
 #ifdef _WIN32
     ptr = _aligned_malloc(n, alignment);
-#elif defined(__APPLE__)
-    if (posix_memalign(&ptr, alignment, n) != 0) {
+#else
+    // the size doesn't have to be a multiple of the alignment, std::aligned_alloc requires it
+    if (posix_memalign(&ptr, alignment < sizeof(void *) ? sizeof(void *) : alignment, n) != 0) {
         ptr = nullptr;
     }
-#else
-    ptr = std::aligned_alloc(alignment, n);
 #endif
 
 
-- 
2.43.0


From 89914da3cf4b2d11bc36c4591c1e3a6be6b278d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 40/60] fix: Unsafe memory calls reject arguments out of range
 and realloc to zero bytes keeps a block

---
 pyfastutil/src/unsafe/Unsafe.cpp | 46 ++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index 1794475..d90380f 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -14,6 +14,23 @@ static PyTypeObject UnsafeType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
+// "K" masks negative and too big numbers
+static int Unsafe_parseSize(PyObject *object, void *result) {
+    PyObject *index = PyNumber_Index(object);
+    if (index == nullptr) {
+        return 0;
+    }
+
+    const size_t value = PyLong_AsSize_t(index);
+    Py_DECREF(index);
+    if (value == static_cast<size_t>(-1) && PyErr_Occurred()) {
+        return 0;
+    }
+
+    *static_cast<size_t *>(result) = value;
+    return 1;
+}
+
 static int Unsafe_init([[maybe_unused]] Unsafe *self,
                        [[maybe_unused]] PyObject *args, [[maybe_unused]] PyObject *kwargs) {
     return 0;
@@ -49,7 +66,7 @@ static PyObject *Unsafe_malloc([[maybe_unused]] PyObject *self, PyObject *pySize
 
 static PyObject *Unsafe_calloc([[maybe_unused]] PyObject *self, PyObject *args) {
     size_t num, size;
-    if (!PyArg_ParseTuple(args, "KK", &num, &size)) {
+    if (!PyArg_ParseTuple(args, "O&O&", Unsafe_parseSize, &num, Unsafe_parseSize, &size)) {
         return nullptr;
     }
 
@@ -64,11 +81,12 @@ static PyObject *Unsafe_calloc([[maybe_unused]] PyObject *self, PyObject *args)
 static PyObject *Unsafe_realloc([[maybe_unused]] PyObject *self, PyObject *args) {
     uintptr_t address;
     size_t newSize;
-    if (!PyArg_ParseTuple(args, "KK", &address, &newSize)) {
+    if (!PyArg_ParseTuple(args, "O&O&", Unsafe_parseSize, &address, Unsafe_parseSize, &newSize)) {
         return nullptr;
     }
 
-    void *ptr = realloc(reinterpret_cast<void *>(address), newSize);
+    // realloc(ptr, 0) frees the memory and returns nullptr
+    void *ptr = realloc(reinterpret_cast<void *>(address), newSize == 0 ? 1 : newSize);
     if (ptr == nullptr) {
         PyErr_SetString(PyExc_MemoryError, "Failed to realloc memory.");
         return nullptr;
@@ -89,10 +107,11 @@ static PyObject *Unsafe_free([[maybe_unused]] PyObject *self, PyObject *pyAddres
 static PyObject *Unsafe_alignedMalloc([[maybe_unused]] PyObject *self, PyObject *args) {
     size_t size;
     size_t alignment;
-    if (!PyArg_ParseTuple(args, "KK", &size, &alignment)) {
+    if (!PyArg_ParseTuple(args, "O&O&", Unsafe_parseSize, &size, Unsafe_parseSize, &alignment)) {
         return nullptr;
     }
-    if (PyErr_Occurred()) {
+    if (alignment == 0 || (alignment & (alignment - 1)) != 0) {
+        PyErr_SetString(PyExc_ValueError, "Alignment must be a power of two.");
         return nullptr;
     }
 
@@ -116,20 +135,25 @@ static PyObject *Unsafe_alignedFree([[maybe_unused]] PyObject *self, PyObject *p
 
 static PyObject *Unsafe_get([[maybe_unused]] PyObject *self, PyObject *args) {
     uintptr_t address;
-    Py_ssize_t size;
-    if (!PyArg_ParseTuple(args, "KK", &address, &size)) {
+    size_t size;
+    if (!PyArg_ParseTuple(args, "O&O&", Unsafe_parseSize, &address, Unsafe_parseSize, &size)) {
+        return nullptr;
+    }
+
+    if (size > static_cast<size_t>(PY_SSIZE_T_MAX)) {
+        PyErr_SetString(PyExc_OverflowError, "Size is too large.");
         return nullptr;
     }
 
     char *ptr = reinterpret_cast<char *>(address);
-    return PyBytes_FromStringAndSize(ptr, size);
+    return PyBytes_FromStringAndSize(ptr, static_cast<Py_ssize_t>(size));
 }
 
 static PyObject *Unsafe_set([[maybe_unused]] PyObject *self, PyObject *args) {
     size_t address;
     PyObject *pyBytes;
 
-    if (!PyArg_ParseTuple(args, "KO", &address, &pyBytes)) {
+    if (!PyArg_ParseTuple(args, "O&O", Unsafe_parseSize, &address, &pyBytes)) {
         return nullptr;
     }
 
@@ -145,7 +169,7 @@ static PyObject *Unsafe_set([[maybe_unused]] PyObject *self, PyObject *args) {
     }
 
     const Py_ssize_t pySize = PyBytes_Size(pyBytes);
-    if (pySize == -1 || pySize > SIZE_MAX) {
+    if (pySize == -1) {
         PyErr_SetString(PyExc_TypeError, "Invalid bytes.");
         return nullptr;
     }
@@ -282,7 +306,7 @@ static PyObject *Unsafe_memset([[maybe_unused]] PyObject *self, PyObject *const
 
     // Extract arguments
     void *address = PyLong_AsVoidPtr(args[0]);
-    int val = PyLong_AsLong(args[1]);
+    int val = static_cast<int>(PyLong_AsUnsignedLongMask(args[1]));
     size_t size = PyLong_AsSize_t(args[2]);
 
     // Check for conversion errors
-- 
2.43.0


From c0658e5dfeac42bb083a38e7703cc46a57b90cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 41/60] fix: Unsafe.as_object returns its own reference and
 reports a NULL address

---
 pyfastutil/src/unsafe/Unsafe.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index d90380f..6df6995 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -271,7 +271,16 @@ static PyObject *Unsafe_getAddress([[maybe_unused]] PyObject *self, PyObject *py
 }
 
 static PyObject *Unsafe_as_object([[maybe_unused]] PyObject *self, PyObject *pyAddress) {
-    return reinterpret_cast<PyObject *>(PyLong_AsVoidPtr(pyAddress));
+    auto *object = static_cast<PyObject *>(PyLong_AsVoidPtr(pyAddress));
+    if (object == nullptr) {
+        if (!PyErr_Occurred()) {
+            PyErr_SetString(PyExc_ValueError, "Address must not be NULL.");
+        }
+        return nullptr;
+    }
+
+    Py_INCREF(object);
+    return object;
 }
 
 static PyObject *Unsafe_memcpy([[maybe_unused]] PyObject *self, PyObject *const *args, Py_ssize_t nargs) {
-- 
2.43.0


From f038fd90b51a0231c97fec19c79f19bd71b61466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 42/60] fix: Unsafe.call stores return values larger than 8
 bytes on System V

---
 pyfastutil/src/unsafe/Unsafe.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index 6df6995..1719ae1 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -251,6 +251,19 @@ static PyObject *Unsafe_call([[maybe_unused]] PyObject *__restrict self,
         Py_RETURN_NONE;
     }
 
+#if defined(__x86_64__) && !defined(_WIN32)
+    // System V: up to 16 bytes are returned in two registers, the caller provides the memory for more
+    if (size > 16) {
+        ((void *(*)(void *)) func)(result);
+        Py_RETURN_NONE;
+    }
+    if (size > 8) {
+        struct { int64_t low, high; } pair = ((decltype(pair) (*)()) func)();
+        fast_memcpy(result, &pair, size);
+        Py_RETURN_NONE;
+    }
+#endif
+
 #if defined(WINDOWS64) || defined(__x86_64__) || defined(__x86_64) || defined(__ppc64__)
     int64_t buffer = ((int64_t(*)()) func)();
 #else
-- 
2.43.0


From a605786535b7e6fe026982f5802e3be17414920a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 43/60] fix: Unsafe.fgets returns an empty string at the end
 and does not leak, fputs writes the whole string

---
 pyfastutil/src/unsafe/Unsafe.cpp | 45 +++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index 1719ae1..f744bf3 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -4,6 +4,8 @@
 
 #include "Unsafe.h"
 #include "mutex"
+#include <climits>
+#include <string>
 #include "utils/memory/AlignedAllocator.h"
 #include "utils/memory/FastMemcpy.h"
 #include "utils/PythonUtils.h"
@@ -361,12 +363,13 @@ static PyObject *Unsafe_fputs([[maybe_unused]] PyObject *pySelf, PyObject *pyStr
         return nullptr;
     }
 
-    const char *str = PyUnicode_AsUTF8(pyStr);
+    Py_ssize_t size;
+    const char *str = PyUnicode_AsUTF8AndSize(pyStr, &size);
     if (str == nullptr) {
         return nullptr;
     }
 
-    fputs(str, stdout);
+    fwrite(str, 1, static_cast<size_t>(size), stdout);  // the string can contain null characters
 
     Py_RETURN_NONE;
 }
@@ -383,20 +386,48 @@ static PyObject *Unsafe_fgets([[maybe_unused]] PyObject *pySelf, PyObject *pyBuf
         return nullptr;
     }
 
-    int bufferSize = (int) PyLong_AsLong(pyBufferSize);
-    if (bufferSize <= 0) {
+    const long bufferSize = PyLong_AsLong(pyBufferSize);
+    if (bufferSize <= 0 || bufferSize > INT_MAX) {
         PyErr_SetString(PyExc_ValueError, "Buffer size must be positive.");
         return nullptr;
     }
 
-    char *buffer = new char[bufferSize];
+    std::string buffer;
+    try {
+        while (static_cast<long>(buffer.size()) < bufferSize - 1) {
+            const int c = getc(stdin);
+            if (c == EOF) {
+                break;
+            }
+            buffer.push_back(static_cast<char>(c));
+            if (c == '\n') {
+                break;
+            }
+        }
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_MemoryError, e.what());
+        return nullptr;
+    }
 
-    if (fgets(buffer, bufferSize, stdin) == nullptr) {
+    if (buffer.empty() && ferror(stdin)) {
         PyErr_SetString(PyExc_RuntimeError, "Error reading from stdin.");
         return nullptr;
     }
 
-    return Py_BuildValue("s", buffer);
+    // a character that is cut by the end of the buffer is left for the next call
+    const auto size = static_cast<Py_ssize_t>(buffer.size());
+    Py_ssize_t consumed = size;
+    PyObject *result = PyUnicode_DecodeUTF8Stateful(buffer.data(), size, nullptr, feof(stdin) ? nullptr : &consumed);
+    for (Py_ssize_t i = size; i > consumed; --i) {
+        ungetc(static_cast<unsigned char>(buffer[i - 1]), stdin);
+    }
+
+    if (result != nullptr && consumed == 0 && size > 0) {
+        Py_DECREF(result);
+        PyErr_SetString(PyExc_ValueError, "Buffer size is too small for the next character.");
+        return nullptr;
+    }
+    return result;
 }
 
 static PyMethodDef Unsafe_methods[] = {
-- 
2.43.0


From 86daedefed85ac7610ea1c1575bdfc4d87987375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 44/60] fix: AVX-512 float setters read ints as documented
 instead of garbage

---
 pyfastutil/src/unsafe/SIMDLowAVX512.cpp | 74 +++++++++++++------------
 scripts/GenerateAVX512Bindings.py       |  4 +-
 2 files changed, 42 insertions(+), 36 deletions(-)

diff --git a/pyfastutil/src/unsafe/SIMDLowAVX512.cpp b/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
index ecbc2a6..ea4f45e 100644
--- a/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
+++ b/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
@@ -239,14 +239,15 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set_pd_impl([[maybe_unused]]
         return nullptr;
     }
 
-    double arg1 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
-    double arg2 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 2));
-    double arg3 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 3));
-    double arg4 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 4));
-    double arg5 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 5));
-    double arg6 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 6));
-    double arg7 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 7));
-    double arg8 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 8));
+    double arg1 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    double arg2 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 2));
+    double arg3 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 3));
+    double arg4 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 4));
+    double arg5 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 5));
+    double arg6 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 6));
+    double arg7 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 7));
+    double arg8 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 8));
+    if (PyErr_Occurred()) return nullptr;
 
     *((__m512d *) PyLong_AsVoidPtr(*args)) = _mm512_set_pd((double) arg1, (double) arg2, (double) arg3, (double) arg4, (double) arg5, (double) arg6, (double) arg7, (double) arg8);
 
@@ -264,22 +265,23 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set_ps_impl([[maybe_unused]]
         return nullptr;
     }
 
-    float arg1 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
-    float arg2 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 2));
-    float arg3 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 3));
-    float arg4 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 4));
-    float arg5 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 5));
-    float arg6 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 6));
-    float arg7 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 7));
-    float arg8 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 8));
-    float arg9 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 9));
-    float arg10 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 10));
-    float arg11 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 11));
-    float arg12 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 12));
-    float arg13 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 13));
-    float arg14 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 14));
-    float arg15 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 15));
-    float arg16 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 16));
+    float arg1 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    float arg2 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 2));
+    float arg3 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 3));
+    float arg4 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 4));
+    float arg5 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 5));
+    float arg6 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 6));
+    float arg7 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 7));
+    float arg8 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 8));
+    float arg9 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 9));
+    float arg10 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 10));
+    float arg11 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 11));
+    float arg12 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 12));
+    float arg13 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 13));
+    float arg14 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 14));
+    float arg15 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 15));
+    float arg16 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 16));
+    if (PyErr_Occurred()) return nullptr;
 
     *((__m512 *) PyLong_AsVoidPtr(*args)) = _mm512_set_ps((float) arg1, (float) arg2, (float) arg3, (float) arg4, (float) arg5, (float) arg6, (float) arg7, (float) arg8, (float) arg9, (float) arg10, (float) arg11, (float) arg12, (float) arg13, (float) arg14, (float) arg15, (float) arg16);
 
@@ -384,7 +386,8 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set1_pd_impl([[maybe_unused]
         return nullptr;
     }
 
-    double arg1 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
+    double arg1 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    if (PyErr_Occurred()) return nullptr;
 
     *((__m512d *) PyLong_AsVoidPtr(*args)) = _mm512_set1_pd((double) arg1);
 
@@ -402,7 +405,8 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set1_ps_impl([[maybe_unused]
         return nullptr;
     }
 
-    float arg1 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
+    float arg1 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    if (PyErr_Occurred()) return nullptr;
 
     *((__m512 *) PyLong_AsVoidPtr(*args)) = _mm512_set1_ps((float) arg1);
 
@@ -451,10 +455,11 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set4_pd_impl([[maybe_unused]
         return nullptr;
     }
 
-    double arg1 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
-    double arg2 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 2));
-    double arg3 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 3));
-    double arg4 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 4));
+    double arg1 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    double arg2 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 2));
+    double arg3 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 3));
+    double arg4 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 4));
+    if (PyErr_Occurred()) return nullptr;
 
     *((__m512d *) PyLong_AsVoidPtr(*args)) = _mm512_set4_pd((double) arg1, (double) arg2, (double) arg3, (double) arg4);
 
@@ -472,10 +477,11 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set4_ps_impl([[maybe_unused]
         return nullptr;
     }
 
-    float arg1 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
-    float arg2 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 2));
-    float arg3 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 3));
-    float arg4 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 4));
+    float arg1 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    float arg2 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 2));
+    float arg3 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 3));
+    float arg4 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 4));
+    if (PyErr_Occurred()) return nullptr;
 
     *((__m512 *) PyLong_AsVoidPtr(*args)) = _mm512_set4_ps((float) arg1, (float) arg2, (float) arg3, (float) arg4);
 
diff --git a/scripts/GenerateAVX512Bindings.py b/scripts/GenerateAVX512Bindings.py
index 47d4869..0ec1ec5 100644
--- a/scripts/GenerateAVX512Bindings.py
+++ b/scripts/GenerateAVX512Bindings.py
@@ -506,9 +506,9 @@ def getArgParseData(argType: str, argId: int) -> tuple[str, bool]:
         case "unsigned":
             convert = f"(unsigned int) PyLong_AsUnsignedLong(*(((PyObject **) args) + {argId}))"
         case "float":
-            convert = f"(float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + {argId}))"
+            convert = f"(float) PyFloat_AsDouble(*(((PyObject **) args) + {argId}))"
         case "double":
-            convert = f"PyFloat_AS_DOUBLE(*(((PyObject **) args) + {argId}))"
+            convert = f"PyFloat_AsDouble(*(((PyObject **) args) + {argId}))"
         case "long":
             convert = f"PyLong_AsLong(*(((PyObject **) args) + {argId}))"
         case "long long":
-- 
2.43.0


From bb36d0bba995ac670a1a8b30fcbcb50e3d66c0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:04 +0000
Subject: [PATCH 45/60] fix: AVX-512 needs the operating system to enable the
 ZMM state

---
 pyfastutil/src/utils/simd/SIMDHelper.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/utils/simd/SIMDHelper.cpp b/pyfastutil/src/utils/simd/SIMDHelper.cpp
index 98960df..cf3afd9 100644
--- a/pyfastutil/src/utils/simd/SIMDHelper.cpp
+++ b/pyfastutil/src/utils/simd/SIMDHelper.cpp
@@ -7,6 +7,9 @@
 // Helper function to check OS support for AVX (via XGETBV)
 bool osSupportsAVX();
 
+// Helper function to check OS support for AVX-512 (via XGETBV)
+bool osSupportsAVX512();
+
 // Function to check if AVX2 is supported
 bool isAVX2Supported();
 
@@ -44,6 +47,11 @@ bool osSupportsAVX() {
     return (xcrFeatureMask & 0x6) == 0x6;
 }
 
+bool osSupportsAVX512() {
+    // Opmask (bit 5), upper ZMM0-15 (bit 6) and ZMM16-31 (bit 7) state must be enabled by OS too
+    return osSupportsAVX() && (_xgetbv(0) & 0xE6) == 0xE6;
+}
+
 bool isAVX2Supported() {
     int cpuInfo[4];
 
@@ -77,7 +85,7 @@ bool isAVX512Supported() {
     }
 
     // Check OS support for AVX using XGETBV
-    if (!osSupportsAVX()) {
+    if (!osSupportsAVX512()) {
         return false; // OS does not support AVX
     }
 
@@ -146,6 +154,18 @@ bool osSupportsAVX() {
 #endif
 }
 
+bool osSupportsAVX512() {
+    if (!osSupportsAVX()) {
+        return false;
+    }
+#if defined(__GNUC__) && (__GNUC__ >= 8)
+    // Opmask (bit 5), upper ZMM0-15 (bit 6) and ZMM16-31 (bit 7) state must be enabled by OS too
+    return (__builtin_ia32_xgetbv(0) & 0xE6) == 0xE6;
+#else
+    return true;
+#endif
+}
+
 bool isAVX2Supported() {
     unsigned int eax, ebx, ecx, edx;
 
@@ -188,7 +208,7 @@ bool isAVX512Supported() {
     }
 
     // Check OS support for AVX using XGETBV
-    if (!osSupportsAVX()) {
+    if (!osSupportsAVX512()) {
         return false; // OS does not support AVX
     }
 
-- 
2.43.0


From 3714ade622b650fb8834151e0238f96c56872219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 46/60] fix: ready the types at import, so that attribute
 lookup on a fresh instance works

---
 pyfastutil/src/ints/BigIntArrayList.cpp         | 2 ++
 pyfastutil/src/ints/BigIntArrayListIter.cpp     | 2 ++
 pyfastutil/src/ints/IntArrayList.cpp            | 2 ++
 pyfastutil/src/ints/IntArrayListIter.cpp        | 2 ++
 pyfastutil/src/ints/IntLinkedList.cpp           | 2 ++
 pyfastutil/src/ints/IntLinkedListIter.cpp       | 2 ++
 pyfastutil/src/objects/ObjectArrayList.cpp      | 2 ++
 pyfastutil/src/objects/ObjectArrayListIter.cpp  | 2 ++
 pyfastutil/src/objects/ObjectLinkedList.cpp     | 2 ++
 pyfastutil/src/objects/ObjectLinkedListIter.cpp | 2 ++
 pyfastutil/src/unsafe/ASM.cpp                   | 2 ++
 pyfastutil/src/unsafe/SIMD.cpp                  | 2 ++
 pyfastutil/src/unsafe/SIMDLowAVX512.cpp         | 2 ++
 pyfastutil/src/unsafe/Unsafe.cpp                | 2 ++
 scripts/GenerateAVX512Bindings.py               | 2 ++
 15 files changed, 30 insertions(+)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 914ccb6..b2f716b 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -1228,6 +1228,8 @@ void initializeBigIntArrayListType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_BigIntArrayList() {
     initializeBigIntArrayListType(BigIntArrayListType);
+    if (PyType_Ready(&BigIntArrayListType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&BigIntArrayList_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/BigIntArrayListIter.cpp b/pyfastutil/src/ints/BigIntArrayListIter.cpp
index 370bc00..ca86fa0 100644
--- a/pyfastutil/src/ints/BigIntArrayListIter.cpp
+++ b/pyfastutil/src/ints/BigIntArrayListIter.cpp
@@ -87,6 +87,8 @@ void initializeBigIntArrayListIterType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_BigIntArrayListIter() {
     initializeBigIntArrayListIterType(BigIntArrayListIterType);
+    if (PyType_Ready(&BigIntArrayListIterType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&BigIntArrayListIter_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 7e47099..873d1fe 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -1232,6 +1232,8 @@ void initializeIntArrayListType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_IntArrayList() {
     initializeIntArrayListType(IntArrayListType);
+    if (PyType_Ready(&IntArrayListType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&IntArrayList_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/IntArrayListIter.cpp b/pyfastutil/src/ints/IntArrayListIter.cpp
index fb78226..0e2d3e7 100644
--- a/pyfastutil/src/ints/IntArrayListIter.cpp
+++ b/pyfastutil/src/ints/IntArrayListIter.cpp
@@ -87,6 +87,8 @@ void initializeIntArrayListIterType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_IntArrayListIter() {
     initializeIntArrayListIterType(IntArrayListIterType);
+    if (PyType_Ready(&IntArrayListIterType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&IntArrayListIter_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 4f80bbf..48f92b6 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -985,6 +985,8 @@ void initializeIntLinkedListType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_IntLinkedList() {
     initializeIntLinkedListType(IntLinkedListType);
+    if (PyType_Ready(&IntLinkedListType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&IntLinkedList_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/IntLinkedListIter.cpp b/pyfastutil/src/ints/IntLinkedListIter.cpp
index 0370f89..41c704e 100644
--- a/pyfastutil/src/ints/IntLinkedListIter.cpp
+++ b/pyfastutil/src/ints/IntLinkedListIter.cpp
@@ -103,6 +103,8 @@ void initializeIntLinkedListIterType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_IntLinkedListIter() {
     initializeIntLinkedListIterType(IntLinkedListIterType);
+    if (PyType_Ready(&IntLinkedListIterType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&IntLinkedListIter_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 1dba545..09aceaf 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -1011,6 +1011,8 @@ void initializeObjectArrayListType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_ObjectArrayList() {
     initializeObjectArrayListType(ObjectArrayListType);
+    if (PyType_Ready(&ObjectArrayListType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&ObjectArrayList_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/objects/ObjectArrayListIter.cpp b/pyfastutil/src/objects/ObjectArrayListIter.cpp
index 4b1f01e..14bef80 100644
--- a/pyfastutil/src/objects/ObjectArrayListIter.cpp
+++ b/pyfastutil/src/objects/ObjectArrayListIter.cpp
@@ -96,6 +96,8 @@ void initializeObjectArrayListIterType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_ObjectArrayListIter() {
     initializeObjectArrayListIterType(ObjectArrayListIterType);
+    if (PyType_Ready(&ObjectArrayListIterType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&ObjectArrayListIter_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 6a05e5c..ff64f5f 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -1002,6 +1002,8 @@ void initializeObjectLinkedListType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_ObjectLinkedList() {
     initializeObjectLinkedListType(ObjectLinkedListType);
+    if (PyType_Ready(&ObjectLinkedListType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&ObjectLinkedList_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/objects/ObjectLinkedListIter.cpp b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
index 931b60a..84587fe 100644
--- a/pyfastutil/src/objects/ObjectLinkedListIter.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
@@ -112,6 +112,8 @@ void initializeObjectLinkedListIterType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_ObjectLinkedListIter() {
     initializeObjectLinkedListIterType(ObjectLinkedListIterType);
+    if (PyType_Ready(&ObjectLinkedListIterType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&ObjectLinkedListIter_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/unsafe/ASM.cpp b/pyfastutil/src/unsafe/ASM.cpp
index ac06646..98cfa86 100644
--- a/pyfastutil/src/unsafe/ASM.cpp
+++ b/pyfastutil/src/unsafe/ASM.cpp
@@ -356,6 +356,8 @@ static struct PyModuleDef ASM_module = {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_ASM() {
     initializeASMType(ASMType);
+    if (PyType_Ready(&ASMType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&ASM_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/unsafe/SIMD.cpp b/pyfastutil/src/unsafe/SIMD.cpp
index 901ccfb..100beba 100644
--- a/pyfastutil/src/unsafe/SIMD.cpp
+++ b/pyfastutil/src/unsafe/SIMD.cpp
@@ -453,6 +453,8 @@ static struct PyModuleDef SIMD_module = {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_SIMD() {
     initializeSIMDType(SIMDType);
+    if (PyType_Ready(&SIMDType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&SIMD_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/unsafe/SIMDLowAVX512.cpp b/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
index ea4f45e..08a5921 100644
--- a/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
+++ b/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
@@ -35669,6 +35669,8 @@ static struct PyModuleDef SIMDLowAVX512_module = {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_SIMDLowAVX512() {
     initializeSIMDLowAVX512Type(SIMDLowAVX512Type);
+    if (PyType_Ready(&SIMDLowAVX512Type) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&SIMDLowAVX512_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index f744bf3..d191803 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -484,6 +484,8 @@ static struct PyModuleDef Unsafe_module = {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_Unsafe() {
     initializeUnsafeType(UnsafeType);
+    if (PyType_Ready(&UnsafeType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&Unsafe_module);
     if (object == nullptr)
diff --git a/scripts/GenerateAVX512Bindings.py b/scripts/GenerateAVX512Bindings.py
index 0ec1ec5..1433d46 100644
--- a/scripts/GenerateAVX512Bindings.py
+++ b/scripts/GenerateAVX512Bindings.py
@@ -242,6 +242,8 @@ static struct PyModuleDef SIMDLowAVX512_module = {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_SIMDLowAVX512() {
     initializeSIMDLowAVX512Type(SIMDLowAVX512Type);
+    if (PyType_Ready(&SIMDLowAVX512Type) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&SIMDLowAVX512_module);
     if (object == nullptr)
-- 
2.43.0


From e5ea3a29ce390238fb9a4be2f6f70e27bae2ac7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 47/60] fix: keep the halves of 16-byte elements in place when
 reversing with AVX2

---
 pyfastutil/src/utils/include/qreverse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/utils/include/qreverse.hpp b/pyfastutil/src/utils/include/qreverse.hpp
index a522d11..a30d352 100644
--- a/pyfastutil/src/utils/include/qreverse.hpp
+++ b/pyfastutil/src/utils/include/qreverse.hpp
@@ -888,8 +888,8 @@ inline void qReverse<16>(void *Array, std::size_t Count) {
                     reinterpret_cast<__m256i *>(&Array128[Count - i - 2])
             );
 
-            Lower = _mm256_permute4x64_epi64(Lower, _MM_SHUFFLE(0, 1, 2, 3));
-            Upper = _mm256_permute4x64_epi64(Upper, _MM_SHUFFLE(0, 1, 2, 3));
+            Lower = _mm256_permute4x64_epi64(Lower, _MM_SHUFFLE(1, 0, 3, 2));
+            Upper = _mm256_permute4x64_epi64(Upper, _MM_SHUFFLE(1, 0, 3, 2));
 
             // Place them at their swapped position
             _mm256_storeu_si256(
-- 
2.43.0


From 47e51e42e7de334d7e987608d8e155596afcc2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 48/60] fix: list subscripts that are neither integers nor
 slices raise TypeError

PySlice_Unpack was called with whatever was passed, so L['a'], L['a'] = x and
del L['a'] read the object as if it were a slice and crashed.
---
 pyfastutil/src/ints/BigIntArrayList.cpp     | 12 ++++++++++++
 pyfastutil/src/ints/IntArrayList.cpp        | 12 ++++++++++++
 pyfastutil/src/ints/IntLinkedList.cpp       | 12 ++++++++++++
 pyfastutil/src/objects/ObjectArrayList.cpp  | 12 ++++++++++++
 pyfastutil/src/objects/ObjectLinkedList.cpp | 12 ++++++++++++
 5 files changed, 60 insertions(+)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index b2f716b..e7638be 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -628,6 +628,12 @@ static PyObject *BigIntArrayList_getitem_slice(PyObject *pySelf, PyObject *slice
 
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s",
+                     Py_TYPE(slice)->tp_name);
+        return nullptr;
+    }
+
     Py_ssize_t start, stop, step, sliceLength;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return nullptr;
@@ -702,6 +708,12 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
 
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s",
+                     Py_TYPE(slice)->tp_name);
+        return -1;
+    }
+
     Py_ssize_t start, stop, step;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return -1;
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 873d1fe..3f8b11a 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -632,6 +632,12 @@ static PyObject *IntArrayList_getitem_slice(PyObject *pySelf, PyObject *slice) {
 
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s",
+                     Py_TYPE(slice)->tp_name);
+        return nullptr;
+    }
+
     Py_ssize_t start, stop, step, sliceLength;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return nullptr;
@@ -706,6 +712,12 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
 
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s",
+                     Py_TYPE(slice)->tp_name);
+        return -1;
+    }
+
     Py_ssize_t start, stop, step;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return -1;
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 48f92b6..8e42acf 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -536,6 +536,12 @@ static PyObject *IntLinkedList_getitem_slice(PyObject *pySelf, PyObject *slice)
 
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s",
+                     Py_TYPE(slice)->tp_name);
+        return nullptr;
+    }
+
     Py_ssize_t start, stop, step, sliceLength;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return nullptr;
@@ -609,6 +615,12 @@ static int IntLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObje
 
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s",
+                     Py_TYPE(slice)->tp_name);
+        return -1;
+    }
+
     Py_ssize_t start, stop, step;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return -1;
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 09aceaf..8cd1926 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -581,6 +581,12 @@ static PyObject *ObjectArrayList_getitem_slice(PyObject *pySelf, PyObject *slice
 
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s",
+                     Py_TYPE(slice)->tp_name);
+        return nullptr;
+    }
+
     Py_ssize_t start, stop, step, sliceLength;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return nullptr;
@@ -649,6 +655,12 @@ static int ObjectArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
 
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s",
+                     Py_TYPE(slice)->tp_name);
+        return -1;
+    }
+
     Py_ssize_t start, stop, step;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return -1;
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index ff64f5f..e676fd3 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -532,6 +532,12 @@ static PyObject *ObjectLinkedList_getitem_slice(PyObject *pySelf, PyObject *slic
 
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s",
+                     Py_TYPE(slice)->tp_name);
+        return nullptr;
+    }
+
     Py_ssize_t start, stop, step, sliceLength;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return nullptr;
@@ -604,6 +610,12 @@ static int ObjectLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyO
 
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s",
+                     Py_TYPE(slice)->tp_name);
+        return -1;
+    }
+
     Py_ssize_t start, stop, step;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return -1;
-- 
2.43.0


From d81971b4f14ae2c9f11d2b5e6c4fdf428fe71c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 49/60] fix: a subclass list extended with itself grows once

Only the exact type took the path that is safe for the list itself, an instance of
a subclass iterated over itself while appending and never ended.
---
 pyfastutil/src/ints/BigIntArrayList.cpp     | 2 +-
 pyfastutil/src/ints/IntArrayList.cpp        | 2 +-
 pyfastutil/src/ints/IntLinkedList.cpp       | 2 +-
 pyfastutil/src/objects/ObjectArrayList.cpp  | 2 +-
 pyfastutil/src/objects/ObjectLinkedList.cpp | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index e7638be..3d68d36 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -277,7 +277,7 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
     PyObject *iterable = args[0];
 
     // fast extend
-    if (Py_TYPE(iterable) == &BigIntArrayListType) {
+    if (iterable == pySelf || Py_TYPE(iterable) == &BigIntArrayListType) {
         auto *iter = reinterpret_cast<BigIntArrayList *>(iterable);
         if (!iter->vector.empty() && !BigIntArrayList_resizable(self)) {
             return nullptr;
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 3f8b11a..29b712b 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -286,7 +286,7 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
     PyObject *iterable = args[0];
 
     // fast extend
-    if (Py_TYPE(iterable) == &IntArrayListType) {
+    if (iterable == pySelf || Py_TYPE(iterable) == &IntArrayListType) {
         auto *iter = reinterpret_cast<IntArrayList *>(iterable);
         if (!iter->vector.empty() && !IntArrayList_resizable(self)) {
             return nullptr;
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 8e42acf..7b5c73e 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -213,7 +213,7 @@ static PyObject *IntLinkedList_extend(PyObject *pySelf, PyObject *const *args, c
     PyObject *iterable = args[0];
 
     // fast extend
-    if (Py_TYPE(iterable) == &IntLinkedListType) {
+    if (iterable == pySelf || Py_TYPE(iterable) == &IntLinkedListType) {
         auto *iter = reinterpret_cast<IntLinkedList *>(iterable);
         try {
             auto elements = iter->list;  // iter may be self
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 8cd1926..3a7f117 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -251,7 +251,7 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
     PyObject *iterable = args[0];
 
     // fast extend
-    if (Py_TYPE(iterable) == &ObjectArrayListType) {
+    if (iterable == pySelf || Py_TYPE(iterable) == &ObjectArrayListType) {
         auto *iter = reinterpret_cast<ObjectArrayList *>(iterable);
         try {
             const auto items = iter->vector;  // iter may be self
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index e676fd3..08e6eeb 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -201,7 +201,7 @@ static PyObject *ObjectLinkedList_extend(PyObject *pySelf, PyObject *const *args
     PyObject *iterable = args[0];
 
     // fast extend
-    if (Py_TYPE(iterable) == &ObjectLinkedListType) {
+    if (iterable == pySelf || Py_TYPE(iterable) == &ObjectLinkedListType) {
         auto *iter = reinterpret_cast<ObjectLinkedList *>(iterable);
         try {
             auto items = iter->list;  // iter may be self
-- 
2.43.0


From 002b3a6dfef8313fff6addc355ce0ee84807b71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 50/60] fix: pop keeps the element when its Python integer
 cannot be created

The element was erased first, a failing allocation then lost it.
---
 pyfastutil/src/ints/BigIntArrayList.cpp | 7 +++++--
 pyfastutil/src/ints/IntArrayList.cpp    | 7 +++++--
 pyfastutil/src/ints/IntLinkedList.cpp   | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 3d68d36..eabee5a 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -385,10 +385,13 @@ static PyObject *BigIntArrayList_pop(PyObject *pySelf, PyObject *const *args, co
         return nullptr;
     }
 
-    const auto popped = self->vector[static_cast<size_t>(index)];
+    PyObject *popped = PyLong_FromLongLong(self->vector[static_cast<size_t>(index)]);
+    if (popped == nullptr) {
+        return nullptr;
+    }
     self->vector.erase(self->vector.begin() + index);
 
-    return PyLong_FromLongLong(popped);
+    return popped;
 }
 
 static PyObject *BigIntArrayList_index(PyObject *pySelf, PyObject *args) {
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 29b712b..5389a8f 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -394,10 +394,13 @@ static PyObject *IntArrayList_pop(PyObject *pySelf, PyObject *const *args, const
         return nullptr;
     }
 
-    const auto popped = self->vector[static_cast<size_t>(index)];
+    PyObject *popped = PyFast_FromInt(self->vector[static_cast<size_t>(index)]);
+    if (popped == nullptr) {
+        return nullptr;
+    }
     self->vector.erase(self->vector.begin() + index);
 
-    return PyFast_FromInt(popped);
+    return popped;
 }
 
 static PyObject *IntArrayList_index(PyObject *pySelf, PyObject *args) {
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 7b5c73e..83009c3 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -296,10 +296,13 @@ static PyObject *IntLinkedList_pop(PyObject *pySelf, PyObject *const *args, cons
     }
 
     auto iter = at(self->list, index);
-    const auto popped = *iter;
+    PyObject *popped = PyFast_FromInt(*iter);
+    if (popped == nullptr) {
+        return nullptr;
+    }
     self->list.erase(iter);
     self->modCount++;
-    return PyFast_FromInt(popped);
+    return popped;
 }
 
 static PyObject *IntLinkedList_index(PyObject *pySelf, PyObject *args) {
-- 
2.43.0


From 0e4633724d5372d9a172bdb2b806d5720ddf11f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 51/60] fix: repr of an integer list raises when out of memory

std::bad_alloc escaped into the interpreter and ended the process.
---
 pyfastutil/src/ints/BigIntArrayList.cpp | 37 +++++++++++++----------
 pyfastutil/src/ints/IntArrayList.cpp    | 37 +++++++++++++----------
 pyfastutil/src/ints/IntLinkedList.cpp   | 39 ++++++++++++++-----------
 3 files changed, 64 insertions(+), 49 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index eabee5a..4123d42 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -1106,26 +1106,31 @@ static __forceinline PyObject *BigIntArrayList_repr(PyObject *pySelf) {
         return PyUnicode_FromString("[]");
     }
 
-    size_t size = vec.size();
-    auto str = std::string("[");
-    str.reserve(size * 4);
-
-    char buffer[32];
+    try {
+        size_t size = vec.size();
+        auto str = std::string("[");
+        str.reserve(size * 4);
+
+        char buffer[32];
+
+        const size_t lastIdx = size - 1;
+        for (size_t i = 0; i < lastIdx; ++i) {
+            // to string
+            int len = snprintf(buffer, sizeof(buffer), "%lld", vec[i]);
+            str.append(buffer, len);
+            str += ", ";
+        }
 
-    const size_t lastIdx = size - 1;
-    for (size_t i = 0; i < lastIdx; ++i) {
-        // to string
-        int len = snprintf(buffer, sizeof(buffer), "%lld", vec[i]);
+        int len = snprintf(buffer, sizeof(buffer), "%lld", vec[lastIdx]);
         str.append(buffer, len);
-        str += ", ";
-    }
-
-    int len = snprintf(buffer, sizeof(buffer), "%lld", vec[lastIdx]);
-    str.append(buffer, len);
 
-    str += "]";
+        str += "]";
 
-    return PyUnicode_FromString(str.c_str());
+        return PyUnicode_FromString(str.c_str());
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
+    }
 }
 
 static PyObject *BigIntArrayList_str(PyObject *pySelf) {
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 5389a8f..5dd1685 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -1110,26 +1110,31 @@ static __forceinline PyObject *IntArrayList_repr(PyObject *pySelf) {
         return PyUnicode_FromString("[]");
     }
 
-    size_t size = vec.size();
-    auto str = std::string("[");
-    str.reserve(size * 4);
-
-    char buffer[32];
+    try {
+        size_t size = vec.size();
+        auto str = std::string("[");
+        str.reserve(size * 4);
+
+        char buffer[32];
+
+        const size_t lastIdx = size - 1;
+        for (size_t i = 0; i < lastIdx; ++i) {
+            // to string
+            int len = snprintf(buffer, sizeof(buffer), "%d", vec[i]);
+            str.append(buffer, len);
+            str += ", ";
+        }
 
-    const size_t lastIdx = size - 1;
-    for (size_t i = 0; i < lastIdx; ++i) {
-        // to string
-        int len = snprintf(buffer, sizeof(buffer), "%d", vec[i]);
+        int len = snprintf(buffer, sizeof(buffer), "%d", vec[lastIdx]);
         str.append(buffer, len);
-        str += ", ";
-    }
-
-    int len = snprintf(buffer, sizeof(buffer), "%d", vec[lastIdx]);
-    str.append(buffer, len);
 
-    str += "]";
+        str += "]";
 
-    return PyUnicode_FromString(str.c_str());
+        return PyUnicode_FromString(str.c_str());
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
+    }
 }
 
 static PyObject *IntArrayList_str(PyObject *pySelf) {
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 83009c3..f26d92a 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -900,27 +900,32 @@ static __forceinline PyObject *IntLinkedList_repr(PyObject *pySelf) {
         return PyUnicode_FromString("[]");
     }
 
-    size_t size = vec.size();
-    auto str = std::string("[");
-    str.reserve(size * 4);
-
-    char buffer[32];
+    try {
+        size_t size = vec.size();
+        auto str = std::string("[");
+        str.reserve(size * 4);
+
+        char buffer[32];
+
+        const size_t lastIdx = size - 1;
+        auto iter = vec.begin();
+        for (size_t i = 0; i < lastIdx; ++i, ++iter) {
+            // to string
+            int len = snprintf(buffer, sizeof(buffer), "%d", *iter);
+            str.append(buffer, len);
+            str += ", ";
+        }
 
-    const size_t lastIdx = size - 1;
-    auto iter = vec.begin();
-    for (size_t i = 0; i < lastIdx; ++i, ++iter) {
-        // to string
-        int len = snprintf(buffer, sizeof(buffer), "%d", *iter);
+        int len = snprintf(buffer, sizeof(buffer), "%d", *at(vec, lastIdx));
         str.append(buffer, len);
-        str += ", ";
-    }
-
-    int len = snprintf(buffer, sizeof(buffer), "%d", *at(vec, lastIdx));
-    str.append(buffer, len);
 
-    str += "]";
+        str += "]";
 
-    return PyUnicode_FromString(str.c_str());
+        return PyUnicode_FromString(str.c_str());
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
+    }
 }
 
 static PyObject *IntLinkedList_str(PyObject *pySelf) {
-- 
2.43.0


From 689fbe7dcedbe88204fc5e9519bf0b44b8a31214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 52/60] fix: list constructors let the exception of __iter__
 through

Whatever an iterable's __iter__ raised was replaced with a TypeError saying that
it is not iterable.
---
 pyfastutil/src/ints/BigIntArrayList.cpp     | 1 -
 pyfastutil/src/ints/IntArrayList.cpp        | 1 -
 pyfastutil/src/ints/IntLinkedList.cpp       | 1 -
 pyfastutil/src/objects/ObjectArrayList.cpp  | 1 -
 pyfastutil/src/objects/ObjectLinkedList.cpp | 1 -
 5 files changed, 5 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 4123d42..753cdb5 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -114,7 +114,6 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
 
             PyObject *iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
-                PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                 return -1;
             }
 
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 5dd1685..6c09d3c 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -114,7 +114,6 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
 
             PyObject *iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
-                PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                 return -1;
             }
 
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index f26d92a..03c4af8 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -77,7 +77,6 @@ static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwa
 
             PyObject *iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
-                PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                 return -1;
             }
 
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 3a7f117..f1a3852 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -106,7 +106,6 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
 
             PyObject *iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
-                PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                 return -1;
             }
 
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 08e6eeb..e5eec12 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -86,7 +86,6 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
 
             PyObject *iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
-                PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                 return -1;
             }
 
-- 
2.43.0


From b4d18c3492672d434f9767090dc88345759efd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:31 +0000
Subject: [PATCH 53/60] fix: IntLinkedList.sort with a key raises when out of
 memory

std::bad_alloc escaped into the interpreter and ended the process.
---
 pyfastutil/src/ints/IntLinkedList.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 03c4af8..e66bcf0 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -441,7 +441,13 @@ static PyObject *IntLinkedList_sort(PyObject *pySelf, PyObject *args, PyObject *
     } else {
         // costs extra memory
         // python code can change the list while we are sorting
-        const auto original = self->list;
+        decltype(self->list) original;
+        try {
+            original = self->list;
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         const auto vecSize = self->list.size();
         auto **pyData = static_cast<PyObject **>(PyMem_Malloc(sizeof(PyObject *) * vecSize));
         if (pyData == nullptr) {
-- 
2.43.0


From f4bcec977e6ea1375eccb753c2323bb546c2c208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 54/60] fix: ObjectLinkedList + does not release references it
 never took when out of memory

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index e5eec12..c6c3c4a 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -700,8 +700,12 @@ static PyObject *ObjectLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
         try {
             const auto &selfList = reinterpret_cast<ObjectLinkedList *>(pySelf)->list;
             result->list.insert(result->list.end(), selfList.begin(), selfList.end());
-            auto items = value->list;
-            result->list.splice(result->list.end(), items);
+            try {
+                result->list.insert(result->list.end(), value->list.begin(), value->list.end());
+            } catch (...) {
+                result->list.clear();  // holds no references yet
+                throw;
+            }
             for (const auto &item: result->list) {
                 Py_INCREF(item);
             }
-- 
2.43.0


From 7e3925835b3c6df991fc75dc76ed853402f5f0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:22 +0000
Subject: [PATCH 55/60] fix: ObjectLinkedList *= leaves the list as it was when
 out of memory

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index c6c3c4a..84a9f65 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -812,14 +812,15 @@ static PyObject *ObjectLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
                 return PyErr_NoMemory();
             }
 
+            std::list<PyObject *> items;
             for (Py_ssize_t i = 1; i < n; ++i) {
-                auto iter = self->list.begin();
-                for (size_t j = 0; j < size; ++j, ++iter) {
-                    self->list.push_back(*iter);
-                    Py_INCREF(*iter);
-                    self->modCount++;
-                }
+                items.insert(items.end(), self->list.begin(), self->list.end());
             }
+            for (const auto item: items) {
+                Py_INCREF(item);
+                self->modCount++;
+            }
+            self->list.splice(self->list.end(), items);
         }
 
         Py_INCREF(pySelf);
-- 
2.43.0


From 4d961af8d132fbe308a0018612d9e0190387bce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 56/60] fix: free the new block when its address cannot be
 returned

---
 pyfastutil/src/unsafe/Unsafe.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index d191803..afe0c0c 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -63,7 +63,12 @@ static PyObject *Unsafe_malloc([[maybe_unused]] PyObject *self, PyObject *pySize
         PyErr_SetString(PyExc_MemoryError, "Failed to alloc memory.");
         return nullptr;
     }
-    return PyLong_FromSize_t(reinterpret_cast<uintptr_t>(ptr));
+
+    PyObject *result = PyLong_FromSize_t(reinterpret_cast<uintptr_t>(ptr));
+    if (result == nullptr) {
+        free(ptr);
+    }
+    return result;
 }
 
 static PyObject *Unsafe_calloc([[maybe_unused]] PyObject *self, PyObject *args) {
@@ -77,7 +82,12 @@ static PyObject *Unsafe_calloc([[maybe_unused]] PyObject *self, PyObject *args)
         PyErr_SetString(PyExc_MemoryError, "Failed to alloc memory.");
         return nullptr;
     }
-    return PyLong_FromSize_t(reinterpret_cast<uintptr_t>(ptr));
+
+    PyObject *result = PyLong_FromSize_t(reinterpret_cast<uintptr_t>(ptr));
+    if (result == nullptr) {
+        free(ptr);
+    }
+    return result;
 }
 
 static PyObject *Unsafe_realloc([[maybe_unused]] PyObject *self, PyObject *args) {
@@ -93,7 +103,12 @@ static PyObject *Unsafe_realloc([[maybe_unused]] PyObject *self, PyObject *args)
         PyErr_SetString(PyExc_MemoryError, "Failed to realloc memory.");
         return nullptr;
     }
-    return PyLong_FromSize_t(reinterpret_cast<uintptr_t>(ptr));
+
+    PyObject *result = PyLong_FromSize_t(reinterpret_cast<uintptr_t>(ptr));
+    if (result == nullptr && address == 0) {
+        free(ptr);
+    }
+    return result;
 }
 
 static PyObject *Unsafe_free([[maybe_unused]] PyObject *self, PyObject *pyAddress) {
@@ -118,7 +133,12 @@ static PyObject *Unsafe_alignedMalloc([[maybe_unused]] PyObject *self, PyObject
     }
 
     try {
-        return PyLong_FromSize_t(reinterpret_cast<uintptr_t>(alignedAlloc(size, alignment)));
+        void *ptr = alignedAlloc(size, alignment);
+        PyObject *result = PyLong_FromSize_t(reinterpret_cast<uintptr_t>(ptr));
+        if (result == nullptr) {
+            alignedFree(ptr);
+        }
+        return result;
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_MemoryError, e.what());
         return nullptr;
-- 
2.43.0


From 51b2bf6ace1905a7949dedf3088e3d9578ec9035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:24 +0000
Subject: [PATCH 57/60] fix: extending an array list by many short iterables
 does not reallocate every time

---
 pyfastutil/src/ints/BigIntArrayList.cpp    | 6 +++++-
 pyfastutil/src/ints/IntArrayList.cpp       | 6 +++++-
 pyfastutil/src/objects/ObjectArrayList.cpp | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 753cdb5..4248848 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -307,7 +307,11 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
     }
     if (hint > 0 && self->exports == 0) {
         try {
-            self->vector.reserve(self->vector.size() + hint);
+            // keep growing geometrically, many short extends must not reallocate every time
+            const auto needed = self->vector.size() + static_cast<size_t>(hint);
+            if (needed > self->vector.capacity()) {
+                self->vector.reserve(std::max(needed, self->vector.capacity() * 2));
+            }
         } catch (const std::exception &) {
             // it's only a hint
         }
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 6c09d3c..0ae3878 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -316,7 +316,11 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
     }
     if (hint > 0 && self->exports == 0) {
         try {
-            self->vector.reserve(self->vector.size() + hint);
+            // keep growing geometrically, many short extends must not reallocate every time
+            const auto needed = self->vector.size() + static_cast<size_t>(hint);
+            if (needed > self->vector.capacity()) {
+                self->vector.reserve(std::max(needed, self->vector.capacity() * 2));
+            }
         } catch (const std::exception &) {
             // it's only a hint
         }
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index f1a3852..fb2838a 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -294,7 +294,11 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
     }
     if (hint > 0) {
         try {
-            self->vector.reserve(self->vector.size() + hint);
+            // keep growing geometrically, many short extends must not reallocate every time
+            const auto needed = self->vector.size() + static_cast<size_t>(hint);
+            if (needed > self->vector.capacity()) {
+                self->vector.reserve(std::max(needed, self->vector.capacity() * 2));
+            }
         } catch (const std::exception &) {
             // it's only a hint
         }
-- 
2.43.0


From b752da5dc0563b4236ff23ea2fb45690da6861c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:24 +0000
Subject: [PATCH 58/60] fix: slices of linked lists walk the list once

---
 pyfastutil/src/ints/IntLinkedList.cpp       |  5 +++--
 pyfastutil/src/objects/ObjectLinkedList.cpp | 13 ++++++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index e66bcf0..6814bad 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -562,9 +562,10 @@ static PyObject *IntLinkedList_getitem_slice(PyObject *pySelf, PyObject *slice)
         return nullptr;
     }
 
+    auto iter = self->list.begin();
     for (Py_ssize_t i = 0; i < sliceLength; i++) {
-        Py_ssize_t index = start + i * step;
-        PyObject *item = PyFast_FromInt(*at(self->list, static_cast<size_t>(index)));
+        iter = i == 0 ? at(self->list, static_cast<size_t>(start)) : std::next(iter, step);
+        PyObject *item = PyFast_FromInt(*iter);
         if (item == nullptr) {
             SAFE_DECREF(result);
             return nullptr;
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 84a9f65..31c1b80 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -549,9 +549,10 @@ static PyObject *ObjectLinkedList_getitem_slice(PyObject *pySelf, PyObject *slic
         return nullptr;
     }
 
+    auto iter = self->list.begin();
     for (Py_ssize_t i = 0; i < sliceLength; i++) {
-        Py_ssize_t index = start + i * step;
-        PyObject *item = *at(self->list, static_cast<size_t>(index));
+        iter = i == 0 ? at(self->list, static_cast<size_t>(start)) : std::next(iter, step);
+        PyObject *item = *iter;
         Py_INCREF(item);
         PyList_SET_ITEM(result, i, item);
     }
@@ -669,10 +670,12 @@ static int ObjectLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyO
         removed.splice(removed.end(), self->list, first, last);
         self->list.splice(last, added);
     } else {
-        Py_ssize_t index = start;
+        auto iter = self->list.begin();
+        bool first = true;
         for (auto &item: added) {
-            std::swap(item, *at(self->list, static_cast<size_t>(index)));
-            index += step;
+            iter = first ? at(self->list, static_cast<size_t>(start)) : std::next(iter, step);
+            first = false;
+            std::swap(item, *iter);
         }
         removed.swap(added);
     }
-- 
2.43.0


From d3d738967a1e75c704deffac9fed6458cb4893fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:41 +0000
Subject: [PATCH 59/60] fix: thread pool tasks outlive submit() and run without
 holding the pool's lock

---
 .../src/utils/thread/ScheduledThreadPool.cpp   |  4 +++-
 .../src/utils/thread/ScheduledThreadPool.h     | 18 ++++++++++--------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/pyfastutil/src/utils/thread/ScheduledThreadPool.cpp b/pyfastutil/src/utils/thread/ScheduledThreadPool.cpp
index aa341fd..6a1b881 100644
--- a/pyfastutil/src/utils/thread/ScheduledThreadPool.cpp
+++ b/pyfastutil/src/utils/thread/ScheduledThreadPool.cpp
@@ -21,9 +21,11 @@ __forceinline void ScheduledThreadPool::worker() {
             return;
         }
 
-        std::function<void()> task = tasks.front();
+        std::function<void()> task = std::move(tasks.front());
         tasks.pop();
 
+        // other workers and submitters go on while the task runs
+        curLock.unlock();
         task();
     }
 }
diff --git a/pyfastutil/src/utils/thread/ScheduledThreadPool.h b/pyfastutil/src/utils/thread/ScheduledThreadPool.h
index ef6c2c5..39facef 100644
--- a/pyfastutil/src/utils/thread/ScheduledThreadPool.h
+++ b/pyfastutil/src/utils/thread/ScheduledThreadPool.h
@@ -22,12 +22,13 @@ public:
 
     template<typename T>
     inline std::future<T> submit(const std::function<T()> &func) {
-        auto task = std::packaged_task<T()>(func);
-        std::future<T> future = task.get_future();
+        // the task has to outlive this call
+        auto task = std::make_shared<std::packaged_task<T()>>(func);
+        std::future<T> future = task->get_future();
 
         std::lock_guard<std::mutex> lock(mutex);
-        std::function<void()> finalTask = [&task]() { task(); };
-        tasks.emplace(finalTask);
+        std::function<void()> finalTask = [task]() { (*task)(); };
+        tasks.emplace(std::move(finalTask));
 
         tasksReady.notify_one();
 
@@ -35,12 +36,13 @@ public:
     }
 
     inline std::future<void> submit(const std::function<void()> &func) {
-        auto task = std::packaged_task<void()>(func);
-        std::future<void> future = task.get_future();
+        // the task has to outlive this call
+        auto task = std::make_shared<std::packaged_task<void()>>(func);
+        std::future<void> future = task->get_future();
 
         std::lock_guard<std::mutex> lock(mutex);
-        std::function<void()> finalTask = [&task]() { task(); };
-        tasks.emplace(finalTask);
+        std::function<void()> finalTask = [task]() { (*task)(); };
+        tasks.emplace(std::move(finalTask));
 
         tasksReady.notify_one();
 
-- 
2.43.0


From 0598b14ddb7e4a094f7de977a27cc380600fe72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:40 +0000
Subject: [PATCH 60/60] fix: list constructors and slice assignment leaked
 their argument when memory ran out

When growing the list threw, the sequence or iterator taken from the
argument (and the item just taken) were never released.
---
 pyfastutil/src/ints/BigIntArrayList.cpp     | 21 +++++++++++++++++---
 pyfastutil/src/ints/IntArrayList.cpp        | 21 +++++++++++++++++---
 pyfastutil/src/ints/IntLinkedList.cpp       | 22 ++++++++++++++++++---
 pyfastutil/src/objects/ObjectArrayList.cpp  | 15 ++++++++++++--
 pyfastutil/src/objects/ObjectLinkedList.cpp | 15 ++++++++++++--
 5 files changed, 81 insertions(+), 13 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 4248848..45ad1aa 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -106,7 +106,12 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
                         SAFE_DECREF(fastKeys);
                         return -1;
                     }
-                    self->vector.push_back(value);
+                    try {
+                        self->vector.push_back(value);
+                    } catch (...) {
+                        SAFE_DECREF(fastKeys);
+                        throw;
+                    }
                 }
                 SAFE_DECREF(fastKeys);
                 return 0;
@@ -131,7 +136,12 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
                     SAFE_DECREF(iter);
                     return -1;
                 }
-                self->vector.push_back(value);
+                try {
+                    self->vector.push_back(value);
+                } catch (...) {
+                    SAFE_DECREF(iter);
+                    throw;
+                }
             }
             SAFE_DECREF(iter);
             if (PyErr_Occurred()) return -1;
@@ -752,7 +762,12 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
                     Py_DECREF(sequence);
                     return -1;
                 }
-                elements.push_back(element);
+                try {
+                    elements.push_back(element);
+                } catch (...) {
+                    Py_DECREF(sequence);
+                    throw;
+                }
             }
             Py_DECREF(sequence);
         }
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 0ae3878..0079a0b 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -106,7 +106,12 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
                         SAFE_DECREF(fastKeys);
                         return -1;
                     }
-                    self->vector.push_back(value);
+                    try {
+                        self->vector.push_back(value);
+                    } catch (...) {
+                        SAFE_DECREF(fastKeys);
+                        throw;
+                    }
                 }
                 SAFE_DECREF(fastKeys);
                 return 0;
@@ -131,7 +136,12 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
                     SAFE_DECREF(iter);
                     return -1;
                 }
-                self->vector.push_back(value);
+                try {
+                    self->vector.push_back(value);
+                } catch (...) {
+                    SAFE_DECREF(iter);
+                    throw;
+                }
             }
             SAFE_DECREF(iter);
             if (PyErr_Occurred()) return -1;
@@ -756,7 +766,12 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
                     Py_DECREF(sequence);
                     return -1;
                 }
-                elements.push_back(element);
+                try {
+                    elements.push_back(element);
+                } catch (...) {
+                    Py_DECREF(sequence);
+                    throw;
+                }
             }
             Py_DECREF(sequence);
         }
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 6814bad..fef3ef4 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -69,7 +69,12 @@ static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwa
                         PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
                         return -1;
                     }
-                    self->list.push_back(value);
+                    try {
+                        self->list.push_back(value);
+                    } catch (...) {
+                        SAFE_DECREF(fastKeys);
+                        throw;
+                    }
                 }
                 SAFE_DECREF(fastKeys);
                 return 0;
@@ -89,7 +94,13 @@ static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwa
                     PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
                     return -1;
                 }
-                self->list.push_back(value);
+                try {
+                    self->list.push_back(value);
+                } catch (...) {
+                    SAFE_DECREF(iter);
+                    SAFE_DECREF(item);
+                    throw;
+                }
                 SAFE_DECREF(item);
             }
             SAFE_DECREF(iter);
@@ -662,7 +673,12 @@ static int IntLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObje
                     Py_DECREF(sequence);
                     return -1;
                 }
-                elements.push_back(element);
+                try {
+                    elements.push_back(element);
+                } catch (...) {
+                    Py_DECREF(sequence);
+                    throw;
+                }
             }
             Py_DECREF(sequence);
         }
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index fb2838a..71c59e6 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -94,7 +94,12 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
                 const auto size = PySequence_Fast_GET_SIZE(fastIter);
                 auto items = PySequence_Fast_ITEMS(fastIter);
 
-                self->vector.insert(self->vector.end(), items, items + size);  // even faster than memcpy!!
+                try {
+                    self->vector.insert(self->vector.end(), items, items + size);  // even faster than memcpy!!
+                } catch (...) {
+                    SAFE_DECREF(fastIter);
+                    throw;
+                }
 
                 for (Py_ssize_t i = 0; i < size; ++i) {
                     Py_INCREF(items[i]);
@@ -111,7 +116,13 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
 
             PyObject *item;
             while ((item = PyIter_Next(iter)) != nullptr) {
-                self->vector.push_back(item);
+                try {
+                    self->vector.push_back(item);
+                } catch (...) {
+                    SAFE_DECREF(iter);
+                    SAFE_DECREF(item);
+                    throw;
+                }
             }
             SAFE_DECREF(iter);
             if (PyErr_Occurred()) return -1;
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 31c1b80..4e4b167 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -76,7 +76,12 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
                 auto items = PySequence_Fast_ITEMS(fastKeys);
                 for (Py_ssize_t i = 0; i < size; ++i) {
                     PyObject *value = items[i];
-                    self->list.push_back(value);
+                    try {
+                        self->list.push_back(value);
+                    } catch (...) {
+                        SAFE_DECREF(fastKeys);
+                        throw;
+                    }
                     Py_INCREF(value);
                 }
                 self->modCount++;
@@ -91,7 +96,13 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
 
             PyObject *item;
             while ((item = PyIter_Next(iter)) != nullptr) {
-                self->list.push_back(item);
+                try {
+                    self->list.push_back(item);
+                } catch (...) {
+                    SAFE_DECREF(iter);
+                    SAFE_DECREF(item);
+                    throw;
+                }
                 self->modCount++;
             }
             SAFE_DECREF(iter);
-- 
2.43.0

