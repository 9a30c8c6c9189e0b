From 3dd9ecf46968c0094be46435f981790366c02b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 01/33] fix: byte search in short ranges, at block edges and
 without a match

---
 src/swar.c | 63 +++++++++++++++++++++---------------------------------
 1 file changed, 24 insertions(+), 39 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 89beccd..3b25c7e 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -144,30 +144,21 @@ RAII_INLINE uint32_t memchr8k(const char *s, uint8_t c) {
 static RAII_INLINE uint32_t _memrchr(bool Printable, bool Known, const char *s, uint32_t len, uint8_t c) {
     const char *p = s + len;
 
-    // If shorter than 8 bytes, we have to mask away c bytes past len
-    uint32_t partLen = (len & 7) ? (len & 7) : 8;
-    uint64_t partMask = len < 8 ? ~0ull >> (64 - partLen * 8) : 0ull;
-    uint64_t first = cast(p) & ~(partMask & extend(c));
-
-    // Advance to leave multiple of 8 bytes
-    p -= partLen;
-
-    // Check first 8 bytes
-    if (hasbyte(first, c)) {
-        return (p - s) + _memchr8(Printable, true, true, (char *)&first, c);
-    }
-
-    // Check words for that byte
-    for (;;) {
+    // Check words, from the end, for that byte
+    while (p - s >= 8) {
+        p -= 8;
         if (hasbyte(cast(p), c)) {
             return (p - s) + _memchr8(Printable, true, true, p, c);
         }
-        p -= 8;
-        if (!Known) {
-            if (p == s)
-                return -1;
-        }
     }
+
+    // Check the first bytes left, the other bytes of the word can't match
+    uint64_t first = extend(c ^ 1);
+    memcpy(&first, s, p - s);
+    if (hasbyte(first, c))
+        return _memchr8(Printable, true, true, (char *)&first, c);
+
+    return -1;
 }
 
 // Find char in const binary string
@@ -175,29 +166,21 @@ static RAII_INLINE uint32_t _memchr(bool Printable, bool Known, const char *s, u
     const char *p = s;
     const char *end = s + len;
 
-    // If shorter than 8 bytes, we have to mask away c bytes past len
-    uint32_t partLen = (len & 7) ? (len & 7) : 8;
-    uint64_t partMask = len < 8 ? ~0ull >> (64 - partLen * 8) : 0ull;
-    uint64_t first = cast(p) & ~(partMask & extend(c));
-
-    // Check first 8 bytes
-    if (hasbyte(first, c))
-        return _memchr8(Printable, true, false, (char *)&first, c);
-
-    // Advance to leave multiple of 8 bytes
-    p += partLen;
-
     // Check words for that byte
-    for (;;) {
+    while (end - p >= 8) {
         if (hasbyte(cast(p), c)) {
             return (p - s) + _memchr8(Printable, true, false, p, c);
         }
         p += 8;
-        if (!Known) {
-            if (p == end)
-                return -1;
-        }
     }
+
+    // Check the last bytes left, the other bytes of the word can't match
+    uint64_t last = extend(c ^ 1);
+    memcpy(&last, p, end - p);
+    if (hasbyte(last, c))
+        return (p - s) + _memchr8(Printable, true, false, (char *)&last, c);
+
+    return -1;
 }
 
 // Convert uint, of less than 100, to %02u, as int 16
@@ -493,11 +476,13 @@ RAII_INLINE size_t simd_strlen(const char *str) {
 }
 
 RAII_INLINE string simd_memchr(const char *s, uint8_t c, uint32_t len) {
-    return (char *)s + _memchr(false, false, s, len, c);
+    uint32_t i = _memchr(false, false, s, len, c);
+    return i == (uint32_t)-1 ? NULL : (char *)s + i;
 }
 
 RAII_INLINE string simd_memrchr(const char *s, uint8_t c, uint32_t len) {
-    return (char *)s + _memrchr(false, false, s, len, c) - 3;
+    uint32_t i = _memrchr(false, false, s, len, c);
+    return i == (uint32_t)-1 ? NULL : (char *)s + i;
 }
 
 // Find char in binary string. Char c is known to be in s + len
-- 
2.43.0


From 32758a09dacd348e0e48a56e93fbb2b20a14e6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 02/33] fix: simd_strcmp took a string for equal to its own
 prefix and read past the end

---
 src/swar.c | 43 +++++++++++++++++--------------------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 3b25c7e..8255a1a 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -372,37 +372,28 @@ RAII_INLINE uint64_t simd_htou(const char *s, uint32_t len) {
 }
 
 RAII_INLINE int simd_strcmp(const char *str0, const char *str1) {
-    int len = simd_strlen(str0);
-    int fast = len / sizeof(size_t) + 1;
-    int offset = (fast - 1) * sizeof(size_t);
-    int current_block = 0;
-
-    if (len <= sizeof(size_t)) { fast = 0; }
-
-    size_t *lstr0 = (size_t *)str0;
-    size_t *lstr1 = (size_t *)str1;
-
-    while (current_block < fast) {
-        if ((lstr0[current_block] ^ lstr1[current_block])) {
-            int pos;
-            for (pos = current_block * sizeof(size_t); pos < len; ++pos) {
-                if ((str0[pos] ^ str1[pos]) || (str0[pos] == 0) || (str1[pos] == 0)) {
-                    return  (int)((unsigned char)str0[pos] - (unsigned char)str1[pos]);
-                }
-            }
-        }
+    size_t word0, word1;
+
+    /* Compare aligned words, these never cross a page,
+    up to the first one that differs or holds the end of the strings. */
+    if ((((uintptr_t)str0 | (uintptr_t)str1) & (sizeof(size_t) - 1)) == 0) {
+        for (;;) {
+            memcpy(&word0, str0, sizeof(word0));
+            memcpy(&word1, str1, sizeof(word1));
+            if ((word0 ^ word1) || haszero(word0))
+                break;
 
-        ++current_block;
+            str0 += sizeof(size_t);
+            str1 += sizeof(size_t);
+        }
     }
 
-    while (len > offset) {
-        if ((str0[offset] ^ str1[offset])) {
-            return (int)((unsigned char)str0[offset] - (unsigned char)str1[offset]);
-        }
-        ++offset;
+    while (*str0 != '\0' && *str0 == *str1) {
+        ++str0;
+        ++str1;
     }
 
-    return 0;
+    return (int)((unsigned char)*str0 - (unsigned char)*str1);
 }
 
 RAII_INLINE size_t simd_strlen(const char *str) {
-- 
2.43.0


From 74da9e55977c72a95e072569883012b9007e8727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 03/33] fix: simd_itoa cut values to 32 bits and read past its
 digits

---
 src/swar.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 8255a1a..b0ff1e6 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -250,25 +250,25 @@ RAII_INLINE uint32_t simd_itoa(int64_t x, char *buf) {
     bool neg = x < 0;
     *buf = '-'; // Always write
     buf += neg; // But advance only if negative
-    x = abs(x);
+    uint64_t u = neg ? 0 - (uint64_t)x : (uint64_t)x;
 
     char tmp[20];
     char *p = tmp + 20;
 
-    while (x >= 100) {
+    while (u >= 100) {
         p -= 2;
-        utoa2p_ex(x % 100, p);
-        x /= 100;
+        utoa2p_ex(u % 100, p);
+        u /= 100;
     }
 
     p -= 2;
-    utoa2p_ex(x, p);
+    utoa2p_ex(u, p);
 
-    p += x < 10;
+    p += u < 10;
 
     uint32_t len = tmp + 20 - p;
 
-    memcpy(buf, p, 20);
+    memcpy(buf, p, len);
     buf[len] = '\0';
 
     return len + neg;
-- 
2.43.0


From 18930bf9ad5ae798d21da3b9a9cb60debd848f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 04/33] fix: simd_atod was off by a power of ten, lost the sign
 of -0.x and read past its scales

---
 src/swar.c | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index b0ff1e6..1c0d41f 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -6,14 +6,6 @@
 #define CODE_SECTION
 #endif
 
-// Copy the sign from src to dst that is unsigned.
-// *** dst is up to 63 bit
-static RAII_INLINE int64_t _copySign(int64_t src, uint64_t dst) {
-    // This is better than `src > 0 ? dst : -dst` that is using cmov
-    uint64_t m = ~(src >> 63); // all 1s if >= 0 (opposite of abs)
-    return (dst + m) ^ m; // flip if src negative
-}
-
 RAII_INLINE uintptr_t cast(const char *src) {
     uintptr_t ret;
     memcpy(&ret, src, sizeof(uintptr_t));
@@ -520,22 +512,26 @@ RAII_INLINE double simd_atod(const char *s, uint32_t len) {
     }
 
     // Do the int part
-    int64_t ipart = simd_atoi(s, ilen);
+    bool neg = ilen > 0 && *s == '-';
+    double ipart = (double)simd_atoi(s, ilen);
     s += ilen + 1;
     len -= ilen + 1;
 
-    // Int of decimal part
-    int64_t dpart = simd_atou(s, len);
+    // More decimals get lost to precision anyway
+    if (len > 19)
+        len = 19;
 
-    // To add the two parts we need matching signs
-    dpart = _copySign(ipart, dpart);
+    // Int of decimal part
+    double dpart = (double)simd_atou(s, len);
 
     // Array of 20 * 8 = 160 bytes
     static const CODE_SECTION double scales[20] = {
-        1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10,
-        1e-11, 1e-12, 1e-13, 1e-14, 1e-15, 1e-16, 1e-17, 1e-18, 1e-19, 1e-20};
+        1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9,
+        1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19};
 
-    return ipart + dpart * scales[len];
+    // To add the two parts we need matching signs
+    dpart /= scales[len];
+    return neg ? ipart - dpart : ipart + dpart;
 }
 
 // Convert uint to %0<N>u, N <= 8
-- 
2.43.0


From 6d09921ea22d629446c14c99bd15d805e38b10ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 05/33] fix: shifts by the word width and the negation of the
 smallest integer are undefined

---
 src/swar.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 1c0d41f..ae0ddc9 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -19,8 +19,7 @@ RAII_INLINE uintptr_t cast8(const char *s, uint32_t len) {
     // int 64 of s
     uint64_t x = cast(s);
 
-    uint64_t mask = (1ull << (len * 8)) - 1;
-    mask |= -(len == 8); // fill 1's if len == 8
+    uint64_t mask = len < 8 ? (1ull << (len * 8)) - 1 : ~0ull; // fill 1's if len == 8
 
     return x & mask;
 }
@@ -274,7 +273,7 @@ RAII_INLINE uint32_t atou8(const char *s, uint32_t len) {
     uint64_t x = cast(s);
 
     // apply len. len of 2 --> 0x3231000000000000
-    x <<= 64 - len * 8;
+    x <<= (64 - len * 8) & 63;
     x &= -(uint64_t)(len > 0);
 
     // add ones and tens, in int8's, from 0x0[2]0[1] to 0x00[12]
@@ -316,9 +315,9 @@ RAII_INLINE int64_t simd_atoi(const char *s, uint32_t len) {
     bool ls = !!len & (*s == '-' || *s == '+');
     s += ls;
 
-    int64_t x = simd_atou(s, len - ls);
+    uint64_t x = simd_atou(s, len - ls);
 
-    return neg ? -x : x;
+    return (int64_t)(neg ? 0 - x : x);
 }
 
 // Parse hex int from string of up to 8 chars
@@ -329,7 +328,7 @@ RAII_INLINE uint32_t htou8(const char *s, uint32_t len) {
     uint64_t x = cast(s);
 
     // apply len. len of 2 --> 0x3231000000000000
-    x <<= 64 - len * 8;
+    x <<= (64 - len * 8) & 63;
 
     // handle length of 0. remove all bits if zero
     x &= -(uint64_t)(len > 0);
-- 
2.43.0


From 6539160afc83e9a855e1aaeb2ef457697e8cd952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 06/33] fix: an index of a deferred function named another
 memory location

The entries were addressed through the wrong view of the array (a member
that is never set) and with the size of another type, so cancel and fire
wrote to, or called through, memory unrelated to the deferred function.
---
 src/raii.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 9130d51..426ea13 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -342,18 +342,20 @@ static RAII_INLINE void raii_deferred_array_free(defer_t *array) {
     raii_array_free((raii_array_t *)array);
 }
 
-static RAII_INLINE size_t raii_deferred_array_get_index(const defer_t *array, raii_array_t *elem) {
-    RAII_ASSERT(elem >= (raii_array_t *)array->base.base);
-    return (size_t)(elem - (raii_array_t *)array->base.base);
+static RAII_INLINE size_t raii_deferred_array_get_index(const defer_t *array, defer_func_t *elem) {
+    const raii_array_t *view = (const raii_array_t *)array;
+    RAII_ASSERT(elem >= (defer_func_t *)view->base);
+    return (size_t)(elem - (defer_func_t *)view->base);
 }
 
-static RAII_INLINE raii_array_t *raii_deferred_array_get_element(const defer_t *array, size_t index) {
-    RAII_ASSERT(index <= array->base.elements);
-    return &((raii_array_t *)array->base.base)[index];
+static RAII_INLINE defer_func_t *raii_deferred_array_get_element(const defer_t *array, size_t index) {
+    const raii_array_t *view = (const raii_array_t *)array;
+    RAII_ASSERT(index < view->elements);
+    return &((defer_func_t *)view->base)[index];
 }
 
 static RAII_INLINE size_t raii_deferred_array_len(const defer_t *array) {
-    return array->base.elements;
+    return ((const raii_array_t *)array)->elements;
 }
 
 static void deferred_canceled(void *data) {}
@@ -363,7 +365,7 @@ static void raii_deferred_internal(memory_t *scope, defer_func_t *deferred) {
 
     RAII_ASSERT(num_defers != 0 && deferred != NULL);
 
-    if (deferred == (defer_func_t *)raii_deferred_array_get_element(&scope->defer, num_defers - 1)) {
+    if (deferred == raii_deferred_array_get_element(&scope->defer, num_defers - 1)) {
         /* If we're cancelling the last defer we armed, there's no need to waste
          * space of a deferred callback to an empty function like
          * disarmed_defer(). */
@@ -378,13 +380,13 @@ static void raii_deferred_internal(memory_t *scope, defer_func_t *deferred) {
 void raii_deferred_cancel(memory_t *scope, size_t index) {
     RAII_ASSERT(index >= 0);
 
-    raii_deferred_internal(scope, (defer_func_t *)raii_deferred_array_get_element(&scope->defer, index));
+    raii_deferred_internal(scope, raii_deferred_array_get_element(&scope->defer, index));
 }
 
 void raii_deferred_fire(memory_t *scope, size_t index) {
     RAII_ASSERT(index >= 0);
 
-    defer_func_t *deferred = (defer_func_t *)raii_deferred_array_get_element(&scope->defer, index);
+    defer_func_t *deferred = raii_deferred_array_get_element(&scope->defer, index);
     RAII_ASSERT(scope);
 
     deferred->func(deferred->data);
@@ -460,7 +462,7 @@ static size_t raii_deferred_any(memory_t *scope, func_t func, void *data, void *
         deferred->data = data;
         deferred->check = check;
 
-        return raii_deferred_array_get_index(&scope->defer, (raii_array_t *)deferred);
+        return raii_deferred_array_get_index(&scope->defer, deferred);
     }
 }
 
-- 
2.43.0


From 9ebd2955003627e7b506b035c684c7820a69b421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 07/33] fix: a deferred function that defers or throws was
 lost, or run again

The array of deferred functions was cached while running them, and only
emptied after the last one: what a running one deferred was dropped (or the
moved array read), and one that threw was run again by the next unwinding.
---
 src/raii.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 426ea13..43ecdd8 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -389,28 +389,30 @@ void raii_deferred_fire(memory_t *scope, size_t index) {
     defer_func_t *deferred = raii_deferred_array_get_element(&scope->defer, index);
     RAII_ASSERT(scope);
 
-    deferred->func(deferred->data);
-
+    /* Disarmed before the call, it may defer more (moving the array), or throw. */
+    func_t func = deferred->func;
+    void *data = deferred->data;
     raii_deferred_internal(scope, deferred);
+
+    func(data);
 }
 
 static void raii_deferred_run(memory_t *scope, size_t generation) {
     raii_array_t *array = (raii_array_t *)&scope->defer;
-    defer_func_t *defers = array->base;
     bool defer_ran = false;
-    size_t i;
 
     scope->is_recovered = is_empty(scope->err);
 
-    for (i = array->elements; i != generation; i--) {
-        defer_func_t *defer = &defers[i - 1];
+    /* Each one is taken off before it's called, and the array looked up again after,
+     * it may defer more (moving the array), end the scope itself, or throw. */
+    while (array->elements > generation) {
+        defer_func_t defer = ((defer_func_t *)array->base)[--array->elements];
         defer_ran = true;
 
-        if (!is_empty(scope->err) && !is_empty(defer->check))
+        if (!is_empty(scope->err) && !is_empty(defer.check))
             scope->is_recovered = false;
 
-        defer->func(defer->data);
-        defer->data = NULL;
+        defer.func(defer.data);
     }
 
     if (scope->is_protected && !is_empty(scope->protector) && !is_empty(scope->err)) {
@@ -421,7 +423,6 @@ static void raii_deferred_run(memory_t *scope, size_t generation) {
         }
     }
 
-    array->elements = generation;
     if (!is_empty(scope->protector)) {
         ex_unprotected_ptr(scope->protector);
         RAII_FREE(scope->protector);
-- 
2.43.0


From 216b8314efd288eb5ba8b484fa8d604128da90f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 08/33] fix: a scope ended once never ran what was deferred on
 it afterwards

---
 src/raii.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/raii.c b/src/raii.c
index 43ecdd8..65e6545 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -454,6 +454,10 @@ static size_t raii_deferred_any(memory_t *scope, func_t func, void *data, void *
 
     RAII_ASSERT(func);
 
+    /* The scope was ended, and is used again. */
+    if (!is_type(&scope->defer, RAII_DEF_ARR))
+        raii_deferred_init(&scope->defer);
+
     deferred = raii_deferred_array_append(&scope->defer);
     if (UNLIKELY(!deferred)) {
         RAII_LOG("Could not add new deferred function.");
-- 
2.43.0


From 77ff81d17671873ef9a93be8beea7eb81cc81ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 09/33] fix: a try block read fields of its context that were
 never set

Stack garbage in is_raii made an exception caught inside a try block end the
thread's default scope.
---
 include/exception.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/exception.h b/include/exception.h
index 7ced475..acf8e93 100644
--- a/include/exception.h
+++ b/include/exception.h
@@ -301,9 +301,23 @@ throws an exception of given message. */
     /* local context */                     \
     ex_context_t ex_err;                    \
     ex_err.next = ex_init();                \
+    ex_err.type = ex_context_st;            \
     ex_err.stack = 0;                       \
     ex_err.ex = 0;                          \
     ex_err.unstack = 0;                     \
+    ex_err.is_unwind = false;               \
+    ex_err.is_rethrown = false;             \
+    ex_err.is_guarded = false;              \
+    ex_err.is_raii = false;                 \
+    ex_err.is_emulated = false;             \
+    ex_err.caught = -1;                     \
+    ex_err.line = 0;                        \
+    ex_err.data = NULL;                     \
+    ex_err.prev = NULL;                     \
+    ex_err.panic = NULL;                    \
+    ex_err.function = NULL;                 \
+    ex_err.file = NULL;                     \
+    ex_err.backtrace->size = 0;             \
     /* global context updated */            \
     ex_update(&ex_err);                     \
     /* save jump location */                \
-- 
2.43.0


From 43d9519bad7fe7fd482638227d6b9ebc177ccf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 10/33] fix: a null protected pointer, or deferred functions,
 kept protected pointers from release

---
 src/except.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/except.c b/src/except.c
index 088d247..6c1c174 100644
--- a/src/except.c
+++ b/src/except.c
@@ -109,23 +109,22 @@ static void ex_unwind_stack(ex_context_t *ctx) {
 
     ctx->unstack = 1;
 
-    if (ctx->is_unwind && exception_unwind_func) {
+    if (ctx->is_unwind && exception_unwind_func)
         exception_unwind_func(ctx->data);
-    } else if (ctx->is_unwind && ctx->is_raii && ctx->data == (void *)raii_local()) {
+    else if (ctx->is_unwind && ctx->is_raii && ctx->data == (void *)raii_local())
         raii_deferred_clean();
-    } else {
-        while (p && p->type == ex_protected_st) {
+
+    while (p && p->type == ex_protected_st) {
+        if (*p->ptr) {
             if ((got_uncaught_exception = (temp == *p->ptr)))
                 break;
 
-            if (*p->ptr) {
-                p->type = -1;
-                p->func(*p->ptr);
-            }
-
+            p->type = -1;
+            p->func(*p->ptr);
             temp = *p->ptr;
-            p = p->next;
         }
+
+        p = p->next;
     }
 
     ctx->unstack = 0;
-- 
2.43.0


From 2802ccad9aa387544975b4c4396c5d8617d9e7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 11/33] fix: scope memory was put on the protected stack as if
 it held pointers to pointers

The first words of a block were taken for a pointer and released when an
exception passed, the one list node per scope was linked to itself by a
second request, and an exception that did not end the scope released its memory.
---
 src/future.c |  5 -----
 src/raii.c   | 26 --------------------------
 2 files changed, 31 deletions(-)

diff --git a/src/future.c b/src/future.c
index 53d67a6..7bba7f8 100644
--- a/src/future.c
+++ b/src/future.c
@@ -209,8 +209,6 @@ future_t thrd_scope(void) {
     pool->cpu_present = thrd_cpu_count();
     pool->futures = NULL;
     pool->results = NULL;
-    ex_protect_ptr(scope->protector, &pool->futures, RAII_FREE);
-    ex_protect_ptr(scope->protector, &pool->results, RAII_FREE);
     pool->type = RAII_SPAWN;
     spawn->arena = pool;
 
@@ -229,7 +227,6 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
 
     promise *p = promise_create();
     future f = future_create(fn);
-    ex_protect_ptr(raii_local()->protector, &f, RAII_FREE);
     future_arg *f_arg = try_calloc(1, sizeof(future_arg));
     f_arg->func = f->func;
     f_arg->arg = args;
@@ -295,11 +292,9 @@ void thrd_then(result_func_t callback, future_t iter, void_t result) {
 void thrd_destroy(future_t f) {
     if (is_type(f, RAII_SPAWN)) {
         memory_t *scope = f->scope;
-        ex_ptr_t *err = scope->protector;
         f->type = -1;
         RAII_FREE(f->futures);
         RAII_FREE(f->results);
-        ex_unprotected_ptr(err);
         raii_delete(scope);
     }
 }
diff --git a/src/raii.c b/src/raii.c
index 65e6545..fdbe8e9 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -219,11 +219,6 @@ unique_t *unique_init_arena(void) {
 
 void *malloc_full(memory_t *scope, size_t size, func_t func) {
     void *arena = try_malloc(size);
-    if (is_empty(scope->protector))
-        scope->protector = try_malloc(sizeof(ex_ptr_t));
-
-    scope->protector->is_emulated = scope->is_emulated;
-    ex_protect_ptr(scope->protector, arena, func);
     scope->is_protected = true;
     scope->mid = raii_deferred(scope, func, arena);
 
@@ -247,11 +242,6 @@ RAII_INLINE void *malloc_arena(memory_t *scope, size_t size) {
 
 void *calloc_full(memory_t *scope, int count, size_t size, func_t func) {
     void *arena = try_calloc(count, size);
-    if (is_empty(scope->protector))
-        scope->protector = try_calloc(1, sizeof(ex_ptr_t));
-
-    scope->protector->is_emulated = scope->is_emulated;
-    ex_protect_ptr(scope->protector, arena, func);
     scope->is_protected = true;
     scope->mid = raii_deferred(scope, func, arena);
 
@@ -399,7 +389,6 @@ void raii_deferred_fire(memory_t *scope, size_t index) {
 
 static void raii_deferred_run(memory_t *scope, size_t generation) {
     raii_array_t *array = (raii_array_t *)&scope->defer;
-    bool defer_ran = false;
 
     scope->is_recovered = is_empty(scope->err);
 
@@ -407,27 +396,12 @@ static void raii_deferred_run(memory_t *scope, size_t generation) {
      * it may defer more (moving the array), end the scope itself, or throw. */
     while (array->elements > generation) {
         defer_func_t defer = ((defer_func_t *)array->base)[--array->elements];
-        defer_ran = true;
 
         if (!is_empty(scope->err) && !is_empty(defer.check))
             scope->is_recovered = false;
 
         defer.func(defer.data);
     }
-
-    if (scope->is_protected && !is_empty(scope->protector) && !is_empty(scope->err)) {
-        scope->is_protected = false;
-        if (!defer_ran) {
-            scope->protector->func(*scope->protector->ptr);
-            *scope->protector->ptr = NULL;
-        }
-    }
-
-    if (!is_empty(scope->protector)) {
-        ex_unprotected_ptr(scope->protector);
-        RAII_FREE(scope->protector);
-        scope->protector = NULL;
-    }
 }
 
 size_t raii_deferred_count(memory_t *scope) {
-- 
2.43.0


From dc2123be9a86ff1730b45e9d8ff30959b8182ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 12/33] fix: what could not be deferred was lost without an
 error

A failed growth of the array of deferred functions was only logged: the block
just allocated leaked, a recover or defer never ran, and a container was
marked as bound to a scope that does not know it.
---
 src/raii.c | 33 +++++++++++++++++++++++++++------
 src/swar.c |  5 +----
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index fdbe8e9..7eb4a8c 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -217,10 +217,23 @@ unique_t *unique_init_arena(void) {
     return raii;
 }
 
+static size_t raii_deferred_any(memory_t *scope, func_t func, void *data, void *check);
+
+/* Binds a new block to `scope`, it is given back if that is not possible. */
+static size_t raii_deferred_block(memory_t *scope, func_t func, void *block) {
+    size_t mid = raii_deferred_any(scope, func, block, NULL);
+    if (UNLIKELY(mid == (size_t)-1)) {
+        RAII_FREE(block);
+        raii_panic("Deferred failed!");
+    }
+
+    return mid;
+}
+
 void *malloc_full(memory_t *scope, size_t size, func_t func) {
     void *arena = try_malloc(size);
     scope->is_protected = true;
-    scope->mid = raii_deferred(scope, func, arena);
+    scope->mid = raii_deferred_block(scope, func, arena);
 
     return arena;
 }
@@ -243,7 +256,7 @@ RAII_INLINE void *malloc_arena(memory_t *scope, size_t size) {
 void *calloc_full(memory_t *scope, int count, size_t size, func_t func) {
     void *arena = try_calloc(count, size);
     scope->is_protected = true;
-    scope->mid = raii_deferred(scope, func, arena);
+    scope->mid = raii_deferred_block(scope, func, arena);
 
     return arena;
 }
@@ -445,8 +458,16 @@ static size_t raii_deferred_any(memory_t *scope, func_t func, void *data, void *
     }
 }
 
+static size_t raii_deferred_must(memory_t *scope, func_t func, void *data, void *check) {
+    size_t mid = raii_deferred_any(scope, func, data, check);
+    if (UNLIKELY(mid == (size_t)-1))
+        raii_panic("Deferred failed!");
+
+    return mid;
+}
+
 RAII_INLINE size_t raii_deferred(memory_t *scope, func_t func, void *data) {
-    return raii_deferred_any(scope, func, data, NULL);
+    return raii_deferred_must(scope, func, data, NULL);
 }
 
 RAII_INLINE size_t raii_defer(func_t func, void *data) {
@@ -454,11 +475,11 @@ RAII_INLINE size_t raii_defer(func_t func, void *data) {
 }
 
 RAII_INLINE void raii_recover(func_t func, void *data) {
-    raii_deferred_any(raii_local(), func, data, (void *)"err");
+    raii_deferred_must(raii_local(), func, data, (void *)"err");
 }
 
 RAII_INLINE void raii_recover_by(memory_t *scope, func_t func, void *data) {
-    raii_deferred_any(scope, func, data, (void *)"err");
+    raii_deferred_must(scope, func, data, (void *)"err");
 }
 
 bool raii_caught(const char *err) {
@@ -547,11 +568,11 @@ values_type raii_get_args(memory_t *scope, void_t params, int item) {
     args_t args = (args_t)params;
     memory_t *scoped = scope;
     if (!args->defer_set) {
-        args->defer_set = true;
         if (is_empty(scope))
             scoped = is_empty(args->context) ? raii_init() : args->context;
 
         raii_deferred(scoped, (func_t)args_free, params);
+        args->defer_set = true;
     }
 
     return args_in(args, item);
diff --git a/src/swar.c b/src/swar.c
index ae0ddc9..da49f73 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -645,7 +645,7 @@ string str_concat_ex(memory_t *defer, int num_args, va_list ap_copy) {
     for (i = 0; i < num_args; i++)
         strsize += simd_strlen(va_arg(ap, string));
 
-    string res = try_calloc(1, strsize + 1);
+    string res = defer ? calloc_full(defer, 1, strsize + 1, RAII_FREE) : try_calloc(1, strsize + 1);
     strsize = 0;
 
     va_copy(ap, ap_copy);
@@ -656,9 +656,6 @@ string str_concat_ex(memory_t *defer, int num_args, va_list ap_copy) {
     }
     va_end(ap);
 
-    if (defer)
-        raii_deferred(defer, RAII_FREE, res);
-
     return res;
 }
 
-- 
2.43.0


From 4c6ebe2e894eb4199dfcb3a8fa0f0a73496060f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 13/33] fix: pointer and long string arguments crashed the
 argument container

A pointer fell through to the case of unknown letters, which wrote to a null
pointer and took the next argument, as did a string longer than a value.
---
 src/raii.c | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 7eb4a8c..dbe6199 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -593,10 +593,8 @@ RAII_INLINE values_type args_in(args_t params, size_t index) {
 }
 
 args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
-    size_t i, len, count = simd_strlen(desc);
+    size_t i, count = simd_strlen(desc);
     args_t params = try_calloc(1, sizeof(struct args_s));
-    void_t p;
-    string s;
     params->args_size = sizeof(raii_values_t);
     params->args = try_calloc(count, params->args_size);
     params->args_size = params->args_size * count;
@@ -629,15 +627,7 @@ args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
                 break;
             case 's':
                 // string argument
-                s = (char *)va_arg(argp, char *);
-                len = simd_strlen(s);
-                if (len > sizeof(raii_values_t)) {
-                    params->args_size += len + 1;
-                    params->args = try_realloc(params->args, params->args_size);
-                    strncpy(params->args[i].value.char_ptr, s, len);
-                } else {
-                    params->args[i].value.char_ptr = s;
-                }
+                params->args[i].value.char_ptr = (char *)va_arg(argp, char *);
                 break;
             case 'a':
                 // array argument
@@ -654,12 +644,9 @@ args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
             case 'p':
                 // void pointer (any arbitrary pointer) argument
                 params->args[i].value.object = va_arg(argp, void *);
+                break;
             default:
-                p = va_arg(argp, void *);
-                len = sizeof(p);
-                params->args_size += len;
-                params->args = try_realloc(params->args, params->args_size);
-                memcpy(params->args[i].value.object, p, sizeof(p));
+                params->args[i].value.object = va_arg(argp, void *);
                 break;
         }
     }
-- 
2.43.0


From 72942bde9de1dac959734c421847a52eb594c06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 14/33] fix: half of an argument container or arena pointer
 leaked when the other half failed

---
 src/raii.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/raii.c b/src/raii.c
index dbe6199..a3ad1ac 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -210,8 +210,11 @@ unique_t *unique_init(void) {
 }
 
 unique_t *unique_init_arena(void) {
+    arena_t arena = arena_init(0);
+    protected(arena, (ex_unwind_func)arena_free);
     unique_t *raii = unique_init();
-    raii->arena = (void *)arena_init(0);
+    unprotected(arena);
+    raii->arena = (void *)arena;
     raii->is_arena = true;
 
     return raii;
@@ -596,7 +599,9 @@ args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
     size_t i, count = simd_strlen(desc);
     args_t params = try_calloc(1, sizeof(struct args_s));
     params->args_size = sizeof(raii_values_t);
+    protected(params, RAII_FREE);
     params->args = try_calloc(count, params->args_size);
+    unprotected(params);
     params->args_size = params->args_size * count;
 
     for (i = 0; i < count; i++) {
-- 
2.43.0


From 6df1f64acd9b7d948b38323de8ed3763185b10be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 15/33] fix: the default scope was used before it exists

The first use of the thread's default scope by defer, recover, decode, the
message or the recover test went through a null pointer.
---
 src/raii.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index a3ad1ac..2fd10e2 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -129,7 +129,7 @@ memory_t *raii_init(void) {
 }
 
 RAII_INLINE size_t raii_mid(void) {
-    return raii_local()->mid;
+    return raii_init()->mid;
 }
 
 RAII_INLINE size_t raii_last_mid(memory_t *scope) {
@@ -194,7 +194,7 @@ RAII_INLINE u_string raii_encode64(u_string_t src) {
 }
 
 RAII_INLINE u_string raii_decode64(u_string_t src) {
-    return str_decode64_ex(raii_local(), src);
+    return str_decode64_ex(raii_init(), src);
 }
 
 unique_t *unique_init(void) {
@@ -436,7 +436,8 @@ void raii_deferred_free(memory_t *scope) {
 }
 
 RAII_INLINE void raii_deferred_clean(void) {
-    raii_deferred_free(raii_local());
+    if (!is_raii_empty())
+        raii_deferred_free(raii_local());
 }
 
 static size_t raii_deferred_any(memory_t *scope, func_t func, void *data, void *check) {
@@ -474,11 +475,11 @@ RAII_INLINE size_t raii_deferred(memory_t *scope, func_t func, void *data) {
 }
 
 RAII_INLINE size_t raii_defer(func_t func, void *data) {
-    return raii_deferred(raii_local(), func, data);
+    return raii_deferred(raii_init(), func, data);
 }
 
 RAII_INLINE void raii_recover(func_t func, void *data) {
-    raii_deferred_must(raii_local(), func, data, (void *)"err");
+    raii_deferred_must(raii_init(), func, data, (void *)"err");
 }
 
 RAII_INLINE void raii_recover_by(memory_t *scope, func_t func, void *data) {
@@ -486,7 +487,7 @@ RAII_INLINE void raii_recover_by(memory_t *scope, func_t func, void *data) {
 }
 
 bool raii_caught(const char *err) {
-    memory_t *scope = raii_local();
+    memory_t *scope = raii_init();
     const char *exception = (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
 
     if (exception == NULL && is_str_eq(err, ex_local()->ex)) {
@@ -509,7 +510,7 @@ bool raii_is_caught(memory_t *scope, const char *err) {
 }
 
 const char *raii_message(void) {
-    memory_t *scope = raii_local();
+    memory_t *scope = raii_init();
     const char *exception = (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
     return exception == NULL ? ex_local()->ex : exception;
 }
-- 
2.43.0


From f68c50560ee194d0ec15d2f9635b1edc7c929e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 16/33] fix: an empty delimiter or needle looped forever

---
 src/swar.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/swar.c b/src/swar.c
index da49f73..687a6b1 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -607,7 +607,7 @@ string *str_split_ex(memory_t *defer, string_t s, string_t delim, int *count) {
     string_t *ptrs;
     size_t ptrsSize, nbWords = 1, sLen = simd_strlen(s), delimLen = simd_strlen(delim);
 
-    while ((_s = strstr(_s, delim))) {
+    while (delimLen && (_s = strstr(_s, delim))) {
         _s += delimLen;
         ++nbWords;
     }
@@ -668,6 +668,9 @@ string str_replace_ex(memory_t *defer, string_t haystack, string_t needle, strin
     size_t newWlen = simd_strlen(replace);
     size_t oldWlen = simd_strlen(needle);
 
+    if (oldWlen == 0)
+        return NULL;
+
     for (i = 0; haystack[i] != '\0'; i++) {
         if (strstr(&haystack[i], needle) == &haystack[i]) {
             cnt++;
-- 
2.43.0


From ba5baab0b0f052fe5d2cad24b408104502e00b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 17/33] fix: a guard took over exceptions that were not its own

It installed its hooks process wide: an exception caught by a try block inside
the guard, or raised by another thread, ended the guard's scope. Its deferred
functions ran before the jump, so a recover was overwritten, and one that
threw ended the process. The recover test without a guard was a crash.
---
 include/exception.h |  2 ++
 include/raii.h      | 18 ++++++++----------
 src/except.c        | 16 ++++++++++++----
 src/raii.c          | 21 ++++++++++++---------
 4 files changed, 34 insertions(+), 23 deletions(-)

diff --git a/include/exception.h b/include/exception.h
index acf8e93..ea1d8da 100644
--- a/include/exception.h
+++ b/include/exception.h
@@ -228,6 +228,8 @@ throws an exception of given message. */
     ex_err.ex = 0;                          \
     ex_err.unstack = 0;                     \
     ex_err.is_rethrown = false;             \
+    ex_err.is_guarded = false;              \
+    ex_err.is_raii = false;                 \
     /* global context updated */            \
     ex_update(&ex_err);                     \
     /* save jump location */                \
diff --git a/include/raii.h b/include/raii.h
index 2bb3d15..f810756 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -470,7 +470,7 @@ C_API void *try_malloc(size_t);
 C_API void *try_realloc(void *, size_t);
 
 C_API void guard_set(ex_context_t *ctx, const char *ex, const char *message);
-C_API void guard_reset(void *scope, ex_setup_func set, ex_unwind_func unwind);
+C_API void guard_reset(void *scope);
 C_API void guard_delete(memory_t *ptr);
 
 #ifndef MAX
@@ -517,7 +517,7 @@ throws an exception of given message. */
 return given `value` when done, use `NONE` for no return. */
 #define _return(value)              \
     raii_delete(_$##__FUNCTION__);  \
-    guard_reset(s##__FUNCTION__, sf##__FUNCTION__, uf##__FUNCTION__);   \
+    guard_reset(s##__FUNCTION__);   \
     ex_update(ex_err.next);         \
     if (ex_local() == &ex_err)      \
         ex_update(ex_err.next);     \
@@ -533,14 +533,12 @@ are only valid between these sections.
     if (!exception_signal_set)                          \
         ex_signal_setup();                              \
     void *s##__FUNCTION__ = raii_init()->arena;         \
-    ex_setup_func sf##__FUNCTION__ = exception_setup_func;      \
-    ex_unwind_func uf##__FUNCTION__ = exception_unwind_func;    \
-    exception_unwind_func = (ex_unwind_func)raii_deferred_free; \
-    exception_setup_func = guard_set;                   \
     unique_t *_$##__FUNCTION__ = unique_init();         \
     (_$##__FUNCTION__)->status = RAII_GUARDED_STATUS;   \
     raii_local()->arena = (void *)_$##__FUNCTION__;     \
     ex_try {                                            \
+        ex_err.data = (void *)_$##__FUNCTION__;         \
+        ex_err.is_guarded = true;                       \
         do {
 
     /* This ends an scoped guard section, it replaces `}`.
@@ -553,7 +551,7 @@ are only valid between these sections.
         if ((is_type(&(_$##__FUNCTION__)->defer, RAII_DEF_ARR)))    \
             raii_deferred_free(_$##__FUNCTION__);                   \
     } ex_finally {                                                  \
-        guard_reset(s##__FUNCTION__, sf##__FUNCTION__, uf##__FUNCTION__);   \
+        guard_reset(s##__FUNCTION__);   \
         guard_delete(_$##__FUNCTION__);                             \
     } ex_end_try;                                                   \
     return result;                                                  \
@@ -567,7 +565,7 @@ are only valid between these sections.
     } ex_catch_if {                                                 \
         raii_deferred_free(_$##__FUNCTION__);                       \
     } ex_finally {                                                  \
-        guard_reset(s##__FUNCTION__, sf##__FUNCTION__, uf##__FUNCTION__);   \
+        guard_reset(s##__FUNCTION__);   \
         guard_delete(_$##__FUNCTION__);                             \
     } ex_end_try;                                                   \
 }
@@ -581,13 +579,13 @@ are only valid between these sections.
         raii_deferred_free(_$##__FUNCTION__);                       \
     } ex_catch_if {                                                 \
         raii_deferred_free(_$##__FUNCTION__);                       \
-        if (!_$##__FUNCTION__->is_recovered && raii_is_caught(_$##__FUNCTION__, raii_message_by(_$##__FUNCTION__))) { \
+        if (ex_err.state == ex_throw_st && raii_is_caught(_$##__FUNCTION__, raii_message_by(_$##__FUNCTION__))) { \
             ((memory_t *)error)->err = (void_t)ex_err.ex;                   \
             ((memory_t *)error)->panic = ex_err.panic;              \
             ((memory_t *)error)->backtrace = ex_err.backtrace;      \
         }                                                           \
     } ex_finally{\
-        guard_reset(s##__FUNCTION__, sf##__FUNCTION__, uf##__FUNCTION__);   \
+        guard_reset(s##__FUNCTION__);   \
         guard_delete(_$##__FUNCTION__);                             \
     } ex_end_try;                                                   \
 }
diff --git a/src/except.c b/src/except.c
index 6c1c174..ada4f45 100644
--- a/src/except.c
+++ b/src/except.c
@@ -336,6 +336,7 @@ ex_context_t *ex_init(void) {
         context->is_guarded = false;
         context->is_raii = false;
         context->is_emulated = false;
+        context->next = NULL;
         context->ex = NULL;
         context->panic = NULL;
         memset(context->backtrace->ctx, 0, sizeof(context->backtrace->ctx));
@@ -392,7 +393,9 @@ void ex_throw(string_t exception, string_t file, int line, string_t function, st
     ctx->function = function;
     ctx->panic = message;
 
-    if (exception_setup_func)
+    if (ctx->is_guarded)
+        guard_set(ctx, ctx->ex, ctx->panic);
+    else if (exception_setup_func)
         exception_setup_func(ctx, ctx->ex, ctx->panic);
     else if (ctx->is_raii)
         raii_unwind_set(ctx, ctx->ex, ctx->panic);
@@ -410,7 +413,8 @@ void ex_throw(string_t exception, string_t file, int line, string_t function, st
 #ifdef _WIN32
     RaiseException(EXCEPTION_PANIC, 0, 0, NULL);
 #endif
-    ex_longjmp(ctx->buf, ctx->state | ex_throw_st);
+    /* A guard runs what is left of its deferred functions, however often they throw. */
+    ex_longjmp(ctx->buf, (ctx->is_guarded ? ex_try_st : ctx->state) | ex_throw_st);
 }
 
 #ifdef _WIN32
@@ -454,7 +458,9 @@ int catch_seh(const char *exception, DWORD code, struct _EXCEPTION_POINTERS *ep)
                 ctx->function = NULL;
             }
 
-            if (exception_setup_func)
+            if (ctx->is_guarded)
+                guard_set(ctx, ctx->ex, ctx->panic);
+            else if (exception_setup_func)
                 exception_setup_func(ctx, ctx->ex, ctx->panic);
             else if (ctx->is_raii)
                 raii_unwind_set(ctx, ctx->ex, ctx->panic);
@@ -486,7 +492,9 @@ int catch_filter_seh(DWORD code, struct _EXCEPTION_POINTERS *ep) {
             ctx->line = 0;
             ctx->function = NULL;
 
-            if (exception_setup_func)
+            if (ctx->is_guarded)
+                guard_set(ctx, ctx->ex, ctx->panic);
+            else if (exception_setup_func)
                 exception_setup_func(ctx, ctx->ex, ctx->panic);
             else if (ctx->is_raii)
                 raii_unwind_set(ctx, ctx->ex, ctx->panic);
diff --git a/src/raii.c b/src/raii.c
index 2fd10e2..91f865e 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -115,7 +115,11 @@ memory_t *raii_init(void) {
         scope->is_recovered = false;
         scope->mid = -1;
 
+        /* The outermost context, the scope doesn't end with any `try` block. */
         ex_context_t *ctx = ex_init();
+        while (!is_empty(ctx->next))
+            ctx = ctx->next;
+
         ctx->data = (void *)scope;
         ctx->prev = (void *)scope;
         ctx->is_raii = true;
@@ -502,6 +506,9 @@ bool raii_caught(const char *err) {
 }
 
 bool raii_is_caught(memory_t *scope, const char *err) {
+    if (is_empty(scope))
+        return false;
+
     const char *exception = (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
     if ((scope->is_recovered = is_str_eq(err, exception)))
         ex_local()->state = ex_catch_st;
@@ -516,6 +523,9 @@ const char *raii_message(void) {
 }
 
 RAII_INLINE const char *raii_message_by(memory_t *scope) {
+    if (is_empty(scope))
+        return NULL;
+
     return !is_empty((void *)scope->panic) ? scope->panic : scope->err;
 }
 
@@ -528,20 +538,13 @@ RAII_INLINE void raii_defer_fire(size_t index) {
 }
 
 void guard_set(ex_context_t *ctx, const char *ex, const char *message) {
-    memory_t *scope = raii_local()->arena;
+    memory_t *scope = (memory_t *)ctx->data;
     scope->err = (void *)ex;
     scope->panic = message;
-    ctx->is_guarded = true;
-    ex_swap_set(ctx, (void *)scope);
-    ex_unwind_set(ctx, scope->is_protected);
 }
 
-void guard_reset(void *scope, ex_setup_func set, ex_unwind_func unwind) {
+void guard_reset(void *scope) {
     raii_local()->arena = scope;
-    ex_swap_reset(ex_local());
-    ex_local()->is_guarded = false;
-    exception_setup_func = set;
-    exception_unwind_func = unwind;
 }
 
 void guard_delete(memory_t *ptr) {
-- 
2.43.0


From 90486ccd0d8da12adec61bc7d65fbb5d36502069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 18/33] fix: what a thread raised was recorded where all
 threads write

---
 src/except.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/except.c b/src/except.c
index ada4f45..da01ea0 100644
--- a/src/except.c
+++ b/src/except.c
@@ -58,9 +58,9 @@ EX_EXCEPTION(bad_alloc);
 
 thrd_local(ex_context_t, except, NULL)
 
-static volatile sig_atomic_t got_signal = false;
-static volatile sig_atomic_t got_uncaught_exception = false;
-static volatile sig_atomic_t got_ctrl_c = false;
+static thread_local volatile sig_atomic_t got_signal = false;
+static thread_local volatile sig_atomic_t got_uncaught_exception = false;
+static thread_local volatile sig_atomic_t got_ctrl_c = false;
 static volatile sig_atomic_t can_terminate = true;
 
 ex_setup_func exception_setup_func = NULL;
-- 
2.43.0


From c5454ce1f04c1e637b60028db7693e99bae47410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 19/33] fix: an exception thrown inside catch_if was caught by
 the same catch_if again

---
 include/exception.h | 2 ++
 include/raii.h      | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/exception.h b/include/exception.h
index ea1d8da..88f0140 100644
--- a/include/exception.h
+++ b/include/exception.h
@@ -344,6 +344,8 @@ throws an exception of given message. */
     {                                \
         {                            \
             EX_MAKE();               \
+            /* still thrown if not caught here, what is thrown in here is not caught here */ \
+            ex_err.state = ex_throw_st | ex_catch_st;
 
 #define ex_finally                          \
     }                                    \
diff --git a/include/raii.h b/include/raii.h
index f810756..9131661 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -579,7 +579,7 @@ are only valid between these sections.
         raii_deferred_free(_$##__FUNCTION__);                       \
     } ex_catch_if {                                                 \
         raii_deferred_free(_$##__FUNCTION__);                       \
-        if (ex_err.state == ex_throw_st && raii_is_caught(_$##__FUNCTION__, raii_message_by(_$##__FUNCTION__))) { \
+        if ((ex_err.state & ex_throw_st) && raii_is_caught(_$##__FUNCTION__, raii_message_by(_$##__FUNCTION__))) { \
             ((memory_t *)error)->err = (void_t)ex_err.ex;                   \
             ((memory_t *)error)->panic = ex_err.panic;              \
             ((memory_t *)error)->backtrace = ex_err.backtrace;      \
-- 
2.43.0


From 8b2fef8150c66b873a57c1a2579ede8d06f3e11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 20/33] fix: a future was read after it was freed

---
 src/future.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/future.c b/src/future.c
index 7bba7f8..bd3a5ac 100644
--- a/src/future.c
+++ b/src/future.c
@@ -110,9 +110,10 @@ future thrd_async(thrd_func_t fn, void_t args) {
 
 values_type thrd_get(future f) {
     if (is_type(f, RAII_FUTURE) && !is_empty(f->value) && is_type(f->value, RAII_PROMISE)) {
-        raii_values_t *r = promise_get(f->value);
+        promise *p = f->value;
+        raii_values_t *r = promise_get(p);
         future_close(f);
-        promise_close(f->value);
+        promise_close(p);
         if (is_empty(r))
             return thrd_value(0)->value;
 
@@ -262,7 +263,8 @@ future_t thrd_sync(future_t v) {
     int i, x;
     memory_t *scope = v->scope;
     for (i = 0; i < v->thread_count; i++) {
-        raii_values_t *result = promise_get(v->futures[i]->value);
+        promise *p = v->futures[i]->value;
+        raii_values_t *result = promise_get(p);
         size_t size = result->size;
         v->results[i]->result = (raii_values_t *)calloc_full(scope, 1, sizeof(raii_values_t), RAII_FREE);
         if (size > 0) {
@@ -275,7 +277,7 @@ future_t thrd_sync(future_t v) {
 
         v->results[i]->is_ready = true;
         future_close(v->futures[i]);
-        promise_close(v->futures[i]->value);
+        promise_close(p);
     }
 
     raii_deferred_clean();
-- 
2.43.0


From 4149b4463f2217923566a8fe3b2c7cecf4badb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 21/33] fix: a future's thread wrote into the scope of the
 caller

Result, exception and the returned object's release were put into the
caller's scope by the thread itself while the caller used it, an argument
that is not an args_t was read as one, and no (or a null) result was used
as a pointer.
---
 include/raii.h |  2 ++
 src/future.c   | 52 +++++++++++++++++++++++++++++++++++---------------
 2 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/include/raii.h b/include/raii.h
index 9131661..7150f55 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -199,6 +199,8 @@ typedef struct _promise {
     atomic_spinlock mutex;
     memory_t *scope;
     raii_values_t *result;
+    memory_t outcome[1];
+    raii_values_t returned[1];
 } promise;
 
 typedef struct {
diff --git a/src/future.c b/src/future.c
index bd3a5ac..00f7259 100644
--- a/src/future.c
+++ b/src/future.c
@@ -10,9 +10,19 @@ Modified from https://gist.github.com/Geal/8f85e02561d101decf9a
 
 #include "raii.h"
 
-static promise *promise_create(void) {
-    promise *p = calloc_default(1, sizeof(promise));
-    p->scope = raii_local();
+/* The result `thrd_returning` made in this thread. */
+static thread_local raii_values_t *thrd_returned = NULL;
+
+static void promise_free(promise *p) {
+    RAII_FREE(p->result->extended);
+    RAII_FREE(p);
+}
+
+/* The thread keeps its result and exception here, it has no part in the scope of the caller. */
+static promise *promise_create(memory_t *scope) {
+    promise *p = calloc_full(scope, 1, sizeof(promise), (func_t)promise_free);
+    p->scope = p->outcome;
+    p->result = p->returned;
     atomic_flag_clear(&p->mutex);
     atomic_flag_clear(&p->done);
     p->type = RAII_PROMISE;
@@ -24,9 +34,9 @@ static void promise_set(promise *p, void_t res, bool is_args) {
     atomic_lock(&p->mutex);
     if (!is_empty(res)) {
         if (is_args) {
-            p->result = (raii_values_t *)res;
+            memcpy(p->result, res, sizeof(raii_values_t));
+            RAII_FREE(res);
         } else {
-            p->result = (raii_values_t *)calloc_full(p->scope, 1, sizeof(raii_values_t), RAII_FREE);
             p->result->value.object = res;
         }
     }
@@ -48,7 +58,7 @@ static void promise_close(promise *p) {
         atomic_flag_clear(&p->mutex);
         atomic_flag_clear(&p->done);
         if (!is_empty(p->scope->err))
-            ex_throw(p->scope->err, "unknown", 0, "thrd_raii_wrapper", p->scope->panic, p->scope->backtrace);
+            ex_throw(p->scope->err, "unknown", 0, "thrd_raii_wrapper", p->scope->panic, nullptr);
     }
 }
 
@@ -67,6 +77,12 @@ static void future_close(future f) {
     }
 }
 
+static void thrd_returned_free(void) {
+    RAII_FREE(thrd_returned->extended);
+    RAII_FREE(thrd_returned);
+    thrd_returned = NULL;
+}
+
 static int thrd_raii_wrapper(void_t arg) {
     future_arg *f = (future_arg *)arg;
     int err = 0;
@@ -78,13 +94,17 @@ static int thrd_raii_wrapper(void_t arg) {
         res = f->func((args_t)f->arg);
     } guarded_exception(f->value->scope);
 
-    promise_set(f->value, res, (is_type(f->arg, RAII_ARGS) && ((args_t)f->arg)->is_returning));
+    if (!is_empty(thrd_returned) && thrd_returned != res)
+        thrd_returned_free();
+
+    promise *p = f->value;
     if (is_type(f, RAII_FUTURE_ARG)) {
         memset(f, 0, sizeof(f));
         RAII_FREE(f);
     }
 
     raii_destroy();
+    promise_set(p, res, !is_empty(thrd_returned));
     rpmalloc_thread_finalize(1);
     thrd_exit(err);
     return err;
@@ -101,7 +121,7 @@ static void thrd_start(future f, promise *value, void_t arg) {
 }
 
 future thrd_async(thrd_func_t fn, void_t args) {
-    promise *p = promise_create();
+    promise *p = promise_create(raii_init());
     future f = future_create(fn);
     f->value = p;
     thrd_start(f, p, args);
@@ -114,9 +134,6 @@ values_type thrd_get(future f) {
         raii_values_t *r = promise_get(p);
         future_close(f);
         promise_close(p);
-        if (is_empty(r))
-            return thrd_value(0)->value;
-
         return r->value;
     }
 
@@ -133,12 +150,17 @@ RAII_INLINE void thrd_wait(future f, wait_func yield) {
 }
 
 RAII_INLINE raii_values_t *thrd_returning(args_t args, void_t value, size_t size) {
-    raii_deferred(args->context, RAII_FREE, value);
-    raii_values_t *result = (raii_values_t *)calloc_full(args->context, 1, sizeof(raii_values_t), RAII_FREE);
+    if (!is_empty(thrd_returned))
+        thrd_returned_free();
+
+    protected(value, RAII_FREE);
+    raii_values_t *result = (raii_values_t *)try_calloc(1, sizeof(raii_values_t));
+    unprotected(value);
     result->value.object = value;
     result->size = size;
     result->extended = value;
     args->is_returning = true;
+    thrd_returned = result;
     return result;
 }
 
@@ -226,7 +248,7 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
         pool->results = try_realloc(pool->results, (pool->thread_count + pool->cpu_present) * sizeof(pool->results[0]));
     }
 
-    promise *p = promise_create();
+    promise *p = promise_create(raii_init());
     future f = future_create(fn);
     future_arg *f_arg = try_calloc(1, sizeof(future_arg));
     f_arg->func = f->func;
@@ -250,7 +272,7 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
 result_t thrd_spawn_ex(thrd_func_t fn, const char *desc, ...) {
     va_list args;
     va_start(args, desc);
-    args_t params = raii_args_ex(raii_local(), desc, args);
+    args_t params = raii_args_ex(nullptr, desc, args);
     va_end(args);
 
     return thrd_spawn(fn, (void_t)params);
-- 
2.43.0


From 7393f3844977599ea3cdff9a1108040290a70df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 22/33] fix: a thread scope and a guard took each other's place

Both were kept in the same field of the default scope: spawning inside a
guard failed, a guard around a thread scope reported its data as a message,
and the field kept pointing to a destroyed thread scope.
---
 include/raii.h | 2 ++
 src/future.c   | 9 ++++++---
 src/raii.c     | 1 +
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/raii.h b/include/raii.h
index 7150f55..338996d 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -172,6 +172,8 @@ struct memory_s {
     ex_backtrace_t *backtrace;
     void *volatile err;
     const char *volatile panic;
+    /* thread scope in use, see `thrd_scope` */
+    void *threading;
 };
 
 typedef struct args_s {
diff --git a/src/future.c b/src/future.c
index 00f7259..88df000 100644
--- a/src/future.c
+++ b/src/future.c
@@ -233,16 +233,16 @@ future_t thrd_scope(void) {
     pool->futures = NULL;
     pool->results = NULL;
     pool->type = RAII_SPAWN;
-    spawn->arena = pool;
+    spawn->threading = pool;
 
     return pool;
 }
 
 result_t thrd_spawn(thrd_func_t fn, void_t args) {
-    if (is_raii_empty() || !is_type(raii_local()->arena, RAII_SPAWN))
+    if (is_raii_empty() || is_empty(raii_local()->threading) || !is_type(raii_local()->threading, RAII_SPAWN))
         raii_panic("No initialization, No `thrd_scope`!");
 
-    future_t pool = (future_t)raii_local()->arena;
+    future_t pool = (future_t)raii_local()->threading;
     if (pool->thread_count % pool->cpu_present == 0) {
         pool->futures = try_realloc(pool->futures, (pool->thread_count + pool->cpu_present) * sizeof(pool->futures[0]));
         pool->results = try_realloc(pool->results, (pool->thread_count + pool->cpu_present) * sizeof(pool->results[0]));
@@ -317,6 +317,9 @@ void thrd_destroy(future_t f) {
     if (is_type(f, RAII_SPAWN)) {
         memory_t *scope = f->scope;
         f->type = -1;
+        if (!is_raii_empty() && raii_local()->threading == f)
+            raii_local()->threading = NULL;
+
         RAII_FREE(f->futures);
         RAII_FREE(f->results);
         raii_delete(scope);
diff --git a/src/raii.c b/src/raii.c
index 91f865e..dfc72dd 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -108,6 +108,7 @@ memory_t *raii_init(void) {
             raii_panic("Deferred initialization failed!");
 
         scope->arena = NULL;
+        scope->threading = NULL;
         scope->protector = NULL;
         scope->panic = NULL;
         scope->err = NULL;
-- 
2.43.0


From 9325b5fb5159347070c38334d48af41ac15eaa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 23/33] fix: synchronising a thread scope ended the caller's
 default scope

thrd_sync ran everything the caller had deferred and released its memory;
an exception of one thread left the others unfinished for good, and a
second call, or thrd_is_finish, used freed futures.
---
 src/future.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/future.c b/src/future.c
index 88df000..3fb84bc 100644
--- a/src/future.c
+++ b/src/future.c
@@ -248,7 +248,7 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
         pool->results = try_realloc(pool->results, (pool->thread_count + pool->cpu_present) * sizeof(pool->results[0]));
     }
 
-    promise *p = promise_create(raii_init());
+    promise *p = promise_create(pool->scope);
     future f = future_create(fn);
     future_arg *f_arg = try_calloc(1, sizeof(future_arg));
     f_arg->func = f->func;
@@ -284,7 +284,11 @@ future_t thrd_sync(future_t v) {
 
     int i, x;
     memory_t *scope = v->scope;
+    promise *failed = NULL;
     for (i = 0; i < v->thread_count; i++) {
+        if (v->results[i]->is_ready)
+            continue;
+
         promise *p = v->futures[i]->value;
         raii_values_t *result = promise_get(p);
         size_t size = result->size;
@@ -299,10 +303,14 @@ future_t thrd_sync(future_t v) {
 
         v->results[i]->is_ready = true;
         future_close(v->futures[i]);
-        promise_close(p);
+        if (is_empty(failed) && !is_empty(p->scope->err))
+            failed = p;
     }
 
-    raii_deferred_clean();
+    /* Only after every thread has ended. */
+    if (!is_empty(failed))
+        promise_close(failed);
+
     return v;
 }
 
@@ -329,7 +337,7 @@ void thrd_destroy(future_t f) {
 RAII_INLINE bool thrd_is_finish(future_t f) {
     size_t i;
     for (i = 0; i < f->thread_count; i++) {
-        if (!thrd_is_done(f->futures[i]))
+        if (!f->results[i]->is_ready && !thrd_is_done(f->futures[i]))
             return false;
     }
 
-- 
2.43.0


From b315107e9b955785c5c9d7596ce34d989a1644a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 24/33] fix: a future that could not be started leaked

What was allocated for it before an allocation or thread creation failed
was lost, and a thread could be started that nobody knows of.
---
 src/future.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/future.c b/src/future.c
index 3fb84bc..6146978 100644
--- a/src/future.c
+++ b/src/future.c
@@ -111,13 +111,18 @@ static int thrd_raii_wrapper(void_t arg) {
 }
 
 static void thrd_start(future f, promise *value, void_t arg) {
+    protected(f, RAII_FREE);
     future_arg *f_arg = try_calloc(1, sizeof(future_arg));
+    protected(f_arg, RAII_FREE);
     f_arg->func = f->func;
     f_arg->arg = arg;
     f_arg->value = value;
     f_arg->type = RAII_FUTURE_ARG;
     if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success)
         throw(future_error);
+
+    unprotected(f_arg);
+    unprotected(f);
 }
 
 future thrd_async(thrd_func_t fn, void_t args) {
@@ -224,8 +229,10 @@ future_t thrd_pool(size_t count, size_t queue_count) {
 }
 
 future_t thrd_scope(void) {
-    unique_t *scope = unique_init(), *spawn = raii_init();
+    unique_t *spawn = raii_init(), *scope = unique_init();
+    protected(scope, (ex_unwind_func)raii_delete);
     future_t pool = (future_t)calloc_full(scope, 1, sizeof(struct future_pool), RAII_FREE);
+    unprotected(scope);
 
     pool->scope = scope;
     pool->thread_count = 0;
@@ -249,21 +256,15 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
     }
 
     promise *p = promise_create(pool->scope);
-    future f = future_create(fn);
-    future_arg *f_arg = try_calloc(1, sizeof(future_arg));
-    f_arg->func = f->func;
-    f_arg->arg = args;
-    f_arg->value = p;
-    f_arg->type = RAII_FUTURE_ARG;
-    f->value = p;
-    if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success)
-        throw(future_error);
-
-    pool->futures[pool->thread_count] = f;
     pool->results[pool->thread_count] = (result_t)calloc_full(pool->scope, 1, sizeof(struct result_data), RAII_FREE);
     pool->results[pool->thread_count]->is_ready = false;
     pool->results[pool->thread_count]->result = NULL;
     pool->results[pool->thread_count]->type = RAII_VALUE;
+
+    future f = future_create(fn);
+    f->value = p;
+    thrd_start(f, p, args);
+    pool->futures[pool->thread_count] = f;
     pool->thread_count++;
 
     return pool->results[pool->thread_count - 1];
@@ -275,7 +276,10 @@ result_t thrd_spawn_ex(thrd_func_t fn, const char *desc, ...) {
     args_t params = raii_args_ex(nullptr, desc, args);
     va_end(args);
 
-    return thrd_spawn(fn, (void_t)params);
+    protected(params, (ex_unwind_func)args_free);
+    result_t result = thrd_spawn(fn, (void_t)params);
+    unprotected(params);
+    return result;
 }
 
 future_t thrd_sync(future_t v) {
-- 
2.43.0


From d93eca5b9e43dd116a9c7a86a84020df8d0a6578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 25/33] fix: cleared and freed arenas kept using chunks they
 had given up

arena_clear put chunks into the shared free list that the arena went on
allocating from, arena_free left them in use or lost them, the free list
was not safe for threads, and a failed allocation returned null (or was
cleared through it) after being counted as capacity.
---
 src/arena.c | 98 ++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 67 insertions(+), 31 deletions(-)

diff --git a/src/arena.c b/src/arena.c
index 1459b31..e3e3f87 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -7,6 +7,7 @@ union header {
 
 static arena_t free_list = NULL;
 static int num_free = 0;
+static atomic_spinlock free_mutex;
 
 /**
  * Will allow to translate back and forth between the pointer
@@ -27,16 +28,64 @@ arena_t arena_init(size_t threshold) {
     return arena;
 }
 
+/* Takes a chunk from the free list, which serves the arenas of all threads. */
+static arena_t arena_reuse(void) {
+    arena_t ptr;
+    atomic_lock(&free_mutex);
+    if ((ptr = free_list) != NULL) {
+        free_list = free_list->next;
+        num_free--;
+    }
+
+    atomic_unlock(&free_mutex);
+    return ptr;
+}
+
+/* Puts a chunk into the free list, or gives it back if that has `max` chunks. */
+static void arena_release(arena_t ptr, char *limit, int max) {
+    atomic_lock(&free_mutex);
+    if (num_free < max) {
+        ptr->limit = limit;
+        ptr->next = free_list;
+        free_list = ptr;
+        num_free++;
+        ptr = NULL;
+    }
+
+    atomic_unlock(&free_mutex);
+    RAII_FREE(ptr);
+}
+
+/* Leaves only the newest chunk, empty. A chunk's header has what the arena was before it,
+that is the limit of the chunk before. */
+static void arena_reset(arena_t arena, int max) {
+    arena_t ptr, last = arena->next;
+    char *limit = is_empty(last) ? NULL : last->limit;
+    while (!is_empty(last) && !is_empty(ptr = last->next)) {
+        last->next = ptr->next;
+        last->limit = ptr->limit;
+        arena_release(ptr, limit, max);
+        limit = last->limit;
+    }
+
+    if (!is_empty(last)) {
+        last->avail = last->limit = NULL;
+        arena->avail = (char *)((union header *)last + 1);
+        arena->bytes = 0;
+    }
+}
+
 void arena_free(arena_t arena) {
     if (is_empty(arena))
         return;
 
     if (is_type(arena, RAII_ARENA + RAII_STRUCT)) {
-        num_free += (int)arena->threshold + 1;
-        if (arena->is_global)
+        if (arena->is_global) {
             RAII_FREE(arena->base);
-        else
-            arena_clear(arena);
+        } else {
+            arena_reset(arena, 0);
+            RAII_FREE(arena->next);
+        }
 
         memset(arena, -1, sizeof(arena_t));
         RAII_FREE(arena);
@@ -53,23 +102,23 @@ void *arena_alloc(arena_t arena, long nbytes) {
     while (nbytes > arena->limit - arena->avail) {
         arena_t ptr;
         char *limit;
-        if ((ptr = free_list) != NULL) {
-            free_list = free_list->next;
-            num_free--;
+        if ((ptr = arena_reuse()) != NULL) {
             limit = ptr->limit;
+            arena->total = MAX(arena->total, (size_t)(limit - (char *)ptr));
         } else {
             long m = align_up(sizeof(union header) + nbytes + arena->threshold * 1024, sizeof(u16));
-            arena->total += m;
             if (arena->is_global)
-                ptr = RAII_REALLOC(arena->base, arena->total);
+                ptr = RAII_REALLOC(arena->base, arena->total + m);
             else
-                ptr = RAII_MALLOC(arena->total);
+                ptr = RAII_MALLOC(arena->total + m);
 
             if (ptr == NULL) {
                 errno = ENOMEM;
-                return NULL;
+                raii_panic("Arena allocation failed!");
             }
 
+            arena->total += m;
+
             if (arena->is_global) {
                 arena->base = ptr;
                 limit = (char *)arena->base + arena->total;
@@ -108,29 +157,16 @@ void arena_clear(arena_t arena) {
     if (is_empty(arena))
         return;
 
-    while (!arena->is_global && arena->next && is_type(arena->next, RAII_ARENA)) {
-        arena_t tmp = arena->next;
-        if (num_free < (int)arena->threshold) {
-            arena->next->next = free_list;
-            free_list = arena->next;
-            num_free++;
-            free_list->limit = arena->limit;
-            if (is_zero(free_list->bytes))
-                arena->avail -= arena->bytes;
-            else
-                arena->avail -= free_list->bytes;
-        } else {
-            memset(arena->next, -1, sizeof(arena_t));
-            RAII_FREE(arena->next);
-            arena->next = NULL;
-        }
-
-        arena = tmp;
-    }
+    if (!arena->is_global)
+        arena_reset(arena, (int)arena->threshold);
 }
 
 void arena_print(const arena_t arena) {
-    printf("capacity: %zu, total: %zu, free_list:: %d\n", arena_capacity(arena), arena_total(arena), num_free);
+    int unused;
+    atomic_lock(&free_mutex);
+    unused = num_free;
+    atomic_unlock(&free_mutex);
+    printf("capacity: %zu, total: %zu, free_list:: %d\n", arena_capacity(arena), arena_total(arena), unused);
 }
 
 RAII_INLINE size_t arena_capacity(const arena_t arena) {
-- 
2.43.0


From bbf5e733a60d394d99763e49455cd9d6ed01957b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 26/33] fix: generic atomic operations took every object for
 one of 64 bits

The generic forms used the 64-bit operation whatever the object was, so that
smaller ones read and overwrote their neighbours and lost their sign, one cast
its operand and another its expected value to the wrong kind. They now act on
an object's own width and yield a value of its own type.
---
 include/catomic.h | 83 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 54 insertions(+), 29 deletions(-)

diff --git a/include/catomic.h b/include/catomic.h
index 5f12f11..47787a7 100644
--- a/include/catomic.h
+++ b/include/catomic.h
@@ -2640,7 +2640,7 @@ static C89ATOMIC_INLINE void c89atomic_spinlock_unlock(atomic_spinlock *pSpinloc
 #   define atomic_get(type, obj)  (type)c89atomic_load_32((atomic_uint *)obj)
 #else
 /* reads a value from an atomic object then cast to type */
-#   define atomic_get(type, obj)  (type)c89atomic_load_64((atomic_ullong *)obj)
+#   define atomic_get(type, obj)  (type)atomic_load(obj)
 #endif
 
 #define atomic_lock(mutex)   c89atomic_spinlock_lock((atomic_spinlock *)mutex)
@@ -2731,69 +2731,94 @@ static C89ATOMIC_INLINE void c89atomic_spinlock_unlock(atomic_spinlock *pSpinloc
 #define atomic_compare_exchange_strong_explicit(obj, expected, desired, succ, fail)	\
     c89atomic_compare_exchange_strong_explicit_32((atomic_uint *)obj, (c89atomic_uint32)expected, (c89atomic_uint32)desired, succ, fail)
 #else
+#if defined(__GNUC__) || defined(__TINYC__)
+/* The result of a generic operation has the type of the object */
+#   define c89atomic_as(obj)    (__typeof__(*(obj)))
+#else
+#   define c89atomic_as(obj)
+#endif
+/* A generic operation has the width of the object */
+#define c89atomic_sized(obj, op8, op16, op32, op64)                                 \
+    (sizeof(*(obj)) == 1 ? (op8) : sizeof(*(obj)) == 2 ? (op16) : sizeof(*(obj)) == 4 ? (op32) : (op64))
+#define c89atomic_sized_load(obj, order, bits)                                      \
+    c89atomic_load_explicit_##bits((volatile c89atomic_uint##bits *)(obj), order)
+#define c89atomic_sized_op(op, obj, arg, order, bits)                               \
+    c89atomic_##op##_explicit_##bits((volatile c89atomic_uint##bits *)(obj), (c89atomic_uint##bits)(c89atomic_uint64)(arg), order)
+#define c89atomic_sized_cas(op, obj, expected, desired, succ, fail, bits)           \
+    c89atomic_##op##_explicit_##bits((volatile c89atomic_uint##bits *)(obj),        \
+        (c89atomic_uint##bits *)(expected), (c89atomic_uint##bits)(c89atomic_uint64)(desired), succ, fail)
+#define c89atomic_generic_op(op, obj, arg, order)                                   \
+    c89atomic_sized(obj, c89atomic_sized_op(op, obj, arg, order, 8), c89atomic_sized_op(op, obj, arg, order, 16),   \
+        c89atomic_sized_op(op, obj, arg, order, 32), c89atomic_sized_op(op, obj, arg, order, 64))
+#define c89atomic_generic_cas(op, obj, expected, desired, succ, fail)               \
+    c89atomic_sized(obj, c89atomic_sized_cas(op, obj, expected, desired, succ, fail, 8),    \
+        c89atomic_sized_cas(op, obj, expected, desired, succ, fail, 16),            \
+        c89atomic_sized_cas(op, obj, expected, desired, succ, fail, 32),            \
+        c89atomic_sized_cas(op, obj, expected, desired, succ, fail, 64))
+
 /* indicates whether the atomic object is lock-free */
-#define atomic_is_lock_free(obj)  c89atomic_is_lock_free_64((atomic_ullong *)obj)
+#define atomic_is_lock_free(obj)	c89atomic_sized(obj,                                    \
+    c89atomic_is_lock_free_8((volatile c89atomic_uint8 *)(obj)), c89atomic_is_lock_free_16((volatile c89atomic_uint16 *)(obj)), \
+    c89atomic_is_lock_free_32((volatile c89atomic_uint32 *)(obj)), c89atomic_is_lock_free_64((volatile c89atomic_uint64 *)(obj)))
 
 /* stores a value in an atomic object */
-#define atomic_store(obj, desired)	c89atomic_store_64((atomic_ullong *)obj, (c89atomic_uint64)desired)
+#define atomic_store(obj, desired)	atomic_store_explicit(obj, desired, memory_order_seq_cst)
 /* stores a value in an atomic object */
-#define atomic_store_explicit(obj, desired, order)	c89atomic_store_explicit_64((atomic_ullong *)obj, (c89atomic_uint64)desired, order)
+#define atomic_store_explicit(obj, desired, order)	c89atomic_generic_op(store, obj, desired, order)
 
 /* reads a value from an atomic object */
-#define atomic_load(obj)    c89atomic_load_64((atomic_ullong *)obj)
+#define atomic_load(obj)	atomic_load_explicit(obj, memory_order_seq_cst)
 /* reads a value from an atomic object */
-#define atomic_load_explicit(obj, order)	c89atomic_load_explicit_64((atomic_ullong *)obj, order)
+#define atomic_load_explicit(obj, order)	(c89atomic_as(obj)c89atomic_sized(obj,          \
+    c89atomic_sized_load(obj, order, 8), c89atomic_sized_load(obj, order, 16),      \
+    c89atomic_sized_load(obj, order, 32), c89atomic_sized_load(obj, order, 64)))
 
 /* initializes an existing atomic object */
-#define atomic_init(obj, desired)  c89atomic_store_64((atomic_ullong *)obj, (c89atomic_uint64)desired)
+#define atomic_init(obj, desired)	atomic_store(obj, desired)
 
 /* atomic addition */
-#define atomic_fetch_add(obj, arg)	c89atomic_fetch_add_64((atomic_ullong *)obj, (c89atomic_uint64)arg)
+#define atomic_fetch_add(obj, arg)	atomic_fetch_add_explicit(obj, arg, memory_order_seq_cst)
 /* atomic addition */
-#define atomic_fetch_add_explicit(obj, arg, order)	c89atomic_fetch_add_explicit_64((atomic_ullong *)obj, (c89atomic_uint64)arg, order)
+#define atomic_fetch_add_explicit(obj, arg, order)	(c89atomic_as(obj)c89atomic_generic_op(fetch_add, obj, arg, order))
 
 /* atomic subtraction */
-#define atomic_fetch_sub(obj, arg)	c89atomic_fetch_sub_64((atomic_ullong *)obj, (c89atomic_uint64)arg)
+#define atomic_fetch_sub(obj, arg)	atomic_fetch_sub_explicit(obj, arg, memory_order_seq_cst)
 /* atomic subtraction */
-#define atomic_fetch_sub_explicit(obj, arg, order)	c89atomic_fetch_sub_explicit_64(obj, (c89atomic_uint64)arg, order)
+#define atomic_fetch_sub_explicit(obj, arg, order)	(c89atomic_as(obj)c89atomic_generic_op(fetch_sub, obj, arg, order))
 
 /* atomic bitwise OR */
-#define atomic_fetch_or(obj, arg)	c89atomic_fetch_or_64((atomic_ullong *)obj, (atomic_ullong *)arg)
+#define atomic_fetch_or(obj, arg)	atomic_fetch_or_explicit(obj, arg, memory_order_seq_cst)
 /* atomic bitwise OR */
-#define atomic_fetch_or_explicit(obj, arg, order)	c89atomic_fetch_or_explicit_64((atomic_ullong *)obj, (c89atomic_uint64)arg, order)
+#define atomic_fetch_or_explicit(obj, arg, order)	(c89atomic_as(obj)c89atomic_generic_op(fetch_or, obj, arg, order))
 
 /* atomic bitwise exclusive OR */
-#define atomic_fetch_xor(obj, arg)	                            \
-    c89atomic_fetch_xor_64((atomic_ullong *)obj, (c89atomic_uint64)arg)
+#define atomic_fetch_xor(obj, arg)	atomic_fetch_xor_explicit(obj, arg, memory_order_seq_cst)
 /* atomic bitwise exclusive OR */
-#define atomic_fetch_xor_explicit(obj, arg, order)	            \
-    c89atomic_fetch_xor_explicit_64((atomic_ullong *)obj, (c89atomic_uint64)arg, order)
+#define atomic_fetch_xor_explicit(obj, arg, order)	(c89atomic_as(obj)c89atomic_generic_op(fetch_xor, obj, arg, order))
 
 /* atomic bitwise AND */
-#define atomic_fetch_and(obj, arg)	                            \
-    c89atomic_fetch_and_64((atomic_ullong *)obj, (c89atomic_uint64)arg)
+#define atomic_fetch_and(obj, arg)	atomic_fetch_and_explicit(obj, arg, memory_order_seq_cst)
 /* atomic bitwise AND */
-#define atomic_fetch_and_explicit(obj, arg, order)	            \
-    c89atomic_fetch_and_explicit_64((atomic_ullong *)obj, (c89atomic_uint64)arg, order)
+#define atomic_fetch_and_explicit(obj, arg, order)	(c89atomic_as(obj)c89atomic_generic_op(fetch_and, obj, arg, order))
 
 /* swaps a value with the value of an atomic object */
-#define atomic_exchange(obj, desired)	                        \
-    c89atomic_exchange_64((atomic_ullong *)obj, (c89atomic_uint64)desired)
+#define atomic_exchange(obj, desired)	atomic_exchange_explicit(obj, desired, memory_order_seq_cst)
 /* swaps a value with the value of an atomic object */
-#define atomic_exchange_explicit(obj, desired, order)	        \
-    c89atomic_exchange_explicit_64((atomic_ullong *)obj, (c89atomic_uint64)desired, order)
+#define atomic_exchange_explicit(obj, desired, order)	(c89atomic_as(obj)c89atomic_generic_op(exchange, obj, desired, order))
 
 /* swaps a value with an atomic object if the old value is what is expected, otherwise reads the old value */
-#define atomic_compare_exchange_weak(obj, expected, desired)    atomic_cas((atomic_ullong *)obj, expected, desired)
+#define atomic_compare_exchange_weak(obj, expected, desired)	\
+    atomic_compare_exchange_weak_explicit(obj, expected, desired, memory_order_seq_cst, memory_order_seq_cst)
 /* swaps a value with an atomic object if the old value is what is expected, otherwise reads the old value */
 #define atomic_compare_exchange_weak_explicit(obj, expected, desired, succ, fail)	\
-    c89atomic_compare_exchange_weak_explicit_64((atomic_ullong *)obj, (c89atomic_uint64)expected, (c89atomic_uint64)desired, succ, fail)
+    c89atomic_generic_cas(compare_exchange_weak, obj, expected, desired, succ, fail)
 
 /* swaps a value with an atomic object if the old value is what is expected, otherwise reads the old value */
-#define atomic_compare_exchange_strong(obj, expected, desired) atomic_cas((atomic_ullong *)obj, expected, desired)
+#define atomic_compare_exchange_strong(obj, expected, desired)	\
+    atomic_compare_exchange_strong_explicit(obj, expected, desired, memory_order_seq_cst, memory_order_seq_cst)
 /* swaps a value with an atomic object if the old value is what is expected, otherwise reads the old value */
 #define atomic_compare_exchange_strong_explicit(obj, expected, desired, succ, fail)	\
-    c89atomic_compare_exchange_strong_explicit_64((atomic_ullong *)obj, (c89atomic_uint64 *)expected, (c89atomic_uint64)desired, succ, fail)
+    c89atomic_generic_cas(compare_exchange_strong, obj, expected, desired, succ, fail)
 #endif
 #endif
 
-- 
2.43.0


From 1298260a7a1de5f8ca96e33b98141cd340fe7d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 27/33] fix: adding to an atomic float added the bits of its
 representation

---
 include/catomic.h | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/catomic.h b/include/catomic.h
index 47787a7..13e8d2d 100644
--- a/include/catomic.h
+++ b/include/catomic.h
@@ -2399,39 +2399,39 @@ static C89ATOMIC_INLINE c89atomic_bool c89atomic_compare_exchange_weak_explicit_
 
 static C89ATOMIC_INLINE float c89atomic_fetch_add_explicit_f32(volatile float* dst, float src, c89atomic_memory_order order)
 {
-    c89atomic_if32 r;
-    c89atomic_if32 x;
-    x.f = src;
-    r.i = c89atomic_fetch_add_explicit_32((volatile c89atomic_uint32*)dst, x.i, order);
-    return r.f;
+    float r = c89atomic_load_explicit_f32(dst, c89atomic_memory_order_relaxed);
+    (void)order;
+    while (!c89atomic_compare_exchange_strong_explicit_f32(dst, &r, r + src, c89atomic_memory_order_seq_cst, c89atomic_memory_order_seq_cst))
+        ;
+    return r;
 }
 
 static C89ATOMIC_INLINE double c89atomic_fetch_add_explicit_f64(volatile double* dst, double src, c89atomic_memory_order order)
 {
-    c89atomic_if64 r;
-    c89atomic_if64 x;
-    x.f = src;
-    r.i = c89atomic_fetch_add_explicit_64((volatile c89atomic_uint64*)dst, x.i, order);
-    return r.f;
+    double r = c89atomic_load_explicit_f64(dst, c89atomic_memory_order_relaxed);
+    (void)order;
+    while (!c89atomic_compare_exchange_strong_explicit_f64(dst, &r, r + src, c89atomic_memory_order_seq_cst, c89atomic_memory_order_seq_cst))
+        ;
+    return r;
 }
 
 
 static C89ATOMIC_INLINE float c89atomic_fetch_sub_explicit_f32(volatile float* dst, float src, c89atomic_memory_order order)
 {
-    c89atomic_if32 r;
-    c89atomic_if32 x;
-    x.f = src;
-    r.i = c89atomic_fetch_sub_explicit_32((volatile c89atomic_uint32*)dst, x.i, order);
-    return r.f;
+    float r = c89atomic_load_explicit_f32(dst, c89atomic_memory_order_relaxed);
+    (void)order;
+    while (!c89atomic_compare_exchange_strong_explicit_f32(dst, &r, r - src, c89atomic_memory_order_seq_cst, c89atomic_memory_order_seq_cst))
+        ;
+    return r;
 }
 
 static C89ATOMIC_INLINE double c89atomic_fetch_sub_explicit_f64(volatile double* dst, double src, c89atomic_memory_order order)
 {
-    c89atomic_if64 r;
-    c89atomic_if64 x;
-    x.f = src;
-    r.i = c89atomic_fetch_sub_explicit_64((volatile c89atomic_uint64*)dst, x.i, order);
-    return r.f;
+    double r = c89atomic_load_explicit_f64(dst, c89atomic_memory_order_relaxed);
+    (void)order;
+    while (!c89atomic_compare_exchange_strong_explicit_f64(dst, &r, r - src, c89atomic_memory_order_seq_cst, c89atomic_memory_order_seq_cst))
+        ;
+    return r;
 }
 
 
-- 
2.43.0


From aff2e23d45f5a769a720810eacf6daa5d67f96e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:27 +0000
Subject: [PATCH 28/33] fix: clearing an atomic float did not compile

---
 include/catomic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/catomic.h b/include/catomic.h
index 13e8d2d..cf6b803 100644
--- a/include/catomic.h
+++ b/include/catomic.h
@@ -2494,8 +2494,8 @@ static C89ATOMIC_INLINE double c89atomic_fetch_and_explicit_f64(volatile double*
 
 
 /* Float Point Implicit */
-#define c89atomic_clear_f32(ptr)                                        (float )c89atomic_clear_explicit_f32(ptr, c89atomic_memory_order_seq_cst)
-#define c89atomic_clear_f64(ptr)                                        (double)c89atomic_clear_explicit_f64(ptr, c89atomic_memory_order_seq_cst)
+#define c89atomic_clear_f32(ptr)                                        c89atomic_clear_explicit_f32(ptr, c89atomic_memory_order_seq_cst)
+#define c89atomic_clear_f64(ptr)                                        c89atomic_clear_explicit_f64(ptr, c89atomic_memory_order_seq_cst)
 
 #define c89atomic_store_f32(dst, src)                                   c89atomic_store_explicit_f32(dst, src, c89atomic_memory_order_seq_cst)
 #define c89atomic_store_f64(dst, src)                                   c89atomic_store_explicit_f64(dst, src, c89atomic_memory_order_seq_cst)
-- 
2.43.0


From 28f85143eac590b62a06130200c15db4623bf3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:24 +0000
Subject: [PATCH 29/33] fix: a deleted thread-local variable was not given its
 initial value again

---
 include/cthread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cthread.h b/include/cthread.h
index cb63015..f38735b 100644
--- a/include/cthread.h
+++ b/include/cthread.h
@@ -509,7 +509,7 @@ extern "C" {
 #   define thrd_local_setup(type, var, initial, prefix)         \
         prefix thread_local type thrd_##var##_tls = initial;    \
         prefix FORCEINLINE void var##_del(void) {               \
-            thrd_##var##_tls = NULL;                            \
+            thrd_##var##_tls = initial;                         \
         }                                                       \
         prefix FORCEINLINE void var##_update(type value) {      \
             thrd_##var##_tls = value;                           \
-- 
2.43.0


From 3b05a1c4b899b008b233bdda7407a7025797c8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:24 +0000
Subject: [PATCH 30/33] fix: plain thread-local variables read as the address
 of a buffer

---
 include/cthread.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/cthread.h b/include/cthread.h
index f38735b..3e5f6f1 100644
--- a/include/cthread.h
+++ b/include/cthread.h
@@ -506,6 +506,12 @@ extern "C" {
             thrd_local_return(type, var)        \
         }
 
+    /* A variable of non-pointer type holds its value itself. */
+#   define thrd_local_get_plain(type, var, initial, prefix) \
+        prefix FORCEINLINE type var(void) {     \
+            thrd_local_return(type, var)        \
+        }
+
 #   define thrd_local_setup(type, var, initial, prefix)         \
         prefix thread_local type thrd_##var##_tls = initial;    \
         prefix FORCEINLINE void var##_del(void) {               \
@@ -525,9 +531,8 @@ extern "C" {
         thrd_local_get(type *, var, initial, )
 
 #   define thrd_local_plain(type, var, initial)         \
-        static thread_local type thrd_##var##_buffer;   \
         thrd_local_setup(type, var, initial, )          \
-        thrd_local_get(type, var, initial, )
+        thrd_local_get_plain(type, var, initial, )
 
 #   define thrd_static(type, var, initial)              \
         static thread_local type thrd_##var##_buffer;   \
@@ -535,9 +540,8 @@ extern "C" {
         thrd_local_get(type *, var, initial, static)
 
 #   define thrd_static_plain(type, var, initial)        \
-        static thread_local type thrd_##var##_buffer;   \
         thrd_local_setup(type, var, initial, static)    \
-        thrd_local_get(type, var, initial, static)
+        thrd_local_get_plain(type, var, initial, static)
 
 #   define thrd_local_proto(type, var, prefix)          \
         prefix thread_local type thrd_##var##_tls;      \
-- 
2.43.0


From 570c336f26942b3cadfda4239d86b91f7afc9390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 31/33] fix: caught() in a deferred function compared with the
 exception ending the thread

---
 src/raii.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/raii.c b/src/raii.c
index dfc72dd..85186f8 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -495,6 +495,10 @@ bool raii_caught(const char *err) {
     memory_t *scope = raii_init();
     const char *exception = (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
 
+    /* In a `try` block it's what was caught there, not what is ending the thread's scope. */
+    if (!ex_local()->is_raii && !ex_local()->is_guarded)
+        exception = NULL;
+
     if (exception == NULL && is_str_eq(err, ex_local()->ex)) {
         ex_local()->state = ex_catch_st;
         return true;
-- 
2.43.0


From 87ecb9e2fffba750f6af910aeae354d69a9bbefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:15 +0000
Subject: [PATCH 32/33] fix: a worker that got no memory for its guard ended
 the process

---
 src/future.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/future.c b/src/future.c
index 6146978..04177d1 100644
--- a/src/future.c
+++ b/src/future.c
@@ -90,9 +90,16 @@ static int thrd_raii_wrapper(void_t arg) {
     f->value->scope->err = nullptr;
     rpmalloc_init();
 
-    guard {
-        res = f->func((args_t)f->arg);
-    } guarded_exception(f->value->scope);
+    try {
+        guard {
+            res = f->func((args_t)f->arg);
+        } guarded_exception(f->value->scope);
+    } catch_any {
+        /* The guard got no memory. */
+        f->value->scope->err = (void_t)ex_err.ex;
+        f->value->scope->panic = ex_err.panic;
+        f->value->scope->backtrace = ex_err.backtrace;
+    } end_try;
 
     if (!is_empty(thrd_returned) && thrd_returned != res)
         thrd_returned_free();
-- 
2.43.0


From d76f3346e2f3dda17d79da1b9f4269720f029aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 33/33] fix: an arena request whose size, or count times size,
 can not exist panics

---
 src/arena.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/arena.c b/src/arena.c
index e3e3f87..e4d742d 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -97,6 +97,12 @@ void *arena_alloc(arena_t arena, long nbytes) {
     if (is_empty(arena))
         raii_panic("Bad block, `NULL` detected!");
 
+    /* No memory is that large, and what's added to the size must not wrap around. */
+    if (UNLIKELY(nbytes < 0 || nbytes > LONG_MAX / 2)) {
+        errno = ENOMEM;
+        raii_panic("Arena allocation failed!");
+    }
+
     RAII_ASSERT(nbytes > 0);
     nbytes = align_up(nbytes, sizeof(u16));
     while (nbytes > arena->limit - arena->avail) {
@@ -147,6 +153,11 @@ void *arena_alloc(arena_t arena, long nbytes) {
 }
 
 void *arena_calloc(arena_t arena, long count, long nbytes) {
+    if (UNLIKELY(count < 0 || nbytes < 0 || (nbytes > 0 && count > LONG_MAX / nbytes))) {
+        errno = ENOMEM;
+        raii_panic("Arena allocation failed!");
+    }
+
     RAII_ASSERT(count > 0);
     void *ptr = arena_alloc(arena, count * nbytes);
     memset(ptr, 0, count * nbytes);
-- 
2.43.0

