From a2d1c5f66991da66cee2458d4283d744308fe9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 01/65] fix: cbuf growth with sizes over INT_MAX, zero-size
 buffers and failed realloc

The free space was computed in an int: an append of more than 2GB was taken
as fitting and written past the end of the buffer. A buffer allocated with
size 0 was not null-terminated and made the growth loop run forever. A failed
realloc left the buffer NULL with the length already grown.
---
 cligen_buf.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/cligen_buf.c b/cligen_buf.c
index 4a1f0cd..5485b1b 100644
--- a/cligen_buf.c
+++ b/cligen_buf.c
@@ -122,7 +122,7 @@ cbuf_new_alloc(size_t sz)
     if ((cb = (cbuf*)malloc(sizeof(*cb))) == NULL)
         return NULL;
     memset(cb, 0, sizeof(*cb));
-    cb->cb_buflen = sz;
+    cb->cb_buflen = sz ? sz : 1; /* Always room for a terminating null byte */
     if ((cb->cb_buffer = malloc(cb->cb_buflen)) == NULL){
         free(cb);
         return NULL;
@@ -213,20 +213,24 @@ static int
 cbuf_realloc(cbuf  *cb,
              size_t sz)
 {
-    int retval = -1;
-    int diff;
-
-    diff = cb->cb_buflen - (cb->cb_strlen + sz + 1);
-    if (diff <= 0){
-        while (diff <= 0){
-            if (cbuflen_threshold == 0 || cb->cb_buflen < cbuflen_threshold)
-                cb->cb_buflen *= 2; /* Double the space - exponential */
+    int    retval = -1;
+    size_t need;
+    size_t len;
+    char  *buf;
+
+    need = cb->cb_strlen + sz + 1;
+    len = cb->cb_buflen;
+    if (len <= need){
+        while (len <= need){
+            if (cbuflen_threshold == 0 || len < cbuflen_threshold)
+                len *= 2; /* Double the space - exponential */
             else
-                cb->cb_buflen += cbuflen_threshold; /* Add - linear growth*/
-            diff = cb->cb_buflen - (cb->cb_strlen + sz + 1);
+                len += cbuflen_threshold; /* Add - linear growth*/
         }
-        if ((cb->cb_buffer = realloc(cb->cb_buffer, cb->cb_buflen)) == NULL)
+        if ((buf = realloc(cb->cb_buffer, len)) == NULL)
             goto done;
+        cb->cb_buffer = buf;
+        cb->cb_buflen = len;
     }
     retval = 0;
  done:
-- 
2.43.0


From 595d4114a523f87e2e2c27d2ff0ba6a204201ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 02/65] Loop contracts for the verifier (guarded by
 CLIGEN_VERIFY)

---
 cligen_buf.c       |  7 ++++++-
 cligen_contracts.h | 51 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 57 insertions(+), 1 deletion(-)
 create mode 100644 cligen_contracts.h

diff --git a/cligen_buf.c b/cligen_buf.c
index 5485b1b..c55c9dc 100644
--- a/cligen_buf.c
+++ b/cligen_buf.c
@@ -60,6 +60,7 @@
 
 #include "cligen_buf.h"              /* External API */
 #include "cligen_buf_internal.h"
+#include "cligen_contracts.h"
 
 /*
  * Variables
@@ -221,7 +222,11 @@ cbuf_realloc(cbuf  *cb,
     need = cb->cb_strlen + sz + 1;
     len = cb->cb_buflen;
     if (len <= need){
-        while (len <= need){
+        while (len <= need)
+        LOOP_ASSIGNS(len)
+        LOOP_INVARIANT(len >= cb->cb_buflen && len <= 2*need + cbuflen_threshold)
+        LOOP_DECREASES(need < len ? 0 : need + 1 - len)
+        {
             if (cbuflen_threshold == 0 || len < cbuflen_threshold)
                 len *= 2; /* Double the space - exponential */
             else
diff --git a/cligen_contracts.h b/cligen_contracts.h
new file mode 100644
index 0000000..5c9193e
--- /dev/null
+++ b/cligen_contracts.h
@@ -0,0 +1,51 @@
+/*
+  ***** BEGIN LICENSE BLOCK *****
+
+  Copyright (C) 2001-2022 Olof Hagsand
+
+  This file is part of CLIgen.
+
+  Licensed under the Apache License, Version 2.0 (the "License");
+  you may not use this file except in compliance with the License.
+  You may obtain a copy of the License at
+
+    http://www.apache.org/licenses/LICENSE-2.0
+
+  Unless required by applicable law or agreed to in writing, software
+  distributed under the License is distributed on an "AS IS" BASIS,
+  WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+  See the License for the specific language governing permissions and
+  limitations under the License.
+
+  Alternatively, the contents of this file may be used under the terms of
+  the GNU General Public License Version 2 or later (the "GPL"),
+  in which case the provisions of the GPL are applicable instead
+  of those above. If you wish to allow use of your version of this file only
+  under the terms of the GPL, and not to allow others to
+  use your version of this file under the terms of Apache License version 2, indicate
+  your decision by deleting the provisions above and replace them with the
+  notice and other provisions required by the GPL. If you do not delete
+  the provisions above, a recipient may use your version of this file under
+  the terms of any one of the Apache License version 2 or the GPL.
+
+  ***** END LICENSE BLOCK *****
+
+  * Loop contracts for deductive verification.
+  * Placed between a loop header and its body. They are only read by the verifier (which
+  * defines CLIGEN_VERIFY), in all other builds they expand to nothing.
+  */
+
+#ifndef _CLIGEN_CONTRACTS_H_
+#define _CLIGEN_CONTRACTS_H_
+
+#ifdef CLIGEN_VERIFY
+#define LOOP_ASSIGNS(...)   __CPROVER_assigns(__VA_ARGS__)
+#define LOOP_INVARIANT(...) __CPROVER_loop_invariant(__VA_ARGS__)
+#define LOOP_DECREASES(...) __CPROVER_decreases(__VA_ARGS__)
+#else
+#define LOOP_ASSIGNS(...)
+#define LOOP_INVARIANT(...)
+#define LOOP_DECREASES(...)
+#endif
+
+#endif /* _CLIGEN_CONTRACTS_H_ */
-- 
2.43.0


From df9f325963fd4aba8bd3649a30e23cdca33017e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 03/65] fix: decimal text without digits or with a sign or
 blank in its fraction was accepted

---
 cligen_cv.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 8089e23..78cdf2f 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -1317,7 +1317,7 @@ parse_dec64(char    *str,
             int64_t *dec64_i,
             char   **reason)
 {
-    int      retval = 1;
+    int      retval = -1;
     char    *s0 = NULL; /* the whole string, eg aaa.bbb*/
     char    *s1;        /* the first part (eg aaa)  */
     char    *s2;        /* the second part (eg bbb)  */
@@ -1374,6 +1374,17 @@ parse_dec64(char    *str,
         }
         memcpy(ss+len1, s2, len2);
     }
+    /* At least one digit, and only digits in the fraction */
+    if (strpbrk(str, "0123456789") == NULL ||
+        (s2 != NULL && strspn(s2, "0123456789") != len2)){
+        if (reason != NULL)
+            if ((*reason = cligen_reason("'%s' is not a number", str)) == NULL){
+                retval = -1; /* malloc */
+                goto done;
+            }
+        retval = 0;
+        goto done;
+    }
     /* Fill out with trailing zeroes if any
        | s1 | s2 |
      */
-- 
2.43.0


From ebd8f9208cafbd10957d82dbd274863254e7d9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 04/65] fix: printing the smallest decimal64 value overflowed

---
 cligen_cv.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 78cdf2f..39cb223 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -2292,14 +2292,15 @@ cv_dec64_print(cg_var *cv,
     int      i;
     uint8_t  n = cv->var_dec64_n;;
     int      len;
-    int64_t di;
+    uint64_t di;
 
     assert(0<n && n<19);
-    /* Convert negative numbers to positive and prepend a '-' at the end */
+    /* Convert negative numbers to positive and prepend a '-' at the end
+     * Unsigned arithmetic: -INT64_MIN does not fit an int64_t */
     di = cv_dec64_i_get(cv);
-    if (di<0)
+    if (cv_dec64_i_get(cv)<0)
         di = -di;
-    len = snprintf(s0, *s0len, "%0*" PRId64, n+1, di);
+    len = snprintf(s0, *s0len, "%0*" PRIu64, n+1, di);
     assert(len>=n);
     *s0len -= len;
     /* Shift fraction digits right, including null character.
-- 
2.43.0


From f560ebce0d5ea60e47dd42818b8ac2e1baca7d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 05/65] Loop contract for parse_dec64 (guarded by
 CLIGEN_VERIFY)

---
 cligen_contracts.h | 3 +++
 cligen_cv.c        | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/cligen_contracts.h b/cligen_contracts.h
index 5c9193e..9eeedb8 100644
--- a/cligen_contracts.h
+++ b/cligen_contracts.h
@@ -42,6 +42,9 @@
 #define LOOP_ASSIGNS(...)   __CPROVER_assigns(__VA_ARGS__)
 #define LOOP_INVARIANT(...) __CPROVER_loop_invariant(__VA_ARGS__)
 #define LOOP_DECREASES(...) __CPROVER_decreases(__VA_ARGS__)
+/* Ghost positions: arbitrary but fixed, so that what holds for them holds for all positions */
+extern unsigned long cligen_ghost_k;
+extern unsigned long cligen_ghost_j;
 #else
 #define LOOP_ASSIGNS(...)
 #define LOOP_INVARIANT(...)
diff --git a/cligen_cv.c b/cligen_cv.c
index 39cb223..fac0a99 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -65,6 +65,7 @@
 #include "cligen_getline.h"
 
 #include "cligen_cv_internal.h"
+#include "cligen_contracts.h"
 
 /*
  * URL protocol strings
@@ -1389,6 +1390,10 @@ parse_dec64(char    *str,
        | s1 | s2 |
      */
     for (i=len1+len2; i<len1+n; i++)
+        LOOP_ASSIGNS(i, __CPROVER_object_from(ss+len1+len2))
+        LOOP_INVARIANT(len1+len2 <= i && i <= len1+n)
+        LOOP_INVARIANT(!(len2 <= cligen_ghost_j && cligen_ghost_j < i - len1) || ss[len1 + cligen_ghost_j] == '0')
+        LOOP_DECREASES(len1 + n - i)
         ss[i] = '0';
     ss[len1+n] = '\0'; /* trailing zero */
     /* XXX: remove any beginning zeros */
-- 
2.43.0


From 9b090f97738f2a96bf584ff9d648b783c8afb43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:10 +0000
Subject: [PATCH 06/65] fix: cv_flag_clr set flags that were not set

---
 cligen_cv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index fac0a99..a8d4025 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -202,7 +202,7 @@ cv_flag_clr(cg_var *cv,
 {
     if (cv == NULL)
         return 0;
-    return cv->var_flag ^= mask;
+    return cv->var_flag &= ~mask;
 }
 
 /*! Set application-specific cv flag
-- 
2.43.0


From b8265fed7596c2f5b3f964cf144eb5d1a7f5db7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:10 +0000
Subject: [PATCH 07/65] fix: cv_validate accepted an out of range value when no
 memory for the reason

---
 cligen_cv.c | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index a8d4025..17f3240 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3285,8 +3285,10 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outofrange(cv, cs, reason) < 0)
+            if (outofrange(cv, cs, reason) < 0){
+                retval = -1;
                 goto done;
+            }
             retval = 0; /* No match */
         }
         break;
@@ -3302,8 +3304,10 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outofrange(cv, cs, reason) < 0)
+            if (outofrange(cv, cs, reason) < 0){
+                retval = -1;
                 goto done;
+            }
             retval = 0; /* No match */
         }
         break;
@@ -3319,8 +3323,10 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outofrange(cv, cs, reason) < 0)
+            if (outofrange(cv, cs, reason) < 0){
+                retval = -1;
                 goto done;
+            }
             retval = 0; /* No match */
         }
         break;
@@ -3336,8 +3342,10 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outofrange(cv, cs, reason) < 0)
+            if (outofrange(cv, cs, reason) < 0){
+                retval = -1;
                 goto done;
+            }
             retval = 0; /* No match */
         }
         break;
@@ -3353,8 +3361,10 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outofrange(cv, cs, reason) < 0)
+            if (outofrange(cv, cs, reason) < 0){
+                retval = -1;
                 goto done;
+            }
             retval = 0; /* No match */
         }
         break;
@@ -3370,8 +3380,10 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outofrange(cv, cs, reason) < 0)
+            if (outofrange(cv, cs, reason) < 0){
+                retval = -1;
                 goto done;
+            }
             retval = 0; /* No match */
         }
         break;
@@ -3387,8 +3399,10 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outofrange(cv, cs, reason) < 0)
+            if (outofrange(cv, cs, reason) < 0){
+                retval = -1;
                 goto done;
+            }
             retval = 0; /* No match */
         }
         break;
@@ -3404,8 +3418,10 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outofrange(cv, cs, reason) < 0)
+            if (outofrange(cv, cs, reason) < 0){
+                retval = -1;
                 goto done;
+            }
             retval = 0; /* No match */
         }
         break;
@@ -3428,8 +3444,10 @@ cv_validate(cligen_handle h,
         }
         if (!ok){
             if (reason){
-                if (outofrange(cv, cs, reason) < 0)
+                if (outofrange(cv, cs, reason) < 0){
+                    retval = -1;
                     goto done;
+                }
             }
             retval = 0; /* No match */
         }
@@ -3467,8 +3485,10 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outoflength(u64, cs, reason) < 0)
+            if (outoflength(u64, cs, reason) < 0){
+                retval = -1;
                 goto done;
+            }
             retval = 0; /* No match */
         }
         break;
-- 
2.43.0


From df83f668d43034ca19b6c67a1ee9734e80188b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:10 +0000
Subject: [PATCH 08/65] fix: a range with only an upper limit rejected negative
 numbers

---
 cligen_cv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 17f3240..770f844 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3163,7 +3163,7 @@ cv_parse(const char *str,
 /*! Range interval check if a number is in an interval
  *
  * @param[in] i      The number to check if it is in an interval
- * @param[in] cvlow  cv containing lower bound
+ * @param[in] cvlow  cv containing lower bound, or empty cv: no lower bound
  * @param[in] cvupp  cv containing upper bound
  * @param[in] type   Numeric type string, eg "int32"
  * @retval    1      i is in [low,upper]
@@ -3171,7 +3171,7 @@ cv_parse(const char *str,
  * @note need to use macro trick ## to fix different types
 */
 #define range_check(i, cvlow, cvupp, type)       \
-    (((i) >= cv_##type##_get(cvlow)) && \
+    ((cv_type_get(cvlow) == CGV_EMPTY || (i) >= cv_##type##_get(cvlow)) && \
      ((i) <= cv_##type##_get(cvupp)))
 
 /*! Error messsage for int violating ranges */
-- 
2.43.0


From 5f8a2f7f5bb4d0519edc3b73468105439b631d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:10 +0000
Subject: [PATCH 09/65] fix: cv_cmp overflowed or truncated wide numbers, and
 misordered times and pointers

---
 cligen_cv.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 770f844..0226802 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3517,6 +3517,10 @@ cv_validate(cligen_handle h,
     return retval;
 }
 
+/*! Three-way comparison of two numbers, without the overflow of a subtraction
+ */
+#define num_cmp(a, b) (((a) > (b)) - ((a) < (b)))
+
 /*! Compare two CLIgen variables as strcmp(3)
  *
  * @param[in]  cv1   CLIgen variable #1
@@ -3545,20 +3549,20 @@ cv_cmp(cg_var *cv1,
     case CGV_INT16:
         return (cv1->var_int16 - cv2->var_int16);
     case CGV_INT32:
-        return (cv1->var_int32 - cv2->var_int32);
+        return num_cmp(cv1->var_int32, cv2->var_int32);
     case CGV_INT64:
-        return (cv1->var_int64 - cv2->var_int64);
+        return num_cmp(cv1->var_int64, cv2->var_int64);
     case CGV_UINT8:
         return (cv1->var_uint8 - cv2->var_uint8);
     case CGV_UINT16:
         return (cv1->var_uint16 - cv2->var_uint16);
     case CGV_UINT32:
-        return (cv1->var_uint32 - cv2->var_uint32);
+        return num_cmp(cv1->var_uint32, cv2->var_uint32);
     case CGV_UINT64:
-        return (cv1->var_uint64 - cv2->var_uint64);
+        return num_cmp(cv1->var_uint64, cv2->var_uint64);
     case CGV_DEC64:
         /* XXX assume dec64_n are equal */
-        return (cv_dec64_i_get(cv1) - cv_dec64_i_get(cv2));
+        return num_cmp(cv_dec64_i_get(cv1), cv_dec64_i_get(cv2));
     case CGV_BOOL:
         return (cv1->var_bool - cv2->var_bool);
     case CGV_REST:
@@ -3597,9 +3601,11 @@ cv_cmp(cg_var *cv1,
     case CGV_UUID:
         return memcmp(cv1->var_uuid, cv2->var_uuid, 16);
     case CGV_TIME:
-        return memcmp(&cv1->var_time, &cv2->var_time, sizeof(struct timeval));
+        if ((n = num_cmp(cv1->var_time.tv_sec, cv2->var_time.tv_sec)))
+            return n;
+        return num_cmp(cv1->var_time.tv_usec, cv2->var_time.tv_usec);
     case CGV_VOID: /* compare pointers */
-        return (cv1->var_void == cv2->var_void);
+        return num_cmp((uintptr_t)cv1->var_void, (uintptr_t)cv2->var_void);
     case CGV_EMPTY: /* Always equal */
         return 0;
     }
-- 
2.43.0


From 64ce093d4f09fe894e5be6c6e75798c9099baf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:32 +0000
Subject: [PATCH 10/65] fix: cv_uint16_set of a missing variable crashed

---
 cligen_cv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cligen_cv.c b/cligen_cv.c
index 0226802..9ecd9d9 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -389,6 +389,8 @@ uint16_t
 cv_uint16_set(cg_var  *cv,
               uint16_t x)
 {
+    if (cv == NULL)
+        return 0;
     return (cv->u.varu_uint16 = x);
 }
 
-- 
2.43.0


From 704635313baa2119b3a990a4f1d5d8280e654d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:32 +0000
Subject: [PATCH 11/65] fix: cv_print printed a wrong IPv6 mask and MAC octets
 above 7f as 32-bit numbers

---
 cligen_cv.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 9ecd9d9..b52f6b2 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -2689,16 +2689,16 @@ cv_print(FILE   *f,
             fprintf(stderr, "inet_ntop: %s\n", strerror(errno));
             return -1;
         }
-        fprintf(f, "%s/%d", straddr, cv->var_ipv4masklen);
+        fprintf(f, "%s/%d", straddr, cv->var_ipv6masklen);
         break;
     case CGV_MACADDR:
         fprintf(f, "%02x:%02x:%02x:%02x:%02x:%02x",
-                cv->var_macaddr[0],
-                cv->var_macaddr[1],
-                cv->var_macaddr[2],
-                cv->var_macaddr[3],
-                cv->var_macaddr[4],
-                cv->var_macaddr[5]);
+                (uint8_t)cv->var_macaddr[0],
+                (uint8_t)cv->var_macaddr[1],
+                (uint8_t)cv->var_macaddr[2],
+                (uint8_t)cv->var_macaddr[3],
+                (uint8_t)cv->var_macaddr[4],
+                (uint8_t)cv->var_macaddr[5]);
 
         break;
     case CGV_URL: /* <proto>://[<user>[:<passwd>]@]<addr>[/<path>] */
-- 
2.43.0


From dc65997c5097c9a65e954f0de2d97a58b00854f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:32 +0000
Subject: [PATCH 12/65] fix: cv2str did not see a failing inet_ntop

---
 cligen_cv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index b52f6b2..70efdf6 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -2531,14 +2531,14 @@ cv2str(cg_var *cv,
                        cv->var_ipv4masklen);
         break;
     case CGV_IPV6ADDR:
-        if (inet_ntop(AF_INET6, &cv->var_ipv6addr, straddr, sizeof(straddr)) < 0){
+        if (inet_ntop(AF_INET6, &cv->var_ipv6addr, straddr, sizeof(straddr)) == NULL){
             fprintf(stderr, "inet_ntop: %s\n", strerror(errno));
             return -1;
         }
         len = snprintf(str, size, "%s", straddr);
         break;
     case CGV_IPV6PFX:
-        if (inet_ntop(AF_INET6, &cv->var_ipv6addr, straddr, sizeof(straddr)) < 0){
+        if (inet_ntop(AF_INET6, &cv->var_ipv6addr, straddr, sizeof(straddr)) == NULL){
             fprintf(stderr, "inet_ntop: %s\n", strerror(errno));
             return -1;
         }
-- 
2.43.0


From 2053030e1454ce7e0b4ad8bcb975bd72ea1674f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 13/65] Loop contracts for range checks (guarded by
 CLIGEN_VERIFY)

---
 cligen_contracts.h | 10 +++++++++
 cligen_cv.c        | 52 +++++++++++++++++++++++++++++++++++-----------
 2 files changed, 50 insertions(+), 12 deletions(-)

diff --git a/cligen_contracts.h b/cligen_contracts.h
index 9eeedb8..3da78e6 100644
--- a/cligen_contracts.h
+++ b/cligen_contracts.h
@@ -45,7 +45,17 @@
 /* Ghost positions: arbitrary but fixed, so that what holds for them holds for all positions */
 extern unsigned long cligen_ghost_k;
 extern unsigned long cligen_ghost_j;
+/* Loop over the intervals of a range: the value is in none of the intervals seen so far, where
+ * ghost_holds tells whether it is in interval number ghost_k */
+extern int cligen_ghost_holds;
+extern void *cligen_ghost_state;  /* ghost state of the contracts of functions called in a loop */
+#define LOOP_RANGES                                                     \
+    LOOP_ASSIGNS(j, ok, cv1, cv2, __CPROVER_object_whole(cligen_ghost_state))\
+    LOOP_INVARIANT(0 <= j && j <= cs->cgs_rangelen && ok == 0)          \
+    LOOP_INVARIANT(cligen_ghost_k >= j || !cligen_ghost_holds)            \
+    LOOP_DECREASES(cs->cgs_rangelen - j)
 #else
+#define LOOP_RANGES
 #define LOOP_ASSIGNS(...)
 #define LOOP_INVARIANT(...)
 #define LOOP_DECREASES(...)
diff --git a/cligen_cv.c b/cligen_cv.c
index 70efdf6..bc8b0be 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3193,7 +3193,11 @@ outofrange(cg_var     *cv0,
     cprintf(cb, "Number ");
     cv2cbuf(cv0, cb);
     cprintf(cb, " out of range: ");
-    for (i=0; i<cs->cgs_rangelen; i++){
+    for (i=0; i<cs->cgs_rangelen; i++)
+        LOOP_ASSIGNS(i, cv1, cv2, __CPROVER_object_whole(cligen_ghost_state))
+        LOOP_INVARIANT(0 <= i && i <= cs->cgs_rangelen)
+        LOOP_DECREASES(cs->cgs_rangelen - i)
+    {
         cv1 = cvec_i(cs->cgs_rangecvv_low, i);
         cv2 = cvec_i(cs->cgs_rangecvv_upp, i);
         if (i)
@@ -3226,7 +3230,11 @@ outoflength(uint64_t    u64,
     if ((cb = cbuf_new()) == NULL)
         goto done;
     cprintf(cb, "String length %" PRIu64 " out of range: ", u64);
-    for (i=0; i<cs->cgs_rangelen; i++){
+    for (i=0; i<cs->cgs_rangelen; i++)
+        LOOP_ASSIGNS(i, cv1, cv2, __CPROVER_object_whole(cligen_ghost_state))
+        LOOP_INVARIANT(0 <= i && i <= cs->cgs_rangelen)
+        LOOP_DECREASES(cs->cgs_rangelen - i)
+    {
         cv1 = cvec_i(cs->cgs_rangecvv_low, i);
         cv2 = cvec_i(cs->cgs_rangecvv_upp, i);
         if (i)
@@ -3280,7 +3288,9 @@ cv_validate(cligen_handle h,
             break;
         i = cv_int8_get(cv);
         ok = 0;         /* At least one should pass */
-        for (j=0; j<cs->cgs_rangelen; j++){
+        for (j=0; j<cs->cgs_rangelen; j++)
+            LOOP_RANGES
+        {
             cv1 = cvec_i(cs->cgs_rangecvv_low, j);
             cv2 = cvec_i(cs->cgs_rangecvv_upp, j);
             if ((ok = range_check(i, cv1, cv2, int8)) != 0)
@@ -3299,7 +3309,9 @@ cv_validate(cligen_handle h,
             break;
         i = cv_int16_get(cv);
         ok = 0;         /* At least one should pass */
-        for (j=0; j<cs->cgs_rangelen; j++){
+        for (j=0; j<cs->cgs_rangelen; j++)
+            LOOP_RANGES
+        {
             cv1 = cvec_i(cs->cgs_rangecvv_low, j);
             cv2 = cvec_i(cs->cgs_rangecvv_upp, j);
             if ((ok = range_check(i, cv1, cv2, int16)) != 0)
@@ -3318,7 +3330,9 @@ cv_validate(cligen_handle h,
             break;
         i = cv_int32_get(cv);
         ok = 0;         /* At least one should pass */
-        for (j=0; j<cs->cgs_rangelen; j++){
+        for (j=0; j<cs->cgs_rangelen; j++)
+            LOOP_RANGES
+        {
             cv1 = cvec_i(cs->cgs_rangecvv_low, j);
             cv2 = cvec_i(cs->cgs_rangecvv_upp, j);
             if ((ok = range_check(i, cv1, cv2, int32)) != 0)
@@ -3337,7 +3351,9 @@ cv_validate(cligen_handle h,
             break;
         i64 = cv_int64_get(cv);
         ok = 0;         /* At least one should pass */
-        for (j=0; j<cs->cgs_rangelen; j++){
+        for (j=0; j<cs->cgs_rangelen; j++)
+            LOOP_RANGES
+        {
             cv1 = cvec_i(cs->cgs_rangecvv_low, j);
             cv2 = cvec_i(cs->cgs_rangecvv_upp, j);
             if ((ok = range_check(i64, cv1, cv2, int64)) != 0)
@@ -3356,7 +3372,9 @@ cv_validate(cligen_handle h,
             break;
         u = cv_uint8_get(cv);
         ok = 0;         /* At least one should pass */
-        for (j=0; j<cs->cgs_rangelen; j++){
+        for (j=0; j<cs->cgs_rangelen; j++)
+            LOOP_RANGES
+        {
             cv1 = cvec_i(cs->cgs_rangecvv_low, j);
             cv2 = cvec_i(cs->cgs_rangecvv_upp, j);
             if ((ok = range_check(u, cv1, cv2, uint8)) != 0)
@@ -3375,7 +3393,9 @@ cv_validate(cligen_handle h,
             break;
         u = cv_uint16_get(cv);
         ok = 0;         /* At least one should pass */
-        for (j=0; j<cs->cgs_rangelen; j++){
+        for (j=0; j<cs->cgs_rangelen; j++)
+            LOOP_RANGES
+        {
             cv1 = cvec_i(cs->cgs_rangecvv_low, j);
             cv2 = cvec_i(cs->cgs_rangecvv_upp, j);
             if ((ok = range_check(u, cv1, cv2, uint16)) != 0)
@@ -3394,7 +3414,9 @@ cv_validate(cligen_handle h,
             break;
         u = cv_uint32_get(cv);
         ok = 0;         /* At least one should pass */
-        for (j=0; j<cs->cgs_rangelen; j++){
+        for (j=0; j<cs->cgs_rangelen; j++)
+            LOOP_RANGES
+        {
             cv1 = cvec_i(cs->cgs_rangecvv_low, j);
             cv2 = cvec_i(cs->cgs_rangecvv_upp, j);
             if ((ok = range_check(u, cv1, cv2, uint32)) != 0)
@@ -3413,7 +3435,9 @@ cv_validate(cligen_handle h,
             break;
         u64 = cv_uint64_get(cv);
         ok = 0;         /* At least one should pass */
-        for (j=0; j<cs->cgs_rangelen; j++){
+        for (j=0; j<cs->cgs_rangelen; j++)
+            LOOP_RANGES
+        {
             cv1 = cvec_i(cs->cgs_rangecvv_low, j);
             cv2 = cvec_i(cs->cgs_rangecvv_upp, j);
             if ((ok = range_check(u64, cv1, cv2, uint64)) != 0)
@@ -3438,7 +3462,9 @@ cv_validate(cligen_handle h,
             break;
         i64 = cv_int64_get(cv);
         ok = 0;         /* At least one should pass */
-        for (j=0; j<cs->cgs_rangelen; j++){
+        for (j=0; j<cs->cgs_rangelen; j++)
+            LOOP_RANGES
+        {
             cv1 = cvec_i(cs->cgs_rangecvv_low, j);
             cv2 = cvec_i(cs->cgs_rangecvv_upp, j);
             if ((ok = range_check(i64, cv1, cv2, int64)) != 0)
@@ -3480,7 +3506,9 @@ cv_validate(cligen_handle h,
             break;
         u64 = strlen(str); /* size_t */
         ok = 0;         /* At least one should pass */
-        for (j=0; j<cs->cgs_rangelen; j++){
+        for (j=0; j<cs->cgs_rangelen; j++)
+            LOOP_RANGES
+        {
             cv1 = cvec_i(cs->cgs_rangecvv_low, j);
             cv2 = cvec_i(cs->cgs_rangecvv_upp, j);
             if ((ok = range_check(u64, cv1, cv2, uint64)) != 0)
-- 
2.43.0


From 86d62331b8e5ef1d6278809c17eaed2e45758d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 14/65] fix: cvec_next on a vector emptied by cvec_del_i
 returned a stale element

---
 cligen_cvec.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cligen_cvec.c b/cligen_cvec.c
index 9ade831..a884786 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -197,8 +197,10 @@ cvec_next(cvec   *cvv,
 
     if (cvv == NULL)
         return NULL;
-    if (cv0 == NULL)
-        cv = cvv->vr_vec;
+    if (cv0 == NULL){
+        if (cvv->vr_len > 0)
+            cv = cvv->vr_vec;
+    }
     else {
         i = cv0 - cvv->vr_vec;
         if (i < cvv->vr_len-1)
-- 
2.43.0


From d412a3156d9097d217f10aaa4bc2f01a854dc864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 15/65] fix: cvec_add lost the whole vector when out of memory

---
 cligen_cvec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cligen_cvec.c b/cligen_cvec.c
index a884786..5350a29 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -225,6 +225,7 @@ cvec_add(cvec        *cvv,
 {
     int     len;
     cg_var *cv;
+    cg_var *vec;
 
     if (cvv == NULL){
         errno = EINVAL;
@@ -232,8 +233,9 @@ cvec_add(cvec        *cvv,
     }
     len = cvv->vr_len + 1;
 
-    if ((cvv->vr_vec = realloc(cvv->vr_vec, len*sizeof(cg_var))) == NULL)
+    if ((vec = realloc(cvv->vr_vec, len*sizeof(cg_var))) == NULL)
         return NULL;
+    cvv->vr_vec = vec;
     cvv->vr_len = len;
     cv = cvec_i(cvv, len-1);
     memset(cv, 0, sizeof(*cv));
-- 
2.43.0


From d15db1dd6f0c60e9d333fc2bffea46061fe4bfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 16/65] fix: cvec_i and cvec_del_i accessed elements outside
 the vector, cvec_del lost it when shrinking failed

---
 cligen_cvec.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cligen_cvec.c b/cligen_cvec.c
index 5350a29..b719b0c 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -281,6 +281,7 @@ cvec_del(cvec   *cvv,
 {
     int i;
     cg_var *cv;
+    cg_var *vec;
 
     if (cvec_len(cvv) == 0)
         return 0;
@@ -300,7 +301,9 @@ cvec_del(cvec   *cvv,
                 (cvv->vr_len-i-1) * sizeof(cvv->vr_vec[0]));
 
     cvv->vr_len--;
-    cvv->vr_vec = realloc(cvv->vr_vec, cvv->vr_len*sizeof(cvv->vr_vec[0])); /* Shrink should not fail? */
+    if ((vec = realloc(cvv->vr_vec, cvv->vr_len*sizeof(cvv->vr_vec[0]))) != NULL ||
+        cvv->vr_len == 0) /* If shrink fails, keep the old block */
+        cvv->vr_vec = vec;
 
     return cvec_len(cvv);
 }
@@ -322,7 +325,7 @@ int
 cvec_del_i(cvec *cvv,
            int   i)
 {
-    if (cvec_len(cvv) == 0 || cvec_len(cvv) < i){
+    if (i < 0 || i >= cvec_len(cvv)){
         errno = EINVAL;
         return -1;
     }
@@ -359,7 +362,7 @@ cvec_i(cvec *cvv,
         if (!cvv) {
                 return NULL;
         }
-    if (i < cvv->vr_len)
+    if (i >= 0 && i < cvv->vr_len)
         return &cvv->vr_vec[i];
     return NULL;
 }
-- 
2.43.0


From 7167d0efdc9550a72b75d6182d8d1113aa95695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:24 +0000
Subject: [PATCH 17/65] Loop contracts for the variable vector (guarded by
 CLIGEN_VERIFY)

---
 cligen_contracts.h | 10 ++++++++++
 cligen_cvec.c      | 14 ++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/cligen_contracts.h b/cligen_contracts.h
index 3da78e6..9362b3f 100644
--- a/cligen_contracts.h
+++ b/cligen_contracts.h
@@ -54,8 +54,18 @@ extern void *cligen_ghost_state;  /* ghost state of the contracts of functions c
     LOOP_INVARIANT(0 <= j && j <= cs->cgs_rangelen && ok == 0)          \
     LOOP_INVARIANT(cligen_ghost_k >= j || !cligen_ghost_holds)            \
     LOOP_DECREASES(cs->cgs_rangelen - j)
+/* Search in a variable vector: no element up to cv matches, where ghost_holds tells whether
+ * element number ghost_k does */
+#define GHOST_AT (*(long*)cligen_ghost_state)  /* number of elements visited */
+#define LOOP_FIND                                                       \
+    LOOP_ASSIGNS(cv, GHOST_AT)                                          \
+    LOOP_INVARIANT(cvv == NULL || (0 <= GHOST_AT && GHOST_AT <= cvv->vr_len)) \
+    LOOP_INVARIANT(cv == (cvv == NULL || GHOST_AT == 0 ? NULL : &cvv->vr_vec[GHOST_AT-1])) \
+    LOOP_INVARIANT(GHOST_AT <= (long)cligen_ghost_k || !cligen_ghost_holds) \
+    LOOP_DECREASES(cvv == NULL ? 0 : cvv->vr_len - GHOST_AT)
 #else
 #define LOOP_RANGES
+#define LOOP_FIND
 #define LOOP_ASSIGNS(...)
 #define LOOP_INVARIANT(...)
 #define LOOP_DECREASES(...)
diff --git a/cligen_cvec.c b/cligen_cvec.c
index b719b0c..8b1b3b7 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -65,6 +65,7 @@
 
 #include "cligen_cv_internal.h"
 #include "cligen_cvec_internal.h"
+#include "cligen_contracts.h"
 
 /*! A malloc version that aligns on 4 bytes. To avoid warning from valgrind */
 #define align4(s) (((s)/4)*4 + 4)
@@ -288,7 +289,12 @@ cvec_del(cvec   *cvv,
 
     i = 0;
     cv = NULL;
-    while ((cv = cvec_each(cvv, cv)) != NULL) {
+    while ((cv = cvec_each(cvv, cv)) != NULL)
+        LOOP_ASSIGNS(i, cv, GHOST_AT)
+        LOOP_INVARIANT(0 <= i && i <= cvv->vr_len && cv == (i == 0 ? NULL : &cvv->vr_vec[i-1]) && i == GHOST_AT)
+        LOOP_INVARIANT(!cligen_ghost_holds || i <= cligen_ghost_j)
+        LOOP_DECREASES(cvv->vr_len - i)
+    {
         if (cv == del)
             break;
         i++;
@@ -560,7 +566,9 @@ cvec_find(cvec       *cvv,
 {
     cg_var *cv = NULL;
 
-    while ((cv = cvec_each(cvv, cv)) != NULL){
+    while ((cv = cvec_each(cvv, cv)) != NULL)
+        LOOP_FIND
+    {
         if (cv->var_name){
             if (name != NULL && strcmp(cv->var_name, name) == 0)
                 return cv;
@@ -586,6 +594,7 @@ cvec_find_keyword(cvec       *cvv,
     cg_var *cv = NULL;
 
     while ((cv = cvec_each(cvv, cv)) != NULL)
+        LOOP_FIND
         if (cv->var_name && strcmp(cv->var_name, name) == 0 && cv->var_const)
             return cv;
     return NULL;
@@ -606,6 +615,7 @@ cvec_find_var(cvec       *cvv,
     cg_var *cv = NULL;
 
     while ((cv = cvec_each(cvv, cv)) != NULL)
+        LOOP_FIND
         if (cv->var_name && strcmp(cv->var_name, name) == 0 && !cv->var_const)
             return cv;
     return NULL;
-- 
2.43.0


From 9704fed7c183c1beb52df3cdc87d332b300ac49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:53 +0000
Subject: [PATCH 18/65] fix: a failed copy of a variable or vector left it
 sharing memory of the original, or was not noticed

---
 cligen_cv.c   | 14 ++++++++++++++
 cligen_cvec.c | 14 ++++++++++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index bc8b0be..a62a933 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3657,6 +3657,18 @@ cv_cp(cg_var *new,
     int retval = -1;
 
     memcpy(new, old, sizeof(*old));
+    /* Share nothing with old, also if a copy below fails */
+    new->var_name = NULL;
+    new->var_show = NULL;
+    if (cv_isstring(old->var_type))
+        new->var_string = NULL;
+    else if (old->var_type == CGV_URL){
+        new->var_urlproto = NULL;
+        new->var_urladdr = NULL;
+        new->var_urlpath = NULL;
+        new->var_urluser = NULL;
+        new->var_urlpasswd = NULL;
+    }
     if (old->var_name)
         if ((new->var_name = strdup(old->var_name)) == NULL)
             goto done;
@@ -3719,6 +3731,8 @@ cv_cp(cg_var *new,
     }
     retval = 0;
   done:
+    if (retval < 0)
+        cv_reset(new);
     return retval;
 }
 
diff --git a/cligen_cvec.c b/cligen_cvec.c
index 8b1b3b7..16edd6e 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -466,13 +466,16 @@ cvec_dup(cvec *old)
         return NULL;
     if (old->vr_name &&
         (new->vr_name = strdup4(old->vr_name)) == NULL){
-        free(new);
+        cvec_free(new);
         return NULL;
     }
     i = 0;
     while ((cv0 = cvec_each(old, cv0)) != NULL) {
         cv1 = cvec_i(new, i++);
-        cv_cp(cv1, cv0);
+        if (cv_cp(cv1, cv0) < 0){
+            cvec_free(new);
+            return NULL;
+        }
     }
     return new;
 }
@@ -494,8 +497,11 @@ cvec_start(char *cmd)
         return NULL;
     cv = cvec_i(cvec, 0);
     cv->var_type = CGV_REST;
-    cv_name_set(cv, "cmd"); /* the whole command string */
-    cv_string_set(cv, cmd); /* the whole command string */
+    if (cv_name_set(cv, "cmd") == NULL || /* the whole command string */
+        cv_string_set(cv, cmd) == NULL){  /* the whole command string */
+        cvec_free(cvec);
+        return NULL;
+    }
     return cvec;
 }
 
-- 
2.43.0


From b954e8a1fd2db49b643e80f51be73306d2c5aa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:24 +0000
Subject: [PATCH 19/65] Loop contracts for copy and release of vectors (guarded
 by CLIGEN_VERIFY)

---
 cligen_contracts.h |  2 ++
 cligen_cvec.c      | 13 ++++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/cligen_contracts.h b/cligen_contracts.h
index 9362b3f..08a5642 100644
--- a/cligen_contracts.h
+++ b/cligen_contracts.h
@@ -57,6 +57,8 @@ extern void *cligen_ghost_state;  /* ghost state of the contracts of functions c
 /* Search in a variable vector: no element up to cv matches, where ghost_holds tells whether
  * element number ghost_k does */
 #define GHOST_AT (*(long*)cligen_ghost_state)  /* number of elements visited */
+#define GHOST_COPIES (((int*)cligen_ghost_state)[2]) /* times element ghost_k was copied */
+#define GHOST_RESETS (((int*)cligen_ghost_state)[3]) /* times element ghost_k was released */
 #define LOOP_FIND                                                       \
     LOOP_ASSIGNS(cv, GHOST_AT)                                          \
     LOOP_INVARIANT(cvv == NULL || (0 <= GHOST_AT && GHOST_AT <= cvv->vr_len)) \
diff --git a/cligen_cvec.c b/cligen_cvec.c
index 16edd6e..a2909b1 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -174,6 +174,11 @@ cvec_reset(cvec *cvv)
     if (cvv == NULL)
         return 0;
     while ((cv = cvec_each(cvv, cv)) != NULL)
+        LOOP_ASSIGNS(cv, __CPROVER_object_whole(cligen_ghost_state))
+        LOOP_INVARIANT(cv == NULL || (1 <= GHOST_AT && GHOST_AT <= cvv->vr_len && cv == &cvv->vr_vec[GHOST_AT-1]))
+        LOOP_INVARIANT(GHOST_RESETS == (cv != NULL && GHOST_AT > (long)cligen_ghost_k))
+        LOOP_INVARIANT(GHOST_COPIES <= 1)
+        LOOP_DECREASES(cv == NULL ? cvv->vr_len + 1L : cvv->vr_len - GHOST_AT)
         cv_reset(cv);
     if (cvv->vr_vec)
         free(cvv->vr_vec);
@@ -470,7 +475,13 @@ cvec_dup(cvec *old)
         return NULL;
     }
     i = 0;
-    while ((cv0 = cvec_each(old, cv0)) != NULL) {
+    while ((cv0 = cvec_each(old, cv0)) != NULL)
+        LOOP_ASSIGNS(i, cv0, cv1, __CPROVER_object_whole(cligen_ghost_state))
+        LOOP_INVARIANT(0 <= i && i <= old->vr_len && i == GHOST_AT && GHOST_RESETS == 0)
+        LOOP_INVARIANT(cv0 == (i == 0 ? NULL : &old->vr_vec[i-1]))
+        LOOP_INVARIANT(GHOST_COPIES == (old->vr_len > 0 && i > (long)cligen_ghost_k))
+        LOOP_DECREASES(old->vr_len - i)
+    {
         cv1 = cvec_i(new, i++);
         if (cv_cp(cv1, cv0) < 0){
             cvec_free(new);
-- 
2.43.0


From c66d4ff710dfd7cec00d595fb026a678707fb333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:31 +0000
Subject: [PATCH 20/65] fix: running out of memory lost the end marker of the
 history, or the whole history

---
 cligen_history.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cligen_history.c b/cligen_history.c
index 2adfe1a..213e306 100644
--- a/cligen_history.c
+++ b/cligen_history.c
@@ -116,6 +116,7 @@ hist_add(cligen_handle h,
     struct cligen_handle *ch = handle(h);
     int                   retval = -1;
     char                 *p = buf;
+    char                 *line;
     int                   len;
 
     if (strlen(buf) >= cligen_buf_size(h))
@@ -129,8 +130,9 @@ hist_add(cligen_handle h,
             len--;
         if (ch->ch_hist_pre == 0 || strlen(ch->ch_hist_pre) != len ||
                             strncmp(ch->ch_hist_pre, buf, len) != 0) {
-            if ((ch->ch_hist_buf[ch->ch_hist_last] = hist_save(buf)) == NULL)
+            if ((line = hist_save(buf)) == NULL)
                 goto done;
+            ch->ch_hist_buf[ch->ch_hist_last] = line;
             ch->ch_hist_pre = ch->ch_hist_buf[ch->ch_hist_last];
             ch->ch_hist_last = (ch->ch_hist_last + 1) % ch->ch_hist_size;
             if (ch->ch_hist_buf[ch->ch_hist_last] && *ch->ch_hist_buf[ch->ch_hist_last]) {
@@ -313,21 +315,25 @@ cligen_hist_init(cligen_handle h,
     int                   retval = -1;
     int                   i;
     int                   old_size;
+    char                **buf;
 
     if (lines < 1){
         errno = EINVAL;
         goto done;
     }
     old_size = ch->ch_hist_size;
-    ch->ch_hist_size = lines+1; /* circular buffer needs an extra element */
+    /* circular buffer needs an extra element */
+    if ((buf = (char**)malloc((lines+1)*sizeof(char*))) == NULL)
+        goto done;
     for (i=0; i < old_size; i++)
         if (ch->ch_hist_buf[i]){
             if (strlen(ch->ch_hist_buf[i]))
                 free(ch->ch_hist_buf[i]);
             ch->ch_hist_buf[i] = NULL;
         }
-    if ((ch->ch_hist_buf = (char**)realloc(ch->ch_hist_buf, ch->ch_hist_size*sizeof(char*))) == NULL)
-        goto done;
+    free(ch->ch_hist_buf);
+    ch->ch_hist_buf = buf;
+    ch->ch_hist_size = lines+1;
     ch->ch_hist_cur = 0;
     ch->ch_hist_last = 0;
     ch->ch_hist_pre = 0;
-- 
2.43.0


From e4b4b570f719900880ae33675cc86ca927e8f5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:49 +0000
Subject: [PATCH 21/65] Loop contracts for the history (guarded by
 CLIGEN_VERIFY)

---
 cligen_contracts.h |  9 +++++++++
 cligen_history.c   | 13 +++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/cligen_contracts.h b/cligen_contracts.h
index 08a5642..993204b 100644
--- a/cligen_contracts.h
+++ b/cligen_contracts.h
@@ -49,6 +49,7 @@ extern unsigned long cligen_ghost_j;
  * ghost_holds tells whether it is in interval number ghost_k */
 extern int cligen_ghost_holds;
 extern void *cligen_ghost_state;  /* ghost state of the contracts of functions called in a loop */
+extern char *cligen_ghost_text;   /* text in the ghost position */
 #define LOOP_RANGES                                                     \
     LOOP_ASSIGNS(j, ok, cv1, cv2, __CPROVER_object_whole(cligen_ghost_state))\
     LOOP_INVARIANT(0 <= j && j <= cs->cgs_rangelen && ok == 0)          \
@@ -59,6 +60,13 @@ extern void *cligen_ghost_state;  /* ghost state of the contracts of functions c
 #define GHOST_AT (*(long*)cligen_ghost_state)  /* number of elements visited */
 #define GHOST_COPIES (((int*)cligen_ghost_state)[2]) /* times element ghost_k was copied */
 #define GHOST_RESETS (((int*)cligen_ghost_state)[3]) /* times element ghost_k was released */
+/* Release of the entries of a history, where ghost_holds tells whether slot ghost_k has an entry */
+#define LOOP_HISTORY(n)                                                 \
+    LOOP_INVARIANT(0 <= i && i <= (n))                                  \
+    LOOP_INVARIANT(i > cligen_ghost_k || (n) <= cligen_ghost_k || ch->ch_hist_buf[cligen_ghost_k] == cligen_ghost_text) \
+    LOOP_INVARIANT(i <= cligen_ghost_k || !cligen_ghost_holds || GHOST_COPIES == 1) \
+    LOOP_INVARIANT(GHOST_RESETS == __CPROVER_loop_entry(GHOST_RESETS))  \
+    LOOP_DECREASES((n) - i)
 #define LOOP_FIND                                                       \
     LOOP_ASSIGNS(cv, GHOST_AT)                                          \
     LOOP_INVARIANT(cvv == NULL || (0 <= GHOST_AT && GHOST_AT <= cvv->vr_len)) \
@@ -68,6 +76,7 @@ extern void *cligen_ghost_state;  /* ghost state of the contracts of functions c
 #else
 #define LOOP_RANGES
 #define LOOP_FIND
+#define LOOP_HISTORY(n)
 #define LOOP_ASSIGNS(...)
 #define LOOP_INVARIANT(...)
 #define LOOP_DECREASES(...)
diff --git a/cligen_history.c b/cligen_history.c
index 213e306..a10dd04 100644
--- a/cligen_history.c
+++ b/cligen_history.c
@@ -74,6 +74,7 @@
 #include "cligen_handle_internal.h"
 #include "cligen_history_internal.h"
 #include "cligen_history.h"
+#include "cligen_contracts.h"
 
 /*! Makes a copy of the string
  *
@@ -123,6 +124,9 @@ hist_add(cligen_handle h,
         if (cligen_buf_increase(h, strlen(buf)) < 0)
             goto done;
     while (*p == ' ' || *p == '\t' || *p == '\n')
+        LOOP_ASSIGNS(p)
+        LOOP_INVARIANT(__CPROVER_same_object(p, buf) && __CPROVER_POINTER_OFFSET(p) <= cligen_ghost_k)
+        LOOP_DECREASES(cligen_ghost_k - __CPROVER_POINTER_OFFSET(p))
         p++;
     if (*p) {
         len = strlen(buf);
@@ -158,6 +162,8 @@ hist_exit(cligen_handle h)
     int                   i;
 
     for (i=0; i < ch->ch_hist_size; i++)
+        LOOP_ASSIGNS(i, __CPROVER_object_whole(ch->ch_hist_buf), __CPROVER_object_whole(cligen_ghost_state))
+        LOOP_HISTORY(ch->ch_hist_size)
         if (ch->ch_hist_buf[i] && strlen(ch->ch_hist_buf[i])){
             free(ch->ch_hist_buf[i]);
             ch->ch_hist_buf[i] = NULL;
@@ -326,6 +332,8 @@ cligen_hist_init(cligen_handle h,
     if ((buf = (char**)malloc((lines+1)*sizeof(char*))) == NULL)
         goto done;
     for (i=0; i < old_size; i++)
+        LOOP_ASSIGNS(i, __CPROVER_object_whole(ch->ch_hist_buf), __CPROVER_object_whole(cligen_ghost_state))
+        LOOP_HISTORY(old_size)
         if (ch->ch_hist_buf[i]){
             if (strlen(ch->ch_hist_buf[i]))
                 free(ch->ch_hist_buf[i]);
@@ -339,6 +347,11 @@ cligen_hist_init(cligen_handle h,
     ch->ch_hist_pre = 0;
     ch->ch_hist_buf[0] = ""; /* NB not-malloced, check in hist_free */
     for (i=1; i < ch->ch_hist_size; i++) /* reset all entries */
+        LOOP_ASSIGNS(i, __CPROVER_object_whole(ch->ch_hist_buf))
+        LOOP_INVARIANT(1 <= i && i <= ch->ch_hist_size)
+        LOOP_INVARIANT(ch->ch_hist_buf[0] == __CPROVER_loop_entry(ch->ch_hist_buf[0]))
+        LOOP_INVARIANT(cligen_ghost_j < 1 || i <= cligen_ghost_j || ch->ch_hist_buf[cligen_ghost_j] == NULL)
+        LOOP_DECREASES(ch->ch_hist_size - i)
         ch->ch_hist_buf[i] = (char *)0;
     retval = 0;
  done:
-- 
2.43.0


From cb75c9100ea00d766103c6b6f7412575232b78b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:31 +0000
Subject: [PATCH 22/65] fix: the sizes of the line and kill buffers were shared
 by all handles and lost when out of memory

---
 cligen_handle.c          | 52 ++++++++++++++++++++++++----------------
 cligen_handle_internal.h |  2 ++
 2 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/cligen_handle.c b/cligen_handle.c
index c83e41e..b7e503e 100644
--- a/cligen_handle.c
+++ b/cligen_handle.c
@@ -1019,8 +1019,6 @@ cligen_regex_xsd_set(cligen_handle h,
 }
 
 
-static int _getline_bufsize = GETLINE_BUFLEN_DEFAULT;
-static int _getline_killbufsize = GETLINE_BUFLEN_DEFAULT;
 
 /*!
  * @param[in] h       CLIgen handle
@@ -1052,7 +1050,9 @@ cligen_killbuf(cligen_handle h)
 int
 cligen_buf_size(cligen_handle h)
 {
-    return _getline_bufsize;
+    struct cligen_handle *ch = handle(h);
+
+    return ch->ch_bufsize;
 }
 
 /*! Return length cligen kill buffer
@@ -1062,7 +1062,9 @@ cligen_buf_size(cligen_handle h)
 int
 cligen_killbuf_size(cligen_handle h)
 {
-    return _getline_killbufsize;
+    struct cligen_handle *ch = handle(h);
+
+    return ch->ch_killbufsize;
 }
 
 /*!
@@ -1073,16 +1075,18 @@ cligen_buf_init(cligen_handle h)
 {
     struct cligen_handle *ch = handle(h);
 
-    if ((ch->ch_buf = malloc(_getline_bufsize)) == NULL){
+    ch->ch_bufsize = GETLINE_BUFLEN_DEFAULT;
+    ch->ch_killbufsize = GETLINE_BUFLEN_DEFAULT;
+    if ((ch->ch_buf = malloc(ch->ch_bufsize)) == NULL){
         fprintf(stderr, "%s malloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_buf, 0, _getline_bufsize);
-    if ((ch->ch_killbuf = malloc(_getline_killbufsize)) == NULL){
+    memset(ch->ch_buf, 0, ch->ch_bufsize);
+    if ((ch->ch_killbuf = malloc(ch->ch_killbufsize)) == NULL){
         fprintf(stderr, "%s malloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_killbuf, 0, _getline_killbufsize);
+    memset(ch->ch_killbuf, 0, ch->ch_killbufsize);
     return 0;
 }
 
@@ -1100,17 +1104,21 @@ cligen_buf_increase(cligen_handle h,
                     size_t        len1)
 {
     struct cligen_handle *ch = handle(h);
-    size_t                len0 = _getline_bufsize; /* orig length */
+    size_t                len0 = ch->ch_bufsize; /* orig length */
+    size_t                size = len0;
+    char                 *buf;
 
-    if (_getline_bufsize >= len1 + 1)
+    if (size >= len1 + 1)
       return 0;
-    while (_getline_bufsize < len1 + 1)
-      _getline_bufsize *= 2;
-    if ((ch->ch_buf = realloc(ch->ch_buf, _getline_bufsize)) == NULL){
+    while (size < len1 + 1)
+      size *= 2;
+    if ((buf = realloc(ch->ch_buf, size)) == NULL){
         fprintf(stderr, "%s realloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_buf+len0, 0, _getline_bufsize-len0);
+    memset(buf+len0, 0, size-len0);
+    ch->ch_buf = buf;
+    ch->ch_bufsize = size;
     return 0;
 }
 
@@ -1124,17 +1132,21 @@ cligen_killbuf_increase(cligen_handle h,
                         size_t        len1)
 {
     struct cligen_handle *ch = handle(h);
-    int                   len0 = _getline_killbufsize;
+    size_t                len0 = ch->ch_killbufsize;
+    size_t                size = len0;
+    char                 *buf;
 
-    if (_getline_killbufsize >= len1 + 1)
+    if (size >= len1 + 1)
       return 0;
-    while (_getline_killbufsize < len1 + 1)
-      _getline_killbufsize *= 2;
-    if ((ch->ch_killbuf = realloc(ch->ch_killbuf, _getline_killbufsize)) == NULL){
+    while (size < len1 + 1)
+      size *= 2;
+    if ((buf = realloc(ch->ch_killbuf, size)) == NULL){
         fprintf(stderr, "%s realloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_killbuf+len0, 0, _getline_killbufsize-len0);
+    memset(buf+len0, 0, size-len0);
+    ch->ch_killbuf = buf;
+    ch->ch_killbufsize = size;
     return 0;
 }
 
diff --git a/cligen_handle_internal.h b/cligen_handle_internal.h
index 6ffff14..91c72ca 100644
--- a/cligen_handle_internal.h
+++ b/cligen_handle_internal.h
@@ -95,6 +95,8 @@ struct cligen_handle{
                                   */
     char       *ch_buf;          /* getline input buffer */
     char       *ch_killbuf;      /* getline killed text */
+    int         ch_bufsize;      /* allocated size of getline input buffer */
+    int         ch_killbufsize;  /* allocated size of getline killed text */
 
     int         ch_logsyntax;    /* Debug syntax by printing dynamically on stderr */
     int         ch_hist_size;    /* Number of history lines MUST be >0 */
-- 
2.43.0


From f1218d38552e258b89316ddd0e4e050f1404e89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:31 +0000
Subject: [PATCH 23/65] fix: setting no prompt crashed

---
 cligen_handle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_handle.c b/cligen_handle.c
index b7e503e..5eaa662 100644
--- a/cligen_handle.c
+++ b/cligen_handle.c
@@ -307,7 +307,7 @@ cligen_prompt_set(cligen_handle h,
     struct cligen_handle *ch = handle(h);
 
     if (ch->ch_prompt){
-        if (strcmp(prompt, ch->ch_prompt) == 0)
+        if (prompt && strcmp(prompt, ch->ch_prompt) == 0)
             return 0;
         free(ch->ch_prompt);
         ch->ch_prompt = NULL;
-- 
2.43.0


From bdbbf9299d99804d35adaefe118c42a2409029d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:27 +0000
Subject: [PATCH 24/65] fix: unregistering a file descriptor corrupted the
 other registrations

---
 cligen_getline.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 5ffbf1c..05daf5f 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -319,10 +319,9 @@ gl_unregfd(int fd)
 
     for (i = 0; i < nextfds; i++) {
         if (extfds[i].fd == fd) {
-            if (i+1 < nextfds)
-                memcpy(&extfds[i], &extfds[i+1], nextfds-i);
-            extfds = realloc(extfds, (nextfds-1) * sizeof(*extfds));
             nextfds--;
+            if (i < nextfds)
+                memmove(&extfds[i], &extfds[i+1], (nextfds-i)*sizeof(*extfds));
             return 0;
         }
     }
-- 
2.43.0


From e70a9ef0b8b0564b8b04f2994c2eb476b440cf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:27 +0000
Subject: [PATCH 25/65] fix: exit characters were added and looked up outside
 their table when it was full

---
 cligen_getline.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 05daf5f..dc28d7c 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -365,7 +365,7 @@ gl_exitchar_add(char c)
 {
     int i;
 
-    for (i=0;sizeof(exitchars);i++)
+    for (i=0;i<sizeof(exitchars)/sizeof(exitchars[0]);i++)
         if (!exitchars[i]){
             exitchars[i] = c;
             break;
@@ -378,7 +378,7 @@ gl_exitchar(char c)
 {
     int i;
 
-    for (i=0;sizeof(exitchars);i++){
+    for (i=0;i<sizeof(exitchars)/sizeof(exitchars[0]);i++){
         if (!exitchars[i])
             break;
         if (exitchars[i] == c)
-- 
2.43.0


From b986be313ff660b944c200d5fbb9cbd6898dc118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:27 +0000
Subject: [PATCH 26/65] fix: a file descriptor that does not fit in an fd_set
 was accepted and written outside it

---
 cligen_getline.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cligen_getline.c b/cligen_getline.c
index dc28d7c..64c230a 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -293,6 +293,10 @@ gl_regfd(int             fd,
     int i;
     struct regfd *tmp;
 
+    if (fd < 0 || fd >= FD_SETSIZE) { /* cannot be selected on */
+        errno = EINVAL;
+        return -1;
+    }
     for (i = 0; i < nextfds; i++) {
         if (extfds[i].fd == fd) { /* Already registered. Update arg and cb */
             extfds[i].cb = cb;
-- 
2.43.0


From 5556ddf04ae79fa085ed1a171e3a67f28e380559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:13 +0000
Subject: [PATCH 27/65] Loop contracts for the table of descriptors (guarded by
 CLIGEN_VERIFY)

---
 cligen_getline.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 64c230a..41b7b09 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -38,6 +38,7 @@
 #include "cligen_history_internal.h"
 
 #include "cligen_getline.h" /* exported interface */
+#include "cligen_contracts.h"
 
 /********************* exported variables ********************************/
 
@@ -297,7 +298,11 @@ gl_regfd(int             fd,
         errno = EINVAL;
         return -1;
     }
-    for (i = 0; i < nextfds; i++) {
+    for (i = 0; i < nextfds; i++)
+        LOOP_ASSIGNS(i)
+        LOOP_INVARIANT(0 <= i && i <= nextfds && (i <= cligen_ghost_k || !cligen_ghost_holds))
+        LOOP_DECREASES(nextfds - i)
+    {
         if (extfds[i].fd == fd) { /* Already registered. Update arg and cb */
             extfds[i].cb = cb;
             extfds[i].arg = arg;
@@ -321,7 +326,11 @@ gl_unregfd(int fd)
 {
     int i;
 
-    for (i = 0; i < nextfds; i++) {
+    for (i = 0; i < nextfds; i++)
+        LOOP_ASSIGNS(i)
+        LOOP_INVARIANT(0 <= i && i <= nextfds && (i <= cligen_ghost_k || !cligen_ghost_holds))
+        LOOP_DECREASES(nextfds - i)
+    {
         if (extfds[i].fd == fd) {
             nextfds--;
             if (i < nextfds)
@@ -343,10 +352,18 @@ gl_select()
         FD_ZERO(&fdset);
         FD_SET(0, &fdset);
         for(i = 0; i < nextfds; i++)
+            LOOP_ASSIGNS(i, __CPROVER_object_whole(cligen_ghost_state))
+            LOOP_INVARIANT(0 <= i && i <= nextfds && GHOST_COPIES == (i > cligen_ghost_k))
+            LOOP_INVARIANT(GHOST_RESETS == __CPROVER_loop_entry(GHOST_RESETS))
+            LOOP_DECREASES(nextfds - i)
             FD_SET(extfds[i].fd, &fdset);
         if (select(FD_SETSIZE, &fdset, NULL, NULL, NULL) < 0)
             return -1;
         for(i = 0; i < nextfds; i++)
+            LOOP_ASSIGNS(i, __CPROVER_object_whole(cligen_ghost_state))
+            LOOP_INVARIANT(0 <= i && i <= nextfds && GHOST_RESETS == (i > cligen_ghost_k && cligen_ghost_holds))
+            LOOP_INVARIANT(GHOST_COPIES == __CPROVER_loop_entry(GHOST_COPIES))
+            LOOP_DECREASES(nextfds - i)
             if (FD_ISSET(extfds[i].fd, &fdset))
                 if (extfds[i].cb(extfds[i].fd, extfds[i].arg) < 0)
                     return -1;
-- 
2.43.0


From 27dbf4d4a1c051cb31bad57d74208b3e5f4d49f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:45 +0000
Subject: [PATCH 28/65] fix: reading the position after the last node of a
 parse-tree read outside its vector

---
 cligen_parsetree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_parsetree.c b/cligen_parsetree.c
index f614586..a4422a6 100644
--- a/cligen_parsetree.c
+++ b/cligen_parsetree.c
@@ -135,7 +135,7 @@ pt_vec_i_get(parse_tree *pt,
              int         i)
 {
     struct cg_obj **ptvec;
-    if (pt == NULL || i<0 || i>pt->pt_len){
+    if (pt == NULL || i<0 || i>=pt->pt_len){
        errno = EINVAL;
        return NULL;
     }
-- 
2.43.0


From 900e7651a3a73d4547b918250e2cbcef77eca465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:45 +0000
Subject: [PATCH 29/65] fix: a parse-tree lost its nodes when out of memory

---
 cligen_parsetree.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cligen_parsetree.c b/cligen_parsetree.c
index a4422a6..5a31775 100644
--- a/cligen_parsetree.c
+++ b/cligen_parsetree.c
@@ -319,10 +319,13 @@ pt_new(void)
 int
 pt_realloc(parse_tree *pt)
 {
-    pt->pt_len++;
+    struct cg_obj **vec;
+
     /* Allocate larger cg_obj vector */
-    if ((pt->pt_vec = realloc(pt->pt_vec, (pt->pt_len)*sizeof(cg_obj *))) == 0)
+    if ((vec = realloc(pt->pt_vec, (pt->pt_len+1)*sizeof(cg_obj *))) == NULL)
         return -1;
+    pt->pt_vec = vec;
+    pt->pt_len++;
     pt->pt_vec[pt->pt_len - 1] = NULL; /* init field */
     return 0;
 }
@@ -582,8 +585,9 @@ int
 pt_trunc(parse_tree *pt,
          int         len)
 {
-    int     i;
-    cg_obj *co;
+    int             i;
+    cg_obj         *co;
+    struct cg_obj **vec;
 
     if (pt == NULL){
         errno = EINVAL;
@@ -598,9 +602,10 @@ pt_trunc(parse_tree *pt,
             if ((co = pt_vec_i_get(pt, i)) != NULL)
                 co_free(co, 0);
         }
-        if ((pt->pt_vec = realloc(pt->pt_vec, (len)*sizeof(cg_obj *))) == 0)
-            return -1;
         pt->pt_len = len;
+        /* If it cannot be made smaller, keep it as it is */
+        if ((vec = realloc(pt->pt_vec, (len)*sizeof(cg_obj *))) != NULL)
+            pt->pt_vec = vec;
     }
     return 0;
 }
-- 
2.43.0


From 339085484379f2074d1f0832184332f76e08cf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:55 +0000
Subject: [PATCH 30/65] Loop contracts for node lists (guarded by
 CLIGEN_VERIFY)

---
 cligen_parsetree.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cligen_parsetree.c b/cligen_parsetree.c
index 5a31775..d798960 100644
--- a/cligen_parsetree.c
+++ b/cligen_parsetree.c
@@ -73,6 +73,7 @@
 #include "cligen_parse.h"
 #include "cligen_handle.h"
 #include "cligen_getline.h"
+#include "cligen_contracts.h"
 
 /* Private definition of parsetree. Public is defined in cligen_parsetree.h
  *
@@ -558,6 +559,9 @@ pt_free(parse_tree *pt,
     }
     if (pt->pt_vec != NULL){
         for (i=0; i<pt_len_get(pt); i++)
+            LOOP_ASSIGNS(i, co, __CPROVER_object_whole(cligen_ghost_state))
+            LOOP_INVARIANT(0 <= i && i <= pt->pt_len && GHOST_COPIES == (i > cligen_ghost_k && cligen_ghost_holds))
+            LOOP_DECREASES(pt->pt_len - i)
             if ((co = pt_vec_i_get(pt, i)) != NULL)
                 co_free(co, recursive);
         free(pt->pt_vec);
@@ -598,7 +602,11 @@ pt_trunc(parse_tree *pt,
         return -1;
     }
     if (len < pt->pt_len){
-        for (i=len; i<pt_len_get(pt); i++){
+        for (i=len; i<pt_len_get(pt); i++)
+            LOOP_ASSIGNS(i, co, __CPROVER_object_whole(cligen_ghost_state))
+            LOOP_INVARIANT(len <= i && i <= pt->pt_len && GHOST_COPIES == (i > cligen_ghost_k && cligen_ghost_holds))
+            LOOP_DECREASES(pt->pt_len - i)
+        {
             if ((co = pt_vec_i_get(pt, i)) != NULL)
                 co_free(co, 0);
         }
-- 
2.43.0


From 4ebeefb994f1f4c07f32dd7922bc8a1537fce2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:16 +0000
Subject: [PATCH 31/65] fix: asking for the active parse-tree crashed when
 there is none

---
 cligen_pt_head.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_pt_head.c b/cligen_pt_head.c
index 8332552..03d704c 100644
--- a/cligen_pt_head.c
+++ b/cligen_pt_head.c
@@ -396,7 +396,7 @@ cligen_pt_active_get(cligen_handle h)
 {
     pt_head *ph = cligen_pt_head_active_get(h);
 
-    return ph->ph_parsetree;
+    return ph ? ph->ph_parsetree : NULL;
 }
 
 /*! Get currently active parsetree head.
-- 
2.43.0


From 08ed92636a753a754d142417ca16c6dd9cb833fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:53 +0000
Subject: [PATCH 32/65] Loop contracts for the list of trees (guarded by
 CLIGEN_VERIFY)

---
 cligen_contracts.h | 9 +++++++++
 cligen_pt_head.c   | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/cligen_contracts.h b/cligen_contracts.h
index 993204b..f54793a 100644
--- a/cligen_contracts.h
+++ b/cligen_contracts.h
@@ -60,6 +60,14 @@ extern char *cligen_ghost_text;   /* text in the ghost position */
 #define GHOST_AT (*(long*)cligen_ghost_state)  /* number of elements visited */
 #define GHOST_COPIES (((int*)cligen_ghost_state)[2]) /* times element ghost_k was copied */
 #define GHOST_RESETS (((int*)cligen_ghost_state)[3]) /* times element ghost_k was released */
+/* Search in the list of trees, likewise; ghost_trees is where they are */
+extern struct pt_head *cligen_ghost_trees;
+extern long cligen_ghost_n;
+#define LOOP_TREES                                                      \
+    LOOP_INVARIANT(0 <= GHOST_AT && GHOST_AT <= cligen_ghost_n)         \
+    LOOP_INVARIANT(ph == (GHOST_AT == 0 ? NULL : &cligen_ghost_trees[GHOST_AT-1])) \
+    LOOP_INVARIANT(GHOST_AT <= (long)cligen_ghost_k || !cligen_ghost_holds) \
+    LOOP_DECREASES(cligen_ghost_n - GHOST_AT)
 /* Release of the entries of a history, where ghost_holds tells whether slot ghost_k has an entry */
 #define LOOP_HISTORY(n)                                                 \
     LOOP_INVARIANT(0 <= i && i <= (n))                                  \
@@ -76,6 +84,7 @@ extern char *cligen_ghost_text;   /* text in the ghost position */
 #else
 #define LOOP_RANGES
 #define LOOP_FIND
+#define LOOP_TREES
 #define LOOP_HISTORY(n)
 #define LOOP_ASSIGNS(...)
 #define LOOP_INVARIANT(...)
diff --git a/cligen_pt_head.c b/cligen_pt_head.c
index 03d704c..b53c2c1 100644
--- a/cligen_pt_head.c
+++ b/cligen_pt_head.c
@@ -72,6 +72,7 @@
 #include "cligen_getline.h"
 #include "cligen_print.h"
 #include "cligen_handle_internal.h"
+#include "cligen_contracts.h"
 
 /*
  * Access functions
@@ -272,6 +273,8 @@ cligen_ph_find(cligen_handle h,
        return NULL;
     }
     while ((ph = cligen_ph_each(h, ph)))
+        LOOP_ASSIGNS(ph, phname, __CPROVER_object_whole(cligen_ghost_state))
+        LOOP_TREES
         if ((phname = cligen_ph_name_get(ph)))
             if (strcmp(phname, name) == 0)
                 break;
-- 
2.43.0


From 63a7233cdab515ba141a81d42409cbf82b2a7e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:43 +0000
Subject: [PATCH 33/65] fix: a failed copy of a callback leaked its name

---
 cligen_callback.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cligen_callback.c b/cligen_callback.c
index 2f1a814..8f3391d 100644
--- a/cligen_callback.c
+++ b/cligen_callback.c
@@ -58,6 +58,8 @@ co_callback_fn_set(cg_callback   *cc,
     return 0;
 }
 
+static int co_callback_one_free(cg_callback *cc);
+
 cg_callback *
 co_callback_next(cg_callback *cc)
 {
@@ -102,7 +104,7 @@ co_callback_copy(cg_callback  *cc0,
     retval = 0;
  done:
     if (cc1)
-        free(cc1);
+        co_callback_one_free(cc1);
     return retval;
 }
 
-- 
2.43.0


From db81c9a5a9f7fb1fb553847d36844ec24b3d7e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:43 +0000
Subject: [PATCH 34/65] fix: a callback was called without its arguments when
 out of memory

---
 cligen_read.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cligen_read.c b/cligen_read.c
index b139cb5..9ae04b8 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -1036,7 +1036,9 @@ cligen_eval(cligen_handle h,
             continue;
         /* Vector cvec argument to callback */
         if ((fn = co_callback_fn_get(cc)) != NULL){
-            argv = cc->cc_cvec ? cvec_dup(cc->cc_cvec) : NULL;
+            argv = NULL;
+            if (cc->cc_cvec && (argv = cvec_dup(cc->cc_cvec)) == NULL)
+                goto done;
             cligen_fn_str_set(h, cc->cc_fn_str);
             /* Eval wrapper function so upper layers can make checks before and after callback */
             if (wrapfn)
-- 
2.43.0


From afe84721484f768caaf84474fb86e7bf855ddf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:55 +0000
Subject: [PATCH 35/65] Loop contracts for callbacks (guarded by CLIGEN_VERIFY)

---
 cligen_callback.c  |  6 +++++-
 cligen_contracts.h | 31 +++++++++++++++++++++++++++++++
 cligen_read.c      | 11 +++++++++--
 3 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/cligen_callback.c b/cligen_callback.c
index 8f3391d..64c79e8 100644
--- a/cligen_callback.c
+++ b/cligen_callback.c
@@ -43,6 +43,7 @@
 #include "cligen_cv.h"
 #include "cligen_cvec.h"
 #include "cligen_callback.h"
+#include "cligen_contracts.h"
 
 cgv_fnstype_t *
 co_callback_fn_get(cg_callback *cc)
@@ -132,7 +133,10 @@ co_callbacks_free(cg_callback **ccp)
 {
    cg_callback *cc;
 
-   while ((cc = *ccp) != NULL){
+   while ((cc = *ccp) != NULL)
+       LOOP_ASSIGNS(cc, *ccp, __CPROVER_object_whole(cligen_ghost_state))
+       LOOP_CALLBACKS_FREE
+   {
         *ccp = co_callback_next(cc);
         co_callback_one_free(cc);
    }
diff --git a/cligen_contracts.h b/cligen_contracts.h
index f54793a..9419158 100644
--- a/cligen_contracts.h
+++ b/cligen_contracts.h
@@ -68,6 +68,34 @@ extern long cligen_ghost_n;
     LOOP_INVARIANT(ph == (GHOST_AT == 0 ? NULL : &cligen_ghost_trees[GHOST_AT-1])) \
     LOOP_INVARIANT(GHOST_AT <= (long)cligen_ghost_k || !cligen_ghost_holds) \
     LOOP_DECREASES(cligen_ghost_n - GHOST_AT)
+/* Callbacks of a command: element number i of the list is ghost_node[1] for number ghost_k, ghost_node[2]
+ * for number ghost_m, and ghost_node[0], of other contents each time, for any other number.
+ * First those of pipes (numbers 0..n-1), then the others (n..2n-1) */
+extern void *cligen_ghost_node[3];
+extern long cligen_ghost_m;
+extern void *cligen_ghost_fn; /* function of the other callbacks, if any */
+#define GHOST_INT(i) (((int*)cligen_ghost_state)[i])
+#define GHOST_NODE(i) ((i) == (long)cligen_ghost_k ? cligen_ghost_node[1] : (i) == cligen_ghost_m ? cligen_ghost_node[2] : cligen_ghost_node[0])
+#define GHOST_FN_OTHER ((void*)((struct cg_callback*)cligen_ghost_node[0])->cc_fn_vec)
+#define LOOP_PIPES                                                      \
+    LOOP_INVARIANT(GHOST_FN_OTHER == NULL || GHOST_FN_OTHER == cligen_ghost_fn) \
+    LOOP_INVARIANT(0 <= GHOST_AT && GHOST_AT <= cligen_ghost_n)         \
+    LOOP_INVARIANT((void*)cc == (GHOST_AT == cligen_ghost_n ? NULL : GHOST_NODE(GHOST_AT))) \
+    LOOP_INVARIANT(GHOST_COPIES == (cligen_ghost_j && GHOST_AT > (long)cligen_ghost_k ? 1 : 0)) \
+    LOOP_INVARIANT(GHOST_RESETS == 0 && GHOST_INT(4) == 0 && GHOST_INT(5) == 1) \
+    LOOP_DECREASES(cligen_ghost_n - GHOST_AT)
+#define LOOP_CALLBACKS                                                  \
+    LOOP_INVARIANT(GHOST_FN_OTHER == NULL || GHOST_FN_OTHER == cligen_ghost_fn) \
+    LOOP_INVARIANT(cligen_ghost_n <= GHOST_AT && GHOST_AT <= 2*cligen_ghost_n) \
+    LOOP_INVARIANT((void*)cc == (GHOST_AT == 2*cligen_ghost_n ? NULL : GHOST_NODE(GHOST_AT - cligen_ghost_n))) \
+    LOOP_INVARIANT(GHOST_RESETS == (cligen_ghost_holds && GHOST_AT - cligen_ghost_n > (long)cligen_ghost_k ? 1 : 0)) \
+    LOOP_INVARIANT(GHOST_COPIES == (cligen_ghost_j ? 1 : 0) && GHOST_INT(4) == 0 && GHOST_INT(5) == 1) \
+    LOOP_DECREASES(2*cligen_ghost_n - GHOST_AT)
+#define LOOP_CALLBACKS_FREE                                             \
+    LOOP_INVARIANT(0 <= GHOST_AT && GHOST_AT <= cligen_ghost_n && GHOST_INT(4) == 0) \
+    LOOP_INVARIANT((void*)*ccp == (GHOST_AT == cligen_ghost_n ? NULL : GHOST_NODE(GHOST_AT))) \
+    LOOP_INVARIANT(GHOST_RESETS == (GHOST_AT > (long)cligen_ghost_k ? 1 : 0)) \
+    LOOP_DECREASES(cligen_ghost_n - GHOST_AT)
 /* Release of the entries of a history, where ghost_holds tells whether slot ghost_k has an entry */
 #define LOOP_HISTORY(n)                                                 \
     LOOP_INVARIANT(0 <= i && i <= (n))                                  \
@@ -85,6 +113,9 @@ extern long cligen_ghost_n;
 #define LOOP_RANGES
 #define LOOP_FIND
 #define LOOP_TREES
+#define LOOP_PIPES
+#define LOOP_CALLBACKS
+#define LOOP_CALLBACKS_FREE
 #define LOOP_HISTORY(n)
 #define LOOP_ASSIGNS(...)
 #define LOOP_INVARIANT(...)
diff --git a/cligen_read.c b/cligen_read.c
index 9ae04b8..c7d0022 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -78,6 +78,7 @@
 #include "cligen_expand.h"
 #include "cligen_history_internal.h"
 #include "cligen_getline.h"
+#include "cligen_contracts.h"
 
 /*
  * Local prototypes
@@ -1024,14 +1025,20 @@ cligen_eval(cligen_handle h,
         goto done;
     cligen_eval_wrap_fn_get(h, &wrapfn, &wraparg);
     /* First round: Start sub-processes for output pipe functions and redirect stdio */
-    for (cc = co->co_callbacks; cc; cc=co_callback_next(cc)){
+    for (cc = co->co_callbacks; cc; cc=co_callback_next(cc))
+        LOOP_ASSIGNS(cc, spipe, childpid, __CPROVER_object_whole(cligen_ghost_state))
+        LOOP_PIPES
+    {
         if ((cc->cc_flags & CC_FLAGS_PIPE_FUNCTION) == 0x0)
             continue;
         if (cligen_eval_pipe_pre(h, cc, cvv1, &spipe, &childpid) < 0)
             goto done;
     }
     /* Second round, call regular callbacks */
-    for (cc = co->co_callbacks; cc; cc=co_callback_next(cc)){
+    for (cc = co->co_callbacks; cc; cc=co_callback_next(cc))
+        LOOP_ASSIGNS(cc, fn, argv, __CPROVER_object_whole(cligen_ghost_state))
+        LOOP_CALLBACKS
+    {
         if (cc->cc_flags & CC_FLAGS_PIPE_FUNCTION)
             continue;
         /* Vector cvec argument to callback */
-- 
2.43.0


From 69cb7e1ec80965567c260921fd4eba0ce48f610e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:21 +0000
Subject: [PATCH 36/65] fix: paged output crashed when the terminal had become
 narrower

---
 cligen_io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cligen_io.c b/cligen_io.c
index c6a2e6e..90e9f8b 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -153,7 +153,8 @@ cligen_output_scroll(FILE   *f,
     /* A terminal line */
     if ((linebuf = malloc(linelen+1)) == NULL)
         goto done;
-    remain = linelen - D_COLUMNS;
+    if ((remain = linelen - D_COLUMNS) <= 0) /* terminal is narrower than at last output */
+        remain = linelen;
     while (ib1 < ibend && D_LINES >= 0){
         /* Four cases:
          * 1. There is a CR in [ib0,ibend]
-- 
2.43.0


From 25d0983abc8d0a94b255c2a2dfe545880cef15da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:21 +0000
Subject: [PATCH 37/65] fix: asking for one more line quit the pager on a
 terminal of one row

---
 cligen_io.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cligen_io.c b/cligen_io.c
index 90e9f8b..c5fb280 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -196,8 +196,10 @@ cligen_output_scroll(FILE   *f,
             fprintf(f, "--More--");
             fflush(f);
             c = fgetc(stdin);
-            if (c == '\n')
-                D_LINES--;
+            if (c == '\n'){
+                if (D_LINES > 0)
+                    D_LINES--;
+            }
             else if (c == ' ')
                 D_LINES = 0;
             else if (c == 'q' || c == 3) /* ^c */
-- 
2.43.0


From 07cabf1be0956902050c741b307c49e648644adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:21 +0000
Subject: [PATCH 38/65] fix: output to a pipe was cut off after a partial write

---
 cligen_io.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cligen_io.c b/cligen_io.c
index c5fb280..76d5c9e 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -267,6 +267,8 @@ cligen_output(FILE       *f,
     int     term_rows;
     int     term_width;
     ssize_t inbuflen;
+    ssize_t written;
+    ssize_t n;
     int     s = -1;
     int     paging;
 
@@ -293,11 +295,13 @@ cligen_output(FILE       *f,
     if (cli_pipe_output_socket_get(&s) < 0)
         goto done;
     if (s != -1){
-        if (write(s, inbuf, inbuflen) < 0){
-            perror("cligen_output write on pipe socket");
-            close(s);
-            cli_pipe_output_socket_set(-1);
-            goto done;
+        for (written = 0; written < inbuflen; written += n){
+            if ((n = write(s, inbuf + written, inbuflen - written)) < 0){
+                perror("cligen_output write on pipe socket");
+                close(s);
+                cli_pipe_output_socket_set(-1);
+                goto done;
+            }
         }
     }
     else{
-- 
2.43.0


From a6667142023e42a1e19ca198c2d1d9bcc62411f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:44 +0000
Subject: [PATCH 39/65] Loop contracts for paged output (guarded by
 CLIGEN_VERIFY)

---
 cligen_contracts.h | 16 ++++++++++++++++
 cligen_io.c        | 11 +++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/cligen_contracts.h b/cligen_contracts.h
index 9419158..ec88aad 100644
--- a/cligen_contracts.h
+++ b/cligen_contracts.h
@@ -96,6 +96,20 @@ extern void *cligen_ghost_fn; /* function of the other callbacks, if any */
     LOOP_INVARIANT((void*)*ccp == (GHOST_AT == cligen_ghost_n ? NULL : GHOST_NODE(GHOST_AT))) \
     LOOP_INVARIANT(GHOST_RESETS == (GHOST_AT > (long)cligen_ghost_k ? 1 : 0)) \
     LOOP_DECREASES(cligen_ghost_n - GHOST_AT)
+/* Paged output: ghost_at characters of the text (of ghost_n) are shown */
+#define GHOST_LONG(i) (((long*)cligen_ghost_state)[i])
+#define LOOP_SCROLL                                                     \
+    LOOP_INVARIANT(0 <= GHOST_AT && GHOST_AT <= cligen_ghost_n)         \
+    LOOP_INVARIANT(ib0 == ibuf + GHOST_AT && ib1 == ib0)                \
+    LOOP_INVARIANT(0 < remain && remain <= linelen && GHOST_LONG(3) == linelen - remain) \
+    LOOP_INVARIANT(-1 <= D_LINES && D_LINES <= (long)cligen_ghost_k + GHOST_AT) \
+    LOOP_INVARIANT(GHOST_INT(4) == (D_LINES < 0 ? 1 : 0))               \
+    LOOP_INVARIANT(D_LINES < 0 || (0 <= GHOST_COPIES && GHOST_COPIES <= D_LINES)) \
+    LOOP_INVARIANT(D_LINES < 0 || GHOST_COPIES == 0 || GHOST_COPIES < term_rows - 1) \
+    LOOP_DECREASES(cligen_ghost_n - GHOST_AT)
+#define LOOP_WRITE                                                      \
+    LOOP_INVARIANT(0 <= written && written <= inbuflen && written == GHOST_AT && GHOST_INT(5) == 0) \
+    LOOP_DECREASES(inbuflen - written)
 /* Release of the entries of a history, where ghost_holds tells whether slot ghost_k has an entry */
 #define LOOP_HISTORY(n)                                                 \
     LOOP_INVARIANT(0 <= i && i <= (n))                                  \
@@ -112,6 +126,8 @@ extern void *cligen_ghost_fn; /* function of the other callbacks, if any */
 #else
 #define LOOP_RANGES
 #define LOOP_FIND
+#define LOOP_SCROLL
+#define LOOP_WRITE
 #define LOOP_TREES
 #define LOOP_PIPES
 #define LOOP_CALLBACKS
diff --git a/cligen_io.c b/cligen_io.c
index 76d5c9e..a307cd5 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -63,6 +63,7 @@
 #include "cligen_print.h"
 #include "cligen_io.h"
 #include "cligen_getline.h"
+#include "cligen_contracts.h"
 
 /*
  * Constants
@@ -155,7 +156,10 @@ cligen_output_scroll(FILE   *f,
         goto done;
     if ((remain = linelen - D_COLUMNS) <= 0) /* terminal is narrower than at last output */
         remain = linelen;
-    while (ib1 < ibend && D_LINES >= 0){
+    while (ib1 < ibend && D_LINES >= 0)
+        LOOP_ASSIGNS(ib0, ib1, ibcr, remain, c, D_LINES, __CPROVER_object_whole(linebuf), __CPROVER_object_whole(cligen_ghost_state))
+        LOOP_SCROLL
+    {
         /* Four cases:
          * 1. There is a CR in [ib0,ibend]
          *   1a) greater than remaining: (inc D_LINE)
@@ -295,7 +299,10 @@ cligen_output(FILE       *f,
     if (cli_pipe_output_socket_get(&s) < 0)
         goto done;
     if (s != -1){
-        for (written = 0; written < inbuflen; written += n){
+        for (written = 0; written < inbuflen; written += n)
+            LOOP_ASSIGNS(written, n, __CPROVER_object_whole(cligen_ghost_state))
+            LOOP_WRITE
+        {
             if ((n = write(s, inbuf + written, inbuflen - written)) < 0){
                 perror("cligen_output write on pipe socket");
                 close(s);
-- 
2.43.0


From f1bb6eb838437faa8b63af65eb79a2f43efae804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:02 +0000
Subject: [PATCH 40/65] fix: escaping a value without special characters wrote
 outside its memory

---
 cligen_expand.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index 298f32a..e38addd 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -480,7 +480,8 @@ cligen_escape_do(const char *s0)
         return NULL;
     }
     len = strlen(s0);
-    nr = cligen_escape_nr(s0);
+    if ((nr = cligen_escape_nr(s0)) == 0)
+        nr = 2; /* quotes */
     if ((s1 = (char*)malloc(len + 1 + nr)) == NULL){
         return NULL;
     }
-- 
2.43.0


From df0092c2257166afd5bfe3722ca66b653cbc3592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:55 +0000
Subject: [PATCH 41/65] Loop contracts for escaping (guarded by CLIGEN_VERIFY)

---
 cligen_contracts.h | 28 ++++++++++++++++++++++++++++
 cligen_expand.c    | 12 ++++++++++--
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/cligen_contracts.h b/cligen_contracts.h
index ec88aad..5e9f9c5 100644
--- a/cligen_contracts.h
+++ b/cligen_contracts.h
@@ -110,6 +110,31 @@ extern void *cligen_ghost_fn; /* function of the other callbacks, if any */
 #define LOOP_WRITE                                                      \
     LOOP_INVARIANT(0 <= written && written <= inbuflen && written == GHOST_AT && GHOST_INT(5) == 0) \
     LOOP_DECREASES(inbuflen - written)
+/* Escaping: ghost function number of characters to escape among the first i of a text of ghost_n
+ * characters; the lemma is its definition, and that it grows */
+extern long *cligen_ghost_count;
+#define GHOST_ESC(i) cligen_ghost_count[i]
+#define GHOST_SPECIAL(c) ((c) == '?' || (c) == '\\' ? 1 : 0)
+#define LEMMA_ESCAPE(s, i)                                              \
+    __CPROVER_assume(GHOST_ESC((i)+1) == GHOST_ESC(i) + GHOST_SPECIAL((s)[i])); \
+    __CPROVER_assume(0 <= GHOST_ESC(i) && GHOST_ESC((i)+1) <= GHOST_ESC(cligen_ghost_n) && GHOST_ESC(i) <= (i));
+#define LOOP_ESCAPE_NR                                                  \
+    LOOP_INVARIANT(0 <= GHOST_AT && GHOST_AT <= cligen_ghost_n && sp == s + GHOST_AT) \
+    LOOP_INVARIANT(0 <= GHOST_ESC(GHOST_AT) && GHOST_ESC(GHOST_AT) <= GHOST_AT) \
+    LOOP_INVARIANT(nr == GHOST_ESC(GHOST_AT) + (nr ? 2 : 0))            \
+    LOOP_INVARIANT(nr > 0 || !cligen_ghost_holds || GHOST_AT <= (long)cligen_ghost_k) \
+    LOOP_INVARIANT(nr == 0 || nr >= 2)                                  \
+    LOOP_DECREASES(cligen_ghost_n - GHOST_AT)
+#define LOOP_ESCAPE_DO                                                  \
+    LOOP_INVARIANT(0 <= i && i <= cligen_ghost_n && 0 <= GHOST_ESC(i) && GHOST_ESC(i) <= i) \
+    LOOP_INVARIANT(GHOST_ESC(i) <= GHOST_ESC(cligen_ghost_n))           \
+    LOOP_INVARIANT(j == 1 + i + GHOST_ESC(i) && s1[0] == '"')           \
+    LOOP_INVARIANT(i <= (long)cligen_ghost_k || (GHOST_ESC((long)cligen_ghost_k) >= 0 && GHOST_ESC((long)cligen_ghost_k) <= (long)cligen_ghost_k && \
+        GHOST_ESC((long)cligen_ghost_k + 1) == GHOST_ESC((long)cligen_ghost_k) + GHOST_SPECIAL(s0[cligen_ghost_k]) && \
+        GHOST_ESC(i) >= GHOST_ESC((long)cligen_ghost_k + 1) &&          \
+        s1[1 + cligen_ghost_k + GHOST_ESC((long)cligen_ghost_k + 1)] == s0[cligen_ghost_k] && \
+        (!GHOST_SPECIAL(s0[cligen_ghost_k]) || s1[1 + cligen_ghost_k + GHOST_ESC((long)cligen_ghost_k)] == '\\'))) \
+    LOOP_DECREASES(cligen_ghost_n - i)
 /* Release of the entries of a history, where ghost_holds tells whether slot ghost_k has an entry */
 #define LOOP_HISTORY(n)                                                 \
     LOOP_INVARIANT(0 <= i && i <= (n))                                  \
@@ -128,6 +153,9 @@ extern void *cligen_ghost_fn; /* function of the other callbacks, if any */
 #define LOOP_FIND
 #define LOOP_SCROLL
 #define LOOP_WRITE
+#define LEMMA_ESCAPE(s, i)
+#define LOOP_ESCAPE_NR
+#define LOOP_ESCAPE_DO
 #define LOOP_TREES
 #define LOOP_PIPES
 #define LOOP_CALLBACKS
diff --git a/cligen_expand.c b/cligen_expand.c
index e38addd..1b19105 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -73,6 +73,7 @@
 #include "cligen_print.h"
 #include "cligen_expand.h"
 #include "cligen_syntax.h"
+#include "cligen_contracts.h"
 
 /*! Copy and expand a cligen object.
  *
@@ -423,7 +424,10 @@ cligen_escape_nr(const char *s)
     const char *sp;
 
     sp = s;
-    while ((sp = strpbrk(sp, "?\\ \t"))) {
+    while ((sp = strpbrk(sp, "?\\ \t")))
+        LOOP_ASSIGNS(sp, nr, __CPROVER_object_whole(cligen_ghost_state))
+        LOOP_ESCAPE_NR
+    {
         if (nr == 0)
             nr = 2; /* escapes */
         if (!isspace(*sp)) {
@@ -487,7 +491,11 @@ cligen_escape_do(const char *s0)
     }
     j = 0;
     s1[j++] = '"';
-    for (i = 0; i < len; i++, j++) {
+    for (i = 0; i < len; i++, j++)
+        LOOP_ASSIGNS(i, j, __CPROVER_object_whole(s1))
+        LOOP_ESCAPE_DO
+    {
+        LEMMA_ESCAPE(s0, i)
         if ((s0[i] == '?') || (s0[i] == '\\')) {
             s1[j++] = '\\';
         }
-- 
2.43.0


From 0594623b8fd635fbe74f8d169f0720652af273ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:47 +0000
Subject: [PATCH 42/65] Loop contract for selection (guarded by CLIGEN_VERIFY)

---
 cligen_contracts.h | 30 ++++++++++++++++++++++++++++++
 cligen_match.c     |  5 ++++-
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/cligen_contracts.h b/cligen_contracts.h
index 5e9f9c5..358a5c6 100644
--- a/cligen_contracts.h
+++ b/cligen_contracts.h
@@ -135,6 +135,35 @@ extern long *cligen_ghost_count;
         s1[1 + cligen_ghost_k + GHOST_ESC((long)cligen_ghost_k + 1)] == s0[cligen_ghost_k] && \
         (!GHOST_SPECIAL(s0[cligen_ghost_k]) || s1[1 + cligen_ghost_k + GHOST_ESC((long)cligen_ghost_k)] == '\\'))) \
     LOOP_DECREASES(cligen_ghost_n - i)
+/* Selection among ghost_c[0] alternatives: those of number ghost_c[1] and ghost_c[2] match if ghost_c[3], ghost_c[5],
+ * with preference ghost_c[4], ghost_c[6], and are left out after an equal variable if ghost_c[7], ghost_c[8].
+ * State: 2, 3 times recorded, 4 any is recorded, 5 which is first, 6 it is a variable, 7 a reason is set, 8 reasons
+ * in memory, 9 failure */
+extern long cligen_ghost_c[10];
+#define GHOST_SELECTED(at, in, which, nr, ok, pref, skip)                   LOOP_INVARIANT(0 <= (in) && (in) <= ((at) > (nr) && (ok) ? 1 : 0))  \
+    LOOP_INVARIANT(!((at) > (nr) && (ok)) || GHOST_INT(4) == 1)         \
+    LOOP_INVARIANT(best || !((at) > (nr) && (ok)) || (in) == 1)         \
+    LOOP_INVARIANT(!best || !((at) > (nr) && (ok)) || (pref) <= pref_upper) \
+    LOOP_INVARIANT(!best || !(in) || (pref) == pref_upper)              \
+    LOOP_INVARIANT(!best || GHOST_INT(4) == 0 || (GHOST_INT(5) == (which)) == ((void*)cop == cligen_ghost_node[which])) \
+    LOOP_INVARIANT(!best || GHOST_INT(4) == 0 || GHOST_INT(5) != (which) || (in) == 1) \
+    LOOP_INVARIANT(!best || !((at) > (nr) && (ok)) || (pref) != pref_upper || \
+        (in) == (GHOST_INT(5) != (which) && (skip) && GHOST_INT(6) ? 0 : 1))
+#define LOOP_SELECT                                                     \
+    LOOP_ASSIGNS(i, co, cop, match, exact, tmpreason, p, pref_lower, pref_upper, __CPROVER_object_whole(cligen_ghost_state)) \
+    LOOP_INVARIANT(cop == NULL || (void*)cop == cligen_ghost_node[0] || (void*)cop == cligen_ghost_node[1] || (void*)cop == cligen_ghost_node[2] || (void*)cop == cligen_ghost_fn) \
+    LOOP_INVARIANT(0 <= i && i <= cligen_ghost_c[0] && GHOST_AT == i && GHOST_INT(9) == 0) \
+    LOOP_INVARIANT(((cg_obj*)cligen_ghost_node[0])->co_type == CO_VARIABLE && ((cg_obj*)cligen_ghost_fn)->co_type != CO_VARIABLE) \
+    LOOP_INVARIANT(0 <= GHOST_INT(4) && GHOST_INT(4) <= 1 && 0 <= GHOST_INT(5) && GHOST_INT(5) <= 2 && 0 <= GHOST_INT(6) && GHOST_INT(6) <= 1) \
+    LOOP_INVARIANT(0 <= pref_upper && pref_upper <= UINT16_MAX && 1 <= pref_lower) \
+    LOOP_INVARIANT(!best || (GHOST_INT(4) == 0) == (pref_upper == 0))   \
+    LOOP_INVARIANT(!best || (cop == NULL) == (pref_upper == 0))         \
+    LOOP_INVARIANT(!best || cop == NULL || (cop->co_type == CO_VARIABLE) == GHOST_INT(6)) \
+    LOOP_INVARIANT(GHOST_INT(7) == (pref_lower < INT32_MAX ? 1 : 0) && GHOST_INT(8) == GHOST_INT(7)) \
+    LOOP_INVARIANT(!(i > cligen_ghost_c[1] && cligen_ghost_c[9]) || GHOST_INT(7)) \
+    GHOST_SELECTED(i, GHOST_INT(2), 1, cligen_ghost_c[1], cligen_ghost_c[3], cligen_ghost_c[4], cligen_ghost_c[7]) \
+    GHOST_SELECTED(i, GHOST_INT(3), 2, cligen_ghost_c[2], cligen_ghost_c[5], cligen_ghost_c[6], cligen_ghost_c[8]) \
+    LOOP_DECREASES(cligen_ghost_c[0] - i)
 /* Release of the entries of a history, where ghost_holds tells whether slot ghost_k has an entry */
 #define LOOP_HISTORY(n)                                                 \
     LOOP_INVARIANT(0 <= i && i <= (n))                                  \
@@ -156,6 +185,7 @@ extern long *cligen_ghost_count;
 #define LEMMA_ESCAPE(s, i)
 #define LOOP_ESCAPE_NR
 #define LOOP_ESCAPE_DO
+#define LOOP_SELECT
 #define LOOP_TREES
 #define LOOP_PIPES
 #define LOOP_CALLBACKS
diff --git a/cligen_match.c b/cligen_match.c
index a41fcf3..734b660 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -67,6 +67,7 @@
 #include "cligen_result.h"
 #include "cligen_read.h"
 #include "cligen_match.h"
+#include "cligen_contracts.h"
 
 #ifndef MIN
 #define MIN(x,y) ((x)<(y)?(x):(y))
@@ -389,7 +390,9 @@ match_vec(cligen_handle h,
     int     match;
 
     /* Loop through parse-tree at this level to find matches */
-    for (i=0; i<pt_len_get(pt); i++){
+    for (i=0; i<pt_len_get(pt); i++)
+        LOOP_SELECT
+    {
         if ((co = pt_vec_i_get(pt, i)) == NULL)
             continue;
         /* Return -1: error, 0: nomatch, 1: match */
-- 
2.43.0


From bccca5951a92cefb5c76cbebe30d60607535a2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:33 +0000
Subject: [PATCH 43/65] fix: a match was not released when it could not be
 recorded

---
 cligen_result.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cligen_result.c b/cligen_result.c
index 26b138d..0732ee4 100644
--- a/cligen_result.c
+++ b/cligen_result.c
@@ -113,7 +113,11 @@ mr_pt_append(match_result *mr,
         return -1;
     mr->mr_co_match_orig = co;
     mr->mr_token = token;
-    return pt_vec_append(mr->mr_pt, co1);
+    if (pt_vec_append(mr->mr_pt, co1) < 0){
+        co_free(co1, 0);
+        return -1;
+    }
+    return 0;
 }
 
 cg_obj*
-- 
2.43.0


From 95d6db5e6cc847dacb65b95d63f90226fab0717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:33 +0000
Subject: [PATCH 44/65] fix: no match was reported without its reason when out
 of memory

---
 cligen_match.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cligen_match.c b/cligen_match.c
index 734b660..8a9f8d1 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -1246,8 +1246,9 @@ match_pattern_exact(cligen_handle  h,
         goto done;
     }
     if (reason &&
-        mr_reason_get(mr))
-        *reason = strdup(mr_reason_get(mr));
+        mr_reason_get(mr) &&
+        (*reason = strdup(mr_reason_get(mr))) == NULL)
+        goto done;
     if (mr_pt_len_get(mr) == 1 &&
         match_obj){
         /* Must make a copy since the mr will be freed */
-- 
2.43.0


From 95c236efa71385db86ce48af9cb406fea4e8389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:05 +0000
Subject: [PATCH 45/65] Loop contracts for the outcome of matching (guarded by
 CLIGEN_VERIFY)

---
 cligen_contracts.h | 16 ++++++++++++++++
 cligen_match.c     |  8 ++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/cligen_contracts.h b/cligen_contracts.h
index 358a5c6..f69ad8f 100644
--- a/cligen_contracts.h
+++ b/cligen_contracts.h
@@ -164,6 +164,20 @@ extern long cligen_ghost_c[10];
     GHOST_SELECTED(i, GHOST_INT(2), 1, cligen_ghost_c[1], cligen_ghost_c[3], cligen_ghost_c[4], cligen_ghost_c[7]) \
     GHOST_SELECTED(i, GHOST_INT(3), 2, cligen_ghost_c[2], cligen_ghost_c[5], cligen_ghost_c[6], cligen_ghost_c[8]) \
     LOOP_DECREASES(cligen_ghost_c[0] - i)
+/* Matches alike: none of those passed differs from the first one; children: none of those passed is empty */
+extern long cligen_ghost_len[2];
+#define LOOP_ALIKE                                                      \
+    LOOP_ASSIGNS(i, co, string1, __CPROVER_object_whole(cligen_ghost_state)) \
+    LOOP_INVARIANT(0 <= i && i <= cligen_ghost_len[0] && (i == 0 || GHOST_AT == i)) \
+    LOOP_INVARIANT(i == 0 || string1 == cligen_ghost_text)              \
+    LOOP_INVARIANT(GHOST_COPIES == 0 && GHOST_INT(3) == 0 && GHOST_LONG(2) == 0) \
+    LOOP_INVARIANT(i <= (long)cligen_ghost_k || cligen_ghost_holds)     \
+    LOOP_DECREASES(cligen_ghost_len[0] - i)
+#define LOOP_CHILDREN                                                   \
+    LOOP_ASSIGNS(i, co, __CPROVER_object_whole(cligen_ghost_state))     \
+    LOOP_INVARIANT(0 <= i && i <= cligen_ghost_len[1] && GHOST_LONG(2) == i && GHOST_INT(3) == 0) \
+    LOOP_INVARIANT(i <= (long)cligen_ghost_j || !cligen_ghost_n)        \
+    LOOP_DECREASES(cligen_ghost_len[1] - i)
 /* Release of the entries of a history, where ghost_holds tells whether slot ghost_k has an entry */
 #define LOOP_HISTORY(n)                                                 \
     LOOP_INVARIANT(0 <= i && i <= (n))                                  \
@@ -186,6 +200,8 @@ extern long cligen_ghost_c[10];
 #define LOOP_ESCAPE_NR
 #define LOOP_ESCAPE_DO
 #define LOOP_SELECT
+#define LOOP_ALIKE
+#define LOOP_CHILDREN
 #define LOOP_TREES
 #define LOOP_PIPES
 #define LOOP_CALLBACKS
diff --git a/cligen_match.c b/cligen_match.c
index 8a9f8d1..f3ab2ba 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -1118,7 +1118,9 @@ match_pattern(cligen_handle h,
         /* Collapse many choices to one
          * if all alternatives are equal commands */
         string1 = NULL;
-        for (i=0; i<mr_pt_len_get(mr); i++){
+        for (i=0; i<mr_pt_len_get(mr); i++)
+            LOOP_ALIKE
+        {
             co = mr_pt_i_get(mr, i);
             if (co->co_type != CO_COMMAND)
                 break;
@@ -1167,7 +1169,9 @@ match_pattern(cligen_handle h,
             if (pt_expand(h, co1, ptc, cvt, cvv1, 1, 0, NULL, NULL, ptn) < 0)
                 goto done;
             /* Loop sets i which is used below */
-            for (i=0; i<pt_len_get(ptn); i++){
+            for (i=0; i<pt_len_get(ptn); i++)
+                LOOP_CHILDREN
+            {
                 if ((co = pt_vec_i_get(ptn, i)) == NULL ||
                     co->co_type == CO_EMPTY)
                     break; /* If we match here it is OK, unless no match */
-- 
2.43.0


From 9cdc67a10eb4e749c1bec1ed6cb082b6aad40ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:51 +0000
Subject: [PATCH 46/65] fix: completion in front of other text could write
 outside the line buffer

---
 cligen_read.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cligen_read.c b/cligen_read.c
index c7d0022..93052d1 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -544,10 +544,9 @@ cli_complete(cligen_handle h,
         goto done;
     extra = strlen(s) - cursor;      /* Extra characters added? */
     if (extra){
-        cligen_buf_increase(h, strlen(s));
-        string = cligen_buf(h);
         n = strlen(string) - cursor; /* Nr of chars right of cursor to copy */
-        cligen_buf_increase(h, strlen(string)+cursor+n);
+        if (cligen_buf_increase(h, cursor+extra+n) < 0)
+            goto done;
         string = cligen_buf(h);
         for (i=cursor+n; i>=cursor; i--)             /* Copy right of cursor */
             string[i + extra] = string[i];
-- 
2.43.0


From 06d01bd458bc06f5d8b577f69a01c9d58d70fa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:03 +0000
Subject: [PATCH 47/65] fix: completion appended too much when case is ignored
 or a variable was typed

---
 cligen_match.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cligen_match.c b/cligen_match.c
index f3ab2ba..1322eec 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -1350,13 +1350,15 @@ match_complete(cligen_handle h,
                 equal = 0;
                 len = MIN(strlen(command1), strlen(command));
                 for (j=0; j<len; j++)
-                    if (command1[j] != command[j])
+                    if (command1[j] != command[j] &&
+                        (!cligen_caseignore_get(h) ||
+                         tolower((unsigned char)command1[j]) != tolower((unsigned char)command[j])))
                         break;
                 minmatch = MIN(minmatch, j);
             }
         }
     }
-    if (co1 == NULL){
+    if (co1 == NULL || minmatch < slen){ /* Nothing to complete */
         retval = 0;
         goto done;
     }
-- 
2.43.0


From 080e1af7b720eeea3ca879f8a5655ddf84587c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:03 +0000
Subject: [PATCH 48/65] fix: completion could write the blank outside its
 buffer

---
 cligen_match.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cligen_match.c b/cligen_match.c
index 1322eec..7f36b9b 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -1362,10 +1362,11 @@ match_complete(cligen_handle h,
         retval = 0;
         goto done;
     }
-    while (strlen(*stringp) + minmatch - slen >= *slenp){
-        *slenp *= 2;
-        if ((*stringp = realloc(*stringp, *slenp)) == NULL)
+    while (strlen(*stringp) + minmatch - slen + 1 >= *slenp){ /* Room for delimiter */
+        if ((s = realloc(*stringp, *slenp*2)) == NULL)
             goto done;
+        *slenp *= 2;
+        *stringp = s;
         string = *stringp;
     }
     strncat(string, &command1[slen], minmatch-slen);
-- 
2.43.0


From 54d281e78e3e26ccf222b1e034f355c137e53192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:47 +0000
Subject: [PATCH 49/65] Loop contracts for completion (guarded by
 CLIGEN_VERIFY)

---
 cligen_contracts.h | 53 ++++++++++++++++++++++++++++++++++++++++++++++
 cligen_match.c     | 16 ++++++++++++--
 2 files changed, 67 insertions(+), 2 deletions(-)

diff --git a/cligen_contracts.h b/cligen_contracts.h
index f69ad8f..533f984 100644
--- a/cligen_contracts.h
+++ b/cligen_contracts.h
@@ -140,6 +140,8 @@ extern long *cligen_ghost_count;
  * State: 2, 3 times recorded, 4 any is recorded, 5 which is first, 6 it is a variable, 7 a reason is set, 8 reasons
  * in memory, 9 failure */
 extern long cligen_ghost_c[10];
+extern long cligen_ghost_v[6];
+extern char cligen_ghost_ch[2];
 #define GHOST_SELECTED(at, in, which, nr, ok, pref, skip)                   LOOP_INVARIANT(0 <= (in) && (in) <= ((at) > (nr) && (ok) ? 1 : 0))  \
     LOOP_INVARIANT(!((at) > (nr) && (ok)) || GHOST_INT(4) == 1)         \
     LOOP_INVARIANT(best || !((at) > (nr) && (ok)) || (in) == 1)         \
@@ -178,6 +180,49 @@ extern long cligen_ghost_len[2];
     LOOP_INVARIANT(0 <= i && i <= cligen_ghost_len[1] && GHOST_LONG(2) == i && GHOST_INT(3) == 0) \
     LOOP_INVARIANT(i <= (long)cligen_ghost_j || !cligen_ghost_n)        \
     LOOP_DECREASES(cligen_ghost_len[1] - i)
+/* Completion: ghost_c[0] matches, number ghost_c[7] is the first that counts and has ghost_c[3] letters; number ghost_c[1]
+ * has ghost_c[4] letters, counts if ghost_c[9], is the same if ghost_k; position ghost_c[2]; ghost_c[5]: the claim is about
+ * words that all agree up to this position; ghost_c[6]: case is ignored; the word typed has ghost_c[8] letters.
+ * State: 0 matches visited, 1 size of the buffer, 2 length of other words, 6 words differ, 4 length of the line */
+#define GHOST_LOWER(c) ((c) >= 'A' && (c) <= 'Z' ? (c) + 32 : (c))
+#define GHOST_LIKE(a, b) ((a) == (b) || (cligen_ghost_c[6] && GHOST_LOWER(a) == GHOST_LOWER(b)))
+#define LOOP_BLANKS                                                     \
+    LOOP_ASSIGNS(s)                                                     \
+    LOOP_INVARIANT(__CPROVER_same_object(s, string) && __CPROVER_POINTER_OFFSET(s) <= cligen_ghost_v[2]) \
+    LOOP_DECREASES(cligen_ghost_v[2] - __CPROVER_POINTER_OFFSET(s))
+#define LOOP_COMMANDS                                                   \
+    LOOP_ASSIGNS(i, j, co, co1, command, command1, slen, minmatch, equal, len, cligen_ghost_v[0], cligen_ghost_v[3], cligen_ghost_v[4], __CPROVER_object_whole(cligen_ghost_ch), __CPROVER_object_whole(cligen_ghost_state)) \
+    LOOP_INVARIANT(0 <= i && i <= cligen_ghost_c[0] && cligen_ghost_v[0] == i) \
+    LOOP_INVARIANT(co1 == (i <= cligen_ghost_c[7] ? NULL : cligen_ghost_node[1])) \
+    LOOP_INVARIANT(i <= cligen_ghost_c[7] || command1 == cligen_ghost_node[2]) \
+    LOOP_INVARIANT(0 <= equal && equal <= 1 && cligen_ghost_v[3] == 1 - equal) \
+    LOOP_INVARIANT(i > cligen_ghost_c[7] || equal == 1)                 \
+    LOOP_INVARIANT(i <= cligen_ghost_c[7] || (slen == cligen_ghost_c[8] && 0 <= minmatch && minmatch <= cligen_ghost_c[3])) \
+    LOOP_INVARIANT(i <= cligen_ghost_c[7] || !equal || minmatch == cligen_ghost_c[3]) \
+    LOOP_INVARIANT(!(i > cligen_ghost_c[1] && cligen_ghost_c[9]) || !equal || cligen_ghost_k) \
+    LOOP_INVARIANT(!(i > cligen_ghost_c[1] && cligen_ghost_c[9]) || cligen_ghost_c[2] >= minmatch || cligen_ghost_j) \
+    LOOP_INVARIANT(i <= cligen_ghost_c[7] || !cligen_ghost_c[5] || minmatch > cligen_ghost_c[2]) \
+    LOOP_DECREASES(cligen_ghost_c[0] - i)
+#define LOOP_COMMON                                                     \
+    LOOP_ASSIGNS(j)                                                     \
+    LOOP_INVARIANT(0 <= j && j <= len)                                  \
+    LOOP_INVARIANT(j <= cligen_ghost_c[2] || GHOST_LIKE(cligen_ghost_ch[0], cligen_ghost_ch[1])) \
+    LOOP_DECREASES(len - j)
+#define LEMMA_LETTERS(a, b, i)                                          \
+    if ((i) < len){ cligen_ghost_ch[0] = (a)[i]; cligen_ghost_ch[1] = (b)[i]; }
+#define LEMMA_COMMON(a, b, j)                                           \
+    if (cligen_ghost_c[5] && (j) <= cligen_ghost_c[2]){                 \
+        char ghost_a = (a)[j], ghost_b = (b)[j];                        \
+        __CPROVER_assume(GHOST_LIKE(ghost_a, ghost_b));                 \
+    }
+#define LEMMA_FIRST                                                     \
+    if (co1 != NULL){ __CPROVER_assert(co1 == cligen_ghost_node[1], "first command"); co1 = cligen_ghost_node[1]; }
+#define LEMMA_LINE                                                      \
+    { __CPROVER_assert(*stringp == cligen_ghost_text && string == cligen_ghost_text, "line"); *stringp = string = cligen_ghost_text; }
+#define LOOP_ROOM                                                       \
+    LOOP_ASSIGNS(s, string, *stringp, *slenp, cligen_ghost_v[1], cligen_ghost_v[5]) \
+    LOOP_INVARIANT(*stringp == cligen_ghost_text && string == cligen_ghost_text && *slenp == cligen_ghost_v[1]) \
+    LOOP_INVARIANT(cligen_ghost_v[1] > cligen_ghost_v[2] && cligen_ghost_v[1] <= cligen_ghost_m && cligen_ghost_v[5] == 0)
 /* Release of the entries of a history, where ghost_holds tells whether slot ghost_k has an entry */
 #define LOOP_HISTORY(n)                                                 \
     LOOP_INVARIANT(0 <= i && i <= (n))                                  \
@@ -200,6 +245,14 @@ extern long cligen_ghost_len[2];
 #define LOOP_ESCAPE_NR
 #define LOOP_ESCAPE_DO
 #define LOOP_SELECT
+#define LOOP_BLANKS
+#define LOOP_COMMANDS
+#define LOOP_COMMON
+#define LOOP_ROOM
+#define LEMMA_LETTERS(a, b, i)
+#define LEMMA_COMMON(a, b, j)
+#define LEMMA_FIRST
+#define LEMMA_LINE
 #define LOOP_ALIKE
 #define LOOP_CHILDREN
 #define LOOP_TREES
diff --git a/cligen_match.c b/cligen_match.c
index 7f36b9b..45096af 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -1311,6 +1311,7 @@ match_complete(cligen_handle h,
         goto done;
     s = string;
     while ((strlen(s) > 0) && isblank(*s))
+        LOOP_BLANKS
         s++;
     if (match_pattern(h, cvt, cvr,
                       pt,
@@ -1323,7 +1324,10 @@ match_complete(cligen_handle h,
         goto done; /*  No matches */
     }
     equal = 1;
-    for (i=0; i<mr_pt_len_get(mr); i++){
+    for (i=0; i<mr_pt_len_get(mr); i++)
+        LOOP_COMMANDS
+    {
+        LEMMA_FIRST
         co = mr_pt_i_get(mr, i);
         if (co == NULL){
             retval = 0;
@@ -1349,11 +1353,16 @@ match_complete(cligen_handle h,
             else{
                 equal = 0;
                 len = MIN(strlen(command1), strlen(command));
+                LEMMA_LETTERS(command1, command, cligen_ghost_c[2])
                 for (j=0; j<len; j++)
+                    LOOP_COMMON
+                {
+                    LEMMA_COMMON(command1, command, j)
                     if (command1[j] != command[j] &&
                         (!cligen_caseignore_get(h) ||
                          tolower((unsigned char)command1[j]) != tolower((unsigned char)command[j])))
                         break;
+                }
                 minmatch = MIN(minmatch, j);
             }
         }
@@ -1362,13 +1371,16 @@ match_complete(cligen_handle h,
         retval = 0;
         goto done;
     }
-    while (strlen(*stringp) + minmatch - slen + 1 >= *slenp){ /* Room for delimiter */
+    while (strlen(*stringp) + minmatch - slen + 1 >= *slenp) /* Room for delimiter */
+        LOOP_ROOM
+    {
         if ((s = realloc(*stringp, *slenp*2)) == NULL)
             goto done;
         *slenp *= 2;
         *stringp = s;
         string = *stringp;
     }
+    LEMMA_LINE
     strncat(string, &command1[slen], minmatch-slen);
     append = append || minmatch-slen;
     if (equal){ /* add space */
-- 
2.43.0


From 674c1ee1939a88ca4d9c1acad85ad73b52bd224d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:31 +0000
Subject: [PATCH 50/65] Loop contract for insertion of a completion (guarded by
 CLIGEN_VERIFY)

---
 cligen_contracts.h | 7 +++++++
 cligen_read.c      | 1 +
 2 files changed, 8 insertions(+)

diff --git a/cligen_contracts.h b/cligen_contracts.h
index 533f984..03ad00d 100644
--- a/cligen_contracts.h
+++ b/cligen_contracts.h
@@ -223,6 +223,12 @@ extern long cligen_ghost_len[2];
     LOOP_ASSIGNS(s, string, *stringp, *slenp, cligen_ghost_v[1], cligen_ghost_v[5]) \
     LOOP_INVARIANT(*stringp == cligen_ghost_text && string == cligen_ghost_text && *slenp == cligen_ghost_v[1]) \
     LOOP_INVARIANT(cligen_ghost_v[1] > cligen_ghost_v[2] && cligen_ghost_v[1] <= cligen_ghost_m && cligen_ghost_v[5] == 0)
+/* Text moved to the right by extra: the character ghost_ch[0] in position ghost_n */
+#define LOOP_SHIFT                                                      \
+    LOOP_ASSIGNS(i, __CPROVER_object_whole(string))                     \
+    LOOP_INVARIANT(cursor - 1 <= i && i <= cursor + n)                  \
+    LOOP_INVARIANT(string[cligen_ghost_n <= i || cligen_ghost_n < cursor ? cligen_ghost_n : cligen_ghost_n + extra] == cligen_ghost_ch[0]) \
+    LOOP_DECREASES(i - cursor + 1)
 /* Release of the entries of a history, where ghost_holds tells whether slot ghost_k has an entry */
 #define LOOP_HISTORY(n)                                                 \
     LOOP_INVARIANT(0 <= i && i <= (n))                                  \
@@ -251,6 +257,7 @@ extern long cligen_ghost_len[2];
 #define LOOP_ROOM
 #define LEMMA_LETTERS(a, b, i)
 #define LEMMA_COMMON(a, b, j)
+#define LOOP_SHIFT
 #define LEMMA_FIRST
 #define LEMMA_LINE
 #define LOOP_ALIKE
diff --git a/cligen_read.c b/cligen_read.c
index 93052d1..dc86544 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -549,6 +549,7 @@ cli_complete(cligen_handle h,
             goto done;
         string = cligen_buf(h);
         for (i=cursor+n; i>=cursor; i--)             /* Copy right of cursor */
+            LOOP_SHIFT
             string[i + extra] = string[i];
         strncpy(string + cursor, s + cursor, extra); /* Copy the new stuff */
         *cursorp += extra;                           /* Increase cursor */
-- 
2.43.0


From b06c5e20467aa009152554b2a9304aee74911b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:45 +0000
Subject: [PATCH 51/65] fix: a variable was merged with a command of the same
 name

---
 cligen_object.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cligen_object.c b/cligen_object.c
index 552c2ee..a7b29ab 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -902,9 +902,7 @@ co_eq(cg_obj *co1,
 
     /* eq == 0 means equal */
     eq = !(co1->co_type == co2->co_type);
-    if (eq){ /* Unequal type of command, variable and reference.
-                but need to check special case,
-                if the variable is a KEYWORD, then it can be eq to a command. */
+    if (eq){ /* Unequal type of command, variable and reference. */
         /* Let References be last (more than) everything else */
         if (co1->co_type == CO_REFERENCE){
             eq = 1;
@@ -924,7 +922,8 @@ co_eq(cg_obj *co1,
             goto done;
         }
         /* Here one is command and one is variable */
-        eq = strcmp(co1->co_command, co2->co_command);
+        if ((eq = strcmp(co1->co_command, co2->co_command)) == 0) /* Same name: command first */
+            eq = co1->co_type == CO_COMMAND ? -1 : 1;
         goto done;
     }
     switch (co1->co_type){
-- 
2.43.0


From bff08ab6a84439fd4d2c1f45edce63ea56a00658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:24 +0000
Subject: [PATCH 52/65] fix: decimal variables with different ranges were
 merged

---
 cligen_object.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_object.c b/cligen_object.c
index a7b29ab..5314d50 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -974,7 +974,7 @@ co_eq(cg_obj *co1,
                 goto done;
         }
         /* Examine int and range */
-        if (cv_isint(co1->co_vtype) || cv_isstring(co1->co_vtype)) {
+        if (cv_isint(co1->co_vtype) || cv_isstring(co1->co_vtype) || co1->co_vtype == CGV_DEC64) {
             int i;
             cg_var *cv1, *cv2;
             if ((eq = co1->co_rangelen - co2->co_rangelen) != 0)
-- 
2.43.0


From c20228215714b32e57edabe47825d2447b0eb439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:16 +0000
Subject: [PATCH 53/65] Loop contracts for splitting a line (guarded by
 CLIGEN_VERIFY)

---
 cligen_contracts.h | 37 ++++++++++++++++++++++++++++++++++++-
 cligen_cvec.c      | 14 +++++++++++---
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/cligen_contracts.h b/cligen_contracts.h
index 03ad00d..fc7a3f4 100644
--- a/cligen_contracts.h
+++ b/cligen_contracts.h
@@ -140,7 +140,7 @@ extern long *cligen_ghost_count;
  * State: 2, 3 times recorded, 4 any is recorded, 5 which is first, 6 it is a variable, 7 a reason is set, 8 reasons
  * in memory, 9 failure */
 extern long cligen_ghost_c[10];
-extern long cligen_ghost_v[6];
+extern long cligen_ghost_v[8];
 extern char cligen_ghost_ch[2];
 #define GHOST_SELECTED(at, in, which, nr, ok, pref, skip)                   LOOP_INVARIANT(0 <= (in) && (in) <= ((at) > (nr) && (ok) ? 1 : 0))  \
     LOOP_INVARIANT(!((at) > (nr) && (ok)) || GHOST_INT(4) == 1)         \
@@ -229,6 +229,36 @@ extern long cligen_ghost_len[2];
     LOOP_INVARIANT(cursor - 1 <= i && i <= cursor + n)                  \
     LOOP_INVARIANT(string[cligen_ghost_n <= i || cligen_ghost_n < cursor ? cligen_ghost_n : cligen_ghost_n + extra] == cligen_ghost_ch[0]) \
     LOOP_DECREASES(i - cursor + 1)
+/* Next token of a line of at most ghost_n characters: character ghost_ch[0] in position ghost_k; ghost function: the
+ * character is escaped; the lemmas are its definition */
+#define GHOST_OFF(p) ((long)__CPROVER_POINTER_OFFSET(p))
+#define GHOST_BLANK(c) ((c) == ' ' || (c) == '\t')
+#define LOOP_LEADING                                                    \
+    LOOP_ASSIGNS(s, leading)                                            \
+    LOOP_INVARIANT(__CPROVER_same_object(s, *s0) && GHOST_OFF(*s0) <= GHOST_OFF(s) && GHOST_OFF(s) <= cligen_ghost_n) \
+    LOOP_INVARIANT(leading == GHOST_OFF(s) - GHOST_OFF(*s0))            \
+    LOOP_INVARIANT((long)cligen_ghost_k < GHOST_OFF(*s0) || (long)cligen_ghost_k >= GHOST_OFF(s) || GHOST_BLANK(cligen_ghost_ch[0])) \
+    LOOP_DECREASES(cligen_ghost_n - GHOST_OFF(s))
+#define LEMMA_START(st)                                                 \
+    __CPROVER_assume(GHOST_ESC(GHOST_OFF(st)) == 0);
+#define LEMMA_TOKEN(s)                                                  \
+    __CPROVER_assume(GHOST_ESC(GHOST_OFF(s) + 1) == (GHOST_ESC(GHOST_OFF(s)) == 0 && *(s) == '\\' ? 1 : 0));
+#define LOOP_TOKEN                                                      \
+    LOOP_ASSIGNS(s, escape)                                             \
+    LOOP_INVARIANT(__CPROVER_same_object(s, st) && GHOST_OFF(st) <= GHOST_OFF(s) && GHOST_OFF(s) <= cligen_ghost_n) \
+    LOOP_INVARIANT(quote ? escape == 0 : escape == GHOST_ESC(GHOST_OFF(s))) \
+    LOOP_INVARIANT((long)cligen_ghost_k < GHOST_OFF(st) || (long)cligen_ghost_k >= GHOST_OFF(s) || (cligen_ghost_ch[0] != '\0' && \
+        (quote ? cligen_ghost_ch[0] != '"' : (GHOST_ESC((long)cligen_ghost_k) != 0 || !GHOST_BLANK(cligen_ghost_ch[0]))))) \
+    LOOP_DECREASES(cligen_ghost_n - GHOST_OFF(s))
+/* Tokens of a line: state 0 tokens found, 1 tokens recorded, 2 rests recorded, 3 position in the line, 4 failure */
+#define LOOP_TOKENS                                                     \
+    LOOP_ASSIGNS(s, t, sr, trail, cv, i, __CPROVER_object_whole(cligen_ghost_v), __CPROVER_object_whole(cligen_ghost_node)) \
+    LOOP_INVARIANT((s != NULL || t == NULL) && 0 <= i && i == cligen_ghost_v[0] && i == cligen_ghost_v[1] && i == cligen_ghost_v[2] && cligen_ghost_v[4] == 0 && cligen_ghost_v[6] == 0) \
+    LOOP_INVARIANT(-1 <= cligen_ghost_v[3] && cligen_ghost_v[3] <= cligen_ghost_n) \
+    LOOP_INVARIANT(cligen_ghost_v[3] < 0 ? s == NULL : __CPROVER_same_object(s, cligen_ghost_text) && GHOST_OFF(s) == cligen_ghost_v[3]) \
+    LOOP_INVARIANT(i <= (cligen_ghost_v[3] < 0 ? cligen_ghost_n + 1 : cligen_ghost_v[3])) \
+    LOOP_INVARIANT(cligen_ghost_v[5] == (cligen_ghost_v[3] < 0 ? 1 : 0)) \
+    LOOP_DECREASES(cligen_ghost_v[3] < 0 ? 0 : cligen_ghost_n + 1 - cligen_ghost_v[3])
 /* Release of the entries of a history, where ghost_holds tells whether slot ghost_k has an entry */
 #define LOOP_HISTORY(n)                                                 \
     LOOP_INVARIANT(0 <= i && i <= (n))                                  \
@@ -257,6 +287,11 @@ extern long cligen_ghost_len[2];
 #define LOOP_ROOM
 #define LEMMA_LETTERS(a, b, i)
 #define LEMMA_COMMON(a, b, j)
+#define LOOP_LEADING
+#define LOOP_TOKEN
+#define LOOP_TOKENS
+#define LEMMA_START(st)
+#define LEMMA_TOKEN(s)
 #define LOOP_SHIFT
 #define LEMMA_FIRST
 #define LEMMA_LINE
diff --git a/cligen_cvec.c b/cligen_cvec.c
index a2909b1..b932063 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -803,7 +803,9 @@ next_token(char **s0,
         fprintf(stderr, "%s: null string\n", __FUNCTION__);
         return -1;
     }
-    for (s=*s0; *s; s++){ /* First iterate through delimiters */
+    for (s=*s0; *s; s++) /* First iterate through delimiters */
+        LOOP_LEADING
+    {
         if (index(CLIGEN_DELIMITERS, *s) == NULL)
             break;
         leading++;
@@ -816,7 +818,11 @@ next_token(char **s0,
     }
     st=s; /* token starts */
     escape = 0;
-    for (; *s; s++){ /* Then find token */
+    LEMMA_START(st)
+    for (; *s; s++) /* Then find token */
+        LOOP_TOKEN
+    {
+        LEMMA_TOKEN(s)
         if (quote){
             if (index(CLIGEN_QUOTES, *s) != NULL)
                 break;
@@ -910,7 +916,9 @@ cligen_str2cvv(char  *string,
     if ((cvr = cvec_start(string)) ==NULL)
         goto done;
     i = 0;
-    while (s != NULL) {
+    while (s != NULL)
+        LOOP_TOKENS
+    {
         t = NULL;
         if (next_token(&s, &t, &sr, &trail) < 0)
             goto done;
-- 
2.43.0


From 0672cafc710fe7b142108ba98616701d5367116d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:03 +0000
Subject: [PATCH 54/65] fix: deleting or ending a line wrote outside the kill
 buffer or line when out of memory

---
 cligen_getline.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 41b7b09..2613eac 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -957,7 +957,8 @@ gl_newline(cligen_handle h)
         loc = gl_width - 5;     /* shifts line back to start position */
     else
         loc = gl_cnt;
-    cligen_buf_increase(h, gl_cnt+1); /* \n\0 added */
+    if (cligen_buf_increase(h, gl_cnt+1) < 0) /* \n\0 added */
+        return;
     if (gl_out_hook) {
         len = strlen(cligen_buf(h));
     }
@@ -999,7 +1000,8 @@ gl_kill(cligen_handle h,
         int           pos)
 {
     if (pos < gl_cnt) {
-        cligen_killbuf_increase(h, cligen_buf_size(h));
+        if (cligen_killbuf_increase(h, cligen_buf_size(h)) < 0)
+            return;
         strncpy(cligen_killbuf(h), cligen_buf(h) + pos, cligen_buf_size(h));
         cligen_buf(h)[pos] = '\0';
         gl_fixup(h, cligen_prompt(h), pos, pos);
@@ -1021,7 +1023,8 @@ gl_kill_begin(cligen_handle h,
 
     if (pos != 0) {
         len = strlen(cligen_buf(h));
-        cligen_killbuf_increase(h, pos);
+        if (cligen_killbuf_increase(h, pos) < 0)
+            return;
         strncpy(cligen_killbuf(h), cligen_buf(h), pos);
         cligen_killbuf(h)[pos] = '\0';
         memmove(cligen_buf(h), cligen_buf(h) + pos, len-pos+1); /* memmove may overlap */
-- 
2.43.0


From e5939da4e01599a2f1dfe1b712481c74b0b0b6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:08 +0000
Subject: [PATCH 55/65] fix: searching history for a line longer than the line
 buffer left it without its end

---
 cligen_getline.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cligen_getline.c b/cligen_getline.c
index 2613eac..6e3e0d2 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -1558,6 +1558,8 @@ search_back(cligen_handle h,
                gl_fixup(h, search_prompt, 0, 0);
                found = 1;
             } else if ((loc = strstr(p, search_string)) != 0) {
+                if (cligen_buf_increase(h, strlen(p)) < 0)
+                    return;
                 strncpy(cligen_buf(h), p, cligen_buf_size(h));
                 gl_fixup(h, search_prompt, 0, loc - p);
                if (new_search)
@@ -1599,6 +1601,8 @@ search_forw(cligen_handle h,
                gl_fixup(h, search_prompt, 0, 0);
                found = 1;
             } else if ((loc = strstr(p, search_string)) != 0) {
+                if (cligen_buf_increase(h, strlen(p)) < 0)
+                    return;
                 strncpy(cligen_buf(h), p, cligen_buf_size(h));
                 gl_fixup(h, search_prompt, 0, loc - p);
                if (new_search)
-- 
2.43.0


From 14c1c0fe76e4c66eead51334ecf091318f0cc42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:51 +0000
Subject: [PATCH 56/65] Loop annotations for line editing (guarded by
 CLIGEN_VERIFY)

---
 cligen_contracts.h | 68 ++++++++++++++++++++++++++++++++++++++++++++++
 cligen_getline.c   | 64 +++++++++++++++++++++++++++++++++++++++----
 cligen_handle.c    |  3 ++
 3 files changed, 129 insertions(+), 6 deletions(-)

diff --git a/cligen_contracts.h b/cligen_contracts.h
index fc7a3f4..c69bd17 100644
--- a/cligen_contracts.h
+++ b/cligen_contracts.h
@@ -272,8 +272,76 @@ extern long cligen_ghost_len[2];
     LOOP_INVARIANT(cv == (cvv == NULL || GHOST_AT == 0 ? NULL : &cvv->vr_vec[GHOST_AT-1])) \
     LOOP_INVARIANT(GHOST_AT <= (long)cligen_ghost_k || !cligen_ghost_holds) \
     LOOP_DECREASES(cvv == NULL ? 0 : cvv->vr_len - GHOST_AT)
+/* Editing a line ghost_text, with a character ghost_ch[0] in an arbitrary position ghost_n: it is kept, in the position
+ * it belongs in; ghost_v[2] is its position in the end (or -1), ghost_v[3] a position in what is inserted (or -1), with
+ * character ghost_ch[1] */
+#define LOOP_MOVE(len)                                                  \
+    LOOP_ASSIGNS(i, __CPROVER_object_whole(cligen_ghost_text))          \
+    LOOP_INVARIANT(gl_pos - 1 <= i && i <= gl_cnt)                      \
+    LOOP_INVARIANT(cligen_ghost_text[cligen_ghost_n <= i || cligen_ghost_n < gl_pos ? cligen_ghost_n : cligen_ghost_n + (len)] == cligen_ghost_ch[0]) \
+    LOOP_DECREASES(i - gl_pos + 1)
+#define LOOP_YANK                                                       \
+    LOOP_ASSIGNS(i, __CPROVER_object_whole(cligen_ghost_text))          \
+    LOOP_INVARIANT(0 <= i && i <= len)                                  \
+    LOOP_INVARIANT(cligen_ghost_v[2] < 0 || cligen_ghost_text[cligen_ghost_v[2]] == cligen_ghost_ch[0]) \
+    LOOP_INVARIANT(i <= cligen_ghost_v[3] || cligen_ghost_text[gl_pos + cligen_ghost_v[3]] == cligen_ghost_ch[1]) \
+    LOOP_DECREASES(len - i)
+#define LOOP_CLOSE(from)                                                \
+    LOOP_ASSIGNS(i, __CPROVER_object_whole(cligen_ghost_text))          \
+    LOOP_INVARIANT((from) <= i && i <= gl_cnt)                          \
+    LOOP_INVARIANT(cligen_ghost_n == (from) || cligen_ghost_text[cligen_ghost_n < (from) || cligen_ghost_n > i ? cligen_ghost_n : cligen_ghost_n - 1] == cligen_ghost_ch[0]) \
+    LOOP_DECREASES(gl_cnt - i)
+/* Words of the line: blank in the positions ghost_c[0] and from ghost_c[1] to before ghost_c[2], not blank in ghost_c[3]
+ * and from ghost_c[4] to before ghost_c[5] */
+#define GHOST_SPACE(c) ((c) == ' ' || ('\t' <= (c) && (c) <= '\r'))
+#define GHOST_IN(p, c) ((p) == (c)[0] || ((c)[1] <= (p) && (p) < (c)[2]))
+#define LEMMA_WORD(p)                                                   \
+    __CPROVER_assume(GHOST_IN(p, cligen_ghost_c) ? GHOST_SPACE(cligen_ghost_text[p]) : !GHOST_IN(p, cligen_ghost_c + 3) || !GHOST_SPACE(cligen_ghost_text[p]));
+#define LOOP_BACK(end)                                                  \
+    LOOP_ASSIGNS(pos)                                                   \
+    LOOP_INVARIANT((end) <= pos && pos <= __CPROVER_loop_entry(pos))    \
+    LOOP_INVARIANT(GHOST_IN(pos, cligen_ghost_c) ? GHOST_SPACE(cligen_ghost_text[pos]) : !GHOST_IN(pos, cligen_ghost_c + 3) || !GHOST_SPACE(cligen_ghost_text[pos])) \
+    LOOP_DECREASES(pos)
+#define LOOP_FORTH(end)                                                 \
+    LOOP_ASSIGNS(pos)                                                   \
+    LOOP_INVARIANT(__CPROVER_loop_entry(pos) <= pos && pos <= (end))    \
+    LOOP_INVARIANT(GHOST_IN(pos, cligen_ghost_c) ? GHOST_SPACE(cligen_ghost_text[pos]) : !GHOST_IN(pos, cligen_ghost_c + 3) || !GHOST_SPACE(cligen_ghost_text[pos])) \
+    LOOP_DECREASES(gl_cnt - pos)
+#define LOOP_DOUBLE                                                     \
+    LOOP_ASSIGNS(size)                                                  \
+    LOOP_INVARIANT(len0 <= size && (size == len0 || size <= 2 * len1))  \
+    LOOP_DECREASES(size > len1 ? 0 : len1 + 1 - size)
+/* Searching history: an entry of ghost_v[0] characters, with ghost_ch[1] in position ghost_v[1], or none is found;
+ * the line has room for ghost_v[4] */
+#define LOOP_SEARCH                                                     \
+    LOOP_ASSIGNS(p, loc, found, search_last, gl_pos, gl_cnt, cligen_ghost_v[4], cligen_ghost_v[5], __CPROVER_object_whole(cligen_ghost_text)) \
+    LOOP_INVARIANT(found == 0 || found == 1)                            \
+    LOOP_INVARIANT(found || (cligen_ghost_v[5] == __CPROVER_loop_entry(cligen_ghost_v[5]) && gl_cnt == __CPROVER_loop_entry(gl_cnt) && gl_pos == __CPROVER_loop_entry(gl_pos))) \
+    LOOP_INVARIANT(found || (cligen_ghost_v[4] == __CPROVER_loop_entry(cligen_ghost_v[4]) && cligen_ghost_text[gl_cnt] == 0)) \
+    LOOP_INVARIANT(!found || (0 <= gl_pos && gl_pos <= gl_cnt && gl_cnt < cligen_ghost_v[4])) \
+    LOOP_INVARIANT(!found || cligen_ghost_v[5] == 1 || cligen_ghost_v[5] == 2) \
+    LOOP_INVARIANT(!found || (cligen_ghost_v[5] == 1 ? cligen_ghost_text[0] == 0 && gl_cnt == 0 : \
+                              gl_cnt == cligen_ghost_v[0] && cligen_ghost_text[cligen_ghost_v[0]] == 0 && cligen_ghost_text[cligen_ghost_v[1]] == cligen_ghost_ch[1]))
+/* Output of the line: reads only */
+#define LOOP_ECHO(end)                                                  \
+    LOOP_ASSIGNS(i)                                                     \
+    LOOP_INVARIANT(gl_pos <= i && (i <= (end) || i == gl_pos))          \
+    LOOP_DECREASES((end) - i)
+#define LOOP_SCREEN(i, range)                                           \
+    LOOP_ASSIGNS(i)                                                     \
+    LOOP_INVARIANT(range)
 #else
 #define LOOP_RANGES
+#define LOOP_DOUBLE
+#define LOOP_SEARCH
+#define LOOP_MOVE(len)
+#define LOOP_YANK
+#define LOOP_CLOSE(from)
+#define LEMMA_WORD(p)
+#define LOOP_BACK(end)
+#define LOOP_FORTH(end)
+#define LOOP_ECHO(end)
+#define LOOP_SCREEN(i, range)
 #define LOOP_FIND
 #define LOOP_SCROLL
 #define LOOP_WRITE
diff --git a/cligen_getline.c b/cligen_getline.c
index 6e3e0d2..921d082 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -877,6 +877,7 @@ gl_addchar(cligen_handle h,
         return -1;
     if (gl_overwrite == 0 || gl_pos == gl_cnt) {
         for (i=gl_cnt; i >= gl_pos; i--)
+            LOOP_MOVE(1)
             cligen_buf(h)[i+1] = cligen_buf(h)[i];
         cligen_buf(h)[gl_pos] = c;
         gl_fixup(h, cligen_prompt(h), gl_pos, gl_pos+1);
@@ -903,8 +904,10 @@ gl_yank(cligen_handle h)
             if (cligen_buf_increase(h, gl_cnt + len + 1) < 0)
                 return -1;
             for (i=gl_cnt; i >= gl_pos; i--)
+                LOOP_MOVE(len)
                 cligen_buf(h)[i+len] = cligen_buf(h)[i];
             for (i=0; i < len; i++)
+                LOOP_YANK
                 cligen_buf(h)[gl_pos+i] = cligen_killbuf(h)[i];
             gl_fixup(h, cligen_prompt(h), gl_pos, gl_pos+len);
         } else {
@@ -914,6 +917,7 @@ gl_yank(cligen_handle h)
                 cligen_buf(h)[gl_pos + len] = 0;
             }
             for (i=0; i < len; i++)
+                LOOP_YANK
                 cligen_buf(h)[gl_pos+i] = cligen_killbuf(h)[i];
             gl_extent = len;
             gl_fixup(h, cligen_prompt(h), gl_pos, gl_pos+len);
@@ -984,6 +988,7 @@ gl_del(cligen_handle h,
 
     if ((loc == -1 && gl_pos > 0) || (loc == 0 && gl_pos < gl_cnt)) {
         for (i=gl_pos+loc; i < gl_cnt; i++)
+            LOOP_CLOSE(gl_pos + loc)
             cligen_buf(h)[i] = cligen_buf(h)[i+1];
         gl_fixup(h, cligen_prompt(h), gl_pos+loc, gl_pos+loc);
     } else
@@ -1030,6 +1035,7 @@ gl_kill_begin(cligen_handle h,
         memmove(cligen_buf(h), cligen_buf(h) + pos, len-pos+1); /* memmove may overlap */
         gl_fixup(h, cligen_prompt(h), 0, 0);
         for (i=gl_pos; i < gl_cnt; i++)
+            LOOP_ECHO(gl_cnt)
             gl_putc(cligen_buf(h)[i]);
         gl_fixup(h, cligen_prompt(h), -2, 0);
     } else
@@ -1053,10 +1059,19 @@ gl_kill_word(cligen_handle h,
         wpos = pos;
         if (pos > 0)
             pos--;
+        LEMMA_WORD(pos)
         while (isspace((int)cligen_buf(h)[pos]) && pos > 0)
+            LOOP_BACK(cligen_ghost_v[0])
+        {
             pos--;
+            LEMMA_WORD(pos)
+        }
         while (!isspace((int)cligen_buf(h)[pos]) && pos > 0)
+            LOOP_BACK(cligen_ghost_v[1])
+        {
             pos--;
+            LEMMA_WORD(pos)
+        }
         if (pos < gl_cnt && isspace((int)cligen_buf(h)[pos]))   /* move onto word */
             pos++;
         if (cligen_killbuf_increase(h, wpos-pos) < 0)
@@ -1066,6 +1081,7 @@ gl_kill_word(cligen_handle h,
         memmove(cligen_buf(h)+pos, cligen_buf(h) + wpos, gl_cnt-wpos+1);
         gl_fixup(h, cligen_prompt(h), wpos, pos);
         for (i=gl_pos; i < gl_cnt; i++)
+            LOOP_ECHO(gl_cnt)
             gl_putc(cligen_buf(h)[i]);
         gl_fixup(h, cligen_prompt(h), -2, pos);
     }
@@ -1085,17 +1101,35 @@ gl_word(cligen_handle h,
     int pos = gl_pos;
 
     if (direction > 0) {                /* forward */
+        LEMMA_WORD(pos)
         while (!isspace((int)cligen_buf(h)[pos]) && (pos < gl_cnt))
+            LOOP_FORTH(cligen_ghost_v[0])
+        {
             pos++;
+            LEMMA_WORD(pos)
+        }
         while (isspace((int)cligen_buf(h)[pos]) && pos < gl_cnt)
+            LOOP_FORTH(cligen_ghost_v[1])
+        {
             pos++;
+            LEMMA_WORD(pos)
+        }
     } else {                            /* backword */
         if (pos > 0)
             pos--;
+        LEMMA_WORD(pos)
         while (isspace((int)cligen_buf(h)[pos]) && pos > 0)
+            LOOP_BACK(cligen_ghost_v[0])
+        {
             pos--;
+            LEMMA_WORD(pos)
+        }
         while (!isspace((int)cligen_buf(h)[pos]) && pos > 0)
+            LOOP_BACK(cligen_ghost_v[1])
+        {
             pos--;
+            LEMMA_WORD(pos)
+        }
         if (pos < gl_cnt && isspace((int)cligen_buf(h)[pos]))   /* move onto word */
             pos++;
     }
@@ -1259,7 +1293,9 @@ gl_fixup_noscroll(cligen_handle h,
     pad -= gl_cnt - fixup_gl_shift;
     pad = (pad < 0)? 0 : pad;
     if (left <= right) {                /* clean up screen */
-        for (p=left+backup-1; p >= left; p--){
+        for (p=left+backup-1; p >= left; p--)
+            LOOP_SCREEN(p, (p >= left - 1 || p == __CPROVER_loop_entry(p)) && p <= __CPROVER_loop_entry(p))
+        {
             if (wrap(p, plen))
                 unwrap_line();
             else
@@ -1269,13 +1305,17 @@ gl_fixup_noscroll(cligen_handle h,
             gl_putc('$');
             left++;
         }
-        for (p=left; p < new_right; p++){
+        for (p=left; p < new_right; p++)
+            LOOP_SCREEN(p, left <= p)
+        {
             gl_putc(cligen_buf(h)[p]);
             if (wrap(p, plen))
                 wrap_line();
         }
         gl_pos = new_right;
-        for (p=new_right; p < new_right+pad; p++){ /* erase remains of prev line */
+        for (p=new_right; p < new_right+pad; p++) /* erase remains of prev line */
+            LOOP_SCREEN(p, new_right <= p)
+        {
             gl_putc(' ');
             if (wrap(p, plen))
                 wrap_line();
@@ -1284,7 +1324,9 @@ gl_fixup_noscroll(cligen_handle h,
     }
     /* move to final cursor location */
     if (gl_pos - cursor > 0) {
-        for (p=gl_pos; p > cursor; p--){
+        for (p=gl_pos; p > cursor; p--)
+            LOOP_SCREEN(p, cursor <= p && p <= gl_pos)
+        {
             if (wrap(p-1, plen))
                 unwrap_line();
             else
@@ -1293,6 +1335,7 @@ gl_fixup_noscroll(cligen_handle h,
     }
     else {
         for (i=gl_pos; i < cursor; i++)
+            LOOP_ECHO(cursor)
             gl_putc(cligen_buf(h)[i]);
     }
     gl_pos = cursor;
@@ -1393,12 +1436,14 @@ gl_fixup_scroll(cligen_handle h,
     pad = (pad < 0)? 0 : pad;
     if (left <= right) {                /* clean up screen */
         for (i=0; i < backup; i++)
+            LOOP_SCREEN(i, 0 <= i)
             gl_putc('\b');
         if (left == fixup_gl_shift && fixup_off_left) {
             gl_putc('$');
             left++;
         }
         for (i=left; i < new_right; i++)
+            LOOP_SCREEN(i, left <= i)
             gl_putc(cligen_buf(h)[i]);
         gl_pos = new_right;
         if (fixup_off_right && new_right == right) {
@@ -1406,6 +1451,7 @@ gl_fixup_scroll(cligen_handle h,
             gl_pos++;
         } else {
             for (i=0; i < pad; i++)     /* erase remains of prev line */
+                LOOP_SCREEN(i, 0 <= i)
                 gl_putc(' ');
             gl_pos += pad;
         }
@@ -1413,9 +1459,11 @@ gl_fixup_scroll(cligen_handle h,
     i = gl_pos - cursor;                /* move to final cursor location */
     if (i > 0) {
         while (i--)
+            LOOP_SCREEN(i, 0 <= i)
             gl_putc('\b');
     } else {
         for (i=gl_pos; i < cursor; i++)
+            LOOP_ECHO(cursor)
             gl_putc(cligen_buf(h)[i]);
     }
     gl_pos = cursor;
@@ -1551,7 +1599,9 @@ search_back(cligen_handle h,
         cligen_buf(h)[0] = 0;
         gl_fixup(h, search_prompt, 0, 0);
     } else if (search_pos > 0) {
-        while (!found) {
+        while (!found)
+            LOOP_SEARCH
+        {
             p = hist_prev(h);
             if (*p == 0) {              /* not found, done looking */
                cligen_buf(h)[0] = 0;
@@ -1594,7 +1644,9 @@ search_forw(cligen_handle h,
         cligen_buf(h)[0] = 0;
         gl_fixup(h, search_prompt, 0, 0);
     } else if (search_pos > 0) {
-        while (!found) {
+        while (!found)
+            LOOP_SEARCH
+        {
             p = hist_next(h);
             if (*p == 0) {              /* not found, done looking */
                cligen_buf(h)[0] = 0;
diff --git a/cligen_handle.c b/cligen_handle.c
index 5eaa662..724795d 100644
--- a/cligen_handle.c
+++ b/cligen_handle.c
@@ -66,6 +66,7 @@
 #include "cligen_print.h"
 #include "cligen_history.h"
 #include "cligen_getline.h"
+#include "cligen_contracts.h"
 #include "cligen_handle_internal.h"
 #include "cligen_history.h"
 #include "cligen_history_internal.h"
@@ -1111,6 +1112,7 @@ cligen_buf_increase(cligen_handle h,
     if (size >= len1 + 1)
       return 0;
     while (size < len1 + 1)
+      LOOP_DOUBLE
       size *= 2;
     if ((buf = realloc(ch->ch_buf, size)) == NULL){
         fprintf(stderr, "%s realloc: %s\n", __FUNCTION__, strerror(errno));
@@ -1139,6 +1141,7 @@ cligen_killbuf_increase(cligen_handle h,
     if (size >= len1 + 1)
       return 0;
     while (size < len1 + 1)
+      LOOP_DOUBLE
       size *= 2;
     if ((buf = realloc(ch->ch_killbuf, size)) == NULL){
         fprintf(stderr, "%s realloc: %s\n", __FUNCTION__, strerror(errno));
-- 
2.43.0


From 619fb0dcdfcb0be5ddc2d5959c73c44e40791482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:29 +0000
Subject: [PATCH 57/65] fix: patterns anchored at one end only matched too much
 or nothing

---
 cligen_regex.c | 69 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 50 insertions(+), 19 deletions(-)

diff --git a/cligen_regex.c b/cligen_regex.c
index 3f6b68c..d57997c 100644
--- a/cligen_regex.c
+++ b/cligen_regex.c
@@ -65,6 +65,25 @@
 
 /*-------------------------- POSIX -------------------------*/
 
+/*! Check if a text is a valid posix regexp
+ *
+ * @param[in]   regexp  Regular expression string
+ * @retval      1       Valid
+ * @retval      0       Not valid
+ * @retval     -1       Error
+ */
+static int
+regex_posix_valid(const char *regexp)
+{
+    regex_t re;
+    int     err;
+
+    if ((err = regcomp(&re, regexp, REG_NOSUB|REG_EXTENDED)) != 0)
+        return err == REG_ESPACE ? -1 : 0;
+    regfree(&re);
+    return 1;
+}
+
 /*! Compile a regexp according to posix regexps
  *
  * It is implicitly assumed that the match should be done at the beginning and
@@ -87,33 +106,45 @@ cligen_regex_posix_compile(char  *regexp,
     cbuf    *cb = NULL;
     regex_t *re = NULL;
     int      len0;
+    int      begin;
+    int      end;
+    int      ret;
     int      err;
 
     len0 = strlen(regexp);
     if ((cb = cbuf_new()) == NULL)
         goto done;
-    /* Check if prepended by ^ */
-    if (len0 > 0 && regexp[0] == '^'){
-        if (regexp[len0-1] == '$')
-            cprintf(cb, "%s", regexp);
-        else if (len0 > 1 && regexp[1] == '(')
-            cprintf(cb, "%s)$", regexp);
-        else
-            cprintf(cb, "%s$", regexp);
-    }
-    /* Check if terminated by $ only */
-    else if (len0 > 0 && regexp[len0-1] == '$'){
-        if (len0 > 1 && regexp[len0-2] == ')')
-            cprintf(cb, "^(%s", regexp);
-        else
-            cprintf(cb, "^%s", regexp);
-    }
-    else /* Neither ^or $ */
-        cprintf(cb, "^(%s)$", regexp);
-
     if ((re = malloc(sizeof(regex_t))) == NULL)
         goto done;
     memset(re, 0, sizeof(regex_t));
+    begin = len0 > 0 && regexp[0] == '^';
+    end = len0 > 0 && regexp[len0-1] == '$';
+    if (end && len0 > 1 && regexp[len0-2] == '\\') /* an escaped $ is no anchor */
+        end = 0;
+    ret = 1;
+    /* Prepended by ^ only: the ending parenthesis may have been left out */
+    if (begin && !end && len0 > 1 && regexp[1] == '(')
+        ret = regex_posix_valid(regexp);
+    /* Terminated by $ only: the beginning parenthesis may have been left out */
+    else if (end && !begin && len0 > 1 && regexp[len0-2] == ')'){
+        if (cprintf(cb, "(%s", regexp) < 0)
+            goto done;
+        if ((ret = regex_posix_valid(cbuf_get(cb))) >= 0)
+            ret = !ret;
+        cbuf_reset(cb);
+    }
+    if (ret < 0)
+        goto done;
+    if (begin && end)
+        ret = cprintf(cb, "%s", regexp);
+    else if (ret)
+        ret = cprintf(cb, "^(%s)$", regexp);
+    else if (begin)
+        ret = cprintf(cb, "%s)$", regexp);
+    else
+        ret = cprintf(cb, "^(%s", regexp);
+    if (ret < 0)
+        goto done;
     if ((err = regcomp(re, cbuf_get(cb), REG_NOSUB|REG_EXTENDED)) != 0) {
         char errbuf[1024] = {0,};
         if (regerror(err, re, errbuf, 1000) < 0){
-- 
2.43.0


From 6fd03394741a07b3b355e966435104ce74f451d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:29 +0000
Subject: [PATCH 58/65] fix: a failing match was reported as a match by an
 inverted pattern

---
 cligen_regex.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cligen_regex.c b/cligen_regex.c
index d57997c..f3d7a6e 100644
--- a/cligen_regex.c
+++ b/cligen_regex.c
@@ -188,9 +188,11 @@ cligen_regex_posix_exec(void *recomp,
     status = regexec(re, string, (size_t) 0, NULL, 0);
     if (status == 0)
         retval = 1;
-    else {
-        regerror(status, re, errbuf, sizeof(errbuf)); /* XXX error is ignored */
+    else if (status == REG_NOMATCH)
         retval = 0;
+    else {
+        regerror(status, re, errbuf, sizeof(errbuf)); /* XXX error text is ignored */
+        errno = ENOMEM;
     }
     return retval;
 }
-- 
2.43.0


From 0b1dd046ee4d9c9254a93ba9748d84f96aafb86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:58 +0000
Subject: [PATCH 59/65] Loop contract for matching all patterns of a variable
 (guarded by CLIGEN_VERIFY)

---
 cligen_contracts.h | 9 +++++++++
 cligen_cv.c        | 4 +++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/cligen_contracts.h b/cligen_contracts.h
index c69bd17..db78448 100644
--- a/cligen_contracts.h
+++ b/cligen_contracts.h
@@ -72,6 +72,14 @@ extern long cligen_ghost_n;
  * for number ghost_m, and ghost_node[0], of other contents each time, for any other number.
  * First those of pipes (numbers 0..n-1), then the others (n..2n-1) */
 extern void *cligen_ghost_node[3];
+/* Patterns of a variable: all up to cv1 have been matched, pattern number ghost_k once */
+#define LOOP_PATTERNS                                                   \
+    LOOP_ASSIGNS(cv1, regexp, retval, __CPROVER_object_whole(cligen_ghost_state); reason != NULL: *reason) \
+    LOOP_INVARIANT(0 <= GHOST_AT && GHOST_AT <= cligen_ghost_n)         \
+    LOOP_INVARIANT((void*)cv1 == (GHOST_AT == 0 ? NULL : cligen_ghost_node[0])) \
+    LOOP_INVARIANT(retval == 1 && GHOST_RESETS == 0 && (reason == NULL || *reason == NULL)) \
+    LOOP_INVARIANT(GHOST_COPIES == (GHOST_AT > (long)cligen_ghost_k ? 1 : 0)) \
+    LOOP_DECREASES(cligen_ghost_n - GHOST_AT)
 extern long cligen_ghost_m;
 extern void *cligen_ghost_fn; /* function of the other callbacks, if any */
 #define GHOST_INT(i) (((int*)cligen_ghost_state)[i])
@@ -332,6 +340,7 @@ extern long cligen_ghost_len[2];
     LOOP_INVARIANT(range)
 #else
 #define LOOP_RANGES
+#define LOOP_PATTERNS
 #define LOOP_DOUBLE
 #define LOOP_SEARCH
 #define LOOP_MOVE(len)
diff --git a/cligen_cv.c b/cligen_cv.c
index a62a933..c9cc1eb 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3486,7 +3486,9 @@ cv_validate(cligen_handle h,
         if (cs->cgs_regex != NULL){
             char *regexp;
             cv1 = NULL;
-            while ((cv1 = cvec_each(cs->cgs_regex, cv1)) != NULL){
+            while ((cv1 = cvec_each(cs->cgs_regex, cv1)) != NULL)
+                LOOP_PATTERNS
+            {
                 regexp = cv_string_get(cv1);
                 if ((retval = match_regexp(h, str, regexp, cv_flag(cv1, V_INVERT))) < 0)
                     break;
-- 
2.43.0


From a0e8d61bc2ab26b6ef6de80fa53fa00a7eb020ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:38 +0000
Subject: [PATCH 60/65] fix: a failed copy of an object freed what the original
 owns

---
 cligen_expand.c |  9 +++++----
 cligen_object.c | 46 ++++++++++++++++++++++++++++++++++++++--------
 cligen_object.h |  1 +
 3 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index 1b19105..e82960d 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -98,9 +98,8 @@ co_expand_sub(cg_obj  *co0,
         goto done;
     size = co_size(con->co_type);
     memcpy(con, co0, size);
+    co_owned_clear(con);
     /* Point to same underlying pt */
-    con->co_ptvec = NULL;
-    con->co_pt_len = 0;
     if (co_pt_set(con, co_pt_get(co0)) < 0)
         goto done;
     /* Replace all pointers */
@@ -116,9 +115,11 @@ co_expand_sub(cg_obj  *co0,
             goto done;
         }
     if (co0->co_cvec)
-        con->co_cvec = cvec_dup(co0->co_cvec);
+        if ((con->co_cvec = cvec_dup(co0->co_cvec)) == NULL)
+            goto done;
     if (co0->co_filter)
-        co_filter_set(con, co0->co_filter);
+        if (co_filter_set(con, co0->co_filter) == NULL)
+            goto done;
     if (co_callback_copy(co0->co_callbacks, &con->co_callbacks) < 0)
         goto done;
     if (co0->co_helpstring)
diff --git a/cligen_object.c b/cligen_object.c
index 5314d50..5a89a0d 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -633,6 +633,34 @@ cov_new(enum cv_type cvtype,
     return co;
 }
 
+/*! Make an object forget all it owns, after it was copied member by member
+ *
+ * The copy then owns nothing and can be freed at any time, whatever has been duplicated since.
+ * @param[in]  co  Shallow copy of a cligen object
+ */
+void
+co_owned_clear(cg_obj *co)
+{
+    co->co_ptvec = NULL;
+    co->co_pt_len = 0;
+    co->co_command = NULL;
+    co->co_prefix = NULL;
+    co->co_cvec = NULL;
+    co->co_filter = NULL;
+    co->co_callbacks = NULL;
+    co->co_helpstring = NULL;
+    if (co->co_type == CO_VARIABLE){
+        co->co_expand_fn_str = NULL;
+        co->co_expand_fn_vec = NULL;
+        co->co_translate_fn_str = NULL;
+        co->co_show = NULL;
+        co->co_rangecvv_low = NULL;
+        co->co_rangecvv_upp = NULL;
+        co->co_choice = NULL;
+        co->co_regex = NULL;
+    }
+}
+
 /*! Recursively copy a cligen object.
  *
  * @param[in]  co     The object to copy from
@@ -660,8 +688,7 @@ co_copy(cg_obj  *co,
         goto done;
     size = co_size(con->co_type);
     memcpy(con, co, size);
-    con->co_ptvec = NULL;
-    con->co_pt_len = 0;
+    co_owned_clear(con);
     con->co_ref = NULL;
     /* If called from pt_expand_treeref: the copy (of a tree instance) points to the original tree
      */
@@ -679,9 +706,11 @@ co_copy(cg_obj  *co,
     if (co_callback_copy(co->co_callbacks, &con->co_callbacks) < 0)
         goto done;
     if (co->co_cvec)
-        con->co_cvec = cvec_dup(co->co_cvec);
+        if ((con->co_cvec = cvec_dup(co->co_cvec)) == NULL)
+            goto done;
     if (co->co_filter)
-        co_filter_set(con, co->co_filter);
+        if (co_filter_set(con, co->co_filter) == NULL)
+            goto done;
     if ((pt = co_pt_get(co)) != NULL){
         if ((ptn = pt_dup(pt, con, flags)) == NULL) /* sets a new pt under con */
             goto done;
@@ -762,8 +791,7 @@ co_copy1(cg_obj  *co,
         goto done;
     size = co_size(con->co_type);
     memcpy(con, co, size);
-    con->co_ptvec = NULL;
-    con->co_pt_len = 0;
+    co_owned_clear(con);
 
     /* If called from pt_expand_treeref: the copy (of a tree instance) points to the original tree
      */
@@ -781,9 +809,11 @@ co_copy1(cg_obj  *co,
     if (co_callback_copy(co->co_callbacks, &con->co_callbacks) < 0)
         goto done;
     if (co->co_cvec)
-        con->co_cvec = cvec_dup(co->co_cvec);
+        if ((con->co_cvec = cvec_dup(co->co_cvec)) == NULL)
+            goto done;
     if (co->co_filter)
-        co_filter_set(con, co->co_filter);
+        if (co_filter_set(con, co->co_filter) == NULL)
+            goto done;
     if ((pt = co_pt_get(co)) != NULL){
         /* Here this function differs from co_copy */
         if (recursive){
diff --git a/cligen_object.h b/cligen_object.h
index 3f0ef09..1756392 100644
--- a/cligen_object.h
+++ b/cligen_object.h
@@ -249,6 +249,7 @@ cg_obj     *co_new_only(enum cg_objtype type);
 cg_obj     *co_new(char *cmd, cg_obj *prev);
 cg_obj     *cov_new(enum cv_type cvtype, cg_obj *prev);
 int         co_pref(cg_obj *co, int exact);
+void        co_owned_clear(cg_obj *co);
 int         co_copy(cg_obj *co, cg_obj *parent, uint32_t flags, cg_obj **conp);
 int         co_copy1(cg_obj *co, cg_obj *parent, int recursive, uint32_t flags, cg_obj **conp);
 int         co_eq(cg_obj *co1, cg_obj *co2);
-- 
2.43.0


From 3b5eea17ef739cf3020edb6667d1e706d594a019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:38 +0000
Subject: [PATCH 61/65] fix: a failed copy of an object or tree left memory
 behind

---
 cligen_object.c    | 12 ++++++++----
 cligen_parsetree.c |  6 +++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/cligen_object.c b/cligen_object.c
index 5a89a0d..1bc53f9 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -714,8 +714,10 @@ co_copy(cg_obj  *co,
     if ((pt = co_pt_get(co)) != NULL){
         if ((ptn = pt_dup(pt, con, flags)) == NULL) /* sets a new pt under con */
             goto done;
-        if (co_pt_set(con, ptn) < 0)
+        if (co_pt_set(con, ptn) < 0){
+            pt_free(ptn, 1);
             goto done;
+        }
     }
     if (co->co_helpstring)
         if ((con->co_helpstring = strdup(co->co_helpstring)) == NULL)
@@ -753,7 +755,7 @@ co_copy(cg_obj  *co,
     retval = 0;
  done:
     if (con)
-        co_free(con, 0);
+        co_free(con, 1);
     return retval;
 }
 
@@ -819,8 +821,10 @@ co_copy1(cg_obj  *co,
         if (recursive){
             if ((ptn = pt_dup(pt, con, 0x0)) == NULL) /* sets a new pt under con */
                 goto done;
-            if (co_pt_set(con, ptn) < 0)
+            if (co_pt_set(con, ptn) < 0){
+                pt_free(ptn, 1);
                 goto done;
+            }
         }
         else {
             if (co_pt_set(con, pt) < 0)
@@ -863,7 +867,7 @@ co_copy1(cg_obj  *co,
     retval = 0;
  done:
     if (con)
-        co_free(con, 0);
+        co_free(con, recursive);
     return retval;
 }
 
diff --git a/cligen_parsetree.c b/cligen_parsetree.c
index d798960..d361ea2 100644
--- a/cligen_parsetree.c
+++ b/cligen_parsetree.c
@@ -366,8 +366,8 @@ pt_copy(parse_tree *pt,
             ptn->pt_len++;
     }
     if (pt_len_get(ptn) &&
-        (ptn->pt_vec = (cg_obj **)malloc(pt_len_get(ptn)*sizeof(cg_obj *))) == NULL){
-        fprintf(stderr, "%s: malloc: %s\n", __FUNCTION__, strerror(errno));
+        (ptn->pt_vec = (cg_obj **)calloc(pt_len_get(ptn), sizeof(cg_obj *))) == NULL){
+        fprintf(stderr, "%s: calloc: %s\n", __FUNCTION__, strerror(errno));
         goto done;
     }
     j=0;
@@ -407,7 +407,7 @@ pt_dup(parse_tree *pt,
     if ((ptn = pt_new()) == NULL)
         goto done;
     if (pt_copy(pt, cop, flags, ptn) < 0){
-        free(ptn);
+        pt_free(ptn, 1);
         ptn = NULL;
         goto done;
     }
-- 
2.43.0


From d3eb208a76f317f490f4af127a6041d9978e9ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:06 +0000
Subject: [PATCH 62/65] fix: labels filtered by a tree reference were forgotten
 below another filtered reference

---
 cligen_expand.c | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index e82960d..0a226ed 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -323,6 +323,31 @@ co_find_label_filters(cligen_handle h,
     return retval;
 }
 
+/*! Add labels to those filtered in an object and its descendants
+ *
+ * @param[in]  co   Cligen object
+ * @param[in]  cvv  Labels to filter, in addition to those of the object itself
+ * @retval     0    OK
+ * @retval    -1    Error
+ */
+static int
+co_filter_add(cg_obj *co,
+              cvec   *cvv)
+{
+    cg_var *cv = NULL;
+    char   *name;
+
+    if (co->co_filter == NULL)
+        return co_filter_set(co, cvv) == NULL ? -1 : 0;
+    while ((cv = cvec_each(cvv, cv)) != NULL){
+        if ((name = cv_name_get(cv)) != NULL && co_isfilter(co->co_filter, name))
+            continue;
+        if (cvec_append_var(co->co_filter, cv) == NULL)
+            return -1;
+    }
+    return 0;
+}
+
 /*! Make a pt expand of single co using shallow copy
  *
  * @param[in]   h          Handle needed to resolve tree-references (\@tree)
@@ -397,7 +422,7 @@ co_expand_treeref_copy_shallow(cligen_handle h,
             co_flags_set(con, CO_FLAGS_TOPOFTREE); /* Mark expanded refd tree */
             con->co_treeref_orig = cot;
             if (cvec_len(cvv_filter) &&
-                co_filter_set(con, cvv_filter) == NULL)
+                co_filter_add(con, cvv_filter) < 0)
                 goto done;
             if (co_insert(ptnew, con) == NULL)
                 goto done;
@@ -587,7 +612,7 @@ pt_expand_fn(cligen_handle h,
         if (pt_vec_append(ptn, con) < 0)
             goto done;
         if (cvv_filter && cvec_len(cvv_filter))
-            if (co_filter_set(con, cvv_filter) == NULL)
+            if (co_filter_add(con, cvv_filter) < 0)
                 goto done;
         value = cv_string_get(cv);
         if ((cmd = strdup(value)) == NULL)
@@ -641,7 +666,7 @@ pt_expand_choice(cg_obj       *co,
                 goto done;
             if (transform_var_to_cmd(con, strdup(c), NULL) < 0)
                 goto done;
-            if (cvv_filter && co_filter_set(con, cvv_filter) == NULL)
+            if (cvv_filter && co_filter_add(con, cvv_filter) < 0)
                 goto done;
             /* con may be deleted in the call and need to be replaced */
             if (co_insert1(ptn, con, 0) == NULL)
@@ -766,7 +791,7 @@ pt_expand1_co(cligen_handle h,
             con->co_ref = co->co_ref;
         }
         if (cvv_filter && cvec_len(cvv_filter))
-            if (co_filter_set(con, cvv_filter) == NULL)
+            if (co_filter_add(con, cvv_filter) < 0)
                 goto done;
     }
  ok:
-- 
2.43.0


From 760e3a8f29a20eba0eef6c05b4bd78c70dcaefaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:07 +0000
Subject: [PATCH 63/65] fix: an expansion out of memory left memory behind or
 commands out

---
 cligen_expand.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index 0a226ed..b6201e5 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -312,7 +312,8 @@ co_find_label_filters(cligen_handle h,
                 if (cvec_find(cvv, filter) == NULL){
                     if ((cv1 = cvec_add(cvv, CGV_BOOL)) == NULL)
                         goto done;
-                    cv_name_set(cv1, filter);
+                    if (cv_name_set(cv1, filter) == NULL)
+                        goto done;
                     cv_bool_set(cv1, 0); /* remove */
                 }
             }
@@ -609,8 +610,10 @@ pt_expand_fn(cligen_handle h,
         if (transient && con->co_ref){
             con->co_ref = co->co_ref;
         }
-        if (pt_vec_append(ptn, con) < 0)
+        if (pt_vec_append(ptn, con) < 0){
+            co_free(con, 0);
             goto done;
+        }
         if (cvv_filter && cvec_len(cvv_filter))
             if (co_filter_add(con, cvv_filter) < 0)
                 goto done;
@@ -656,15 +659,19 @@ pt_expand_choice(cg_obj       *co,
     char   *ccmd;
     char   *cp = NULL;
     char   *c;
+    char   *cmd;
     cg_obj *con = NULL;
 
     /* parse co_command and get alternatives <alt:hej,hopp> */
     if (co->co_choice){
-        cp = ccmd = strdup(co->co_choice);
+        if ((cp = ccmd = strdup(co->co_choice)) == NULL)
+            goto done;
         while ((c = strsep(&ccmd, ",|")) != NULL){
             if (co_expand_sub(co, NULL, &con) < 0)
                 goto done;
-            if (transform_var_to_cmd(con, strdup(c), NULL) < 0)
+            if ((cmd = strdup(c)) == NULL)
+                goto done;
+            if (transform_var_to_cmd(con, cmd, NULL) < 0)
                 goto done;
             if (cvv_filter && co_filter_add(con, cvv_filter) < 0)
                 goto done;
@@ -732,6 +739,7 @@ pt_expand1_co(cligen_handle h,
     int     retval = -1;
     cg_var *cv;
     cg_obj *con = NULL;
+    cg_obj *con1;
     char   *label;
 
     if (hide && co_flags_get(co, CO_FLAGS_HIDE))
@@ -785,8 +793,11 @@ pt_expand1_co(cligen_handle h,
         if (co_expand_sub(co, NULL, &con) < 0)
             goto done;
         /* con may be deleted in the call and need to be replaced */
-        if ((con = co_insert1(ptn, con, 0)) == NULL)
+        if ((con1 = co_insert1(ptn, con, 0)) == NULL){
+            co_free(con, 0);
             goto done;
+        }
+        con = con1;
         if (transient && con->co_ref){
             con->co_ref = co->co_ref;
         }
@@ -946,7 +957,8 @@ pt_expand(cligen_handle h,
     /* There is already a @|pipe menu on this level, no need for default */
     for (i=0; i<pt_len_get(pt); i++){ /* From pt (orig) build ptn (new) */
         if ((co = pt_vec_i_get(pt, i)) == NULL){
-            pt_realloc(ptn); /* empty child */
+            if (pt_realloc(ptn) < 0) /* empty child */
+                goto done;
         }
         else {
             if (co->co_type == CO_REFERENCE){
-- 
2.43.0


From c0e8c70b67815fe352ed4ad6479eca7706bfa43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:00 +0000
Subject: [PATCH 64/65] fix: a label without name crashed filtering

---
 cligen_expand.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index b6201e5..5dc609c 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -748,7 +748,8 @@ pt_expand1_co(cligen_handle h,
      */
     cv = NULL;
     while ((cv = cvec_each(co->co_cvec, cv)) != NULL){
-        label = cv_name_get(cv);
+        if ((label = cv_name_get(cv)) == NULL)
+            continue;
         if (co->co_filter && co_isfilter(co->co_filter, label))
             break;
         if (cvv_filter && co_isfilter(cvv_filter, label))
-- 
2.43.0


From 010f508dbfb552fc37676cec7f22fd01d63fd238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:12 +0000
Subject: [PATCH 65/65] Loop contracts for expansion (guarded by CLIGEN_VERIFY)

---
 cligen_contracts.h | 16 ++++++++++++++++
 cligen_expand.c    | 30 ++++++++++++++++++++++++------
 2 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/cligen_contracts.h b/cligen_contracts.h
index db78448..e811108 100644
--- a/cligen_contracts.h
+++ b/cligen_contracts.h
@@ -72,6 +72,20 @@ extern long cligen_ghost_n;
  * for number ghost_m, and ghost_node[0], of other contents each time, for any other number.
  * First those of pipes (numbers 0..n-1), then the others (n..2n-1) */
 extern void *cligen_ghost_node[3];
+/* Labels of a vector: all up to cv have been seen to. GHOST_COPIES tells that number ghost_k has been; none that
+ * ends the search has been met (GHOST_RESETS), nor number ghost_k if it would have */
+#define LOOP_LABELS(cv)                                                 \
+    LOOP_INVARIANT(0 <= GHOST_AT && GHOST_AT <= cligen_ghost_n)         \
+    LOOP_INVARIANT((void*)cv == (GHOST_AT == 0 ? NULL : cligen_ghost_node[0])) \
+    LOOP_INVARIANT(GHOST_RESETS == 0 && (GHOST_AT <= (long)cligen_ghost_k || !cligen_ghost_holds)) \
+    LOOP_INVARIANT(GHOST_AT <= (long)cligen_ghost_k || GHOST_COPIES == 1) \
+    LOOP_DECREASES(cligen_ghost_n - GHOST_AT)
+/* Objects of one level: all before number i have been expanded once, in order */
+#define LOOP_OBJECTS(i)                                                 \
+    LOOP_INVARIANT(0 <= i && i <= cligen_ghost_n && GHOST_AT == i)      \
+    LOOP_INVARIANT(GHOST_RESETS == 0 && GHOST_INT(4) == 0)              \
+    LOOP_INVARIANT(GHOST_COPIES == (i > (long)cligen_ghost_k ? 1 : 0))  \
+    LOOP_DECREASES(cligen_ghost_n - i)
 /* Patterns of a variable: all up to cv1 have been matched, pattern number ghost_k once */
 #define LOOP_PATTERNS                                                   \
     LOOP_ASSIGNS(cv1, regexp, retval, __CPROVER_object_whole(cligen_ghost_state); reason != NULL: *reason) \
@@ -341,6 +355,8 @@ extern long cligen_ghost_len[2];
 #else
 #define LOOP_RANGES
 #define LOOP_PATTERNS
+#define LOOP_LABELS(cv)
+#define LOOP_OBJECTS(i)
 #define LOOP_DOUBLE
 #define LOOP_SEARCH
 #define LOOP_MOVE(len)
diff --git a/cligen_expand.c b/cligen_expand.c
index 5dc609c..2020303 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -304,7 +304,10 @@ co_find_label_filters(cligen_handle h,
     cg_var *cv1;
 
     cv = NULL;
-    while ((cv = cvec_each(co->co_cvec, cv)) != NULL){
+    while ((cv = cvec_each(co->co_cvec, cv)) != NULL)
+        LOOP_ASSIGNS(cv, name, filter, cv1, __CPROVER_object_whole(cligen_ghost_state))
+        LOOP_LABELS(cv)
+    {
         if ((name = cv_name_get(cv)) != NULL){
             if (strncmp(CLIGEN_REF_REMOVE, name, strlen(CLIGEN_REF_REMOVE)) == 0){
                 filter = name+strlen(CLIGEN_REF_REMOVE);
@@ -340,7 +343,10 @@ co_filter_add(cg_obj *co,
 
     if (co->co_filter == NULL)
         return co_filter_set(co, cvv) == NULL ? -1 : 0;
-    while ((cv = cvec_each(cvv, cv)) != NULL){
+    while ((cv = cvec_each(cvv, cv)) != NULL)
+        LOOP_ASSIGNS(cv, name, __CPROVER_object_whole(cligen_ghost_state))
+        LOOP_LABELS(cv)
+    {
         if ((name = cv_name_get(cv)) != NULL && co_isfilter(co->co_filter, name))
             continue;
         if (cvec_append_var(co->co_filter, cv) == NULL)
@@ -704,7 +710,10 @@ co_isfilter(cvec *cvv_filter,
 
     /* use filter cache?
      */
-    while ((cv = cvec_each(cvv_filter, cv)) != NULL){
+    while ((cv = cvec_each(cvv_filter, cv)) != NULL)
+        LOOP_ASSIGNS(cv, name, __CPROVER_object_whole(cligen_ghost_state))
+        LOOP_LABELS(cv)
+    {
         if ((name = cv_name_get(cv)) != NULL && strcmp(cv_name_get(cv), label) == 0)
             return 1;
     }
@@ -747,7 +756,10 @@ pt_expand1_co(cligen_handle h,
     /* Loop labels from object itself and see if any of the elements are filtered, if so skip it
      */
     cv = NULL;
-    while ((cv = cvec_each(co->co_cvec, cv)) != NULL){
+    while ((cv = cvec_each(co->co_cvec, cv)) != NULL)
+        LOOP_ASSIGNS(cv, label, __CPROVER_object_whole(cligen_ghost_state))
+        LOOP_LABELS(cv)
+    {
         if ((label = cv_name_get(cv)) == NULL)
             continue;
         if (co->co_filter && co_isfilter(co->co_filter, label))
@@ -877,7 +889,10 @@ pt_expand_reference(cligen_handle h,
         goto done;
     /* Copy the expand tree to the final tree.
      */
-    for (i=0; i<pt_len_get(pttmp); i++){
+    for (i=0; i<pt_len_get(pttmp); i++)
+        LOOP_ASSIGNS(i, cot, __CPROVER_object_whole(cligen_ghost_state))
+        LOOP_OBJECTS(i)
+    {
         if ((cot = pt_vec_i_get(pttmp, i)) == NULL)
             continue;
         if (pt_expand1_co(h, cot, hide, expandvar,
@@ -956,7 +971,10 @@ pt_expand(cligen_handle h,
     if (pt_len_get(pt) == 0)
         goto ok;
     /* There is already a @|pipe menu on this level, no need for default */
-    for (i=0; i<pt_len_get(pt); i++){ /* From pt (orig) build ptn (new) */
+    for (i=0; i<pt_len_get(pt); i++) /* From pt (orig) build ptn (new) */
+        LOOP_ASSIGNS(i, co, cop, __CPROVER_object_whole(cligen_ghost_state))
+        LOOP_OBJECTS(i)
+    {
         if ((co = pt_vec_i_get(pt, i)) == NULL){
             if (pt_realloc(ptn) < 0) /* empty child */
                 goto done;
-- 
2.43.0

