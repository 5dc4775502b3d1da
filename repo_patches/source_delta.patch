From 53aaf22617ba52b3f1b1f025a3d7fb93daaf45ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:26 +0000
Subject: [PATCH 01/48] fix: left/right alignment wrote past the buffer when
 the width exceeds it

---
 src/c4/format.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/format.hpp b/src/c4/format.hpp
index 519c2a4..7fb03fa 100644
--- a/src/c4/format.hpp
+++ b/src/c4/format.hpp
@@ -545,7 +545,7 @@ template<class T>
 size_t to_chars(substr buf, fmt::left_<T> const& C4_RESTRICT align)
 {
     size_t ret = to_chars(buf, align.val);
-    if(ret >= buf.len || ret >= align.width)
+    if(ret >= align.width || align.width > buf.len)
         return ret > align.width ? ret : align.width;
     buf.first(align.width).sub(ret).fill(align.pad);
     to_chars(buf, align.val);
@@ -557,7 +557,7 @@ template<class T>
 size_t to_chars(substr buf, fmt::right_<T> const& C4_RESTRICT align)
 {
     size_t ret = to_chars(buf, align.val);
-    if(ret >= buf.len || ret >= align.width)
+    if(ret >= align.width || align.width > buf.len)
         return ret > align.width ? ret : align.width;
     size_t rem = static_cast<size_t>(align.width - ret);
     buf.first(rem).fill(align.pad);
-- 
2.43.0


From 736ae43e30d518156baa0d56d158ba731bd0bcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:59 +0000
Subject: [PATCH 02/48] fix: overflows<signed>() read past the end of a lone
 minus sign

---
 src/c4/charconv.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 41a513b..5c191f6 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1721,6 +1721,8 @@ auto overflows(csubstr str)
         return false;
     if(str.str[0] == '-')
     {
+        if(C4_UNLIKELY(str.len == 1))
+            return false;
         if(str.str[1] == '0')
         {
             if(str.len == 2)
-- 
2.43.0


From cef60e8bcff71daa87f2fd3752e7a031c8961b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:00 +0000
Subject: [PATCH 03/48] fix: atoi_first/atou_first/atof_first/atod_first failed
 on a leading plus sign which the number span accepts

---
 src/c4/charconv.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 5c191f6..aabecb7 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1511,7 +1511,7 @@ C4_ALWAYS_INLINE size_t atoi_first(csubstr str, T * C4_RESTRICT v)
     csubstr trimmed = str.first_int_span();
     if(trimmed.len == 0)
         return csubstr::npos;
-    if(atoi(trimmed, v))
+    if(atoi(trimmed.sub(trimmed.str[0] == '+'), v)) // the span may start with '+'
         return static_cast<size_t>(trimmed.end() - str.begin());
     return csubstr::npos;
 }
@@ -1592,7 +1592,7 @@ C4_ALWAYS_INLINE size_t atou_first(csubstr str, T *v)
     csubstr trimmed = str.first_uint_span();
     if(trimmed.len == 0)
         return csubstr::npos;
-    if(atou(trimmed, v))
+    if(atou(trimmed.sub(trimmed.str[0] == '+'), v)) // the span may start with '+'
         return static_cast<size_t>(trimmed.end() - str.begin());
     return csubstr::npos;
 }
@@ -2153,7 +2153,7 @@ inline size_t atof_first(csubstr str, float * C4_RESTRICT v) noexcept
     csubstr trimmed = str.first_real_span();
     if(trimmed.len == 0)
         return csubstr::npos;
-    if(atof(trimmed, v))
+    if(atof(trimmed.sub(trimmed.str[0] == '+'), v)) // the span may start with '+'
         return static_cast<size_t>(trimmed.end() - str.begin());
     return csubstr::npos;
 }
@@ -2214,7 +2214,7 @@ inline size_t atod_first(csubstr str, double * C4_RESTRICT v) noexcept
     csubstr trimmed = str.first_real_span();
     if(trimmed.len == 0)
         return csubstr::npos;
-    if(atod(trimmed, v))
+    if(atod(trimmed.sub(trimmed.str[0] == '+'), v)) // the span may start with '+'
         return static_cast<size_t>(trimmed.end() - str.begin());
     return csubstr::npos;
 }
-- 
2.43.0


From 29058b57655f502e87a2278b6c41da424f1054ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:23 +0000
Subject: [PATCH 04/48] fix: from_chars_first(bool) read the whole buffer
 instead of the first span and returned the wrong size

---
 src/c4/charconv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index aabecb7..794b642 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -2493,9 +2493,9 @@ inline bool from_chars(csubstr buf, bool * C4_RESTRICT v) noexcept
 inline size_t from_chars_first(csubstr buf, bool * C4_RESTRICT v) noexcept
 {
     csubstr trimmed = buf.first_non_empty_span();
-    if(trimmed.len == 0 || !from_chars(buf, v))
+    if(trimmed.len == 0 || !from_chars(trimmed, v))
         return csubstr::npos;
-    return trimmed.len;
+    return static_cast<size_t>(trimmed.end() - buf.begin());
 }
 
 
-- 
2.43.0


From a682e5c31997e9b07fc2b844509e4c6e97f66ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:47 +0000
Subject: [PATCH 05/48] fix: from_chars_first(T**) returned a bool instead of
 the number of characters, and npos was taken for success

---
 src/c4/charconv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 794b642..f0a8d14 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -2404,7 +2404,7 @@ C4_ALWAYS_INLINE size_t from_chars_first(csubstr buf,   double *C4_RESTRICT v) n
 template <class T> _C4_IF_NOT_FIXED_LENGTH_I(T, size_t)::type from_chars_first(csubstr buf, T *C4_RESTRICT v) noexcept { return atoi_first(buf, v); }
 template <class T> _C4_IF_NOT_FIXED_LENGTH_U(T, size_t)::type from_chars_first(csubstr buf, T *C4_RESTRICT v) noexcept { return atou_first(buf, v); }
 template <class T>
-C4_ALWAYS_INLINE size_t from_chars_first(csubstr buf, T **v) noexcept { intptr_t tmp; bool ret = from_chars_first(buf, &tmp); if(ret) { *v = (T*)tmp; } return ret; }
+C4_ALWAYS_INLINE size_t from_chars_first(csubstr buf, T **v) noexcept { intptr_t tmp; size_t ret = from_chars_first(buf, &tmp); if(ret != csubstr::npos) { *v = (T*)tmp; } return ret; }
 
 /** @} */
 
-- 
2.43.0


From 59661bbac6e97b26af0e78cf189892491230d1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:10 +0000
Subject: [PATCH 06/48] fix: from_chars_first(substr*) did not set the length
 of the string it read

---
 src/c4/charconv.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index f0a8d14..9f8fea6 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -2635,6 +2635,7 @@ inline size_t from_chars_first(csubstr buf, substr * C4_RESTRICT v) noexcept
     }
     if(C4_UNLIKELY(trimmed.len > v->len))
         return csubstr::npos;
+    v->len = trimmed.len;
     return static_cast<size_t>(trimmed.end() - buf.begin());
 }
 
-- 
2.43.0


From a34d25e52251da1b6b68434db304b9a235e4224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:08 +0000
Subject: [PATCH 07/48] fix: atof/atod accepted a numeral followed by trailing
 garbage

---
 src/c4/charconv.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 9f8fea6..f85f68e 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -2122,7 +2122,7 @@ C4_ALWAYS_INLINE bool atof(csubstr str, float * C4_RESTRICT v) noexcept
     {
         fast_float::from_chars_result result;
         result = fast_float::from_chars(str.str, str.str + str.len, *v);
-        return result.ec == std::errc();
+        return result.ec == std::errc() && result.ptr == str.str + str.len;
     }
     else if(detail::scan_rhex(rem.sub(2), v))
     {
@@ -2133,7 +2133,7 @@ C4_ALWAYS_INLINE bool atof(csubstr str, float * C4_RESTRICT v) noexcept
 #elif C4CORE_HAVE_STD_FROMCHARS
     std::from_chars_result result;
     result = std::from_chars(str.str, str.str + str.len, *v);
-    return result.ec == std::errc();
+    return result.ec == std::errc() && result.ptr == str.str + str.len;
 #else
     csubstr rem = str.sub(str.str[0] == '-' || str.str[0] == '+');
     if(!(rem.len >= 2 && (rem.str[0] == '0' && (rem.str[1] == 'x' || rem.str[1] == 'X'))))
@@ -2183,7 +2183,7 @@ C4_ALWAYS_INLINE bool atod(csubstr str, double * C4_RESTRICT v) noexcept
     {
         fast_float::from_chars_result result;
         result = fast_float::from_chars(str.str, str.str + str.len, *v);
-        return result.ec == std::errc();
+        return result.ec == std::errc() && result.ptr == str.str + str.len;
     }
     else if(detail::scan_rhex(rem.sub(2), v))
     {
@@ -2194,7 +2194,7 @@ C4_ALWAYS_INLINE bool atod(csubstr str, double * C4_RESTRICT v) noexcept
 #elif C4CORE_HAVE_STD_FROMCHARS
     std::from_chars_result result;
     result = std::from_chars(str.str, str.str + str.len, *v);
-    return result.ec == std::errc();
+    return result.ec == std::errc() && result.ptr == str.str + str.len;
 #else
     csubstr rem = str.sub(str.str[0] == '-' || str.str[0] == '+');
     if(!(rem.len >= 2 && (rem.str[0] == '0' && (rem.str[1] == 'x' || rem.str[1] == 'X'))))
-- 
2.43.0


From 72255790844547479e3d1c0c4564cb5356f575db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:08 +0000
Subject: [PATCH 08/48] fix: hexadecimal reals were read with wrong letter
 digits, an uninitialized accumulator and base-16 exponents; malformed ones
 asserted

---
 src/c4/charconv.hpp | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index f85f68e..4ea5e4f 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -9,6 +9,7 @@
 #include <inttypes.h>
 #include <type_traits>
 #include <climits>
+#include <cmath>
 #include <limits>
 #include <utility>
 
@@ -1966,12 +1967,9 @@ C4_ALWAYS_INLINE size_t rtoa(substr buf, T v, int precision=-1, RealFormat_e for
 template<class T>
 C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
 {
-    C4_ASSERT(s.len > 0);
-    C4_ASSERT(s.str[0] != '-');
-    C4_ASSERT(s.str[0] != '+');
-    C4_ASSERT(!s.begins_with("0x"));
-    C4_ASSERT(!s.begins_with("0X"));
     size_t pos = 0;
+    bool has_digits = false;
+    *val = T(0);
     // integer part
     for( ; pos < s.len; ++pos)
     {
@@ -1979,9 +1977,9 @@ C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
         if(c >= '0' && c <= '9')
             *val = *val * T(16) + T(c - '0');
         else if(c >= 'a' && c <= 'f')
-            *val = *val * T(16) + T(c - 'a');
+            *val = *val * T(16) + T(10 + c - 'a');
         else if(c >= 'A' && c <= 'F')
-            *val = *val * T(16) + T(c - 'A');
+            *val = *val * T(16) + T(10 + c - 'A');
         else if(c == '.')
         {
             ++pos;
@@ -1996,6 +1994,7 @@ C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
         {
             return false;
         }
+        has_digits = true;
     }
     // mantissa
     {
@@ -2006,9 +2005,9 @@ C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
             if(c >= '0' && c <= '9')
                 *val += digit * T(c - '0');
             else if(c >= 'a' && c <= 'f')
-                *val += digit * T(c - 'a');
+                *val += digit * T(10 + c - 'a');
             else if(c >= 'A' && c <= 'F')
-                *val += digit * T(c - 'A');
+                *val += digit * T(10 + c - 'A');
             else if(c == 'p' || c == 'P')
             {
                 ++pos;
@@ -2018,22 +2017,22 @@ C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
             {
                 return false;
             }
+            has_digits = true;
         }
     }
-    return true;
+    return has_digits;
 power:
-    if(C4_LIKELY(pos < s.len))
+    if(C4_LIKELY(has_digits && pos < s.len))
     {
-        if(s.str[pos] == '+') // atoi() cannot handle a leading '+'
+        // the exponent is a decimal number, and a power of two
+        const bool isneg = (s.str[pos] == '-');
+        if(isneg || s.str[pos] == '+')
             ++pos;
-        if(C4_LIKELY(pos < s.len))
+        int powval = {};
+        if(C4_LIKELY(pos < s.len && read_dec(s.sub(pos), &powval)))
         {
-            int16_t powval = {};
-            if(C4_LIKELY(atoi(s.sub(pos), &powval)))
-            {
-                *val *= ipow<T, int16_t, 16>(powval);
-                return true;
-            }
+            *val = std::ldexp(*val, isneg ? -powval : powval);
+            return true;
         }
     }
     return false;
-- 
2.43.0


From d807f89d739816a6a9f2ce7ce9ec3088525cfe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:12 +0000
Subject: [PATCH 09/48] fix: FTOA_HEXA wrote the 0x prefix before the minus
 sign and before inf/nan

---
 src/c4/charconv.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 4ea5e4f..f1aad0c 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1928,12 +1928,22 @@ C4_ALWAYS_INLINE size_t rtoa(substr buf, T v, int precision=-1, RealFormat_e for
     size_t pos = 0;
     if(formatting == FTOA_HEXA)
     {
-        if(buf.len > size_t(2))
+        if(std::signbit(v)) // the sign comes before the prefix
         {
-            buf.str[0] = '0';
-            buf.str[1] = 'x';
+            if(buf.len > 0)
+                buf.str[0] = '-';
+            ++pos;
+            v = -v;
+        }
+        if(std::isfinite(v)) // inf and nan have no prefix
+        {
+            if(buf.len > pos + size_t(2))
+            {
+                buf.str[pos + 0] = '0';
+                buf.str[pos + 1] = 'x';
+            }
+            pos += size_t(2);
         }
-        pos += size_t(2);
     }
     if(precision == -1)
         result = std::to_chars(buf.str + pos, buf.str + buf.len, v, (std::chars_format)formatting);
-- 
2.43.0


From b1c1d862cbf2bbf503f210992e5b67a3d8c4618f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:58 +0000
Subject: [PATCH 10/48] fix: substr::overlaps: an empty view has no element to
 overlap

---
 src/c4/substr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 7a1e4fc..9a09830 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -313,7 +313,7 @@ public:
     C4_ALWAYS_INLINE C4_PURE bool overlaps(ro_substr const that) const noexcept
     {
         // thanks @timwynants
-        return that.str+that.len > str && that.str < str+len;
+        return len > 0 && that.len > 0 && that.str+that.len > str && that.str < str+len;
     }
 
 public:
-- 
2.43.0


From 03403cad122710b26bb3577dce41b5294ab75044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:25 +0000
Subject: [PATCH 11/48] fix: substr::left_of/right_of(len): do not return a
 view beyond the end

---
 src/c4/substr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 9a09830..2f3d1b2 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -385,7 +385,7 @@ public:
     C4_ALWAYS_INLINE C4_PURE basic_substring left_of(size_t pos, bool include_pos) const noexcept
     {
         C4_ASSERT(pos <= len || pos == npos);
-        return (pos != npos) ?
+        return (pos < len) ?
             basic_substring(str, pos+include_pos) :
             *this;
     }
@@ -394,7 +394,7 @@ public:
     C4_ALWAYS_INLINE C4_PURE basic_substring right_of(size_t pos) const noexcept
     {
         C4_ASSERT(pos <= len || pos == npos);
-        return (pos != npos) ?
+        return (pos < len) ?
             basic_substring(str + (pos + 1), len - (pos + 1)) :
             basic_substring(str + len, size_t(0));
     }
@@ -403,7 +403,7 @@ public:
     C4_ALWAYS_INLINE C4_PURE basic_substring right_of(size_t pos, bool include_pos) const noexcept
     {
         C4_ASSERT(pos <= len || pos == npos);
-        return (pos != npos) ?
+        return (pos < len) ?
             basic_substring(str + (pos + !include_pos), len - (pos + !include_pos)) :
             basic_substring(str + len, size_t(0));
     }
-- 
2.43.0


From ad0fd9517ba572daccee94a8f7e95278c87364d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:58 +0000
Subject: [PATCH 12/48] fix: substr::replace_all(): pos==npos wrote before the
 destination

---
 src/c4/substr.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 2f3d1b2..1c4ed5b 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -2144,6 +2144,7 @@ public:
                 sz += num;                                              \
             }
         size_t sz = 0;
+        pos = pos != npos ? pos : len;
         size_t b = pos;
         _c4append(str, str + pos);
         do {
-- 
2.43.0


From 02d29ef2f545c09c9312189bb41825915e819284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:58 +0000
Subject: [PATCH 13/48] fix: base64_valid(): padding is valid only at the end,
 at most two characters

---
 src/c4/base64.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/c4/base64.cpp b/src/c4/base64.cpp
index 7f8b339..6a37f19 100644
--- a/src/c4/base64.cpp
+++ b/src/c4/base64.cpp
@@ -98,12 +98,14 @@ bool base64_valid(csubstr encoded)
 {
     if(encoded.len & 3u) // (encoded.len % 4u)
         return false;
-    for(const char c : encoded)
+    // padding can be only at the end, and is at most two characters
+    const csubstr unpadded = encoded.trimr('=');
+    if(encoded.len - unpadded.len > 2u)
+        return false;
+    for(const char c : unpadded)
     {
         if(c < 0/* || c >= 128*/)
             return false;
-        if(c == '=')
-            continue;
         if(detail::base64_char_to_sextet_[c] == char(-1))
             return false;
     }
-- 
2.43.0


From 815b41c915d7db1be53a8eae519997fbe4c99fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:50 +0000
Subject: [PATCH 14/48] fix: blob: return from the converting assignment
 operators

---
 src/c4/blob.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/blob.hpp b/src/c4/blob.hpp
index 76a1d9e..542e8f9 100644
--- a/src/c4/blob.hpp
+++ b/src/c4/blob.hpp
@@ -39,8 +39,8 @@ public:
 
     template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_(blob_<U> const& that) noexcept : buf(that.buf), len(that.len) {}
     template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_(blob_<U>     && that) noexcept : buf(that.buf), len(that.len) {}
-    template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_& operator=(blob_<U>     && that) noexcept { buf = that.buf; len = that.len; }
-    template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_& operator=(blob_<U> const& that) noexcept { buf = that.buf; len = that.len; }
+    template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_& operator=(blob_<U>     && that) noexcept { buf = that.buf; len = that.len; return *this; }
+    template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_& operator=(blob_<U> const& that) noexcept { buf = that.buf; len = that.len; return *this; }
 
     C4_ALWAYS_INLINE blob_(void       *ptr, size_t n) noexcept : buf(reinterpret_cast<T*>(ptr)), len(n) {}
     C4_ALWAYS_INLINE blob_(void const *ptr, size_t n) noexcept : buf(reinterpret_cast<T*>(ptr)), len(n) {}
-- 
2.43.0


From 28f00167277f059031bf8a4626d85a78dc5dc228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:30 +0000
Subject: [PATCH 15/48] fix: unformat(): do not report more characters than the
 buffer has

---
 src/c4/format.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/format.hpp b/src/c4/format.hpp
index 7fb03fa..b7f5a05 100644
--- a/src/c4/format.hpp
+++ b/src/c4/format.hpp
@@ -849,9 +849,9 @@ substr format_sub(substr buf, csubstr fmt, Args const& C4_RESTRICT ...args)
 
 /// @cond dev
 // terminates the variadic recursion
-inline size_t unformat(csubstr /*buf*/, csubstr fmt)
+inline size_t unformat(csubstr buf, csubstr fmt)
 {
-    return fmt.len;
+    return fmt.len < buf.len ? fmt.len : buf.len;
 }
 /// @endcond
 
-- 
2.43.0


From 99962c19c7ed262ed3f5702c32aacb9f6d40c7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:44 +0000
Subject: [PATCH 16/48] fix: cat_dump_resume(): do not dump out of order after
 an argument did not fit

---
 src/c4/dump.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/c4/dump.hpp b/src/c4/dump.hpp
index c65623f..82ac287 100644
--- a/src/c4/dump.hpp
+++ b/src/c4/dump.hpp
@@ -142,8 +142,11 @@ DumpResults cat_dump_resume(size_t currarg, DumpResults results, substr buf, Arg
 {
     if(C4_LIKELY(results.write_arg(currarg)))
     {
+        const bool in_order = (currarg == results.lastok + 1);
+        if(C4_UNLIKELY( ! in_order))
+            buf = buf.first(0); // a previous argument failed: get only the size
         size_t sz = dump<dumpfn>(buf, a);  // yield to the specialized function
-        if(currarg == results.lastok + 1 && sz <= buf.len)
+        if(in_order && sz <= buf.len && buf.len > 0)
             results.lastok = currarg;
         results.bufsize = sz > results.bufsize ? sz : results.bufsize;
     }
@@ -156,8 +159,11 @@ DumpResults cat_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults resul
 {
     if(C4_LIKELY(results.write_arg(currarg)))
     {
+        const bool in_order = (currarg == results.lastok + 1);
+        if(C4_UNLIKELY( ! in_order))
+            buf = buf.first(0); // a previous argument failed: get only the size
         size_t sz = dump(dumpfn, buf, a);  // yield to the specialized function
-        if(currarg == results.lastok + 1 && sz <= buf.len)
+        if(in_order && sz <= buf.len && buf.len > 0)
             results.lastok = currarg;
         results.bufsize = sz > results.bufsize ? sz : results.bufsize;
     }
-- 
2.43.0


From 2216d36f55cc1646941d12c6b3c059fad3b11731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:49 +0000
Subject: [PATCH 17/48] fix: catsep_dump_resume(): strings after an argument
 that did not fit were taken as dumped

---
 src/c4/dump.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/dump.hpp b/src/c4/dump.hpp
index 82ac287..19a3ccd 100644
--- a/src/c4/dump.hpp
+++ b/src/c4/dump.hpp
@@ -286,7 +286,7 @@ void catsep_dump_resume_(size_t currarg, DumpResults *C4_RESTRICT results, subst
     {
         size_t sz = dump<dumpfn>(*buf, a);
         results->bufsize = sz > results->bufsize ? sz : results->bufsize;
-        if(C4_LIKELY(sz <= buf->len))
+        if(C4_LIKELY(sz <= buf->len && buf->len > 0))
             results->lastok = currarg;
         else
             buf->len = 0;
@@ -300,7 +300,7 @@ void catsep_dump_resume_(size_t currarg, DumperFn &&dumpfn, DumpResults *C4_REST
     {
         size_t sz = dump(dumpfn, *buf, a);
         results->bufsize = sz > results->bufsize ? sz : results->bufsize;
-        if(C4_LIKELY(sz <= buf->len))
+        if(C4_LIKELY(sz <= buf->len && buf->len > 0))
             results->lastok = currarg;
         else
             buf->len = 0;
-- 
2.43.0


From 50add11eacc4629041ef85003992e7decc2a89dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:54 +0000
Subject: [PATCH 18/48] fix: format_dump_resume(): parts lost or repeated when
 resuming

---
 src/c4/dump.hpp | 48 ++++++++++++++----------------------------------
 1 file changed, 14 insertions(+), 34 deletions(-)

diff --git a/src/c4/dump.hpp b/src/c4/dump.hpp
index 19a3ccd..0c1c912 100644
--- a/src/c4/dump.hpp
+++ b/src/c4/dump.hpp
@@ -459,7 +459,7 @@ DumpResults format_dump_resume(size_t currarg, DumpResults results, substr buf,
 {
     // we can dump without using buf
     // but we'll only dump if the buffer is ok
-    if(C4_LIKELY(buf.len > 0))
+    if(C4_LIKELY(results.write_arg(currarg) && buf.len > 0))
     {
         dumpfn(fmt);
         results.lastok = currarg;
@@ -472,7 +472,7 @@ DumpResults format_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults re
 {
     // we can dump without using buf
     // but we'll only dump if the buffer is ok
-    if(C4_LIKELY(buf.len > 0))
+    if(C4_LIKELY(results.write_arg(currarg) && buf.len > 0))
     {
         dumpfn(fmt);
         results.lastok = currarg;
@@ -488,29 +488,19 @@ DumpResults format_dump_resume(size_t currarg, DumpResults results, substr buf,
     size_t pos = fmt.find("{}"); // @todo use _find_fmt()
     // we can dump without using buf
     // but we'll only dump if the buffer is ok
-    if(C4_LIKELY(results.write_arg(currarg)))
+    if(C4_UNLIKELY(pos == csubstr::npos))
+        return detail::format_dump_resume<dumpfn>(currarg, results, buf, fmt);
+    if(C4_LIKELY(results.write_arg(currarg) && buf.len > 0))
     {
-        if(C4_UNLIKELY(pos == csubstr::npos))
-        {
-            if(C4_LIKELY(buf.len > 0))
-            {
-                results.lastok = currarg;
-                dumpfn(fmt);
-            }
-            return results;
-        }
-        if(C4_LIKELY(buf.len > 0))
-        {
-            results.lastok = currarg;
-            dumpfn(fmt.first(pos));
-        }
+        results.lastok = currarg;
+        dumpfn(fmt.first(pos));
     }
     fmt = fmt.sub(pos + 2);
     if(C4_LIKELY(results.write_arg(currarg + 1)))
     {
         pos = dump<dumpfn>(buf, a);
         results.bufsize = pos > results.bufsize ? pos : results.bufsize;
-        if(C4_LIKELY(pos <= buf.len))
+        if(C4_LIKELY(pos <= buf.len && buf.len > 0))
             results.lastok = currarg + 1;
         else
             buf.len = 0;
@@ -528,29 +518,19 @@ DumpResults format_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults re
     size_t pos = fmt.find("{}"); // @todo use _find_fmt()
     // we can dump without using buf
     // but we'll only dump if the buffer is ok
-    if(C4_LIKELY(results.write_arg(currarg)))
+    if(C4_UNLIKELY(pos == csubstr::npos))
+        return detail::format_dump_resume(currarg, dumpfn, results, buf, fmt);
+    if(C4_LIKELY(results.write_arg(currarg) && buf.len > 0))
     {
-        if(C4_UNLIKELY(pos == csubstr::npos))
-        {
-            if(C4_LIKELY(buf.len > 0))
-            {
-                results.lastok = currarg;
-                dumpfn(fmt);
-            }
-            return results;
-        }
-        if(C4_LIKELY(buf.len > 0))
-        {
-            results.lastok = currarg;
-            dumpfn(fmt.first(pos));
-        }
+        results.lastok = currarg;
+        dumpfn(fmt.first(pos));
     }
     fmt = fmt.sub(pos + 2);
     if(C4_LIKELY(results.write_arg(currarg + 1)))
     {
         pos = dump(dumpfn, buf, a);
         results.bufsize = pos > results.bufsize ? pos : results.bufsize;
-        if(C4_LIKELY(pos <= buf.len))
+        if(C4_LIKELY(pos <= buf.len && buf.len > 0))
             results.lastok = currarg + 1;
         else
             buf.len = 0;
-- 
2.43.0


From 617bc8048c7074d03cf4f287cb2f656a02a81788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:28 +0000
Subject: [PATCH 19/48] fix: left/right aligned real numbers were cut or padded
 with a null character before C++17

---
 src/c4/format.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/c4/format.hpp b/src/c4/format.hpp
index b7f5a05..e47cbd3 100644
--- a/src/c4/format.hpp
+++ b/src/c4/format.hpp
@@ -547,8 +547,8 @@ size_t to_chars(substr buf, fmt::left_<T> const& C4_RESTRICT align)
     size_t ret = to_chars(buf, align.val);
     if(ret >= align.width || align.width > buf.len)
         return ret > align.width ? ret : align.width;
+    // pad after writing: the value writer may touch the buffer past its text
     buf.first(align.width).sub(ret).fill(align.pad);
-    to_chars(buf, align.val);
     return align.width;
 }
 
@@ -560,8 +560,10 @@ size_t to_chars(substr buf, fmt::right_<T> const& C4_RESTRICT align)
     if(ret >= align.width || align.width > buf.len)
         return ret > align.width ? ret : align.width;
     size_t rem = static_cast<size_t>(align.width - ret);
+    // move the text instead of writing it again: the value writer may
+    // need more than the exact space
+    memmove(buf.str + rem, buf.str, ret);
     buf.first(rem).fill(align.pad);
-    to_chars(buf.sub(rem), align.val);
     return align.width;
 }
 
-- 
2.43.0


From 1c21cb1e13477e5861f38a85280afb9bb44a885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:16 +0000
Subject: [PATCH 20/48] fix: enum symbol lookup with a length took any prefix
 of a name (also the empty string) for the name

---
 src/c4/enum.hpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/c4/enum.hpp b/src/c4/enum.hpp
index ae12f51..487046a 100644
--- a/src/c4/enum.hpp
+++ b/src/c4/enum.hpp
@@ -240,23 +240,18 @@ bool EnumSymbols<Enum>::Sym::cmp(const char *s) const
 template<class Enum>
 bool EnumSymbols<Enum>::Sym::cmp(const char *s, size_t len) const
 {
-    if(strncmp(name, s, len) == 0)
+    // compare the lengths as well: a prefix of the name is not the name
+    const size_t nlen = strlen(name);
+    if(len == nlen && memcmp(name, s, len) == 0)
         return true;
 
-    size_t nlen = 0;
     for(int i = 1; i <_EOFFS_LAST; ++i)
     {
         auto o = eoffs<Enum>((EnumOffsetType)i);
         if(o > 0)
         {
-            if(!nlen)
-            {
-                nlen = strlen(name);
-            }
             C4_ASSERT(o < nlen);
-            size_t rem = nlen - o;
-            auto m = len > rem ? len : rem;
-            if(len >= m && strncmp(name + o, s, m) == 0)
+            if(len == nlen - o && memcmp(name + o, s, len) == 0)
                 return true;
         }
     }
-- 
2.43.0


From edf202a1c1322a7cf4d3fa02190a0c7f26f4241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:05 +0000
Subject: [PATCH 21/48] fix: str2bm() rejected symbol names with digits, which
 bm2str() writes

---
 src/c4/bitmask.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/bitmask.hpp b/src/c4/bitmask.hpp
index a4190d5..2dcd386 100644
--- a/src/c4/bitmask.hpp
+++ b/src/c4/bitmask.hpp
@@ -278,7 +278,7 @@ typename std::underlying_type<Enum>::type str2bm(const char *str, size_t sz)
         }
         else if(c >= '0' && c <= '9')
         {
-            C4_CHECK( ! alnum);
+            // note that symbol names may also have digits
             if(!started)
             {
                 f = pc;
-- 
2.43.0


From 1d07eb5573cb52856f7ed68a402d9fda90895bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:05 +0000
Subject: [PATCH 22/48] fix: str2bm() rejected hexadecimal numbers with letter
 digits

---
 src/c4/bitmask.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/c4/bitmask.hpp b/src/c4/bitmask.hpp
index 2dcd386..b060d29 100644
--- a/src/c4/bitmask.hpp
+++ b/src/c4/bitmask.hpp
@@ -269,7 +269,10 @@ typename std::underlying_type<Enum>::type str2bm(const char *str, size_t sz)
         const char c = *pc;
         if((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_')
         {
-            C4_CHECK(( ! num) || ((pc - f) == 1 && (c == 'x' || c == 'X'))); // accept hexadecimal numbers
+            // accept hexadecimal numbers
+            C4_CHECK(( ! num) || ((pc - f) == 1 && (c == 'x' || c == 'X'))
+                     || ((pc - f) > 1 && (f[1] == 'x' || f[1] == 'X')
+                         && ((c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))));
             if( ! started)
             {
                 f = pc;
-- 
2.43.0


From 0551c8ae64edc3378a2e02475c53859ef56e10e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:07 +0000
Subject: [PATCH 23/48] fix: span::rend() of a mutable span did not compile

---
 src/c4/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/span.hpp b/src/c4/span.hpp
index 43bb633..6efdc22 100644
--- a/src/c4/span.hpp
+++ b/src/c4/span.hpp
@@ -83,7 +83,7 @@ public:
     C4_ALWAYS_INLINE const_reverse_iterator  rbegin() const noexcept { return reverse_iterator(_c4cptr + _c4csz); }
     C4_ALWAYS_INLINE const_reverse_iterator crbegin() const noexcept { return reverse_iterator(_c4cptr + _c4csz); }
 
-    C4_ALWAYS_INLINE       reverse_iterator  rend()       noexcept { return const_reverse_iterator(_c4ptr); }
+    C4_ALWAYS_INLINE       reverse_iterator  rend()       noexcept { return reverse_iterator(_c4ptr); }
     C4_ALWAYS_INLINE const_reverse_iterator  rend() const noexcept { return const_reverse_iterator(_c4cptr); }
     C4_ALWAYS_INLINE const_reverse_iterator crend() const noexcept { return const_reverse_iterator(_c4cptr); }
 
-- 
2.43.0


From d32447f7be84ae264d4072db28f95dd8521f8a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:36 +0000
Subject: [PATCH 24/48] fix: span equality ignored the size of the right
 operand in C++11

---
 src/c4/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/span.hpp b/src/c4/span.hpp
index 6efdc22..ccf8c77 100644
--- a/src/c4/span.hpp
+++ b/src/c4/span.hpp
@@ -211,7 +211,7 @@ inline constexpr bool operator==
 #if C4_CPP >= 14
     return std::equal(l.begin(), l.end(), r.begin(), r.end());
 #else
-    return l.same_span(r) || std::equal(l.begin(), l.end(), r.begin());
+    return (l.end() - l.begin()) == (r.end() - r.begin()) && std::equal(l.begin(), l.end(), r.begin());
 #endif
 }
 
-- 
2.43.0


From 3bc86078118ba348bcd6d301b6a9ce17d7ef46b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:21 +0000
Subject: [PATCH 25/48] fix: acquire() and release() of a linear memory
 resource used the resource itself instead of its backing resource, and
 acquire() leaked owned memory

---
 src/c4/memory_resource.cpp | 10 ++++++----
 src/c4/memory_resource.hpp |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index 891c373..ee4c176 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -166,7 +166,8 @@ void detail::_MemoryResourceSingleChunk::release()
 {
     if(m_mem && m_owner)
     {
-        impl_type::deallocate(m_mem, m_size);
+        // call the implementation directly: the derived class overrides it
+        impl_type::do_deallocate(m_mem, m_size, alignof(max_align_t));
     }
     m_mem = nullptr;
     m_size = 0;
@@ -176,16 +177,17 @@ void detail::_MemoryResourceSingleChunk::release()
 
 void detail::_MemoryResourceSingleChunk::acquire(size_t sz)
 {
-    clear();
+    release();
+    // call the implementation directly: the derived class overrides it
+    m_mem = (char*) impl_type::do_allocate(sz, alignof(max_align_t), nullptr);
     m_owner = true;
-    m_mem = (char*) impl_type::allocate(sz, alignof(max_align_t));
     m_size = sz;
     m_pos = 0;
 }
 
 void detail::_MemoryResourceSingleChunk::acquire(void *mem, size_t sz)
 {
-    clear();
+    release();
     m_owner = false;
     m_mem = (char*) mem;
     m_size = sz;
diff --git a/src/c4/memory_resource.hpp b/src/c4/memory_resource.hpp
index 0818f58..4b28367 100644
--- a/src/c4/memory_resource.hpp
+++ b/src/c4/memory_resource.hpp
@@ -288,7 +288,7 @@ public:
     char  *m_mem{nullptr};
     size_t m_size{0};
     size_t m_pos{0};
-    bool   m_owner;
+    bool   m_owner{false};
 
 public:
 
-- 
2.43.0


From 111c079bfea63e658e576a17d06d7296565ddfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:22 +0000
Subject: [PATCH 26/48] fix: reallocating a block of a linear memory resource
 lost its contents when the block moved

---
 src/c4/memory_resource.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index ee4c176..1f558e2 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -256,8 +256,11 @@ void* MemoryResourceLinear::do_reallocate(void* ptr, size_t oldsz, size_t newsz,
         return ptr;
     }
     // we're growing the block or it doesn't fit -
-    // delegate any of these situations to do_deallocate()
-    return do_allocate(newsz, alignment, ptr);
+    // delegate any of these situations to do_allocate()
+    void *mem = do_allocate(newsz, alignment, ptr);
+    if(mem && oldsz)
+        ::memcpy(mem, ptr, oldsz);
+    return mem;
 }
 
 
-- 
2.43.0


From 9165946812b5cfa52bb918cb8e1ee1968c6673fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:24 +0000
Subject: [PATCH 27/48] fix: overflow in the bounds checks of the linear memory
 resource for huge sizes

---
 src/c4/memory_resource.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index 1f558e2..8f27605 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -203,7 +203,7 @@ void* MemoryResourceLinear::do_allocate(size_t sz, size_t alignment, void *hint)
     C4_UNUSED(hint);
     if(sz == 0) return nullptr;
     // make sure there's enough room to allocate
-    if(m_pos + sz > m_size)
+    if(sz > m_size - m_pos)
     {
         C4_ERROR("out of memory");
     }
@@ -249,7 +249,7 @@ void* MemoryResourceLinear::do_reallocate(void* ptr, size_t oldsz, size_t newsz,
         return ptr;
     }
     // we're growing the block, and it fits in size
-    else if(same_pos && cptr + newsz <= m_mem + m_size)
+    else if(same_pos && newsz - oldsz <= m_size - m_pos)
     {
         // if this is the MRA, we can safely shrink the position
         m_pos += newsz - oldsz;
-- 
2.43.0


From 839d52a17b66c4d8d53b1ce87ec7e41ebfd12511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:31 +0000
Subject: [PATCH 28/48] fix: counting memory resource dropped the existing
 block from its counts when a reallocation failed

---
 src/c4/memory_resource.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c4/memory_resource.hpp b/src/c4/memory_resource.hpp
index 4b28367..0b02996 100644
--- a/src/c4/memory_resource.hpp
+++ b/src/c4/memory_resource.hpp
@@ -513,8 +513,9 @@ protected:
 
     virtual void* do_reallocate(void* ptr, size_t oldsz, size_t newsz, size_t alignment) override
     {
-        m_counts.rem_counts(ptr, oldsz);
+        // on error, the existing block is still allocated
         void* nptr = m_resource->reallocate(ptr, oldsz, newsz, alignment);
+        m_counts.rem_counts(ptr, oldsz);
         m_counts.add_counts(nptr, newsz);
         return nptr;
     }
-- 
2.43.0


From 6b1f4cd588ed76c9ca8df2a5132428315e321d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:31 +0000
Subject: [PATCH 29/48] fix: arealloc() copied to null and freed the existing
 block when the allocation function returned null

---
 src/c4/memory_resource.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index 8f27605..78534f8 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -84,6 +84,8 @@ void* arealloc_impl(void* ptr, size_t oldsz, size_t newsz, size_t alignment)
      * @see look for qReallocAligned() in http://code.qt.io/cgit/qt/qtbase.git/tree/src/corelib/global/qmalloc.cpp
      */
     void *tmp = aalloc(newsz, alignment);
+    if(C4_UNLIKELY(tmp == nullptr))
+        return nullptr; // the existing block is left as it was
     size_t min = newsz < oldsz ? newsz : oldsz;
     if(mem_overlaps(ptr, tmp, oldsz, newsz))
     {
-- 
2.43.0


From d32016ed0a82da08401ab4165af9064d78aeee80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:35 +0000
Subject: [PATCH 30/48] fix: SmallAllocator handed out local memory still in
 use when blocks were not freed in reverse order, lost contents on
 reallocation and ignored the alignment

---
 src/c4/allocator.hpp | 60 +++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/src/c4/allocator.hpp b/src/c4/allocator.hpp
index e345966..650edba 100644
--- a/src/c4/allocator.hpp
+++ b/src/c4/allocator.hpp
@@ -4,7 +4,8 @@
 #include "c4/memory_resource.hpp"
 #include "c4/ctor_dtor.hpp"
 
-#include <memory> // std::allocator_traits
+#include <memory> // std::allocator_traits, std::align
+#include <string.h> // memcpy
 #include <type_traits>
 
 /** @file allocator.hpp Contains classes to make typeful allocations (note
@@ -272,7 +273,13 @@ class SmallAllocator : public detail::_AllocatorUtil<MemResProvider>
     using impl_type = detail::_AllocatorUtil<MemResProvider>;
 
     alignas(Alignment) char m_arr[N * sizeof(T)];
-    size_t m_num{0};
+    size_t m_pos{0}; ///< the first byte of m_arr which is not in use
+    size_t m_num{0}; ///< the number of blocks in m_arr which are in use
+
+    bool is_local_(void const* ptr) const
+    {
+        return (char const*)ptr >= m_arr && (char const*)ptr < m_arr + sizeof(m_arr);
+    }
 
 public:
 
@@ -321,11 +328,12 @@ public:
         C4_ASSERT(that.m_num == 0);
     }
 
-    SmallAllocator(SmallAllocator const&) = default;
-    SmallAllocator(SmallAllocator     &&) = default;
+    // the local blocks belong to the allocator object, so these do not touch them
+    SmallAllocator(SmallAllocator const& that) : impl_type(that) {}
+    SmallAllocator(SmallAllocator     && that) : impl_type(that) {}
 
-    SmallAllocator& operator= (SmallAllocator const&) = default; // WTF? why? @see http://en.cppreference.com/w/cpp/memory/polymorphic_allocator
-    SmallAllocator& operator= (SmallAllocator     &&) = default;
+    SmallAllocator& operator= (SmallAllocator const& that) { impl_type::operator=(that); return *this; } // WTF? why? @see http://en.cppreference.com/w/cpp/memory/polymorphic_allocator
+    SmallAllocator& operator= (SmallAllocator     && that) { impl_type::operator=(that); return *this; }
 
     /** returns a default-constructed polymorphic allocator object
      * @see http://en.cppreference.com/w/cpp/memory/polymorphic_allocator/select_on_container_copy_construction      */
@@ -335,26 +343,32 @@ public:
     {
         C4_ASSERT(this->resource() != nullptr);
         C4_ASSERT(alignment >= alignof(T));
-        void *vmem;
-        if(m_num + num_objs <= N)
+        void *vmem = m_arr + m_pos;
+        size_t space = sizeof(m_arr) - m_pos;
+        if(num_objs <= N && std::align(alignment, num_objs * sizeof(T), vmem, space) && is_local_(vmem))
         {
-            vmem = (m_arr + m_num * sizeof(T));
+            m_pos = (size_t)((char*)vmem - m_arr) + num_objs * sizeof(T);
+            ++m_num;
         }
         else
         {
             vmem = this->resource()->allocate(num_objs * sizeof(T), alignment);
         }
-        m_num += num_objs;
         T *mem = static_cast<T*>(vmem);
         return mem;
     }
 
     void deallocate(T * ptr, size_t num_objs, size_t alignment=Alignment)
     {
-        C4_ASSERT(m_num >= num_objs);
-        m_num -= num_objs;
-        if((char*)ptr >= m_arr && (char*)ptr < m_arr + (N * sizeof(T)))
+        if(is_local_(ptr))
         {
+            C4_ASSERT(m_num > 0);
+            // only the last block can be reused now. The others
+            // can be reused when no local block is in use.
+            if((char*)(ptr + num_objs) == m_arr + m_pos)
+                m_pos = (size_t)((char*)ptr - m_arr);
+            if(--m_num == 0)
+                m_pos = 0;
             return;
         }
         C4_ASSERT(this->resource() != nullptr);
@@ -366,18 +380,18 @@ public:
     {
         C4_ASSERT(this->resource() != nullptr);
         C4_ASSERT(alignment >= alignof(T));
-        if(oldnum <= N && newnum <= N)
-        {
-            return m_arr;
-        }
-        else if(oldnum <= N && newnum > N)
-        {
-            return allocate(newnum, alignment);
-        }
-        else if(oldnum > N && newnum <= N)
+        if(is_local_(ptr))
         {
+            if(newnum <= oldnum)
+            {
+                if((char*)(ptr + oldnum) == m_arr + m_pos)
+                    m_pos -= (oldnum - newnum) * sizeof(T);
+                return ptr;
+            }
+            T *tmp = allocate(newnum, alignment);
+            ::memcpy((void*)tmp, (void const*)ptr, oldnum * sizeof(T));
             deallocate(ptr, oldnum, alignment);
-            return m_arr;
+            return tmp;
         }
         void* vmem = this->resource()->reallocate(ptr, oldnum * sizeof(T), newnum * sizeof(T), alignment);
         T* mem = static_cast<T*>(vmem);
-- 
2.43.0


From 1eb54e30c27bd233360066c0023a91289d2c6bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:02 +0000
Subject: [PATCH 31/48] fix: allocators granted object counts whose size in
 bytes overflows

---
 src/c4/allocator.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/c4/allocator.hpp b/src/c4/allocator.hpp
index 650edba..95d2220 100644
--- a/src/c4/allocator.hpp
+++ b/src/c4/allocator.hpp
@@ -28,8 +28,12 @@ namespace c4 {
 C4_SUPPRESS_WARNING_GCC_CLANG_WITH_PUSH("-Wold-style-cast")
 
 namespace detail {
-template<class T> inline size_t size_for      (size_t num_objs) noexcept { return num_objs * sizeof(T); }
-template<       > inline size_t size_for<void>(size_t num_objs) noexcept { return num_objs;             }
+template<class T> inline size_t size_for      (size_t num_objs)
+{
+    C4_CHECK_MSG(num_objs <= size_t(-1) / sizeof(T), "too many objects: %zu", num_objs);
+    return num_objs * sizeof(T);
+}
+template<       > inline size_t size_for<void>(size_t num_objs) { return num_objs; }
 } // namespace detail
 
 
@@ -352,7 +356,7 @@ public:
         }
         else
         {
-            vmem = this->resource()->allocate(num_objs * sizeof(T), alignment);
+            vmem = this->resource()->allocate(detail::size_for<T>(num_objs), alignment);
         }
         T *mem = static_cast<T*>(vmem);
         return mem;
@@ -393,7 +397,7 @@ public:
             deallocate(ptr, oldnum, alignment);
             return tmp;
         }
-        void* vmem = this->resource()->reallocate(ptr, oldnum * sizeof(T), newnum * sizeof(T), alignment);
+        void* vmem = this->resource()->reallocate(ptr, detail::size_for<T>(oldnum), detail::size_for<T>(newnum), alignment);
         T* mem = static_cast<T*>(vmem);
         return mem;
     }
-- 
2.43.0


From 0f9a7bb7902a0f18ae5aa9fc98e3f03f9991784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:58 +0000
Subject: [PATCH 32/48] fix: ScopedMemoryResourceCounts(m) left m as the
 current memory resource instead of restoring the previous one

---
 src/c4/memory_resource.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/c4/memory_resource.hpp b/src/c4/memory_resource.hpp
index 0b02996..d492971 100644
--- a/src/c4/memory_resource.hpp
+++ b/src/c4/memory_resource.hpp
@@ -549,18 +549,19 @@ struct ScopedMemoryResource
 struct ScopedMemoryResourceCounts
 {
     MemoryResourceCounts mr;
+    MemoryResource *m_original;
 
-    ScopedMemoryResourceCounts() : mr()
+    ScopedMemoryResourceCounts() : mr(), m_original(get_memory_resource())
     {
         set_memory_resource(&mr);
     }
-    ScopedMemoryResourceCounts(MemoryResource *m) : mr(m)
+    ScopedMemoryResourceCounts(MemoryResource *m) : mr(m), m_original(get_memory_resource())
     {
         set_memory_resource(&mr);
     }
     ~ScopedMemoryResourceCounts()
     {
-        set_memory_resource(mr.resource());
+        set_memory_resource(m_original);
     }
 };
 
-- 
2.43.0


From 99e61a2f9984642bfc25413972e2704a8831ed5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:58 +0000
Subject: [PATCH 33/48] fix: C4_CHECK_MSG() used the text of the condition as
 part of the format string

---
 src/c4/error.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/error.hpp b/src/c4/error.hpp
index 95d7c0d..c326109 100644
--- a/src/c4/error.hpp
+++ b/src/c4/error.hpp
@@ -338,7 +338,7 @@ struct srcloc
     do {                                                                \
         if(C4_UNLIKELY(!(cond)))                                        \
         {                                                               \
-            C4_ERROR("check failed: " #cond "\n" fmt, ## __VA_ARGS__);  \
+            C4_ERROR("check failed: %s\n" fmt, #cond, ## __VA_ARGS__); \
         }                                                               \
     } while(0)
 
-- 
2.43.0


From 515afa4df8dd4f6b601efb2792eb9eaa47190175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:46 +0000
Subject: [PATCH 34/48] fix: builds where errors throw exceptions did not
 compile, and threw an uninitialised message unless logging or calling back

---
 src/c4/error.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/error.cpp b/src/c4/error.cpp
index 32a266d..7480b22 100644
--- a/src/c4/error.cpp
+++ b/src/c4/error.cpp
@@ -29,7 +29,7 @@
 #endif
 
 #if defined(C4_EXCEPTIONS_ENABLED) && defined(C4_ERROR_THROWS_EXCEPTION)
-#   include <exception>
+#   include <stdexcept>
 #endif
 
 #ifdef __clang__
@@ -78,7 +78,7 @@ void handle_error(srcloc where, const char *fmt, ...)
 {
     char buf[1024];
     size_t msglen = 0;
-    if(s_error_flags & (ON_ERROR_LOG|ON_ERROR_CALLBACK))
+    if(s_error_flags & (ON_ERROR_LOG|ON_ERROR_CALLBACK|ON_ERROR_THROW))
     {
         va_list args;
         va_start(args, fmt);
-- 
2.43.0


From ef10f54044102f61b0b3fdee308edece5debf11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:55 +0000
Subject: [PATCH 35/48] fix: mem_overlaps(): an empty range has no byte to
 overlap

---
 src/c4/memory_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/memory_util.hpp b/src/c4/memory_util.hpp
index 29341cf..f0111c1 100644
--- a/src/c4/memory_util.hpp
+++ b/src/c4/memory_util.hpp
@@ -50,7 +50,7 @@ C4_ALWAYS_INLINE void mem_zero(T* mem)
 C4_ALWAYS_INLINE C4_CONST bool mem_overlaps(void const* a, void const* b, size_t sza, size_t szb)
 {
     // thanks @timwynants
-    return (((const char*)b + szb) > a && b < ((const char*)a+sza));
+    return sza > 0 && szb > 0 && (((const char*)b + szb) > a && b < ((const char*)a+sza));
 }
 
 void mem_repeat(void* dest, void const* pattern, size_t pattern_size, size_t num_times);
-- 
2.43.0


From 0231f1306392b5a6e1f82913d5f2e613968df471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:56 +0000
Subject: [PATCH 36/48] fix: ipow() returned 1 (or overflowed) when the
 exponent was the smallest value of its type

---
 src/c4/memory_util.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/c4/memory_util.hpp b/src/c4/memory_util.hpp
index f0111c1..22c71e2 100644
--- a/src/c4/memory_util.hpp
+++ b/src/c4/memory_util.hpp
@@ -485,8 +485,7 @@ C4_CONSTEXPR14 C4_CONST auto ipow(B base, E exponent) noexcept -> typename std::
     }
     else
     {
-        exponent *= E(-1);
-        for(E e = 0; e < exponent; ++e)
+        for(E e = 0; e > exponent; --e)
             r /= base;
     }
     return r;
@@ -506,8 +505,7 @@ C4_CONSTEXPR14 C4_CONST auto ipow(E exponent) noexcept -> typename std::enable_i
     }
     else
     {
-        exponent *= E(-1);
-        for(E e = 0; e < exponent; ++e)
+        for(E e = 0; e > exponent; --e)
             r /= base;
     }
     return r;
@@ -528,8 +526,7 @@ C4_CONSTEXPR14 C4_CONST auto ipow(E exponent) noexcept -> typename std::enable_i
     }
     else
     {
-        exponent *= E(-1);
-        for(E e = 0; e < exponent; ++e)
+        for(E e = 0; e > exponent; --e)
             r /= bbase;
     }
     return r;
-- 
2.43.0


From 5f6fdb78192a06e7e205d7871e813fd586f906fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:56 +0000
Subject: [PATCH 37/48] fix: char_traits<wchar_t>::num_whitespace_chars counted
 bytes, not characters

---
 src/c4/char_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/char_traits.hpp b/src/c4/char_traits.hpp
index b080659..97a2514 100644
--- a/src/c4/char_traits.hpp
+++ b/src/c4/char_traits.hpp
@@ -27,7 +27,7 @@ template<>
 struct char_traits<wchar_t> : public std::char_traits<wchar_t>
 {
     constexpr static const wchar_t whitespace_chars[] = L" \f\n\r\t\v";
-    constexpr static const size_t num_whitespace_chars = sizeof(whitespace_chars) - 1;
+    constexpr static const size_t num_whitespace_chars = sizeof(whitespace_chars) / sizeof(wchar_t) - 1;
 };
 
 
-- 
2.43.0


From edd886047c0b76bdb38fa499bc6005e49ab48339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:12 +0000
Subject: [PATCH 38/48] fix: tight_pair of two equal types did not compile for
 non-class types, and its default constructor left the second value
 uninitialised

---
 src/c4/memory_util.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/c4/memory_util.hpp b/src/c4/memory_util.hpp
index 22c71e2..4b291c9 100644
--- a/src/c4/memory_util.hpp
+++ b/src/c4/memory_util.hpp
@@ -713,18 +713,19 @@ struct tight_pair<First, Second, tpc_both_empty> : public First, public Second
 };
 
 template<class First, class Second>
-struct tight_pair<First, Second, tpc_same> : public First
+struct tight_pair<First, Second, tpc_same>
 {
+    First m_first;
     Second m_second;
 
     using first_type = First;
     using second_type = Second;
 
-    tight_pair() : First() {}
-    tight_pair(First const& f, Second const& s) : First(f), m_second(s) {}
+    tight_pair() : m_first(), m_second() {}
+    tight_pair(First const& f, Second const& s) : m_first(f), m_second(s) {}
 
-    C4_ALWAYS_INLINE C4_CONSTEXPR14 First      & first ()       { return static_cast<First      &>(*this); }
-    C4_ALWAYS_INLINE C4_CONSTEXPR14 First const& first () const { return static_cast<First const&>(*this); }
+    C4_ALWAYS_INLINE C4_CONSTEXPR14 First      & first ()       { return m_first; }
+    C4_ALWAYS_INLINE C4_CONSTEXPR14 First const& first () const { return m_first; }
     C4_ALWAYS_INLINE C4_CONSTEXPR14 Second      & second()       { return m_second; }
     C4_ALWAYS_INLINE C4_CONSTEXPR14 Second const& second() const { return m_second; }
 };
-- 
2.43.0


From 221ba8fd7ff7528b0f666ca9bc16f3de2ab4b044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:37 +0000
Subject: [PATCH 39/48] fix: converting an empty inplace_function to another
 capacity gave a function that claimed to have a target

---
 src/c4/ext/sg14/inplace_function.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/c4/ext/sg14/inplace_function.h b/src/c4/ext/sg14/inplace_function.h
index 8d7a5b4..7160ac1 100644
--- a/src/c4/ext/sg14/inplace_function.h
+++ b/src/c4/ext/sg14/inplace_function.h
@@ -127,6 +127,13 @@ template<typename R, typename... Args> struct vtable
     ~vtable() = default;
 };
 
+// the same object for all capacities and alignments, so that empty
+// functions are still empty after conversion
+template<typename R, typename... Args> struct empty_vtable
+{
+    static const constexpr vtable<R, Args...> value{};
+};
+
 template<size_t DstCap, size_t DstAlign, size_t SrcCap, size_t SrcAlign>
 struct is_valid_inplace_dst : std::true_type
 {
@@ -156,7 +163,7 @@ template<
 >
 class inplace_function<R(Args...), Capacity, Alignment>
 {
-    static const constexpr inplace_function_detail::vtable<R, Args...> empty_vtable{};
+    static const constexpr inplace_function_detail::vtable<R, Args...> &empty_vtable = inplace_function_detail::empty_vtable<R, Args...>::value;
 public:
     using capacity = std::integral_constant<size_t, Capacity>;
     using alignment = std::integral_constant<size_t, Alignment>;
-- 
2.43.0


From 8fed032ff0a911be1f1cb236dc684af1e33271f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:37 +0000
Subject: [PATCH 40/48] fix: inplace_function destroyed a target that was never
 constructed when the copy or move in an assignment threw

---
 src/c4/ext/sg14/inplace_function.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/c4/ext/sg14/inplace_function.h b/src/c4/ext/sg14/inplace_function.h
index 7160ac1..3f8e034 100644
--- a/src/c4/ext/sg14/inplace_function.h
+++ b/src/c4/ext/sg14/inplace_function.h
@@ -246,11 +246,12 @@ public:
         {
             vtable_ptr_->destructor_ptr(std::addressof(storage_));
 
-            vtable_ptr_ = other.vtable_ptr_;
-            vtable_ptr_->copy_ptr(
+            vtable_ptr_ = std::addressof(empty_vtable); // in case of an exception
+            other.vtable_ptr_->copy_ptr(
                 std::addressof(storage_),
                 std::addressof(other.storage_)
             );
+            vtable_ptr_ = other.vtable_ptr_;
         }
         return *this;
     }
@@ -261,11 +262,12 @@ public:
         {
             vtable_ptr_->destructor_ptr(std::addressof(storage_));
 
-            vtable_ptr_ = other.vtable_ptr_;
-            vtable_ptr_->move_ptr(
+            vtable_ptr_ = std::addressof(empty_vtable); // in case of an exception
+            other.vtable_ptr_->move_ptr(
                 std::addressof(storage_),
                 std::addressof(other.storage_)
             );
+            vtable_ptr_ = other.vtable_ptr_;
         }
         return *this;
     }
-- 
2.43.0


From bf7e059bfba80dbfeeef71c2c86532f23226145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:52 +0000
Subject: [PATCH 41/48] fix: inplace_function did not compile with
 rvalue-reference or move-only arguments, and terminated when a target
 declared noexcept as an rvalue or for lvalue arguments threw

---
 src/c4/ext/sg14/inplace_function.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/c4/ext/sg14/inplace_function.h b/src/c4/ext/sg14/inplace_function.h
index 3f8e034..0b3bb97 100644
--- a/src/c4/ext/sg14/inplace_function.h
+++ b/src/c4/ext/sg14/inplace_function.h
@@ -98,8 +98,7 @@ template<typename R, typename... Args> struct vtable
     {}
 
     template<typename C> explicit constexpr vtable(wrapper<C>) noexcept :
-        invoke_ptr{ [](storage_ptr_t storage_ptr, Args&&... args)
-            noexcept(noexcept(std::declval<C>()(args...))) -> R
+        invoke_ptr{ [](storage_ptr_t storage_ptr, Args&&... args) -> R
             { return (*static_cast<C*>(storage_ptr))(
                 std::forward<Args>(args)...
             ); }
-- 
2.43.0


From 51500ef73d4101cd694ebe275d378544109db565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:32 +0000
Subject: [PATCH 42/48] fix: pcg shifts by a negative amount when the top bit
 of its state is set

---
 src/c4/ext/rng/rng.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/c4/ext/rng/rng.hpp b/src/c4/ext/rng/rng.hpp
index ceaf55b..d29dc49 100644
--- a/src/c4/ext/rng/rng.hpp
+++ b/src/c4/ext/rng/rng.hpp
@@ -166,9 +166,8 @@ public:
         uint64_t oldstate = m_state;
         m_state = oldstate * 6364136223846793005ULL + m_inc;
         uint32_t xorshifted = uint32_t(((oldstate >> 18u) ^ oldstate) >> 27u);
-        //int rot = oldstate >> 59u; // the original. error?
-        int64_t rot = (int64_t)oldstate >> 59u; // error?
-        return (xorshifted >> rot) | (xorshifted << ((uint64_t)(-rot) & 31));
+        uint32_t rot = uint32_t(oldstate >> 59u);
+        return (xorshifted >> rot) | (xorshifted << ((0u - rot) & 31u));
     }
 
     void discard(unsigned long long n)
-- 
2.43.0


From dd5f98fffff45cf2632908ec8dc9b3d18d4d46d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:27 +0000
Subject: [PATCH 43/48] fix: substr::compare(char) took the length as an int:
 views of more than 2^31 characters compared as shorter than or equal to their
 first character

---
 src/c4/substr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 1c4ed5b..20406ab 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -229,7 +229,7 @@ public:
     {
         C4_XASSERT((str != nullptr) || len == 0);
         if(C4_LIKELY(str != nullptr && len > 0))
-            return (*str != c) ? *str - c : (static_cast<int>(len) - 1);
+            return (*str != c) ? *str - c : (len > 1 ? 1 : 0);
         else
             return -1;
     }
-- 
2.43.0


From fa635490804ea7301ef350651fd932b9cf37fb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:27 +0000
Subject: [PATCH 44/48] fix: C4_FOR_EACH_SEP() did not accept a comma
 (C4_COMMA) as the separator, as documented

---
 src/c4/preprocessor.hpp | 68 +++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 33 deletions(-)

diff --git a/src/c4/preprocessor.hpp b/src/c4/preprocessor.hpp
index a554825..f1fb7a0 100644
--- a/src/c4/preprocessor.hpp
+++ b/src/c4/preprocessor.hpp
@@ -72,42 +72,44 @@ C4_FOR_EACH(PRN_STRUCT_OFFSETS, a, b, c);
  * @see C4_FOR_EACH
  * @see C4_COMMA
  */
-#define C4_FOR_EACH_SEP(what, sep, ...) _C4_FOR_EACH_(_C4_FOR_EACH_NARG(__VA_ARGS__), what, sep, __VA_ARGS__)
+#define C4_FOR_EACH_SEP(what, sep, ...) _C4_FOR_EACH_(_C4_FOR_EACH_NARG(__VA_ARGS__), what, (sep), __VA_ARGS__)
 
 /// @cond dev
 
-#define _C4_FOR_EACH_01(what, sep, x) what(x) sep
-#define _C4_FOR_EACH_02(what, sep, x, ...) what(x) sep _C4_FOR_EACH_01(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_03(what, sep, x, ...) what(x) sep _C4_FOR_EACH_02(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_04(what, sep, x, ...) what(x) sep _C4_FOR_EACH_03(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_05(what, sep, x, ...) what(x) sep _C4_FOR_EACH_04(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_06(what, sep, x, ...) what(x) sep _C4_FOR_EACH_05(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_07(what, sep, x, ...) what(x) sep _C4_FOR_EACH_06(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_08(what, sep, x, ...) what(x) sep _C4_FOR_EACH_07(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_09(what, sep, x, ...) what(x) sep _C4_FOR_EACH_08(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_10(what, sep, x, ...) what(x) sep _C4_FOR_EACH_09(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_11(what, sep, x, ...) what(x) sep _C4_FOR_EACH_10(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_12(what, sep, x, ...) what(x) sep _C4_FOR_EACH_11(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_13(what, sep, x, ...) what(x) sep _C4_FOR_EACH_12(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_14(what, sep, x, ...) what(x) sep _C4_FOR_EACH_13(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_15(what, sep, x, ...) what(x) sep _C4_FOR_EACH_14(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_16(what, sep, x, ...) what(x) sep _C4_FOR_EACH_15(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_17(what, sep, x, ...) what(x) sep _C4_FOR_EACH_16(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_18(what, sep, x, ...) what(x) sep _C4_FOR_EACH_17(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_19(what, sep, x, ...) what(x) sep _C4_FOR_EACH_18(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_20(what, sep, x, ...) what(x) sep _C4_FOR_EACH_19(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_21(what, sep, x, ...) what(x) sep _C4_FOR_EACH_20(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_22(what, sep, x, ...) what(x) sep _C4_FOR_EACH_21(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_23(what, sep, x, ...) what(x) sep _C4_FOR_EACH_22(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_24(what, sep, x, ...) what(x) sep _C4_FOR_EACH_23(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_25(what, sep, x, ...) what(x) sep _C4_FOR_EACH_24(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_26(what, sep, x, ...) what(x) sep _C4_FOR_EACH_25(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_27(what, sep, x, ...) what(x) sep _C4_FOR_EACH_26(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_28(what, sep, x, ...) what(x) sep _C4_FOR_EACH_27(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_29(what, sep, x, ...) what(x) sep _C4_FOR_EACH_28(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_30(what, sep, x, ...) what(x) sep _C4_FOR_EACH_29(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_31(what, sep, x, ...) what(x) sep _C4_FOR_EACH_30(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_32(what, sep, x, ...) what(x) sep _C4_FOR_EACH_31(what, sep, __VA_ARGS__)
+/* the separator is passed in parentheses, so that it may be (or expand to) a comma */
+#define _C4_FOR_EACH_SEPARATOR(...) __VA_ARGS__
+#define _C4_FOR_EACH_01(what, sep, x) what(x) _C4_FOR_EACH_SEPARATOR sep
+#define _C4_FOR_EACH_02(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_01(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_03(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_02(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_04(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_03(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_05(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_04(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_06(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_05(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_07(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_06(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_08(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_07(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_09(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_08(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_10(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_09(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_11(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_10(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_12(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_11(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_13(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_12(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_14(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_13(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_15(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_14(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_16(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_15(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_17(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_16(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_18(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_17(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_19(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_18(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_20(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_19(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_21(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_20(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_22(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_21(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_23(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_22(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_24(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_23(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_25(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_24(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_26(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_25(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_27(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_26(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_28(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_27(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_29(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_28(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_30(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_29(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_31(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_30(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_32(what, sep, x, ...) what(x) _C4_FOR_EACH_SEPARATOR sep _C4_FOR_EACH_31(what, sep, __VA_ARGS__)
 #define _C4_FOR_EACH_NARG(...) _C4_FOR_EACH_NARG_(__VA_ARGS__, _C4_FOR_EACH_RSEQ_N())
 #define _C4_FOR_EACH_NARG_(...) _C4_FOR_EACH_ARG_N(__VA_ARGS__)
 #define _C4_FOR_EACH_ARG_N(_01, _02, _03, _04, _05, _06, _07, _08, _09, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, N, ...) N
-- 
2.43.0


From 489718033fb5f7a91d460ab19e16103957dbc30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:28 +0000
Subject: [PATCH 45/48] fix: C4_DEFINE_HAS_TYPEDEF() named every trait
 has_stype

---
 src/c4/types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/types.hpp b/src/c4/types.hpp
index 5c87373..440555f 100644
--- a/src/c4/types.hpp
+++ b/src/c4/types.hpp
@@ -279,7 +279,7 @@ int main()
 /** define a traits class reporting whether a type provides a member typedef */
 #define C4_DEFINE_HAS_TYPEDEF(member_typedef)               \
 template<typename T>                                        \
-struct has_##stype                                          \
+struct has_##member_typedef                                 \
 {                                                           \
 private:                                                    \
                                                             \
-- 
2.43.0


From 8f78d127cf4b61a9996e7cd686fe324a563b5791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:28 +0000
Subject: [PATCH 46/48] fix: padded types were too small when the padding
 started inside the tail padding of the type, or the type was empty

---
 src/c4/types.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/c4/types.hpp b/src/c4/types.hpp
index 440555f..3e4c583 100644
--- a/src/c4/types.hpp
+++ b/src/c4/types.hpp
@@ -151,6 +151,17 @@ C4_ALWAYS_INLINE constexpr size_t mult_remainder(size_t size, size_t multipleof)
 
 /* force the following class to be tightly packed. */
 #pragma pack(push, 1)
+/** @cond dev */
+namespace detail {
+/** members of a derived class may start inside the tail padding of the
+ * base class (or at its beginning, when it is empty) */
+template<class T>
+struct pad_probe : public T { char probe[sizeof(T) + 1]; };
+/** where members of a class derived from T start */
+template<class T>
+struct pad_start { enum : size_t { value = sizeof(pad_probe<T>) - (sizeof(T) + 1) }; };
+} // namespace detail
+/** @endcond */
 /** pad a class with more bytes at the end.
  * @see http://stackoverflow.com/questions/21092415/force-c-structure-to-pack-tightly */
 template<class T, size_t BytesToPadAtEnd>
@@ -160,7 +171,7 @@ struct Padded : public T
     using T::operator=;
     Padded(T const& val) : T(val) {}
     Padded(T && val) : T(val) {}
-    char ___c4padspace___[BytesToPadAtEnd];
+    char ___c4padspace___[sizeof(T) - detail::pad_start<T>::value + BytesToPadAtEnd];
 };
 #pragma pack(pop)
 /** When the padding argument is 0, we cannot declare the char[] array. */
-- 
2.43.0


From 4df99b09b88d8ce71a1938bd23620177d9a2d183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:28 +0000
Subject: [PATCH 47/48] fix: padded types copied the value they were to be
 moved from

---
 src/c4/types.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/types.hpp b/src/c4/types.hpp
index 3e4c583..a6d591e 100644
--- a/src/c4/types.hpp
+++ b/src/c4/types.hpp
@@ -170,7 +170,7 @@ struct Padded : public T
     using T::T;
     using T::operator=;
     Padded(T const& val) : T(val) {}
-    Padded(T && val) : T(val) {}
+    Padded(T && val) : T(std::move(val)) {}
     char ___c4padspace___[sizeof(T) - detail::pad_start<T>::value + BytesToPadAtEnd];
 };
 #pragma pack(pop)
@@ -181,7 +181,7 @@ struct Padded<T, 0> : public T
     using T::T;
     using T::operator=;
     Padded(T const& val) : T(val) {}
-    Padded(T && val) : T(val) {}
+    Padded(T && val) : T(std::move(val)) {}
 };
 
 /** make T have a size which is at least Min bytes */
-- 
2.43.0


From 2ad235a9e0799947bd8c4d8359f2bcc6600aeb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:49 +0000
Subject: [PATCH 48/48] fix: from_chars_first() of a raw-wrapped variable
 returned 1 instead of the number of characters read, and 0 instead of npos on
 failure

---
 src/c4/format.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/c4/format.hpp b/src/c4/format.hpp
index e47cbd3..80370ff 100644
--- a/src/c4/format.hpp
+++ b/src/c4/format.hpp
@@ -478,13 +478,17 @@ inline bool from_chars(csubstr buf, fmt::raw_wrapper r)
  * @ingroup doc_from_chars_first */
 inline size_t from_chars_first(csubstr buf, fmt::raw_wrapper *r)
 {
-    return from_chars(buf, r);
+    if(!from_chars(buf, r))
+        return csubstr::npos;
+    // the variable was read from the first suitably aligned position
+    const size_t misaligned = reinterpret_cast<uintptr_t>(buf.str) % r->alignment;
+    return (misaligned ? r->alignment - misaligned : 0) + r->len;
 }
 /** read a variable in raw binary format, using memcpy
  * @ingroup doc_from_chars_first */
 inline size_t from_chars_first(csubstr buf, fmt::raw_wrapper r)
 {
-    return from_chars(buf, &r);
+    return from_chars_first(buf, &r);
 }
 
 
-- 
2.43.0

