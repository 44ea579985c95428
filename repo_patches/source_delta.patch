From ee12be6ec751cde14d24e662de877a5e9eeea790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:40 +0000
Subject: [PATCH 01/61] fix: overflows<signed>() read past the end of the
 string "-"

---
 src/c4/charconv.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 41a513b..5c191f6 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1721,6 +1721,8 @@ auto overflows(csubstr str)
         return false;
     if(str.str[0] == '-')
     {
+        if(C4_UNLIKELY(str.len == 1))
+            return false;
         if(str.str[1] == '0')
         {
             if(str.len == 2)
-- 
2.43.0


From cdb383a34a7c688477f3a27f07a4aca5827e3ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:04 +0000
Subject: [PATCH 02/61] fix: parsing hexadecimal reals gave wrong values

The digits a-f counted as 0-5, the exponent was applied in base 16
instead of 2, and the result was accumulated on top of the previous value
of the destination. Malformed strings (0x, 0x-1, 0x1p++1) triggered an
assertion instead of being rejected.
---
 src/c4/charconv.hpp | 93 +++++++++++++++++++++------------------------
 1 file changed, 44 insertions(+), 49 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 5c191f6..4a7a53d 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -9,6 +9,7 @@
 #include <inttypes.h>
 #include <type_traits>
 #include <climits>
+#include <cmath>
 #include <limits>
 #include <utility>
 
@@ -1966,77 +1967,71 @@ C4_ALWAYS_INLINE size_t rtoa(substr buf, T v, int precision=-1, RealFormat_e for
 template<class T>
 C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
 {
-    C4_ASSERT(s.len > 0);
-    C4_ASSERT(s.str[0] != '-');
-    C4_ASSERT(s.str[0] != '+');
-    C4_ASSERT(!s.begins_with("0x"));
-    C4_ASSERT(!s.begins_with("0X"));
+    // accumulate the significand in an integer, and track its binary
+    // exponent. When the integer is full, the remaining digits can
+    // only influence the rounding, so they are collected in the
+    // lowest bit.
+    uint64_t mantissa = 0;
+    int exponent = 0;
+    bool has_digits = false;
+    bool after_dot = false;
     size_t pos = 0;
-    // integer part
     for( ; pos < s.len; ++pos)
     {
         const char c = s.str[pos];
+        unsigned digit;
         if(c >= '0' && c <= '9')
-            *val = *val * T(16) + T(c - '0');
+            digit = static_cast<unsigned>(c - '0');
         else if(c >= 'a' && c <= 'f')
-            *val = *val * T(16) + T(c - 'a');
+            digit = 10u + static_cast<unsigned>(c - 'a');
         else if(c >= 'A' && c <= 'F')
-            *val = *val * T(16) + T(c - 'A');
-        else if(c == '.')
+            digit = 10u + static_cast<unsigned>(c - 'A');
+        else if(c == '.' && !after_dot)
         {
-            ++pos;
-            break; // follow on to mantissa
+            after_dot = true;
+            continue;
         }
-        else if(c == 'p' || c == 'P')
+        else
+            break;
+        has_digits = true;
+        if(mantissa < (uint64_t(1) << 60))
         {
-            ++pos;
-            goto power; // no mantissa given, jump to power
+            mantissa = (mantissa << 4) | digit;
+            if(after_dot)
+                exponent -= 4;
         }
         else
         {
-            return false;
+            mantissa |= static_cast<uint64_t>(digit != 0);
+            if(!after_dot)
+                exponent += 4;
         }
     }
-    // mantissa
+    if(C4_UNLIKELY(!has_digits))
+        return false;
+    if(pos < s.len)
     {
-        // 0.0625 == 1/16 == value of first digit after the comma
-        for(T digit = T(0.0625); pos < s.len; ++pos, digit /= T(16))
+        if(C4_UNLIKELY(s.str[pos] != 'p' && s.str[pos] != 'P'))
+            return false;
+        ++pos;
+        const bool negexp = (pos < s.len && s.str[pos] == '-');
+        if(negexp || (pos < s.len && s.str[pos] == '+'))
+            ++pos;
+        if(C4_UNLIKELY(pos == s.len))
+            return false;
+        int powval = 0;
+        for( ; pos < s.len; ++pos)
         {
             const char c = s.str[pos];
-            if(c >= '0' && c <= '9')
-                *val += digit * T(c - '0');
-            else if(c >= 'a' && c <= 'f')
-                *val += digit * T(c - 'a');
-            else if(c >= 'A' && c <= 'F')
-                *val += digit * T(c - 'A');
-            else if(c == 'p' || c == 'P')
-            {
-                ++pos;
-                goto power; // mantissa finished, jump to power
-            }
-            else
-            {
+            if(C4_UNLIKELY(c < '0' || c > '9'))
                 return false;
-            }
+            if(powval < 100000000) // far outside of the range of any real type
+                powval = powval * 10 + (c - '0');
         }
+        exponent += negexp ? -powval : powval;
     }
+    *val = std::ldexp(static_cast<T>(mantissa), exponent);
     return true;
-power:
-    if(C4_LIKELY(pos < s.len))
-    {
-        if(s.str[pos] == '+') // atoi() cannot handle a leading '+'
-            ++pos;
-        if(C4_LIKELY(pos < s.len))
-        {
-            int16_t powval = {};
-            if(C4_LIKELY(atoi(s.sub(pos), &powval)))
-            {
-                *val *= ipow<T, int16_t, 16>(powval);
-                return true;
-            }
-        }
-    }
-    return false;
 }
 #endif
 
-- 
2.43.0


From ecbe904c9e51e10061211a6b7c83f4796166bc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:04 +0000
Subject: [PATCH 03/61] fix: writing negative or non-finite reals in
 hexadecimal format

The prefix was written before the sign or the inf/nan (0x-1.8p+0, 0xinf),
which cannot be read back; and with a buffer smaller than the prefix,
std::to_chars() was given an inverted range.
---
 src/c4/charconv.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 4a7a53d..6cdbdb4 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1926,14 +1926,26 @@ C4_ALWAYS_INLINE size_t rtoa(substr buf, T v, int precision=-1, RealFormat_e for
 {
     std::to_chars_result result;
     size_t pos = 0;
-    if(formatting == FTOA_HEXA)
+    if(formatting == FTOA_HEXA && std::isfinite(v))
     {
-        if(buf.len > size_t(2))
+        // the sign must come before the prefix
+        const bool isneg = std::signbit(v);
+        const size_t prefix_len = size_t(2) + size_t(isneg);
+        if(buf.len > prefix_len)
         {
-            buf.str[0] = '0';
-            buf.str[1] = 'x';
+            if(isneg)
+            {
+                buf.str[pos++] = '-';
+                v = -v;
+            }
+            buf.str[pos++] = '0';
+            buf.str[pos++] = 'x';
+        }
+        else
+        {
+            // not even the prefix fits
+            return static_cast<size_t>(std::numeric_limits<T>::max_digits10);
         }
-        pos += size_t(2);
     }
     if(precision == -1)
         result = std::to_chars(buf.str + pos, buf.str + buf.len, v, (std::chars_format)formatting);
-- 
2.43.0


From 38dab3b9dced1fed58d64a6f074765dfdb7dad3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:34 +0000
Subject: [PATCH 04/61] fix: atof()/atod() accepted trailing characters after
 the number

---
 src/c4/charconv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 6cdbdb4..612d134 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -2129,7 +2129,7 @@ C4_ALWAYS_INLINE bool atof(csubstr str, float * C4_RESTRICT v) noexcept
     {
         fast_float::from_chars_result result;
         result = fast_float::from_chars(str.str, str.str + str.len, *v);
-        return result.ec == std::errc();
+        return result.ec == std::errc() && result.ptr == str.str + str.len;
     }
     else if(detail::scan_rhex(rem.sub(2), v))
     {
@@ -2190,7 +2190,7 @@ C4_ALWAYS_INLINE bool atod(csubstr str, double * C4_RESTRICT v) noexcept
     {
         fast_float::from_chars_result result;
         result = fast_float::from_chars(str.str, str.str + str.len, *v);
-        return result.ec == std::errc();
+        return result.ec == std::errc() && result.ptr == str.str + str.len;
     }
     else if(detail::scan_rhex(rem.sub(2), v))
     {
-- 
2.43.0


From 9c5c3823d16984fd1c5b396f5fad1188b2ba1c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:29 +0000
Subject: [PATCH 05/61] fix: from_chars_first(raw) returned a bool instead of
 the number of characters read

---
 src/c4/format.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/c4/format.hpp b/src/c4/format.hpp
index 519c2a4..33784aa 100644
--- a/src/c4/format.hpp
+++ b/src/c4/format.hpp
@@ -478,13 +478,17 @@ inline bool from_chars(csubstr buf, fmt::raw_wrapper r)
  * @ingroup doc_from_chars_first */
 inline size_t from_chars_first(csubstr buf, fmt::raw_wrapper *r)
 {
-    return from_chars(buf, r);
+    if(C4_UNLIKELY(!from_chars(buf, r)))
+        return csubstr::npos;
+    // the data is at the first aligned position
+    const size_t misalignment = reinterpret_cast<uintptr_t>(buf.str) & (r->alignment - 1u);
+    return (misalignment ? r->alignment - misalignment : 0u) + r->len;
 }
 /** read a variable in raw binary format, using memcpy
  * @ingroup doc_from_chars_first */
 inline size_t from_chars_first(csubstr buf, fmt::raw_wrapper r)
 {
-    return from_chars(buf, &r);
+    return from_chars_first(buf, &r);
 }
 
 
-- 
2.43.0


From 9c3ae2477093e8b4b6a30a8dedee1093df1f6279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:17 +0000
Subject: [PATCH 06/61] fix: from_chars_first() for bool, pointers and strings

bool parsed the whole string instead of its first token, and returned the
token's length instead of the number of characters read; pointers returned
1 for any result, including failure; substr destinations kept their previous
length; csubstr destinations could not be read from a csubstr.
---
 src/c4/charconv.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 612d134..09bb2e6 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -2411,7 +2411,7 @@ C4_ALWAYS_INLINE size_t from_chars_first(csubstr buf,   double *C4_RESTRICT v) n
 template <class T> _C4_IF_NOT_FIXED_LENGTH_I(T, size_t)::type from_chars_first(csubstr buf, T *C4_RESTRICT v) noexcept { return atoi_first(buf, v); }
 template <class T> _C4_IF_NOT_FIXED_LENGTH_U(T, size_t)::type from_chars_first(csubstr buf, T *C4_RESTRICT v) noexcept { return atou_first(buf, v); }
 template <class T>
-C4_ALWAYS_INLINE size_t from_chars_first(csubstr buf, T **v) noexcept { intptr_t tmp; bool ret = from_chars_first(buf, &tmp); if(ret) { *v = (T*)tmp; } return ret; }
+C4_ALWAYS_INLINE size_t from_chars_first(csubstr buf, T **v) noexcept { intptr_t tmp; size_t ret = from_chars_first(buf, &tmp); if(ret != csubstr::npos) { *v = (T*)tmp; } return ret; }
 
 /** @} */
 
@@ -2500,9 +2500,9 @@ inline bool from_chars(csubstr buf, bool * C4_RESTRICT v) noexcept
 inline size_t from_chars_first(csubstr buf, bool * C4_RESTRICT v) noexcept
 {
     csubstr trimmed = buf.first_non_empty_span();
-    if(trimmed.len == 0 || !from_chars(buf, v))
+    if(trimmed.len == 0 || !from_chars(trimmed, v))
         return csubstr::npos;
-    return trimmed.len;
+    return static_cast<size_t>(trimmed.end() - buf.begin());
 }
 
 
@@ -2571,7 +2571,7 @@ inline bool from_chars(csubstr buf, csubstr *C4_RESTRICT v) noexcept
 }
 
 /** @ingroup doc_from_chars_first */
-inline size_t from_chars_first(substr buf, csubstr * C4_RESTRICT v) noexcept
+inline size_t from_chars_first(csubstr buf, csubstr * C4_RESTRICT v) noexcept
 {
     csubstr trimmed = buf.first_non_empty_span();
     if(trimmed.len == 0)
@@ -2642,6 +2642,7 @@ inline size_t from_chars_first(csubstr buf, substr * C4_RESTRICT v) noexcept
     }
     if(C4_UNLIKELY(trimmed.len > v->len))
         return csubstr::npos;
+    v->len = trimmed.len;
     return static_cast<size_t>(trimmed.end() - buf.begin());
 }
 
-- 
2.43.0


From 6397afeb0194e3ae2046da18a031f4846fd03d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:44 +0000
Subject: [PATCH 07/61] fix: reading the first number of a string which has a
 leading '+'

The number span includes the sign, but the conversion functions do not
accept it: atoi_first() triggered an assertion and the others failed.
---
 src/c4/charconv.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 09bb2e6..2e9c2bb 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1512,6 +1512,8 @@ C4_ALWAYS_INLINE size_t atoi_first(csubstr str, T * C4_RESTRICT v)
     csubstr trimmed = str.first_int_span();
     if(trimmed.len == 0)
         return csubstr::npos;
+    if(trimmed.str[0] == '+') // atoi() does not accept a leading '+'
+        trimmed = trimmed.sub(1);
     if(atoi(trimmed, v))
         return static_cast<size_t>(trimmed.end() - str.begin());
     return csubstr::npos;
@@ -1593,6 +1595,8 @@ C4_ALWAYS_INLINE size_t atou_first(csubstr str, T *v)
     csubstr trimmed = str.first_uint_span();
     if(trimmed.len == 0)
         return csubstr::npos;
+    if(trimmed.str[0] == '+') // atou() does not accept a leading '+'
+        trimmed = trimmed.sub(1);
     if(atou(trimmed, v))
         return static_cast<size_t>(trimmed.end() - str.begin());
     return csubstr::npos;
@@ -2160,6 +2164,8 @@ inline size_t atof_first(csubstr str, float * C4_RESTRICT v) noexcept
     csubstr trimmed = str.first_real_span();
     if(trimmed.len == 0)
         return csubstr::npos;
+    if(trimmed.str[0] == '+') // atof() does not accept a leading '+'
+        trimmed = trimmed.sub(1);
     if(atof(trimmed, v))
         return static_cast<size_t>(trimmed.end() - str.begin());
     return csubstr::npos;
@@ -2221,6 +2227,8 @@ inline size_t atod_first(csubstr str, double * C4_RESTRICT v) noexcept
     csubstr trimmed = str.first_real_span();
     if(trimmed.len == 0)
         return csubstr::npos;
+    if(trimmed.str[0] == '+') // atod() does not accept a leading '+'
+        trimmed = trimmed.sub(1);
     if(atod(trimmed, v))
         return static_cast<size_t>(trimmed.end() - str.begin());
     return csubstr::npos;
-- 
2.43.0


From 3220cb9fe82337c8b53fbe894c9d78cf548303a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:02 +0000
Subject: [PATCH 08/61] fix: aligned formatting wrote outside of buffers
 smaller than the width

fmt::left()/fmt::right() filled the padding past the end of the buffer
(or asserted) when the value fit in the buffer but the width did not.
Also, fmt::right() truncated reals in C++11/14 when the width was exactly
the size of the buffer.
---
 src/c4/format.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/c4/format.hpp b/src/c4/format.hpp
index 33784aa..19e20d4 100644
--- a/src/c4/format.hpp
+++ b/src/c4/format.hpp
@@ -551,6 +551,8 @@ size_t to_chars(substr buf, fmt::left_<T> const& C4_RESTRICT align)
     size_t ret = to_chars(buf, align.val);
     if(ret >= buf.len || ret >= align.width)
         return ret > align.width ? ret : align.width;
+    if(align.width > buf.len) // the padding does not fit
+        return align.width;
     buf.first(align.width).sub(ret).fill(align.pad);
     to_chars(buf, align.val);
     return align.width;
@@ -563,9 +565,13 @@ size_t to_chars(substr buf, fmt::right_<T> const& C4_RESTRICT align)
     size_t ret = to_chars(buf, align.val);
     if(ret >= buf.len || ret >= align.width)
         return ret > align.width ? ret : align.width;
+    if(align.width > buf.len) // the padding does not fit
+        return align.width;
     size_t rem = static_cast<size_t>(align.width - ret);
+    // move the value instead of writing it again: it may need
+    // more space for writing than it occupies when written
+    memmove(buf.str + rem, buf.str, ret);
     buf.first(rem).fill(align.pad);
-    to_chars(buf.sub(rem), align.val);
     return align.width;
 }
 
-- 
2.43.0


From 6ef7f91d6684a7b5db01c2f817d7932f9a09e8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:18 +0000
Subject: [PATCH 09/61] fix: resuming an interrupted dump lost, repeated or
 reordered arguments

After an argument failed for lack of space in the buffer,
cat_dump_resume() kept dumping the arguments after it (which were then
dumped again on resume), and catsep_dump_resume() and
format_dump_resume() took string arguments as dumped although they were
not, so that the failed argument was lost on resume. Also,
format_dump_resume() wrote garbage when resuming a complete dump.
---
 src/c4/dump.hpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/c4/dump.hpp b/src/c4/dump.hpp
index c65623f..18210e4 100644
--- a/src/c4/dump.hpp
+++ b/src/c4/dump.hpp
@@ -142,8 +142,10 @@ DumpResults cat_dump_resume(size_t currarg, DumpResults results, substr buf, Arg
 {
     if(C4_LIKELY(results.write_arg(currarg)))
     {
+        if(C4_UNLIKELY(currarg != results.lastok + 1))
+            buf.len = 0; // a previous argument failed: do not dump, only get the size
         size_t sz = dump<dumpfn>(buf, a);  // yield to the specialized function
-        if(currarg == results.lastok + 1 && sz <= buf.len)
+        if(C4_LIKELY(buf.len > 0 && sz <= buf.len))
             results.lastok = currarg;
         results.bufsize = sz > results.bufsize ? sz : results.bufsize;
     }
@@ -156,8 +158,10 @@ DumpResults cat_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults resul
 {
     if(C4_LIKELY(results.write_arg(currarg)))
     {
+        if(C4_UNLIKELY(currarg != results.lastok + 1))
+            buf.len = 0; // a previous argument failed: do not dump, only get the size
         size_t sz = dump(dumpfn, buf, a);  // yield to the specialized function
-        if(currarg == results.lastok + 1 && sz <= buf.len)
+        if(C4_LIKELY(buf.len > 0 && sz <= buf.len))
             results.lastok = currarg;
         results.bufsize = sz > results.bufsize ? sz : results.bufsize;
     }
@@ -280,7 +284,7 @@ void catsep_dump_resume_(size_t currarg, DumpResults *C4_RESTRICT results, subst
     {
         size_t sz = dump<dumpfn>(*buf, a);
         results->bufsize = sz > results->bufsize ? sz : results->bufsize;
-        if(C4_LIKELY(sz <= buf->len))
+        if(C4_LIKELY(buf->len > 0 && sz <= buf->len))
             results->lastok = currarg;
         else
             buf->len = 0;
@@ -294,7 +298,7 @@ void catsep_dump_resume_(size_t currarg, DumperFn &&dumpfn, DumpResults *C4_REST
     {
         size_t sz = dump(dumpfn, *buf, a);
         results->bufsize = sz > results->bufsize ? sz : results->bufsize;
-        if(C4_LIKELY(sz <= buf->len))
+        if(C4_LIKELY(buf->len > 0 && sz <= buf->len))
             results->lastok = currarg;
         else
             buf->len = 0;
@@ -453,7 +457,7 @@ DumpResults format_dump_resume(size_t currarg, DumpResults results, substr buf,
 {
     // we can dump without using buf
     // but we'll only dump if the buffer is ok
-    if(C4_LIKELY(buf.len > 0))
+    if(C4_LIKELY(buf.len > 0 && results.write_arg(currarg)))
     {
         dumpfn(fmt);
         results.lastok = currarg;
@@ -466,7 +470,7 @@ DumpResults format_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults re
 {
     // we can dump without using buf
     // but we'll only dump if the buffer is ok
-    if(C4_LIKELY(buf.len > 0))
+    if(C4_LIKELY(buf.len > 0 && results.write_arg(currarg)))
     {
         dumpfn(fmt);
         results.lastok = currarg;
@@ -499,12 +503,16 @@ DumpResults format_dump_resume(size_t currarg, DumpResults results, substr buf,
             dumpfn(fmt.first(pos));
         }
     }
+    else if(C4_UNLIKELY(pos == csubstr::npos)) // the dump was already complete
+    {
+        return results;
+    }
     fmt = fmt.sub(pos + 2);
     if(C4_LIKELY(results.write_arg(currarg + 1)))
     {
         pos = dump<dumpfn>(buf, a);
         results.bufsize = pos > results.bufsize ? pos : results.bufsize;
-        if(C4_LIKELY(pos <= buf.len))
+        if(C4_LIKELY(buf.len > 0 && pos <= buf.len))
             results.lastok = currarg + 1;
         else
             buf.len = 0;
@@ -539,12 +547,16 @@ DumpResults format_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults re
             dumpfn(fmt.first(pos));
         }
     }
+    else if(C4_UNLIKELY(pos == csubstr::npos)) // the dump was already complete
+    {
+        return results;
+    }
     fmt = fmt.sub(pos + 2);
     if(C4_LIKELY(results.write_arg(currarg + 1)))
     {
         pos = dump(dumpfn, buf, a);
         results.bufsize = pos > results.bufsize ? pos : results.bufsize;
-        if(C4_LIKELY(pos <= buf.len))
+        if(C4_LIKELY(buf.len > 0 && pos <= buf.len))
             results.lastok = currarg + 1;
         else
             buf.len = 0;
-- 
2.43.0


From 085400083e35d018b12f7c1696fc1cd01a332acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:53 +0000
Subject: [PATCH 10/61] fix: left-aligned reals had a null character in the
 padding in C++11/14

The value was written again after the padding; when reals are written
with snprintf() this places a terminating null after the value.
---
 src/c4/format.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/c4/format.hpp b/src/c4/format.hpp
index 19e20d4..a758db7 100644
--- a/src/c4/format.hpp
+++ b/src/c4/format.hpp
@@ -554,7 +554,6 @@ size_t to_chars(substr buf, fmt::left_<T> const& C4_RESTRICT align)
     if(align.width > buf.len) // the padding does not fit
         return align.width;
     buf.first(align.width).sub(ret).fill(align.pad);
-    to_chars(buf, align.val);
     return align.width;
 }
 
-- 
2.43.0


From 9ef43cd85220d6cfa0be7369eb9bccc8bbbb0393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:02 +0000
Subject: [PATCH 11/61] fix: substr::overlaps() was true for empty views inside
 the string

---
 src/c4/substr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 7a1e4fc..9a09830 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -313,7 +313,7 @@ public:
     C4_ALWAYS_INLINE C4_PURE bool overlaps(ro_substr const that) const noexcept
     {
         // thanks @timwynants
-        return that.str+that.len > str && that.str < str+len;
+        return len > 0 && that.len > 0 && that.str+that.len > str && that.str < str+len;
     }
 
 public:
-- 
2.43.0


From dcbf2db93dc8af447dc5348a99be486a7e9bf438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:02 +0000
Subject: [PATCH 12/61] fix: substr::replace_all() with pos==npos accessed
 memory outside the strings

---
 src/c4/substr.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 9a09830..66c5bc4 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -2128,6 +2128,8 @@ public:
         C4_ASSERT( ! pattern.overlaps(dst));
         C4_ASSERT( ! repl   .overlaps(dst));
         C4_ASSERT((pos >= 0 && pos <= len) || pos == npos);
+        if(pos == npos)
+            pos = len; // nothing to replace: copy the full string
         C4_SUPPRESS_WARNING_GCC_PUSH
         C4_SUPPRESS_WARNING_GCC("-Warray-bounds")  // gcc11 has a false positive here
         #if (!defined(__clang__)) && (defined(__GNUC__) && (__GNUC__ >= 7))
-- 
2.43.0


From d5006f27dd9eeecdb36f4084f4c3deeec271d69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:37 +0000
Subject: [PATCH 13/61] fix: substr::offs(), left_of() and right_of() let out
 of range requests through their checks

---
 src/c4/substr.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 66c5bc4..da602a4 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -368,7 +368,7 @@ public:
     {
         C4_ASSERT(left  >= 0 && left  <= len);
         C4_ASSERT(right >= 0 && right <= len);
-        C4_ASSERT(left  <= len - right + 1);
+        C4_ASSERT(left  <= len - right);
         return basic_substring(str + left, len - right - left);
     }
 
@@ -384,7 +384,7 @@ public:
     /** return [0, pos+include_pos[ . Same as .first(pos+1), but provided for compatibility with .right_of() */
     C4_ALWAYS_INLINE C4_PURE basic_substring left_of(size_t pos, bool include_pos) const noexcept
     {
-        C4_ASSERT(pos <= len || pos == npos);
+        C4_ASSERT(pos + include_pos <= len || pos == npos);
         return (pos != npos) ?
             basic_substring(str, pos+include_pos) :
             *this;
@@ -393,7 +393,7 @@ public:
     /** return [pos+1, len[ */
     C4_ALWAYS_INLINE C4_PURE basic_substring right_of(size_t pos) const noexcept
     {
-        C4_ASSERT(pos <= len || pos == npos);
+        C4_ASSERT(pos < len || pos == npos);
         return (pos != npos) ?
             basic_substring(str + (pos + 1), len - (pos + 1)) :
             basic_substring(str + len, size_t(0));
@@ -402,7 +402,7 @@ public:
     /** return [pos+!include_pos, len[ */
     C4_ALWAYS_INLINE C4_PURE basic_substring right_of(size_t pos, bool include_pos) const noexcept
     {
-        C4_ASSERT(pos <= len || pos == npos);
+        C4_ASSERT(pos + !include_pos <= len || pos == npos);
         return (pos != npos) ?
             basic_substring(str + (pos + !include_pos), len - (pos + !include_pos)) :
             basic_substring(str + len, size_t(0));
-- 
2.43.0


From 68dddee8d0924c6ba48e028075ddd8c5b57b116d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:42 +0000
Subject: [PATCH 14/61] fix: base64_valid() accepted padding characters in the
 middle of the text

---
 src/c4/base64.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/c4/base64.cpp b/src/c4/base64.cpp
index 7f8b339..0775bbb 100644
--- a/src/c4/base64.cpp
+++ b/src/c4/base64.cpp
@@ -98,12 +98,12 @@ bool base64_valid(csubstr encoded)
 {
     if(encoded.len & 3u) // (encoded.len % 4u)
         return false;
-    for(const char c : encoded)
+    for(const char &c : encoded)
     {
         if(c < 0/* || c >= 128*/)
             return false;
-        if(c == '=')
-            continue;
+        if(c == '=') // padding: only as the last one or two characters
+            return (&c + 2 >= encoded.end()) && (encoded.back() == '=');
         if(detail::base64_char_to_sextet_[c] == char(-1))
             return false;
     }
-- 
2.43.0


From 2c23b28290bfb7b558b602887f3a104b411aec88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:05 +0000
Subject: [PATCH 15/61] fix: EnumSymbols::find(str,len) matched names of which
 str is only a prefix

---
 src/c4/enum.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/c4/enum.hpp b/src/c4/enum.hpp
index ae12f51..cc136f8 100644
--- a/src/c4/enum.hpp
+++ b/src/c4/enum.hpp
@@ -240,19 +240,15 @@ bool EnumSymbols<Enum>::Sym::cmp(const char *s) const
 template<class Enum>
 bool EnumSymbols<Enum>::Sym::cmp(const char *s, size_t len) const
 {
-    if(strncmp(name, s, len) == 0)
+    const size_t nlen = strlen(name);
+    if(nlen == len && strncmp(name, s, len) == 0)
         return true;
 
-    size_t nlen = 0;
     for(int i = 1; i <_EOFFS_LAST; ++i)
     {
         auto o = eoffs<Enum>((EnumOffsetType)i);
         if(o > 0)
         {
-            if(!nlen)
-            {
-                nlen = strlen(name);
-            }
             C4_ASSERT(o < nlen);
             size_t rem = nlen - o;
             auto m = len > rem ? len : rem;
-- 
2.43.0


From c1ba738b0f73b442c4ae969e7e382afcdcfbfd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:26 +0000
Subject: [PATCH 16/61] fix: str2bm() rejected symbol names containing digits

---
 src/c4/bitmask.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/c4/bitmask.hpp b/src/c4/bitmask.hpp
index a4190d5..569d51b 100644
--- a/src/c4/bitmask.hpp
+++ b/src/c4/bitmask.hpp
@@ -278,7 +278,6 @@ typename std::underlying_type<Enum>::type str2bm(const char *str, size_t sz)
         }
         else if(c >= '0' && c <= '9')
         {
-            C4_CHECK( ! alnum);
             if(!started)
             {
                 f = pc;
-- 
2.43.0


From 5d1f69928fc3d0e0c3fa0a94c52db55d30f12d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:37 +0000
Subject: [PATCH 17/61] fix: str2bm() rejected hexadecimal numbers with the
 digits a-f

---
 src/c4/bitmask.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/c4/bitmask.hpp b/src/c4/bitmask.hpp
index 569d51b..129d9f8 100644
--- a/src/c4/bitmask.hpp
+++ b/src/c4/bitmask.hpp
@@ -269,7 +269,9 @@ typename std::underlying_type<Enum>::type str2bm(const char *str, size_t sz)
         const char c = *pc;
         if((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_')
         {
-            C4_CHECK(( ! num) || ((pc - f) == 1 && (c == 'x' || c == 'X'))); // accept hexadecimal numbers
+            C4_CHECK(( ! num) // accept hexadecimal numbers
+                     || ((pc - f) == 1 && (c == 'x' || c == 'X'))
+                     || ((pc - f) >= 2 && (f[1] == 'x' || f[1] == 'X') && ((c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))));
             if( ! started)
             {
                 f = pc;
-- 
2.43.0


From f2b2346d395500bd34f4692375b26b8f879780a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:05 +0000
Subject: [PATCH 18/61] fix: bm2str() and bm2stream() failed for combinations
 of overlapping symbols

---
 src/c4/bitmask.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/c4/bitmask.hpp b/src/c4/bitmask.hpp
index 129d9f8..529b114 100644
--- a/src/c4/bitmask.hpp
+++ b/src/c4/bitmask.hpp
@@ -35,6 +35,7 @@ template<class Enum, class Stream>
 Stream& bm2stream(Stream &s, typename std::underlying_type<Enum>::type bits, EnumOffsetType offst=EOFFS_PFX)
 {
     using I = typename std::underlying_type<Enum>::type;
+    const I all = bits;
     bool written = false;
 
     auto const& pairs = esyms<Enum>();
@@ -48,7 +49,7 @@ Stream& bm2stream(Stream &s, typename std::underlying_type<Enum>::type bits, Enu
         {
             auto p = pairs[i];
             I b(static_cast<I>(p.value));
-            if(b && (bits & b) == b)
+            if((bits & b) && (all & b) == b) // symbols may overlap
             {
                 if(written) s << '|'; // append bit-or character
                 written = true;
@@ -146,6 +147,7 @@ size_t bm2str
     C4_ASSERT((str == nullptr) == (sz == 0));
 
     auto syms = esyms<Enum>();
+    const I all = bits;
     size_t pos = 0;
     typename EnumSymbols<Enum>::Sym const* C4_RESTRICT zero = nullptr;
 
@@ -159,7 +161,7 @@ size_t bm2str
         {
             zero = &p; // save this symbol for later
         }
-        else if((bits & b) == b)
+        else if((bits & b) && (all & b) == b) // symbols may overlap
         {
             bits &= ~b;
             // append bit-or character
-- 
2.43.0


From 56123f00867a296d8f48937c08d036fb9dea8859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:05 +0000
Subject: [PATCH 19/61] fix: bm2stream() silently dropped bits without a symbol

---
 src/c4/bitmask.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c4/bitmask.hpp b/src/c4/bitmask.hpp
index 529b114..5de32e5 100644
--- a/src/c4/bitmask.hpp
+++ b/src/c4/bitmask.hpp
@@ -57,6 +57,7 @@ Stream& bm2stream(Stream &s, typename std::underlying_type<Enum>::type bits, Enu
                 bits &= ~b;
             }
         }
+        C4_CHECK_MSG(bits == 0, "could not find all bits");
         return s;
     }
     else
-- 
2.43.0


From 87fc2e164b79e44a880437a5046fb06f86e7c910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:29 +0000
Subject: [PATCH 20/61] fix: span::rend() did not compile for spans of
 non-const elements

---
 src/c4/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/span.hpp b/src/c4/span.hpp
index 43bb633..6efdc22 100644
--- a/src/c4/span.hpp
+++ b/src/c4/span.hpp
@@ -83,7 +83,7 @@ public:
     C4_ALWAYS_INLINE const_reverse_iterator  rbegin() const noexcept { return reverse_iterator(_c4cptr + _c4csz); }
     C4_ALWAYS_INLINE const_reverse_iterator crbegin() const noexcept { return reverse_iterator(_c4cptr + _c4csz); }
 
-    C4_ALWAYS_INLINE       reverse_iterator  rend()       noexcept { return const_reverse_iterator(_c4ptr); }
+    C4_ALWAYS_INLINE       reverse_iterator  rend()       noexcept { return reverse_iterator(_c4ptr); }
     C4_ALWAYS_INLINE const_reverse_iterator  rend() const noexcept { return const_reverse_iterator(_c4cptr); }
     C4_ALWAYS_INLINE const_reverse_iterator crend() const noexcept { return const_reverse_iterator(_c4cptr); }
 
-- 
2.43.0


From e3d310a560b2e61407032fcd3c62fdeee3d501cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:29 +0000
Subject: [PATCH 21/61] fix: in C++11, comparing spans of different sizes read
 past the end of the shorter, and was true when one begins with the other

---
 src/c4/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/span.hpp b/src/c4/span.hpp
index 6efdc22..ccf8c77 100644
--- a/src/c4/span.hpp
+++ b/src/c4/span.hpp
@@ -211,7 +211,7 @@ inline constexpr bool operator==
 #if C4_CPP >= 14
     return std::equal(l.begin(), l.end(), r.begin(), r.end());
 #else
-    return l.same_span(r) || std::equal(l.begin(), l.end(), r.begin());
+    return (l.end() - l.begin()) == (r.end() - r.begin()) && std::equal(l.begin(), l.end(), r.begin());
 #endif
 }
 
-- 
2.43.0


From 4d59b7ee74bca79b874eb1537bcb9b4584267466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:29 +0000
Subject: [PATCH 22/61] fix: span::subspan() let out of range requests through
 its check when first+num overflows

---
 src/c4/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/span.hpp b/src/c4/span.hpp
index ccf8c77..8bb8d5a 100644
--- a/src/c4/span.hpp
+++ b/src/c4/span.hpp
@@ -99,7 +99,7 @@ public:
     C4_ALWAYS_INLINE SpanImpl subspan(I first, I num) const C4_NOEXCEPT_X
     {
         C4_XASSERT((first >= 0 && first < _c4csz) || (first == _c4csz && num == 0));
-        C4_XASSERT((first + num >= 0) && (first + num <= _c4csz));
+        C4_XASSERT((num >= 0) && (num <= _c4csz - first));
         return _c4cthis->_select(_c4cptr + first, num);
     }
     C4_ALWAYS_INLINE SpanImpl subspan(I first) const C4_NOEXCEPT_X ///< goes up until the end of the span
-- 
2.43.0


From cd455b16b7713803255c982134bf7e79ff97ab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:24 +0000
Subject: [PATCH 23/61] fix: MemoryResourceLinear lost the contents of a block
 when growing it by moving

---
 src/c4/memory_resource.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index 891c373..8839736 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -255,7 +255,10 @@ void* MemoryResourceLinear::do_reallocate(void* ptr, size_t oldsz, size_t newsz,
     }
     // we're growing the block or it doesn't fit -
     // delegate any of these situations to do_deallocate()
-    return do_allocate(newsz, alignment, ptr);
+    void *mem = do_allocate(newsz, alignment, ptr);
+    if(oldsz)
+        ::memcpy(mem, ptr, oldsz);
+    return mem;
 }
 
 
-- 
2.43.0


From 5f8bf0ed9f12599a7afa9ead1756525d9291ca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:24 +0000
Subject: [PATCH 24/61] fix: MemoryResourceLinear accepted growing a block
 beyond its capacity when the size overflows

---
 src/c4/memory_resource.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index 8839736..946addc 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -247,7 +247,7 @@ void* MemoryResourceLinear::do_reallocate(void* ptr, size_t oldsz, size_t newsz,
         return ptr;
     }
     // we're growing the block, and it fits in size
-    else if(same_pos && cptr + newsz <= m_mem + m_size)
+    else if(same_pos && newsz - oldsz <= m_size - m_pos)
     {
         // if this is the MRA, we can safely shrink the position
         m_pos += newsz - oldsz;
-- 
2.43.0


From c014154800a959d6fb467205f2000d9e0916165f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:24 +0000
Subject: [PATCH 25/61] fix: release() of a linear memory resource leaked its
 memory, and acquire() took it from itself

---
 src/c4/memory_resource.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index 946addc..d58b888 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -166,7 +166,8 @@ void detail::_MemoryResourceSingleChunk::release()
 {
     if(m_mem && m_owner)
     {
-        impl_type::deallocate(m_mem, m_size);
+        // do not dispatch virtually: the memory came from impl_type
+        impl_type::do_deallocate(m_mem, m_size, alignof(max_align_t));
     }
     m_mem = nullptr;
     m_size = 0;
@@ -176,16 +177,17 @@ void detail::_MemoryResourceSingleChunk::release()
 
 void detail::_MemoryResourceSingleChunk::acquire(size_t sz)
 {
-    clear();
+    release();
+    // do not dispatch virtually: the memory must come from impl_type
+    m_mem = (char*) impl_type::do_allocate(sz, alignof(max_align_t), nullptr);
     m_owner = true;
-    m_mem = (char*) impl_type::allocate(sz, alignof(max_align_t));
     m_size = sz;
     m_pos = 0;
 }
 
 void detail::_MemoryResourceSingleChunk::acquire(void *mem, size_t sz)
 {
-    clear();
+    release();
     m_owner = false;
     m_mem = (char*) mem;
     m_size = sz;
-- 
2.43.0


From 82f32d8384af4bba57c2fb5e08af5128eb1ca8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:24 +0000
Subject: [PATCH 26/61] fix: initialize the ownership flag of single-chunk
 memory resources

---
 src/c4/memory_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/memory_resource.hpp b/src/c4/memory_resource.hpp
index 0818f58..4b28367 100644
--- a/src/c4/memory_resource.hpp
+++ b/src/c4/memory_resource.hpp
@@ -288,7 +288,7 @@ public:
     char  *m_mem{nullptr};
     size_t m_size{0};
     size_t m_pos{0};
-    bool   m_owner;
+    bool   m_owner{false};
 
 public:
 
-- 
2.43.0


From 338a692635685c9dd665d95fb2fb8dc854ecfe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:24 +0000
Subject: [PATCH 27/61] fix: MemoryResourceCounts dropped a live block from the
 counts when its reallocation failed

---
 src/c4/memory_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/memory_resource.hpp b/src/c4/memory_resource.hpp
index 4b28367..848ff7b 100644
--- a/src/c4/memory_resource.hpp
+++ b/src/c4/memory_resource.hpp
@@ -513,8 +513,8 @@ protected:
 
     virtual void* do_reallocate(void* ptr, size_t oldsz, size_t newsz, size_t alignment) override
     {
-        m_counts.rem_counts(ptr, oldsz);
         void* nptr = m_resource->reallocate(ptr, oldsz, newsz, alignment);
+        m_counts.rem_counts(ptr, oldsz);
         m_counts.add_counts(nptr, newsz);
         return nptr;
     }
-- 
2.43.0


From ae92d7aeb43c3fc6e831aec39f8c4ce082cd8b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:24 +0000
Subject: [PATCH 28/61] fix: ScopedMemoryResourceCounts did not restore the
 previous memory resource

---
 src/c4/memory_resource.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/c4/memory_resource.hpp b/src/c4/memory_resource.hpp
index 848ff7b..e3d5879 100644
--- a/src/c4/memory_resource.hpp
+++ b/src/c4/memory_resource.hpp
@@ -547,19 +547,20 @@ struct ScopedMemoryResource
  * @ingroup memory_resources */
 struct ScopedMemoryResourceCounts
 {
+    MemoryResource *m_original;
     MemoryResourceCounts mr;
 
-    ScopedMemoryResourceCounts() : mr()
+    ScopedMemoryResourceCounts() : m_original(get_memory_resource()), mr()
     {
         set_memory_resource(&mr);
     }
-    ScopedMemoryResourceCounts(MemoryResource *m) : mr(m)
+    ScopedMemoryResourceCounts(MemoryResource *m) : m_original(get_memory_resource()), mr(m)
     {
         set_memory_resource(&mr);
     }
     ~ScopedMemoryResourceCounts()
     {
-        set_memory_resource(mr.resource());
+        set_memory_resource(m_original);
     }
 };
 
-- 
2.43.0


From b494a0daf74bf372b234f2b23787e2137a82b230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:13 +0000
Subject: [PATCH 29/61] fix: SmallAllocator returned overlapping or misaligned
 blocks

when the blocks are not deallocated in reverse order, when
some of them are outside of the small buffer, or when the
alignment is larger than that of the first free object.
---
 src/c4/allocator.hpp | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/c4/allocator.hpp b/src/c4/allocator.hpp
index e345966..4d17536 100644
--- a/src/c4/allocator.hpp
+++ b/src/c4/allocator.hpp
@@ -272,7 +272,10 @@ class SmallAllocator : public detail::_AllocatorUtil<MemResProvider>
     using impl_type = detail::_AllocatorUtil<MemResProvider>;
 
     alignas(Alignment) char m_arr[N * sizeof(T)];
-    size_t m_num{0};
+    size_t m_num{0};  ///< number of objects in m_arr up to the end of its last block
+    size_t m_live{0}; ///< number of blocks currently allocated from m_arr
+
+    bool _in_arr(T const* ptr) const { return (char const*)ptr >= m_arr && (char const*)ptr < m_arr + (N * sizeof(T)); }
 
 public:
 
@@ -318,7 +321,7 @@ public:
     template<class U, size_t N2, size_t A2, class MP2>
     SmallAllocator(SmallAllocator<U,N2,A2,MP2> const& that) : impl_type(that.resource())
     {
-        C4_ASSERT(that.m_num == 0);
+        C4_ASSERT(that.m_live == 0);
     }
 
     SmallAllocator(SmallAllocator const&) = default;
@@ -335,26 +338,40 @@ public:
     {
         C4_ASSERT(this->resource() != nullptr);
         C4_ASSERT(alignment >= alignof(T));
-        void *vmem;
-        if(m_num + num_objs <= N)
+        void *vmem = (m_arr + m_num * sizeof(T));
+        if(num_objs == 0)
+        {
+            vmem = m_arr; // not accounted for
+        }
+        else if(num_objs <= N - m_num && ((uintptr_t)vmem & (alignment - 1)) == 0)
         {
-            vmem = (m_arr + m_num * sizeof(T));
+            m_num += num_objs;
+            ++m_live;
         }
         else
         {
             vmem = this->resource()->allocate(num_objs * sizeof(T), alignment);
         }
-        m_num += num_objs;
         T *mem = static_cast<T*>(vmem);
         return mem;
     }
 
     void deallocate(T * ptr, size_t num_objs, size_t alignment=Alignment)
     {
-        C4_ASSERT(m_num >= num_objs);
-        m_num -= num_objs;
-        if((char*)ptr >= m_arr && (char*)ptr < m_arr + (N * sizeof(T)))
+        if(num_objs == 0)
+        {
+            return;
+        }
+        if(_in_arr(ptr))
         {
+            C4_ASSERT(m_live > 0 && m_num >= num_objs);
+            --m_live;
+            // the room of a block can be used again when
+            // it is the last one, or when there are no others
+            if(m_live == 0)
+                m_num = 0;
+            else if((char*)(ptr + num_objs) == m_arr + m_num * sizeof(T))
+                m_num -= num_objs;
             return;
         }
         C4_ASSERT(this->resource() != nullptr);
-- 
2.43.0


From 8a8c159a64c9a3bf83c1084111ddc8bb84c2ff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:13 +0000
Subject: [PATCH 30/61] fix: SmallAllocator::reallocate() lost the contents,
 and did not compile for objects other than char

---
 src/c4/allocator.hpp | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/c4/allocator.hpp b/src/c4/allocator.hpp
index 4d17536..fcc239c 100644
--- a/src/c4/allocator.hpp
+++ b/src/c4/allocator.hpp
@@ -4,6 +4,7 @@
 #include "c4/memory_resource.hpp"
 #include "c4/ctor_dtor.hpp"
 
+#include <string.h> // memcpy
 #include <memory> // std::allocator_traits
 #include <type_traits>
 
@@ -383,21 +384,11 @@ public:
     {
         C4_ASSERT(this->resource() != nullptr);
         C4_ASSERT(alignment >= alignof(T));
-        if(oldnum <= N && newnum <= N)
-        {
-            return m_arr;
-        }
-        else if(oldnum <= N && newnum > N)
-        {
-            return allocate(newnum, alignment);
-        }
-        else if(oldnum > N && newnum <= N)
-        {
-            deallocate(ptr, oldnum, alignment);
-            return m_arr;
-        }
-        void* vmem = this->resource()->reallocate(ptr, oldnum * sizeof(T), newnum * sizeof(T), alignment);
-        T* mem = static_cast<T*>(vmem);
+        T *mem = allocate(newnum, alignment);
+        const size_t min = oldnum < newnum ? oldnum : newnum;
+        if(min)
+            ::memcpy((void*)mem, (void const*)ptr, min * sizeof(T));
+        deallocate(ptr, oldnum, alignment);
         return mem;
     }
 
-- 
2.43.0


From 4033fce5b82d7b02fb978f31ab58c6fb4ab4f4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:02 +0000
Subject: [PATCH 31/61] fix: allocators returned blocks smaller than requested
 when the size in bytes overflows

---
 src/c4/allocator.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/c4/allocator.hpp b/src/c4/allocator.hpp
index fcc239c..b0fc773 100644
--- a/src/c4/allocator.hpp
+++ b/src/c4/allocator.hpp
@@ -28,8 +28,12 @@ namespace c4 {
 C4_SUPPRESS_WARNING_GCC_CLANG_WITH_PUSH("-Wold-style-cast")
 
 namespace detail {
-template<class T> inline size_t size_for      (size_t num_objs) noexcept { return num_objs * sizeof(T); }
-template<       > inline size_t size_for<void>(size_t num_objs) noexcept { return num_objs;             }
+template<class T> inline size_t size_for(size_t num_objs)
+{
+    C4_CHECK_MSG(num_objs <= static_cast<size_t>(-1) / sizeof(T), "size overflow allocating %zu objects", num_objs);
+    return num_objs * sizeof(T);
+}
+template<> inline size_t size_for<void>(size_t num_objs) { return num_objs; }
 } // namespace detail
 
 
@@ -351,7 +355,7 @@ public:
         }
         else
         {
-            vmem = this->resource()->allocate(num_objs * sizeof(T), alignment);
+            vmem = this->resource()->allocate(detail::size_for<T>(num_objs), alignment);
         }
         T *mem = static_cast<T*>(vmem);
         return mem;
-- 
2.43.0


From 9c2d1f416a81d26fa2fa58de8f7238bc01bcf4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:58 +0000
Subject: [PATCH 32/61] fix: make_room() and destroy_room() lost the elements
 when the room is zero

---
 src/c4/ctor_dtor.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/c4/ctor_dtor.hpp b/src/c4/ctor_dtor.hpp
index da832ba..436bd6d 100644
--- a/src/c4/ctor_dtor.hpp
+++ b/src/c4/ctor_dtor.hpp
@@ -318,7 +318,11 @@ template<class U, class I> C4_ALWAYS_INLINE typename std::enable_if< ! std::is_t
 make_room(U *buf, I bufsz, I room) C4_NOEXCEPT_A
 {
     C4_ASSERT(bufsz >= 0 && room >= 0);
-    if(room >= bufsz)
+    if(room == 0)
+    {
+        return; // the elements stay where they are: do not move them onto themselves
+    }
+    else if(room >= bufsz)
     {
         for(I i = 0; i < bufsz; ++i)
         {
@@ -412,7 +416,11 @@ destroy_room(U *buf, I n, I room)
 {
     C4_ASSERT(n >= 0 && room >= 0);
     C4_ASSERT(room <= n);
-    if(room < n)
+    if(room == 0)
+    {
+        return; // the elements stay where they are: do not move them onto themselves
+    }
+    else if(room < n)
     {
         for(I i = 0, e = n - room; i < e; ++i)
         {
-- 
2.43.0


From 646b75c928a4f1edef333697195caba9d3313b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:15 +0000
Subject: [PATCH 33/61] fix: C4_CHECK_MSG() used the text of the condition as a
 format string

---
 src/c4/error.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/error.hpp b/src/c4/error.hpp
index 95d7c0d..6e52e23 100644
--- a/src/c4/error.hpp
+++ b/src/c4/error.hpp
@@ -338,7 +338,7 @@ struct srcloc
     do {                                                                \
         if(C4_UNLIKELY(!(cond)))                                        \
         {                                                               \
-            C4_ERROR("check failed: " #cond "\n" fmt, ## __VA_ARGS__);  \
+            C4_ERROR("check failed: %s\n" fmt, #cond, ## __VA_ARGS__);  \
         }                                                               \
     } while(0)
 
-- 
2.43.0


From 9d866b8e26cd095670c9871d348277b53dfdf024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:36 +0000
Subject: [PATCH 34/61] fix: mem_overlaps() reported an empty range as
 overlapping the range it is inside of

---
 src/c4/memory_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/memory_util.hpp b/src/c4/memory_util.hpp
index 29341cf..f0111c1 100644
--- a/src/c4/memory_util.hpp
+++ b/src/c4/memory_util.hpp
@@ -50,7 +50,7 @@ C4_ALWAYS_INLINE void mem_zero(T* mem)
 C4_ALWAYS_INLINE C4_CONST bool mem_overlaps(void const* a, void const* b, size_t sza, size_t szb)
 {
     // thanks @timwynants
-    return (((const char*)b + szb) > a && b < ((const char*)a+sza));
+    return sza > 0 && szb > 0 && (((const char*)b + szb) > a && b < ((const char*)a+sza));
 }
 
 void mem_repeat(void* dest, void const* pattern, size_t pattern_size, size_t num_times);
-- 
2.43.0


From 2ec0b29614c364f4e2fbeca95280d293924b0159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:36 +0000
Subject: [PATCH 35/61] fix: ipow() was wrong when the exponent is the minimum
 of its type

---
 src/c4/memory_util.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/c4/memory_util.hpp b/src/c4/memory_util.hpp
index f0111c1..22c71e2 100644
--- a/src/c4/memory_util.hpp
+++ b/src/c4/memory_util.hpp
@@ -485,8 +485,7 @@ C4_CONSTEXPR14 C4_CONST auto ipow(B base, E exponent) noexcept -> typename std::
     }
     else
     {
-        exponent *= E(-1);
-        for(E e = 0; e < exponent; ++e)
+        for(E e = 0; e > exponent; --e)
             r /= base;
     }
     return r;
@@ -506,8 +505,7 @@ C4_CONSTEXPR14 C4_CONST auto ipow(E exponent) noexcept -> typename std::enable_i
     }
     else
     {
-        exponent *= E(-1);
-        for(E e = 0; e < exponent; ++e)
+        for(E e = 0; e > exponent; --e)
             r /= base;
     }
     return r;
@@ -528,8 +526,7 @@ C4_CONSTEXPR14 C4_CONST auto ipow(E exponent) noexcept -> typename std::enable_i
     }
     else
     {
-        exponent *= E(-1);
-        for(E e = 0; e < exponent; ++e)
+        for(E e = 0; e > exponent; --e)
             r /= bbase;
     }
     return r;
-- 
2.43.0


From be4cd21fba1b3c49389d23198f278690f7c0a88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:36 +0000
Subject: [PATCH 36/61] fix: default-constructed tight_pair left its second
 element uninitialized when the two types are the same

---
 src/c4/memory_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/memory_util.hpp b/src/c4/memory_util.hpp
index 22c71e2..005aac3 100644
--- a/src/c4/memory_util.hpp
+++ b/src/c4/memory_util.hpp
@@ -720,7 +720,7 @@ struct tight_pair<First, Second, tpc_same> : public First
     using first_type = First;
     using second_type = Second;
 
-    tight_pair() : First() {}
+    tight_pair() : First(), m_second() {}
     tight_pair(First const& f, Second const& s) : First(f), m_second(s) {}
 
     C4_ALWAYS_INLINE C4_CONSTEXPR14 First      & first ()       { return static_cast<First      &>(*this); }
-- 
2.43.0


From 0e3f4c0e6a6578bd3b06e6a8433923b32d970cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:36 +0000
Subject: [PATCH 37/61] fix: char_traits<wchar_t>::num_whitespace_chars counted
 bytes

---
 src/c4/char_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/char_traits.hpp b/src/c4/char_traits.hpp
index b080659..97a2514 100644
--- a/src/c4/char_traits.hpp
+++ b/src/c4/char_traits.hpp
@@ -27,7 +27,7 @@ template<>
 struct char_traits<wchar_t> : public std::char_traits<wchar_t>
 {
     constexpr static const wchar_t whitespace_chars[] = L" \f\n\r\t\v";
-    constexpr static const size_t num_whitespace_chars = sizeof(whitespace_chars) - 1;
+    constexpr static const size_t num_whitespace_chars = sizeof(whitespace_chars) / sizeof(wchar_t) - 1;
 };
 
 
-- 
2.43.0


From d75c3ba0636680ae8e250f5ff8d9a2c88167cc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:46 +0000
Subject: [PATCH 38/61] fix: converting an empty inplace_function to another
 capacity gave one which is not empty

---
 src/c4/ext/sg14/inplace_function.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c4/ext/sg14/inplace_function.h b/src/c4/ext/sg14/inplace_function.h
index 8d7a5b4..6ffd992 100644
--- a/src/c4/ext/sg14/inplace_function.h
+++ b/src/c4/ext/sg14/inplace_function.h
@@ -298,6 +298,7 @@ public:
             Cap, Align, Capacity, Alignment
         >::value, "conversion not allowed");
 
+        if(!operator bool()) return {};
         return {vtable_ptr_, vtable_ptr_->copy_ptr, std::addressof(storage_)};
     }
 
@@ -308,6 +309,7 @@ public:
             Cap, Align, Capacity, Alignment
         >::value, "conversion not allowed");
 
+        if(!operator bool()) return {};
         return {vtable_ptr_, vtable_ptr_->move_ptr, std::addressof(storage_)};
     }
 
-- 
2.43.0


From c40547a104a2bd5fac16c49c74bfbf3aa29b8964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:46 +0000
Subject: [PATCH 39/61] fix: inplace_function destroyed an object it did not
 have after its assignment failed with an exception

---
 src/c4/ext/sg14/inplace_function.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/c4/ext/sg14/inplace_function.h b/src/c4/ext/sg14/inplace_function.h
index 6ffd992..c5be61d 100644
--- a/src/c4/ext/sg14/inplace_function.h
+++ b/src/c4/ext/sg14/inplace_function.h
@@ -239,11 +239,12 @@ public:
         {
             vtable_ptr_->destructor_ptr(std::addressof(storage_));
 
-            vtable_ptr_ = other.vtable_ptr_;
-            vtable_ptr_->copy_ptr(
+            vtable_ptr_ = std::addressof(empty_vtable); // in case the copy throws
+            other.vtable_ptr_->copy_ptr(
                 std::addressof(storage_),
                 std::addressof(other.storage_)
             );
+            vtable_ptr_ = other.vtable_ptr_;
         }
         return *this;
     }
@@ -254,11 +255,12 @@ public:
         {
             vtable_ptr_->destructor_ptr(std::addressof(storage_));
 
-            vtable_ptr_ = other.vtable_ptr_;
-            vtable_ptr_->move_ptr(
+            vtable_ptr_ = std::addressof(empty_vtable); // in case the move throws
+            other.vtable_ptr_->move_ptr(
                 std::addressof(storage_),
                 std::addressof(other.storage_)
             );
+            vtable_ptr_ = other.vtable_ptr_;
         }
         return *this;
     }
-- 
2.43.0


From 79f18c9c0d8763954798f6a86590ea22abd7940d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:46 +0000
Subject: [PATCH 40/61] fix: the pcg random engine shifted by negative amounts

---
 src/c4/ext/rng/rng.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/c4/ext/rng/rng.hpp b/src/c4/ext/rng/rng.hpp
index ceaf55b..d29dc49 100644
--- a/src/c4/ext/rng/rng.hpp
+++ b/src/c4/ext/rng/rng.hpp
@@ -166,9 +166,8 @@ public:
         uint64_t oldstate = m_state;
         m_state = oldstate * 6364136223846793005ULL + m_inc;
         uint32_t xorshifted = uint32_t(((oldstate >> 18u) ^ oldstate) >> 27u);
-        //int rot = oldstate >> 59u; // the original. error?
-        int64_t rot = (int64_t)oldstate >> 59u; // error?
-        return (xorshifted >> rot) | (xorshifted << ((uint64_t)(-rot) & 31));
+        uint32_t rot = uint32_t(oldstate >> 59u);
+        return (xorshifted >> rot) | (xorshifted << ((0u - rot) & 31u));
     }
 
     void discard(unsigned long long n)
-- 
2.43.0


From 56e634253b2d0acc8fb21689f4f9dfac2192aef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:46 +0000
Subject: [PATCH 41/61] fix: assigning a blob to a cblob did not return

---
 src/c4/blob.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/blob.hpp b/src/c4/blob.hpp
index 76a1d9e..542e8f9 100644
--- a/src/c4/blob.hpp
+++ b/src/c4/blob.hpp
@@ -39,8 +39,8 @@ public:
 
     template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_(blob_<U> const& that) noexcept : buf(that.buf), len(that.len) {}
     template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_(blob_<U>     && that) noexcept : buf(that.buf), len(that.len) {}
-    template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_& operator=(blob_<U>     && that) noexcept { buf = that.buf; len = that.len; }
-    template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_& operator=(blob_<U> const& that) noexcept { buf = that.buf; len = that.len; }
+    template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_& operator=(blob_<U>     && that) noexcept { buf = that.buf; len = that.len; return *this; }
+    template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_& operator=(blob_<U> const& that) noexcept { buf = that.buf; len = that.len; return *this; }
 
     C4_ALWAYS_INLINE blob_(void       *ptr, size_t n) noexcept : buf(reinterpret_cast<T*>(ptr)), len(n) {}
     C4_ALWAYS_INLINE blob_(void const *ptr, size_t n) noexcept : buf(reinterpret_cast<T*>(ptr)), len(n) {}
-- 
2.43.0


From 6ee3e80130903320b7193c35ac75f3b87917ed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:10 +0000
Subject: [PATCH 42/61] fix: inplace_function did not compile with arguments
 taken by rvalue, and used the exception specification of a different call

---
 src/c4/ext/sg14/inplace_function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/ext/sg14/inplace_function.h b/src/c4/ext/sg14/inplace_function.h
index c5be61d..7ffa7fd 100644
--- a/src/c4/ext/sg14/inplace_function.h
+++ b/src/c4/ext/sg14/inplace_function.h
@@ -99,7 +99,7 @@ template<typename R, typename... Args> struct vtable
 
     template<typename C> explicit constexpr vtable(wrapper<C>) noexcept :
         invoke_ptr{ [](storage_ptr_t storage_ptr, Args&&... args)
-            noexcept(noexcept(std::declval<C>()(args...))) -> R
+            noexcept(noexcept(std::declval<C&>()(std::forward<Args>(args)...))) -> R
             { return (*static_cast<C*>(storage_ptr))(
                 std::forward<Args>(args)...
             ); }
-- 
2.43.0


From b5382c7e736cccfb6cb1ea40c77df0de34190def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:55 +0000
Subject: [PATCH 43/61] fix: builds which throw exceptions on error did not
 compile (std::runtime_error needs <stdexcept>)

---
 src/c4/error.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/error.cpp b/src/c4/error.cpp
index 32a266d..5122909 100644
--- a/src/c4/error.cpp
+++ b/src/c4/error.cpp
@@ -29,7 +29,7 @@
 #endif
 
 #if defined(C4_EXCEPTIONS_ENABLED) && defined(C4_ERROR_THROWS_EXCEPTION)
-#   include <exception>
+#   include <stdexcept>
 #endif
 
 #ifdef __clang__
-- 
2.43.0


From eb3f5c1b14fb525eef8f0a024259dc1bbe388169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:55 +0000
Subject: [PATCH 44/61] fix: errors thrown without logging or callback carried
 an uninitialised message

---
 src/c4/error.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/error.cpp b/src/c4/error.cpp
index 5122909..7480b22 100644
--- a/src/c4/error.cpp
+++ b/src/c4/error.cpp
@@ -78,7 +78,7 @@ void handle_error(srcloc where, const char *fmt, ...)
 {
     char buf[1024];
     size_t msglen = 0;
-    if(s_error_flags & (ON_ERROR_LOG|ON_ERROR_CALLBACK))
+    if(s_error_flags & (ON_ERROR_LOG|ON_ERROR_CALLBACK|ON_ERROR_THROW))
     {
         va_list args;
         va_start(args, fmt);
-- 
2.43.0


From c9edddab57f6dd6c18eede5f9b7f956831bad4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:20 +0000
Subject: [PATCH 45/61] fix: comparing a view of 2 GiB or more with a character
 overflowed int: it could compare less, or equal

---
 src/c4/substr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index da602a4..a12f796 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -229,7 +229,7 @@ public:
     {
         C4_XASSERT((str != nullptr) || len == 0);
         if(C4_LIKELY(str != nullptr && len > 0))
-            return (*str != c) ? *str - c : (static_cast<int>(len) - 1);
+            return (*str != c) ? *str - c : static_cast<int>(len > 1);
         else
             return -1;
     }
-- 
2.43.0


From 9828203e27c9ad8f93f8c3c37858a4d92e491bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:48 +0000
Subject: [PATCH 46/61] fix: arealloc: do not copy to a null block when the
 allocation function fails

---
 src/c4/memory_resource.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index d58b888..e3b4738 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -84,6 +84,8 @@ void* arealloc_impl(void* ptr, size_t oldsz, size_t newsz, size_t alignment)
      * @see look for qReallocAligned() in http://code.qt.io/cgit/qt/qtbase.git/tree/src/corelib/global/qmalloc.cpp
      */
     void *tmp = aalloc(newsz, alignment);
+    if(C4_UNLIKELY(tmp == nullptr))
+        return nullptr; // leave the original block as it was
     size_t min = newsz < oldsz ? newsz : oldsz;
     if(mem_overlaps(ptr, tmp, oldsz, newsz))
     {
-- 
2.43.0


From d4e8189830babe6cfb491c665741dc64d6a036c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:48 +0000
Subject: [PATCH 47/61] fix: aalloc: report the requested alignment in the
 out-of-memory message

---
 src/c4/memory_resource.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index e3b4738..2df84e0 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -57,7 +57,7 @@ void* aalloc_impl(size_t size, size_t alignment)
         if(ret == ENOMEM)
         {
             C4_ERROR("There was insufficient memory to fulfill the "
-                     "allocation request of %zu bytes (alignment=%lu)", size, size);
+                     "allocation request of %zu bytes (alignment=%zu)", size, alignment);
         }
         return nullptr;
     }
-- 
2.43.0


From c4de92cc897d979a18ef42c9190df2f290efd32b Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 12:40:43 +0000
Subject: [PATCH 48/61] fix: c4/common.hpp includes a header which does not
 exist

---
 src/c4/common.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/c4/common.hpp b/src/c4/common.hpp
index e3063ff..920d650 100644
--- a/src/c4/common.hpp
+++ b/src/c4/common.hpp
@@ -9,7 +9,6 @@
 #include "c4/compiler.hpp"
 #include "c4/language.hpp"
 #include "c4/error.hpp"
-#include "c4/time.hpp"
 #include "c4/types.hpp"
 
 #endif /* _C4_COMMON_HPP_ */
-- 
2.43.0


From 98dc3b980db08666a7d98232f65b7bdcac84a548 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 12:40:43 +0000
Subject: [PATCH 49/61] fix: C4_FOR_EACH_SEP() does not accept C4_COMMA as the
 separator

---
 src/c4/preprocessor.hpp | 68 +++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 33 deletions(-)

diff --git a/src/c4/preprocessor.hpp b/src/c4/preprocessor.hpp
index a554825..f270d2f 100644
--- a/src/c4/preprocessor.hpp
+++ b/src/c4/preprocessor.hpp
@@ -72,42 +72,44 @@ C4_FOR_EACH(PRN_STRUCT_OFFSETS, a, b, c);
  * @see C4_FOR_EACH
  * @see C4_COMMA
  */
-#define C4_FOR_EACH_SEP(what, sep, ...) _C4_FOR_EACH_(_C4_FOR_EACH_NARG(__VA_ARGS__), what, sep, __VA_ARGS__)
+#define C4_FOR_EACH_SEP(what, sep, ...) _C4_FOR_EACH_(_C4_FOR_EACH_NARG(__VA_ARGS__), what, (sep), __VA_ARGS__)
 
 /// @cond dev
 
-#define _C4_FOR_EACH_01(what, sep, x) what(x) sep
-#define _C4_FOR_EACH_02(what, sep, x, ...) what(x) sep _C4_FOR_EACH_01(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_03(what, sep, x, ...) what(x) sep _C4_FOR_EACH_02(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_04(what, sep, x, ...) what(x) sep _C4_FOR_EACH_03(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_05(what, sep, x, ...) what(x) sep _C4_FOR_EACH_04(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_06(what, sep, x, ...) what(x) sep _C4_FOR_EACH_05(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_07(what, sep, x, ...) what(x) sep _C4_FOR_EACH_06(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_08(what, sep, x, ...) what(x) sep _C4_FOR_EACH_07(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_09(what, sep, x, ...) what(x) sep _C4_FOR_EACH_08(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_10(what, sep, x, ...) what(x) sep _C4_FOR_EACH_09(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_11(what, sep, x, ...) what(x) sep _C4_FOR_EACH_10(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_12(what, sep, x, ...) what(x) sep _C4_FOR_EACH_11(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_13(what, sep, x, ...) what(x) sep _C4_FOR_EACH_12(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_14(what, sep, x, ...) what(x) sep _C4_FOR_EACH_13(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_15(what, sep, x, ...) what(x) sep _C4_FOR_EACH_14(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_16(what, sep, x, ...) what(x) sep _C4_FOR_EACH_15(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_17(what, sep, x, ...) what(x) sep _C4_FOR_EACH_16(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_18(what, sep, x, ...) what(x) sep _C4_FOR_EACH_17(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_19(what, sep, x, ...) what(x) sep _C4_FOR_EACH_18(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_20(what, sep, x, ...) what(x) sep _C4_FOR_EACH_19(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_21(what, sep, x, ...) what(x) sep _C4_FOR_EACH_20(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_22(what, sep, x, ...) what(x) sep _C4_FOR_EACH_21(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_23(what, sep, x, ...) what(x) sep _C4_FOR_EACH_22(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_24(what, sep, x, ...) what(x) sep _C4_FOR_EACH_23(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_25(what, sep, x, ...) what(x) sep _C4_FOR_EACH_24(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_26(what, sep, x, ...) what(x) sep _C4_FOR_EACH_25(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_27(what, sep, x, ...) what(x) sep _C4_FOR_EACH_26(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_28(what, sep, x, ...) what(x) sep _C4_FOR_EACH_27(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_29(what, sep, x, ...) what(x) sep _C4_FOR_EACH_28(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_30(what, sep, x, ...) what(x) sep _C4_FOR_EACH_29(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_31(what, sep, x, ...) what(x) sep _C4_FOR_EACH_30(what, sep, __VA_ARGS__)
-#define _C4_FOR_EACH_32(what, sep, x, ...) what(x) sep _C4_FOR_EACH_31(what, sep, __VA_ARGS__)
+// the separator is handed down in parentheses, so that it can be a comma
+#define _C4_FOR_EACH_UNWRAP(...) __VA_ARGS__
+#define _C4_FOR_EACH_01(what, sep, x) what(x) _C4_FOR_EACH_UNWRAP sep
+#define _C4_FOR_EACH_02(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_01(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_03(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_02(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_04(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_03(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_05(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_04(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_06(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_05(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_07(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_06(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_08(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_07(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_09(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_08(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_10(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_09(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_11(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_10(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_12(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_11(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_13(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_12(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_14(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_13(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_15(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_14(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_16(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_15(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_17(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_16(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_18(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_17(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_19(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_18(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_20(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_19(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_21(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_20(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_22(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_21(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_23(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_22(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_24(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_23(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_25(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_24(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_26(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_25(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_27(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_26(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_28(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_27(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_29(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_28(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_30(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_29(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_31(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_30(what, sep, __VA_ARGS__)
+#define _C4_FOR_EACH_32(what, sep, x, ...) what(x) _C4_FOR_EACH_UNWRAP sep _C4_FOR_EACH_31(what, sep, __VA_ARGS__)
 #define _C4_FOR_EACH_NARG(...) _C4_FOR_EACH_NARG_(__VA_ARGS__, _C4_FOR_EACH_RSEQ_N())
 #define _C4_FOR_EACH_NARG_(...) _C4_FOR_EACH_ARG_N(__VA_ARGS__)
 #define _C4_FOR_EACH_ARG_N(_01, _02, _03, _04, _05, _06, _07, _08, _09, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, N, ...) N
-- 
2.43.0


From 7adf504debe73073e0a057cb8104d14d142c9612 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 12:40:43 +0000
Subject: [PATCH 50/61] fix: C4_DEFINE_HAS_TYPEDEF() ignores the name of the
 typedef

---
 src/c4/types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/types.hpp b/src/c4/types.hpp
index 5c87373..440555f 100644
--- a/src/c4/types.hpp
+++ b/src/c4/types.hpp
@@ -279,7 +279,7 @@ int main()
 /** define a traits class reporting whether a type provides a member typedef */
 #define C4_DEFINE_HAS_TYPEDEF(member_typedef)               \
 template<typename T>                                        \
-struct has_##stype                                          \
+struct has_##member_typedef                                 \
 {                                                           \
 private:                                                    \
                                                             \
-- 
2.43.0


From aab46fee0bf07a844834d20447b0a5786153dbe8 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 12:40:43 +0000
Subject: [PATCH 51/61] fix: C4_GCC_VERSION and C4_CLANG_VERSION use a macro
 which is not defined

---
 src/c4/compiler.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/c4/compiler.hpp b/src/c4/compiler.hpp
index 07c5e91..13c2ca5 100644
--- a/src/c4/compiler.hpp
+++ b/src/c4/compiler.hpp
@@ -5,6 +5,7 @@
  * @ingroup basic_headers */
 
 #include "c4/platform.hpp"
+#include "c4/preprocessor.hpp"
 
 // Compilers:
 //      C4_MSVC
@@ -78,7 +79,7 @@
 #       if defined(__clang__)
 #           define C4_CLANG
 #           ifndef __apple_build_version__
-#               define C4_CLANG_VERSION C4_VERSION_ENCODED(__clang_major__, __clang_minor__, __clang_patchlevel__)
+#               define C4_CLANG_VERSION C4_VERSION_CAT(__clang_major__, __clang_minor__, __clang_patchlevel__)
 #           else
 #               define C4_CLANG_VERSION __apple_build_version__
 #           endif
@@ -88,7 +89,7 @@
 #   elif defined(__clang__)
 #       define C4_CLANG
 #       ifndef __apple_build_version__
-#           define C4_CLANG_VERSION C4_VERSION_ENCODED(__clang_major__, __clang_minor__, __clang_patchlevel__)
+#           define C4_CLANG_VERSION C4_VERSION_CAT(__clang_major__, __clang_minor__, __clang_patchlevel__)
 #       else
 #           define C4_CLANG_VERSION __apple_build_version__
 #       endif
@@ -98,9 +99,9 @@
 #       endif
 #       define C4_GCC
 #       if defined(__GNUC_PATCHLEVEL__)
-#           define C4_GCC_VERSION C4_VERSION_ENCODED(__GNUC__, __GNUC_MINOR__, __GNUC_PATCHLEVEL__)
+#           define C4_GCC_VERSION C4_VERSION_CAT(__GNUC__, __GNUC_MINOR__, __GNUC_PATCHLEVEL__)
 #       else
-#           define C4_GCC_VERSION C4_VERSION_ENCODED(__GNUC__, __GNUC_MINOR__, 0)
+#           define C4_GCC_VERSION C4_VERSION_CAT(__GNUC__, __GNUC_MINOR__, 0)
 #       endif
 #       if __GNUC__ < 5
 #           if __GNUC__ == 4 && __GNUC_MINOR__ >= 8
-- 
2.43.0


From da4277dd3b6ba8dbe019c54e472c2451dd53ac5d Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 12:40:43 +0000
Subject: [PATCH 52/61] fix: typo in C4_FLATTEN

---
 src/c4/language.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/language.hpp b/src/c4/language.hpp
index 4ad81b6..abee5c5 100644
--- a/src/c4/language.hpp
+++ b/src/c4/language.hpp
@@ -248,7 +248,7 @@
 #   define C4_CONST __attribute__((const))
 #   define C4_PURE __attribute__((pure))
 /** force inlining of every callee function */
-#   define C4_FLATTEN __atribute__((flatten))
+#   define C4_FLATTEN __attribute__((flatten))
 /** mark a function as hot, ie as having a visible impact in CPU time
  * thus making it more likely to inline, etc
  * @see http://stackoverflow.com/questions/15028990/semantics-of-gcc-hot-attribute */
-- 
2.43.0


From 896d48b66676c0498e31d02fa3a4d7328958bcf8 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 12:40:43 +0000
Subject: [PATCH 53/61] fix: C4_CPP20 is defined whenever C4_CPP is predefined

---
 src/c4/language.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/language.hpp b/src/c4/language.hpp
index abee5c5..987fac6 100644
--- a/src/c4/language.hpp
+++ b/src/c4/language.hpp
@@ -82,7 +82,7 @@
 #       endif
 #   endif
 #else
-#   ifdef C4_CPP == 20
+#   if C4_CPP == 20
 #       define C4_CPP20
 #   elif C4_CPP == 17
 #       define C4_CPP17
-- 
2.43.0


From 65528eff064e986aea1cf960186460d23680ca0e Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 12:40:44 +0000
Subject: [PATCH 54/61] fix: unbalanced parenthesis in the fallback of
 C4_ASSUME

---
 src/c4/language.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/language.hpp b/src/c4/language.hpp
index 987fac6..e20d2ea 100644
--- a/src/c4/language.hpp
+++ b/src/c4/language.hpp
@@ -288,7 +288,7 @@
 #       define C4_ASSUME_ALLOW_EVAL 0
 #   endif
 #   if !defined(C4_ASSUME) && (C4_ASSUME_ALLOW_EVAL)
-#       define C4_ASSUME(...) do { if (!bool(__VA_ARGS__)) C4_UNREACHABLE(); ) while(0)
+#       define C4_ASSUME(...) do { if (!bool(__VA_ARGS__)) C4_UNREACHABLE(); } while(0)
 #   endif
 // last fallback: define macro as doing nothing
 #   ifndef C4_ASSUME
-- 
2.43.0


From e30cfad92d10128572f80ef632efe5a888dad16c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 12:40:44 +0000
Subject: [PATCH 55/61] fix: Padded(T&&) copies its argument

---
 src/c4/types.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/types.hpp b/src/c4/types.hpp
index 440555f..6974167 100644
--- a/src/c4/types.hpp
+++ b/src/c4/types.hpp
@@ -159,7 +159,7 @@ struct Padded : public T
     using T::T;
     using T::operator=;
     Padded(T const& val) : T(val) {}
-    Padded(T && val) : T(val) {}
+    Padded(T && val) : T(static_cast<T &&>(val)) {}
     char ___c4padspace___[BytesToPadAtEnd];
 };
 #pragma pack(pop)
@@ -170,7 +170,7 @@ struct Padded<T, 0> : public T
     using T::T;
     using T::operator=;
     Padded(T const& val) : T(val) {}
-    Padded(T && val) : T(val) {}
+    Padded(T && val) : T(static_cast<T &&>(val)) {}
 };
 
 /** make T have a size which is at least Min bytes */
-- 
2.43.0


From 86ec5e565bd522663e12f17622172031fe3c1c06 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 12:41:38 +0000
Subject: [PATCH 56/61] fix: C4_DEFINE_HAS_TYPEDEF() misses typedefs which are
 references

---
 src/c4/types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/types.hpp b/src/c4/types.hpp
index 6974167..ddae7e5 100644
--- a/src/c4/types.hpp
+++ b/src/c4/types.hpp
@@ -287,7 +287,7 @@ private:                                                    \
     typedef struct { char array[2]; } no;                   \
                                                             \
     template<typename C>                                    \
-    static yes _test(typename C::member_typedef*);          \
+    static yes _test(typename std::remove_reference<typename C::member_typedef>::type*); \
                                                             \
     template<typename C>                                    \
     static no  _test(...);                                  \
-- 
2.43.0


From 58d1ab8c59c327e4e42f9090088d5a9bd06b5793 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 12:44:34 +0000
Subject: [PATCH 57/61] fix: Padded, MinSized and MultSized come out short for
 classes with tail padding or no data

---
 src/c4/types.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/c4/types.hpp b/src/c4/types.hpp
index ddae7e5..8afa979 100644
--- a/src/c4/types.hpp
+++ b/src/c4/types.hpp
@@ -151,6 +151,14 @@ C4_ALWAYS_INLINE constexpr size_t mult_remainder(size_t size, size_t multipleof)
 
 /* force the following class to be tightly packed. */
 #pragma pack(push, 1)
+/// @cond dev
+namespace detail {
+// tells where a derived class places its members: this may be before the end
+// of the base class, when the base class is empty or has tail padding
+template<class T>
+struct pad_probe : public T { char c; };
+} // namespace detail
+/// @endcond
 /** pad a class with more bytes at the end.
  * @see http://stackoverflow.com/questions/21092415/force-c-structure-to-pack-tightly */
 template<class T, size_t BytesToPadAtEnd>
@@ -160,7 +168,7 @@ struct Padded : public T
     using T::operator=;
     Padded(T const& val) : T(val) {}
     Padded(T && val) : T(static_cast<T &&>(val)) {}
-    char ___c4padspace___[BytesToPadAtEnd];
+    char ___c4padspace___[BytesToPadAtEnd + (sizeof(T) + 1 - sizeof(detail::pad_probe<T>))];
 };
 #pragma pack(pop)
 /** When the padding argument is 0, we cannot declare the char[] array. */
-- 
2.43.0


From 8b7397976c1108e3d356d95beed50d1c3d37bfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:08 +0000
Subject: [PATCH 58/61] fix: itoa() and utoa() truncate the needed size to 32
 bits when padding with zeros

---
 src/c4/charconv.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 2e9c2bb..cdfdcf8 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1236,18 +1236,18 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
                 buf.str[pos] = '-';
             ++pos;
         }
-        unsigned total_digits = 0;
+        size_t total_digits = 0;
         switch(radix)
         {
         case T(10):
             total_digits = digits_dec(v);
-            total_digits = pos + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+            total_digits = pos + (num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
                 write_dec(buf.sub(pos), v, num_digits);
             break;
         case T(16):
             total_digits = digits_hex(v);
-            total_digits = pos + 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+            total_digits = pos + 2u + (num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
                 buf.str[pos + 0] = '0';
@@ -1257,7 +1257,7 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
             break;
         case T(2):
             total_digits = digits_bin(v);
-            total_digits = pos + 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+            total_digits = pos + 2u + (num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
                 buf.str[pos + 0] = '0';
@@ -1267,7 +1267,7 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
             break;
         case T(8):
             total_digits = digits_oct(v);
-            total_digits = pos + 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+            total_digits = pos + 2u + (num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
                 buf.str[pos + 0] = '0';
@@ -1376,18 +1376,18 @@ C4_ALWAYS_INLINE size_t utoa(substr buf, T v, T radix, size_t num_digits) noexce
 {
     C4_STATIC_ASSERT(std::is_unsigned<T>::value);
     C4_ASSERT(radix == 10 || radix == 16 || radix == 2 || radix == 8);
-    unsigned total_digits = 0;
+    size_t total_digits = 0;
     switch(radix)
     {
     case T(10):
         total_digits = digits_dec(v);
-        total_digits = (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+        total_digits = (num_digits > total_digits ? num_digits : total_digits);
         if(C4_LIKELY(buf.len >= total_digits))
             write_dec(buf, v, num_digits);
         break;
     case T(16):
         total_digits = digits_hex(v);
-        total_digits = 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+        total_digits = 2u + (num_digits > total_digits ? num_digits : total_digits);
         if(C4_LIKELY(buf.len >= total_digits))
         {
             buf.str[0] = '0';
@@ -1397,7 +1397,7 @@ C4_ALWAYS_INLINE size_t utoa(substr buf, T v, T radix, size_t num_digits) noexce
         break;
     case T(2):
         total_digits = digits_bin(v);
-        total_digits = 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+        total_digits = 2u + (num_digits > total_digits ? num_digits : total_digits);
         if(C4_LIKELY(buf.len >= total_digits))
         {
             buf.str[0] = '0';
@@ -1407,7 +1407,7 @@ C4_ALWAYS_INLINE size_t utoa(substr buf, T v, T radix, size_t num_digits) noexce
         break;
     case T(8):
         total_digits = digits_oct(v);
-        total_digits = 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+        total_digits = 2u + (num_digits > total_digits ? num_digits : total_digits);
         if(C4_LIKELY(buf.len >= total_digits))
         {
             buf.str[0] = '0';
-- 
2.43.0


From 748374aa2d98003c10945139bdb740e3fc3a38b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:17 +0000
Subject: [PATCH 59/61] fix: unformat() counted literal characters beyond the
 end of the string

---
 src/c4/format.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/c4/format.hpp b/src/c4/format.hpp
index a758db7..76bc889 100644
--- a/src/c4/format.hpp
+++ b/src/c4/format.hpp
@@ -858,9 +858,9 @@ substr format_sub(substr buf, csubstr fmt, Args const& C4_RESTRICT ...args)
 
 /// @cond dev
 // terminates the variadic recursion
-inline size_t unformat(csubstr /*buf*/, csubstr fmt)
+inline size_t unformat(csubstr buf, csubstr fmt)
 {
-    return fmt.len;
+    return fmt.len < buf.len ? fmt.len : buf.len;
 }
 /// @endcond
 
@@ -875,7 +875,7 @@ size_t unformat(csubstr buf, csubstr fmt, Arg & C4_RESTRICT a, Args & C4_RESTRIC
     const size_t pos = fmt.find("{}");
     if(C4_UNLIKELY(pos == csubstr::npos))
         return unformat(buf, fmt);
-    size_t num = pos;
+    size_t num = pos < buf.len ? pos : buf.len;
     size_t out = num;
     buf  = buf.len >= num ? buf.sub(num) : substr{};
     num  = from_chars_first(buf, &a);
-- 
2.43.0


From 474d459ca660d4f9097e79b8d2182ceeb1d193da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:54 +0000
Subject: [PATCH 60/61] fix: itoa() writes the minus into buffers that are too
 small

---
 src/c4/charconv.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index cdfdcf8..416e23d 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1010,9 +1010,7 @@ template<class I>
 C4_NO_INLINE size_t _itoa2buf(substr buf, I radix) noexcept
 {
     using digits_type = detail::charconv_digits<I>;
-    size_t pos = 0;
-    if(C4_LIKELY(buf.len > 0))
-        buf.str[pos++] = '-';
+    size_t pos = 1; // for the minus, written last
     switch(radix)
     {
     case I(10):
@@ -1042,16 +1040,16 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix) noexcept
         pos = _itoa2buf(buf, pos, digits_type::min_value_oct());
         break;
     }
+    if(C4_LIKELY(buf.len > 0))
+        buf.str[0] = '-';
     return pos;
 }
 template<class I>
 C4_NO_INLINE size_t _itoa2buf(substr buf, I radix, size_t num_digits) noexcept
 {
     using digits_type = detail::charconv_digits<I>;
-    size_t pos = 0;
+    size_t pos = 1; // for the minus, written last
     size_t needed_digits = 0;
-    if(C4_LIKELY(buf.len > 0))
-        buf.str[pos++] = '-';
     switch(radix)
     {
     case I(10):
@@ -1091,6 +1089,8 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix, size_t num_digits) noexcept
         pos = _itoa2bufwithdigits(buf, pos, num_digits, digits_type::min_value_oct());
         break;
     }
+    if(C4_LIKELY(buf.len > 0))
+        buf.str[0] = '-';
     return pos;
 }
 } // namespace detail
@@ -1155,8 +1155,6 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix) noexcept
         if(v < 0)
         {
             v = -v;
-            if(C4_LIKELY(buf.len > 0))
-                buf.str[pos] = '-';
             ++pos;
         }
         unsigned digits = 0;
@@ -1198,6 +1196,8 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix) noexcept
             digits += 2u;
             break;
         }
+        if(pos && C4_LIKELY(buf.len >= pos + digits))
+            buf.str[0] = '-';
         return pos + digits;
     }
     C4_SUPPRESS_WARNING_GCC_POP
@@ -1232,8 +1232,6 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
         if(v < 0)
         {
             v = -v;
-            if(C4_LIKELY(buf.len > 0))
-                buf.str[pos] = '-';
             ++pos;
         }
         size_t total_digits = 0;
@@ -1276,6 +1274,8 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
             }
             break;
         }
+        if(pos && C4_LIKELY(buf.len >= total_digits))
+            buf.str[0] = '-';
         return total_digits;
     }
     C4_SUPPRESS_WARNING_GCC_POP
-- 
2.43.0


From 5739dcf8bcbde461f0f053d4542fdb5e75071a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:00 +0000
Subject: [PATCH 61/61] fix: copies of SmallAllocator shared the accounting of
 the original's buffer

---
 src/c4/allocator.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/c4/allocator.hpp b/src/c4/allocator.hpp
index b0fc773..ab730e8 100644
--- a/src/c4/allocator.hpp
+++ b/src/c4/allocator.hpp
@@ -329,11 +329,12 @@ public:
         C4_ASSERT(that.m_live == 0);
     }
 
-    SmallAllocator(SmallAllocator const&) = default;
-    SmallAllocator(SmallAllocator     &&) = default;
+    // the small buffer is not shared: its blocks belong to the allocator where it lives
+    SmallAllocator(SmallAllocator const& that) : impl_type(that) {}
+    SmallAllocator(SmallAllocator     && that) : impl_type(that) {}
 
-    SmallAllocator& operator= (SmallAllocator const&) = default; // WTF? why? @see http://en.cppreference.com/w/cpp/memory/polymorphic_allocator
-    SmallAllocator& operator= (SmallAllocator     &&) = default;
+    SmallAllocator& operator= (SmallAllocator const& that) { impl_type::operator= (that); return *this; } // WTF? why? @see http://en.cppreference.com/w/cpp/memory/polymorphic_allocator
+    SmallAllocator& operator= (SmallAllocator     && that) { impl_type::operator= (that); return *this; }
 
     /** returns a default-constructed polymorphic allocator object
      * @see http://en.cppreference.com/w/cpp/memory/polymorphic_allocator/select_on_container_copy_construction      */
-- 
2.43.0

