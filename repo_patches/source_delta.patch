From 5b9a9020c5be0be8ab7afb6ef3284c7b070d88ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 01/58] fix: width_t division with negative dividend

---
 include/strf/width_t.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/strf/width_t.hpp b/include/strf/width_t.hpp
index 736a21f..1df0938 100644
--- a/include/strf/width_t.hpp
+++ b/include/strf/width_t.hpp
@@ -407,9 +407,8 @@ public:
     STRF_HD width_t& operator/=(width_t other) noexcept
     {
         using namespace strf::detail::cast_sugars;
-        const std::uint64_t vu64 = cast_u32(value_);
-        const std::int64_t tmp = cast_i64(vu64 << 16) / other.value_;
-        value_ = detail::cast_i32(cast_i64(tmp));
+        const std::int64_t tmp = (cast_i64(value_) * 0x10000) / other.value_;
+        value_ = cast_i32(tmp);
         return *this;
     }
 
-- 
2.43.0


From d2aac8e2b2742eb858dec3d9675eabf732406d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 02/58] fix: signed overflow when comparing width_t with 16-bit
 integers

---
 include/strf/width_t.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/width_t.hpp b/include/strf/width_t.hpp
index 1df0938..0423758 100644
--- a/include/strf/width_t.hpp
+++ b/include/strf/width_t.hpp
@@ -412,15 +412,15 @@ public:
         return *this;
     }
 
-    constexpr STRF_HD int compare(detail::tag_i16, std::int16_t x) const noexcept
+    constexpr STRF_HD std::int64_t compare(detail::tag_i16, std::int16_t x) const noexcept
     {
         using namespace strf::detail::cast_sugars;
-        return value_ - cast_i32(cast_u32(cast_u16(x)) << 16);
+        return compare(detail::tag_i32(), cast_i32(x));
     }
-    constexpr STRF_HD int compare(detail::tag_u16, std::uint16_t x) const noexcept
+    constexpr STRF_HD std::int64_t compare(detail::tag_u16, std::uint16_t x) const noexcept
     {
         using namespace strf::detail::cast_sugars;
-        return x >= cast_u16(0x8000) ? -1 : (value_ - cast_i32(cast_u32(x) << 16));
+        return compare(detail::tag_i32(), cast_i32(x));
     }
 
     constexpr STRF_HD std::int64_t compare(detail::tag_i32, std::int32_t x) const noexcept
-- 
2.43.0


From b818599d7997c25ffbb5125b59bc07f24e2996d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 03/58] fix: width_t saturated subtraction of large 64-bit
 integers

---
 include/strf/width_t.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/width_t.hpp b/include/strf/width_t.hpp
index 0423758..afb27e2 100644
--- a/include/strf/width_t.hpp
+++ b/include/strf/width_t.hpp
@@ -298,9 +298,9 @@ public:
     STRF_CONSTEXPR_IN_CXX14 STRF_HD width_t& sat_sub(detail::tag_i64, std::int64_t x) noexcept
     {
         using namespace strf::detail::cast_sugars;
-        if (x >= (cast_i64(max().value_) << 17))  {
+        if (x >= 0x10000) {
             value_ = min().value_;
-        } else if (x <= cast_i64(cast_u64(cast_i64(min().value_)) << 17)) {
+        } else if (x <= -0x10000) {
             value_ = max().value_;
         } else {
             auto result = value_ - cast_i64(cast_u64(cast_i64(x)) << 16);
-- 
2.43.0


From a226a37cb1f89704681a48260dd6163d1ca82af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:00 +0000
Subject: [PATCH 04/58] fix: alignment can not be added to integer with dynamic
 format

---
 include/strf/detail/printable_types/int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index eae51e1..c98d9ef 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -879,7 +879,7 @@ public:
     template <typename U>
     constexpr STRF_HD explicit int_format_specifier_full_dynamic_fn
         ( const int_format_specifier_full_dynamic_fn<U>& other)  noexcept
-        : data_(other.data_)
+        : data_(other.get_int_format())
     {
     }
 
-- 
2.43.0


From 5534e9bfbb2254719a910992aee319894b346bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 05/58] fix: fixed-size destinations lose track of their
 content when written after being full

---
 include/strf/destination.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/strf/destination.hpp b/include/strf/destination.hpp
index 8415cac..29b36bb 100644
--- a/include/strf/destination.hpp
+++ b/include/strf/destination.hpp
@@ -372,6 +372,10 @@ private:
 
     STRF_HD void do_write(const CharT* data, std::size_t) noexcept override
     {
+        if ( ! this->good()) {
+            this->set_buffer_ptr(garbage_buff<CharT>());
+            return;
+        }
         auto sub_count = this->buffer_space();
         auto *ptr = this->buffer_ptr();
 #if !defined(STRF_FREESTANDING) || defined(STRF_WITH_CSTRING)
@@ -507,6 +511,10 @@ private:
 
     STRF_HD void do_write(const CharT* data, std::size_t) noexcept override
     {
+        if ( ! this->good()) {
+            this->set_buffer_ptr(garbage_buff<CharT>());
+            return;
+        }
         auto sub_count = this->buffer_space();
         auto *ptr = this->buffer_ptr();
 #if !defined(STRF_FREESTANDING) || defined(STRF_WITH_CHAR_ARRAYING)
-- 
2.43.0


From 71df6359dc197144b47fe8f5821f3af8e153edcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 06/58] fix: windows-1254 encodes six unsupported letters as
 different ones

---
 include/strf/detail/single_byte_charsets.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index de410ca..16fa55e 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -2033,6 +2033,8 @@ STRF_FUNC_IMPL STRF_HD unsigned impl_windows_1254::encode_ext(char32_t ch) noexc
         case 0x20AC: return 0x80;
         case 0x2122: return 0x99;
         case 0xFFFD: return '?';
+        case 0xD0: case 0xDD: case 0xDE:
+        case 0xF0: case 0xFD: case 0xFE: return 0x100;
         default: return 0xA0 <= ch && ch <= 0xFF ? ch : 0x100;
     }
 }
-- 
2.43.0


From 757ac125a633d7567974937c152bf322ae1546ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 07/58] fix: windows-1258 encodes U+009F as the byte of another
 character

---
 include/strf/detail/single_byte_charsets.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index 16fa55e..7173a38 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -2401,7 +2401,7 @@ STRF_FUNC_IMPL STRF_HD unsigned impl_windows_1258::encode_ext(char32_t ch) noexc
     static const ch32_to_char char_map[] =
         { {0x0081, 0x81}, {0x008A, 0x8A}, {0x008D, 0x8D}, {0x008E, 0x8E}
         , {0x008F, 0x8F}, {0x0090, 0x90}, {0x009A, 0x9A}, {0x009D, 0x9D}
-        , {0x009E, 0x9E}, {0x009F, 0x9F}, {0x00A0, 0xA0}, {0x00A1, 0xA1}
+        , {0x009E, 0x9E}, {0x00A0, 0xA0}, {0x00A1, 0xA1}
         , {0x00A2, 0xA2}, {0x00A3, 0xA3}, {0x00A4, 0xA4}, {0x00A5, 0xA5}
         , {0x00A6, 0xA6}, {0x00A7, 0xA7}, {0x00A8, 0xA8}, {0x00A9, 0xA9}
         , {0x00AA, 0xAA}, {0x00AB, 0xAB}, {0x00AC, 0xAC}, {0x00AD, 0xAD}
-- 
2.43.0


From 31ba53c2866fec380e873c357d76702c27b15639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 08/58] fix: single-byte charsets misclassify UTF-32 code units
 U+D800, 0x110000 and negative wchar_t

---
 include/strf/detail/single_byte_charsets.hpp | 38 +++++++++++++-------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index 7173a38..4fe1af7 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -130,6 +130,18 @@ struct sbcs_never_has_invalid_seq_crtp
 template <typename T>
 struct sbcs_find_unsupported_codepoint_crtp
 {
+    template <typename CharT>
+    static constexpr STRF_HD bool is_invalid_utf32_lax(CharT ch) noexcept
+    {
+        return static_cast<char32_t>(ch) >= 0x110000;
+    }
+    template <typename CharT>
+    static constexpr STRF_HD bool is_invalid_utf32_strict(CharT ch) noexcept
+    {
+        return static_cast<char32_t>(ch) >= 0x110000
+            || (0xD800 <= static_cast<char32_t>(ch) && static_cast<char32_t>(ch) <= 0xFFFF);
+    }
+
     template <typename CharT>
     static STRF_HD strf::transcode_size_result<CharT> find_first_invalid_codepoint
         ( const CharT* src
@@ -143,14 +155,14 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                    if (is_invalid_utf32_strict(*it)) {
                         return {it - src, it, stop_reason::invalid_sequence};
                     }
                 }
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it >= 0x110000) {
+                if (is_invalid_utf32_lax(*it)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
             }
@@ -159,7 +171,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                if (is_invalid_utf32_strict(*it)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (it == src_limit) {
@@ -168,7 +180,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it >= 0x110000) {
+            if (is_invalid_utf32_lax(*it)) {
                 return {it - src, it, stop_reason::invalid_sequence};
             }
             if (it == src_limit) {
@@ -188,7 +200,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                    if (is_invalid_utf32_strict(*it)) {
                         return {it - src, it, stop_reason::invalid_sequence};
                     }
                     if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -198,7 +210,7 @@ struct sbcs_find_unsupported_codepoint_crtp
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it >= 0x110000) {
+                if (is_invalid_utf32_lax(*it)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -210,7 +222,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                if (is_invalid_utf32_strict(*it)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -222,7 +234,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it >= 0x110000) {
+            if (is_invalid_utf32_lax(*it)) {
                 return {it - src, it, stop_reason::invalid_sequence};
             }
             if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -246,7 +258,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if ( (*it <= 0xD800 || (0xFFFF <= *it && *it <= 0x10FFFF))
+                    if ( ! is_invalid_utf32_strict(*it)
                          && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                     {
                         return {it - src, it, stop_reason::unsupported_codepoint};
@@ -255,7 +267,7 @@ struct sbcs_find_unsupported_codepoint_crtp
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it <= 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
+                if ( ! is_invalid_utf32_lax(*it) && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
                     return {it - src, it, stop_reason::unsupported_codepoint};
                 }
             }
@@ -265,7 +277,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if ( (*it <= 0xD800 || (0xFFFF <= *it && *it <= 0x10FFFF))
+                if ( ! is_invalid_utf32_strict(*it)
                      && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                 {
                     return {it - src, it, stop_reason::unsupported_codepoint};
@@ -276,7 +288,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it <= 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
+            if ( ! is_invalid_utf32_lax(*it) && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
                 return {it - src, it, stop_reason::unsupported_codepoint};
             }
             if (it == src_limit) {
@@ -2666,7 +2678,7 @@ utf32_to_single_byte_charset<SrcCharT, DstCharT, Impl>::transcode
         unsigned ch = Impl::encode(detail::cast_u32(*src));
         STRF_IF_UNLIKELY (ch >= 0x100) {
             const bool is_invalid =
-                ( *src >= 0x110000
+                ( detail::cast_u32(*src) >= 0x110000
                || ( strf::with_strict_surrogate_policy(flags)
                  && 0xD800 <= *src
                  && *src <= 0xFFFF));
-- 
2.43.0


From be41c8e7bb04f4fd4e447b95dc3e2106b757a11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 09/58] fix: UTF-32 transcode_size accepts negative wchar_t as
 a valid code point

---
 include/strf/detail/utf.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 5740082..93e8f99 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -3010,13 +3010,13 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
     if (src_end - src <= limit) {
         if (strf::with_strict_surrogate_policy(flags)) {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
+                if (detail::cast_u32(*src) >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
             }
         } else {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000) {
+                if (detail::cast_u32(*src) >= 0x110000) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
             }
@@ -3025,7 +3025,7 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
         const auto* src_limit = src_begin + limit;
         if (strf::with_strict_surrogate_policy(flags)) {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
+                if (detail::cast_u32(*src) >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
                 if (src >= src_limit) {
@@ -3034,7 +3034,7 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
             }
         } else {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000) {
+                if (detail::cast_u32(*src) >= 0x110000) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
                 if (src >= src_limit) {
-- 
2.43.0


From 72dcacd931b322333e378653f793a50bfa453392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 10/58] fix: UTF-8 transcode_size stops one code unit before
 the limit

---
 include/strf/detail/utf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 93e8f99..46d407d 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -1948,7 +1948,7 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
         } else {
             size += 3;
         }
-        if (size >= limit) {
+        if (size > limit) {
             return {previous_size, previous_src, strf::transcode_stop_reason::insufficient_output_space};
         }
     }
-- 
2.43.0


From 421e7857f7fd336d3713136c410396cb9788f569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 11/58] fix: transcode_size to single-byte charsets stops at
 U+FFFD as if it were invalid

---
 include/strf/detail/single_byte_charsets.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index 4fe1af7..2255dc2 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -139,7 +139,8 @@ struct sbcs_find_unsupported_codepoint_crtp
     static constexpr STRF_HD bool is_invalid_utf32_strict(CharT ch) noexcept
     {
         return static_cast<char32_t>(ch) >= 0x110000
-            || (0xD800 <= static_cast<char32_t>(ch) && static_cast<char32_t>(ch) <= 0xFFFF);
+            || ( 0xD800 <= static_cast<char32_t>(ch) && static_cast<char32_t>(ch) <= 0xFFFF
+              && T::encode(static_cast<char32_t>(ch)) >= 0x100 );
     }
 
     template <typename CharT>
-- 
2.43.0


From ad148e4d466b05a43e90a9be1c9d4460c1314e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 12/58] fix: decode_unit of UTF-8 with signed char, and of
 UTF-32 with out of range units

---
 include/strf/detail/utf.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 46d407d..8fbd7ba 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -962,7 +962,7 @@ public:
 
     static STRF_HD char32_t decode_unit(CharT ch) noexcept
     {
-        STRF_IF_LIKELY (ch < 0x80)
+        STRF_IF_LIKELY (static_cast<std::uint8_t>(ch) < 0x80)
             return static_cast<char32_t>(ch);
         return 0xFFFD;
     }
@@ -1273,7 +1273,8 @@ public:
 
     static STRF_HD char32_t decode_unit(CharT ch) noexcept
     {
-        return static_cast<char32_t>(ch);
+        const auto ch32 = static_cast<char32_t>(ch);
+        return ch32 < 0x110000 ? ch32 : U'\uFFFD';
     }
     static STRF_HD strf::encode_char_f<CharT> encode_char_func() noexcept
     {
-- 
2.43.0


From 3c5b5fe08d3f3ad381f024c75777a28eff238a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 13/58] fix: unsafe_transcode_size from UTF-8 to UTF-32 stops
 in the middle of a character

---
 include/strf/detail/utf.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 8fbd7ba..134a00e 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -1672,11 +1672,12 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
         //               :              4);
     } else {
         for (;src_it < src_end; ++src_it) {
-            if (size >= limit){
+            const unsigned ch = detail::cast_u8(*src_it);
+            const bool starts_codepoint = detail::not_utf8_continuation(ch);
+            if (starts_codepoint && size >= limit){
                 return {size, src_it, strf::transcode_stop_reason::insufficient_output_space};
             }
-            const unsigned ch = detail::cast_u8(*src_it);
-            size += detail::not_utf8_continuation(ch);
+            size += starts_codepoint;
         }
     }
     return {size, src_end, strf::transcode_stop_reason::completed};
-- 
2.43.0


From 60ddc60a6a4a0a1e9a649bbce89353f9e6ec55a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 14/58] fix: std_width_calc::str_width_and_pos misses
 codepoints beyond the 32nd, and gives negative widths

---
 include/strf/detail/facets/width_calculator.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/strf/detail/facets/width_calculator.hpp b/include/strf/detail/facets/width_calculator.hpp
index d63a7ea..ed236c1 100644
--- a/include/strf/detail/facets/width_calculator.hpp
+++ b/include/strf/detail/facets/width_calculator.hpp
@@ -509,13 +509,16 @@ public:
         char32_t buff32[buff32_size];
         constexpr auto flags = strf::transcode_flags::none;
         const auto to_u32 = charset.to_u32();
+        limit = limit <= 0 ? 0 : limit;
         detail::std_width_calc_func_return resw{limit, 0, nullptr};
         while(1) {
             auto res_tr = to_u32.transcode(str, str_end, buff32, buff32 + buff32_size, nullptr, flags);
             resw = detail::std_width_calc_func
                 ( buff32, res_tr.dst_ptr, resw.remaining_width, resw.state, true );
 
-            if ( resw.remaining_width <= 0 ||
+            // when there is no remaining width, the last grapheme cluster may still
+            // have more codepoints, unless std_width_calc_func stopped before the end
+            if ( resw.ptr != res_tr.dst_ptr ||
                  res_tr.stop_reason != transcode_stop_reason::insufficient_output_space)
             {
                 const auto width = limit - resw.remaining_width;
-- 
2.43.0


From a85fb98f419bad587267152afedacecf00bfa9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 15/58] fix: strings with dynamic charsets do not compile for
 destinations other than of char

---
 include/strf/detail/printable_types/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/string.hpp b/include/strf/detail/printable_types/string.hpp
index ace8449..7a8989e 100644
--- a/include/strf/detail/printable_types/string.hpp
+++ b/include/strf/detail/printable_types/string.hpp
@@ -1598,7 +1598,7 @@ public:
         underlying_printer_().~clonable_polymorphic_printer();
     }
 
-    STRF_HD void operator()(strf::destination<char>& dst) const
+    STRF_HD void operator()(strf::destination<DstCharT>& dst) const
     {
         underlying_printer_().print_to(dst);
     }
@@ -1691,7 +1691,7 @@ public:
         underlying_printer_().~clonable_polymorphic_printer();
     }
 
-    STRF_HD void operator()(strf::destination<char>& dst) const
+    STRF_HD void operator()(strf::destination<DstCharT>& dst) const
     {
         underlying_printer_().print_to(dst);
     }
-- 
2.43.0


From fea7df46349bc484d0999cfc545fdf9423450cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 16/58] fix: reserve_calc with tr-strings does not compile for
 string targets

---
 include/strf/detail/reserve_policies.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/reserve_policies.hpp b/include/strf/detail/reserve_policies.hpp
index 0767317..e5e69f7 100644
--- a/include/strf/detail/reserve_policies.hpp
+++ b/include/strf/detail/reserve_policies.hpp
@@ -356,7 +356,7 @@ private:
         , std::initializer_list<const detail::polymorphic_printer<CharT>*> printers )
     {
         using dest_creator_t = detail::remove_cvref_t<DestCreator>;
-        using dest_type = typename dest_creator_t::destination_type;
+        using dest_type = typename dest_creator_t::sized_destination_type;
 
         using charset_cat = strf::charset_c<CharT>;
         auto charset = strf::get_facet<charset_cat, void>(fp);
-- 
2.43.0


From c0473ba81d03fa23ae9c17c65e6845e118c291e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 17/58] fix: strings printed verbatim are measured in the
 facet's charset instead of their own

---
 .../strf/detail/printable_types/string.hpp    | 63 +++++++++----------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/include/strf/detail/printable_types/string.hpp b/include/strf/detail/printable_types/string.hpp
index 7a8989e..b42dbe7 100644
--- a/include/strf/detail/printable_types/string.hpp
+++ b/include/strf/detail/printable_types/string.hpp
@@ -523,6 +523,33 @@ template <typename SrcCharT>
 struct string_printing;
 
 
+template <typename SrcCharT, typename Facets, typename FmtArg>
+constexpr STRF_HD auto do_get_src_charset(std::false_type, const Facets& facets, const FmtArg&)
+{
+    return strf::get_facet
+        <strf::charset_c<SrcCharT>, strf::string_input_tag<SrcCharT>>
+        ( facets );
+}
+
+template <typename SrcCharT, typename Facets, typename FmtArg>
+constexpr STRF_HD auto do_get_src_charset(std::true_type, const Facets&, const FmtArg& arg)
+{
+    return arg.get_charset();
+}
+
+template < typename FPack, typename SrcCharT, bool HasPrecision, bool HasAlignment
+         , typename Charset, transcoding_policy TranscPoli >
+constexpr STRF_HD auto get_src_charset
+    ( const FPack& facets
+    , const strf::value_and_format
+        < string_printing<SrcCharT>
+        , strf::detail::string_precision_format_specifier<HasPrecision>
+        , strf::alignment_format_specifier_q<HasAlignment>
+        , transcoding_format_specifier_q<SrcCharT, Charset, TranscPoli> >& arg )
+{
+    return strf::detail::do_get_src_charset<SrcCharT>(is_charset<Charset>(), facets, arg);
+}
+
 template <typename SrcCharT, typename DstCharT>
 class strcpy_printer
 {
@@ -565,7 +592,7 @@ public:
         STRF_IF_CONSTEXPR(PreMeasurements::width_demanded) {
             auto&& wcalc = get_facet_<strf::width_calculator_c>(facets);
             auto w = wcalc.str_width
-                ( get_facet_<strf::charset_c<SrcCharT>>(facets)
+                ( strf::detail::get_src_charset(facets, arg)
                 , pre->remaining_width()
                 , str_
                 , str_end_ );
@@ -588,7 +615,7 @@ public:
     {
         auto&& wcalc = get_facet_<strf::width_calculator_c>(facets);
         auto res = wcalc.str_width_and_pos
-            ( get_facet_<strf::charset_c<SrcCharT>>(facets)
+            ( strf::detail::get_src_charset(facets, arg)
             , arg.precision(), str_, arg.value().end() );
         str_end_ = res.ptr;
         pre->add_width(res.width);
@@ -642,7 +669,7 @@ public:
     {
 
         auto&& wcalc = get_facet_<strf::width_calculator_c>(facets);
-        auto src_charset = get_facet_<strf::charset_c<SrcCharT>>(facets);
+        auto src_charset = strf::detail::get_src_charset(facets, arg);
         auto dst_charset = get_facet_<strf::charset_c<DstCharT>>(facets);
         const strf::width_t limit =
             ( pre->remaining_width_greater_than(afmt_.width)
@@ -668,7 +695,7 @@ public:
         , afmt_(arg.get_alignment_format())
     {
         auto&& wcalc = get_facet_<strf::width_calculator_c>(facets);
-        auto src_charset = get_facet_<strf::charset_c<SrcCharT>>(facets);
+        auto src_charset = strf::detail::get_src_charset(facets, arg);
         auto dst_charset = get_facet_<strf::charset_c<DstCharT>>(facets);
         auto res = wcalc.str_width_and_pos
             ( src_charset, arg.precision(), str_, arg.value().end() );
@@ -763,34 +790,6 @@ void STRF_HD aligned_strcpy_printer<SrcCharT, DstCharT>::operator()
     }
 }
 
-
-template <typename SrcCharT, typename Facets, typename FmtArg>
-constexpr STRF_HD auto do_get_src_charset(std::false_type, const Facets& facets, const FmtArg&)
-{
-    return strf::get_facet
-        <strf::charset_c<SrcCharT>, strf::string_input_tag<SrcCharT>>
-        ( facets );
-}
-
-template <typename SrcCharT, typename Facets, typename FmtArg>
-constexpr STRF_HD auto do_get_src_charset(std::true_type, const Facets&, const FmtArg& arg)
-{
-    return arg.get_charset();
-}
-
-template < typename FPack, typename SrcCharT, bool HasPrecision, bool HasAlignment
-         , typename Charset, transcoding_policy TranscPoli >
-constexpr STRF_HD auto get_src_charset
-    ( const FPack& facets
-    , const strf::value_and_format
-        < string_printing<SrcCharT>
-        , strf::detail::string_precision_format_specifier<HasPrecision>
-        , strf::alignment_format_specifier_q<HasAlignment>
-        , transcoding_format_specifier_q<SrcCharT, Charset, TranscPoli> >& arg )
-{
-    return strf::detail::do_get_src_charset<SrcCharT>(is_charset<Charset>(), facets, arg);
-}
-
 template <typename SrcCharT, typename DstCharT>
 class transcode_printer
 {
-- 
2.43.0


From 326c2382521dec60113e63a721c6b6f294f738ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:44 +0000
Subject: [PATCH 18/58] fix: width and zero padding of integers count
 separators that can not be encoded, hence not printed

---
 include/strf/detail/printable_types/int.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index c98d9ef..16948cc 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -1788,6 +1788,7 @@ STRF_HD fmt_int_printer_data_init_result init_punct_fmt_int_printer_data
         if (sepsize == strf::invalid_char_len) {
             data.grouping = strf::digits_grouping{};
             data.sepsize = 0;
+            data.sepcount = 0;
         } else {
             data.sepsize = static_cast<int>(sepsize);
         }
-- 
2.43.0


From 509dc38e356b55ca472c800cf116c6782e1340eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:44 +0000
Subject: [PATCH 19/58] fix: overflow of width_t sums when aligning to huge
 widths

---
 include/strf/detail/premeasurements.hpp      | 4 ++--
 include/strf/detail/printable_types/char.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/premeasurements.hpp b/include/strf/detail/premeasurements.hpp
index bb325ef..84c73b7 100644
--- a/include/strf/detail/premeasurements.hpp
+++ b/include/strf/detail/premeasurements.hpp
@@ -31,7 +31,7 @@ public:
 
     STRF_CONSTEXPR_IN_CXX14 STRF_HD void add_width(strf::width_t w) noexcept
     {
-        width_ += w;
+        width_.sat_add(w);
     }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD void checked_add_width(strf::width_t w) noexcept
     {
@@ -55,7 +55,7 @@ public:
     }
     constexpr STRF_HD bool remaining_width_greater_than(strf::width_t w) const noexcept
     {
-        return width_ + w < limit_;
+        return strf::sat_add(width_, w) < limit_;
     }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD bool has_remaining_width() const noexcept
     {
diff --git a/include/strf/detail/printable_types/char.hpp b/include/strf/detail/printable_types/char.hpp
index f39a9f0..4ceb6e6 100644
--- a/include/strf/detail/printable_types/char.hpp
+++ b/include/strf/detail/printable_types/char.hpp
@@ -78,7 +78,7 @@ STRF_HD void fmt_char_printer<CharT>::init_
     int fillcount = 0;
     if (content_width < afmt_.width) {
         fillcount = (afmt_.width - content_width).round();
-        pre->add_width(content_width + static_cast<strf::width_t>(fillcount));
+        pre->add_width(strf::sat_add(content_width, fillcount));
     } else {
         fillcount = 0;
         pre->add_width(content_width);
@@ -209,7 +209,7 @@ void STRF_HD fmt_conv_char32_printer<DstCharT>::init_
     alignment_ = afmt.alignment;
     if (content_width < afmt.width) {
         fillcount_ = (afmt.width - content_width).round();
-        pre->add_width(content_width + static_cast<strf::width_t>(fillcount_));
+        pre->add_width(strf::sat_add(content_width, fillcount_));
     } else {
         fillcount_ = 0;
         pre->add_width(content_width);
-- 
2.43.0


From 0f3d8016781aa283603b32bf9bad7733e9615e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 20/58] fix: buffer overflow when printing punctuated binary
 integers

intdigits_writer<2>::write_little_sep wrote the most significant group of
digits without ensuring that the destination's buffer has space for it.
---
 include/strf/detail/int_digits.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/strf/detail/int_digits.hpp b/include/strf/detail/int_digits.hpp
index a14fcdb..224712f 100644
--- a/include/strf/detail/int_digits.hpp
+++ b/include/strf/detail/int_digits.hpp
@@ -1126,6 +1126,7 @@ public:
 
         UIntT mask = (UIntT)1 << (digcount - 1);
         auto dist = grouping.distribute(digcount);
+        dst.ensure(dist.highest_group);
         auto *oit = dst.buffer_ptr();
         auto *end = dst.buffer_end();
         while (dist.highest_group--) {
-- 
2.43.0


From 0288d57f4beae2450d94a722839be0c5c355fb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 21/58] fix: no_grouping ignored its decimal point

no_grouping::decimal_point() always returned U'.', and its decimal_point_
was left uninitialized by the default constructor.
---
 include/strf/detail/facets/numpunct.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/facets/numpunct.hpp b/include/strf/detail/facets/numpunct.hpp
index 063c4b1..ecdae5e 100644
--- a/include/strf/detail/facets/numpunct.hpp
+++ b/include/strf/detail/facets/numpunct.hpp
@@ -595,11 +595,11 @@ public:
     }
     constexpr STRF_HD char32_t decimal_point() const noexcept
     {
-        return U'.';
+        return decimal_point_;
     }
-    constexpr STRF_HD explicit operator strf::numpunct<Base> () const noexcept
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD explicit operator strf::numpunct<Base> () const noexcept
     {
-        return {};
+        return strf::numpunct<Base>{}.decimal_point(decimal_point_);
     }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD no_grouping& decimal_point(char32_t ch) & noexcept
     {
@@ -613,7 +613,7 @@ public:
     }
 
 private:
-    char32_t decimal_point_;
+    char32_t decimal_point_ = U'.';
 };
 
 template <int Base> struct numpunct_c
-- 
2.43.0


From 00b638dbecf20b70079f356f4dd08b20226fae31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 22/58] fix: digits_grouping_iterator could not be constructed
 from an empty digits_grouping

Its constructor asserted that current() != 0, whose precondition is that
there is a current group.
---
 include/strf/detail/facets/numpunct.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/facets/numpunct.hpp b/include/strf/detail/facets/numpunct.hpp
index ecdae5e..cd7c554 100644
--- a/include/strf/detail/facets/numpunct.hpp
+++ b/include/strf/detail/facets/numpunct.hpp
@@ -313,7 +313,7 @@ constexpr STRF_HD digits_grouping_iterator::digits_grouping_iterator
     ( digits_grouping g ) noexcept
     : digits_grouping_iterator(g.get_iterator())
 {
-    STRF_ASSERT_IN_CONSTEXPR(current() != 0);
+    STRF_ASSERT_IN_CONSTEXPR(ended() || current() != 0);
 }
 
 class digits_grouping_creator
-- 
2.43.0


From 77a093b2cb6befe4c60acb3509c29d98adfe5722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 23/58] fix: non-ASCII thousands separator of large
 floating-point values in single-byte charsets

It was cast to the destination character type instead of encoded in the
destination's charset.
---
 include/strf/detail/printable_types/float.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 34af085..c42fd89 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -2374,9 +2374,12 @@ STRF_HD void punct_double_printer<CharT>::print_fixed_
                                        , strf::lowercase );
             strf::detail::write_fill(dst, data_.e10, (CharT)'0');
         } else if (sep_size_ == 1) {
+            auto sep = static_cast<CharT>(thousands_sep_);
+            if (thousands_sep_ >= 0x80) {
+                encode_char_(&sep, thousands_sep_);
+            }
             strf::detail::print_amplified_integer_small_separator
-                ( dst, data_.m10, grouping_, data_.m10_digcount, data_.e10
-                , static_cast<CharT>(thousands_sep_) );
+                ( dst, data_.m10, grouping_, data_.m10_digcount, data_.e10, sep );
         } else {
             strf::detail::print_amplified_integer_big_separator
                 ( dst, encode_char_, data_.m10, grouping_, data_.m10_digcount
-- 
2.43.0


From cc0f98a5589f7ccaeb36f6f02674f8e1c561bdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:24 +0000
Subject: [PATCH 24/58] fix: rounding of hexadecimal floating-point values that
 affects the leading digit

---
 include/strf/detail/printable_types/float.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index c42fd89..566f55e 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -1609,9 +1609,10 @@ inline STRF_HD strf::detail::float_init_result init_hex_double_printer_data
                 auto d = 1ULL << s;
                 auto mask = d - 1;
                 auto mantissa_low = data.mantissa & mask;
+                const auto leading_bit = static_cast<std::uint64_t>(! data.subnormal) << 52;
                 if ( mantissa_low > (d >> 1)
-                 || (mantissa_low == (d >> 1) && (data.mantissa & d))) {
-                    data.mantissa += d;
+                 || (mantissa_low == (d >> 1) && ((data.mantissa | leading_bit) & d))) {
+                    data.mantissa += d; // may carry to the bit 52
                 }
                 data.mantissa_digcount = fdata.precision;
                 data.showpoint = fdata.precision || fdata.showpoint;
@@ -2494,7 +2495,8 @@ STRF_HD void punct_double_printer<CharT>::print_hexadecimal_
         dst.ensure(sub_size - 2 - data_.showsign);
         it = dst.buffer_ptr();
     }
-    *it ++ = static_cast<CharT>(0x30 | int(!data_.subnormal)); // '0' or  '1'
+    // '0' or '1' ( or '2', when the mantissa was rounded up )
+    *it ++ = static_cast<CharT>('0' + int(!data_.subnormal) + int(data_.mantissa >> 52));
     if (data_.showpoint) {
         if (decimal_point_ < 0x80) {
             *it ++ = static_cast<CharT>(decimal_point_);
-- 
2.43.0


From 9f720d968af32050d67e69c8cc1899045750ee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 25/58] fix: width of floating-point values that general
 notation rounds up to a power of ten

---
 include/strf/detail/printable_types/float.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 566f55e..92a21a2 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -1635,6 +1635,7 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_g
     , strf::text_alignment alignment
     , bool alt_form ) noexcept
 {
+    data.sep_count = 0;
     if (precision == 0) {
         precision = 1;
     }
@@ -1653,7 +1654,7 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_g
         data.sub_chars_count = data.showsign;
         if (data.e10 < 0) {
             data.showpoint = true;
-            data.sub_chars_count = 2 - data.e10;
+            data.sub_chars_count += 2 - data.e10;
             if (alt_form) {
                 data.extra_zeros = precision - 1;
                 data.sub_chars_count += data.extra_zeros;
@@ -1662,7 +1663,7 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_g
             data.showpoint = alt_form;
             const int int_digcount = 1 + data.e10;
             data.sep_count = grouping.separators_count(int_digcount);
-            data.sub_chars_count = 1 + data.e10 + data.sep_count + data.showpoint;
+            data.sub_chars_count += 1 + data.e10 + data.sep_count + data.showpoint;
             if (alt_form && precision > int_digcount) {
                 data.extra_zeros = precision - int_digcount;
                 data.sub_chars_count += data.extra_zeros;
-- 
2.43.0


From de55313031f3ab7c9c1dd7212737ad9b63a94db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 26/58] fix: thousands separators of fixed-notation values
 whose rounding adds an integral digit

---
 include/strf/detail/printable_types/float.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 92a21a2..be2febe 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -1923,6 +1923,9 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_f
                     } else {
                         data.extra_zeros = precision;
                         ++data.sub_chars_count;
+                        data.sub_chars_count -= data.sep_count;
+                        data.sep_count = grouping.separators_count(1 + data.e10);
+                        data.sub_chars_count += data.sep_count;
                     }
                 }
             }
-- 
2.43.0


From 34bd76b34c76556a8885683349dbd03e680fd1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 27/58] fix: fmt_separated_range of an initializer list does
 not compile

---
 include/strf/detail/printable_types/range.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/range.hpp b/include/strf/detail/printable_types/range.hpp
index 5dc2ebd..21dbfb9 100644
--- a/include/strf/detail/printable_types/range.hpp
+++ b/include/strf/detail/printable_types/range.hpp
@@ -818,8 +818,8 @@ template <typename T, typename CharT>
 inline STRF_HD auto fmt_separated_range(std::initializer_list<T> r, const CharT* sep) noexcept
     -> strf::sep_range_with_fmt<const T*, CharT>
 {
-    std::size_t sep_len = strf::detail::str_ssize<CharT>(sep);
-    strf::separated_range_p<const T*, CharT> rr
+    const auto sep_len = strf::detail::str_ssize<CharT>(sep);
+    const strf::separated_range_p<const T*, CharT> rr
     { r.begin(), r.end(), sep, sep_len };
     return strf::sep_range_with_fmt<const T*, CharT>{rr};
 }
-- 
2.43.0


From 81936a81dee6ee29671cae050a51e8a789a8b713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 28/58] fix: width overflow of an aligned join with a very
 negative width inside another

---
 include/strf/detail/printable_types/join.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/join.hpp b/include/strf/detail/printable_types/join.hpp
index 005978f..58ffba3 100644
--- a/include/strf/detail/printable_types/join.hpp
+++ b/include/strf/detail/printable_types/join.hpp
@@ -246,7 +246,7 @@ struct join_printing
         strf::width_t wdiff = 0;
         if (pre->remaining_width_greater_than(afmt.width)) {
             wmax = pre->remaining_width();
-            wdiff = wmax - afmt.width;
+            wdiff = strf::sat_sub(wmax, afmt.width);
         }
         sub_pre_t sub_pre{wmax};
         pf_type pf
-- 
2.43.0


From 1e9f8bc67629f2cf674708eec53cfa39c0598893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:43 +0000
Subject: [PATCH 29/58] fix: overflow of the pre-computed width of tr-strings

---
 include/strf/detail/tr_printer.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/strf/detail/tr_printer.hpp b/include/strf/detail/tr_printer.hpp
index 2ac8fdc..90312c3 100644
--- a/include/strf/detail/tr_printer.hpp
+++ b/include/strf/detail/tr_printer.hpp
@@ -161,7 +161,7 @@ public:
     STRF_CONSTEXPR_IN_CXX14 STRF_HD bool account_arg(std::ptrdiff_t index)
     {
         if (width_ < limit_) {
-            width_ += (index < array_size_ ? width_array_[index] : strf::width_t(1));
+            width_.sat_add(index < array_size_ ? width_array_[index] : strf::width_t(1));
             return width_ >= limit_;
         }
         return false;
@@ -169,7 +169,7 @@ public:
     STRF_CONSTEXPR_IN_CXX14 STRF_HD bool account_string(const CharT* begin, const CharT* end)
     {
         if (width_ < limit_) {
-            width_ += wcalc_.str_width(charset_, limit_ - width_, begin, end);
+            width_.sat_add(wcalc_.str_width(charset_, limit_ - width_, begin, end));
             return width_ >= limit_;
         }
         return false;
@@ -219,10 +219,10 @@ public:
     {
         if (index < array_size_) {
             size_ += size_array_[index];
-            width_ += width_array_[index];
+            width_.sat_add(width_array_[index]);
         } else {
             size_ += charset_.replacement_char_size();
-            width_ += 1;
+            width_.sat_add(strf::width_t(1));
         }
         return {};
     }
@@ -230,7 +230,9 @@ public:
         ( const CharT* begin, const CharT* end )
     {
         size_ += (end - begin);
-        width_ += wcalc_.str_width(charset_, limit_ - width_, begin, end);
+        if (width_ < limit_) {
+            width_.sat_add(wcalc_.str_width(charset_, limit_ - width_, begin, end));
+        }
         return {};
     }
     STRF_HD std::ptrdiff_t accumulated_ssize() const
-- 
2.43.0


From e84fa9797877565fe42fc0d8e0b8673fe8489805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:47 +0000
Subject: [PATCH 30/58] fix: width of an aligned join inside a join whose width
 is close to the maximum

---
 include/strf/detail/printable_types/join.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/join.hpp b/include/strf/detail/printable_types/join.hpp
index 58ffba3..f774bc7 100644
--- a/include/strf/detail/printable_types/join.hpp
+++ b/include/strf/detail/printable_types/join.hpp
@@ -258,7 +258,7 @@ struct join_printing
             ? (sub_pre.remaining_width() - wdiff).round()
             : 0 );
         pre->add_width
-            ( strf::sat_sub(strf::sat_add(wmax, pf.fillcount_), sub_pre.remaining_width()) );
+            ( strf::sat_add(strf::sat_sub(wmax, sub_pre.remaining_width()), pf.fillcount_) );
         STRF_IF_CONSTEXPR (static_cast<bool>(SizePresence)) {
             pre->add_size(sub_pre.accumulated_ssize());
             if (pf.fillcount_ > 0) {
-- 
2.43.0


From ffa38a8972f7d9b01d7b6c28ed2bcaa6ce121a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:16 +0000
Subject: [PATCH 31/58] fix: chained with() and copies of packs of constrained
 facets did not compile

---
 include/strf/facets_pack.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/strf/facets_pack.hpp b/include/strf/facets_pack.hpp
index f1eb9da..7a7cd1e 100644
--- a/include/strf/facets_pack.hpp
+++ b/include/strf/facets_pack.hpp
@@ -344,7 +344,7 @@ public:
     constexpr STRF_HD explicit fpe_wrapper
         ( const strf::constrained_fpe<Filter, FPE>& cfpe )
         noexcept(noexcept(F(std::declval<const F&>())))
-        : fpe_(cfpe.get())
+        : fpe_(cfpe)
     {
     }
 
@@ -354,7 +354,7 @@ public:
     constexpr STRF_HD explicit fpe_wrapper
         ( strf::constrained_fpe<Filter, FPE>&& cfpe )
         noexcept(noexcept(F(std::declval<F>())))
-        : fpe_(std::move(cfpe).get())
+        : fpe_(std::move(cfpe))
     {
     }
 
@@ -366,16 +366,16 @@ public:
         , strf::tag<Category>
         , std::integral_constant<bool, has_facet_<Category, Tag>()> ) const
     {
-        return strf::detail::do_get_facet<Category, Tag>(fpe_);
+        return strf::detail::do_get_facet<Category, Tag>(fpe_.get());
     }
 
-    constexpr STRF_HD const FPE& do_get_element
+    constexpr STRF_HD const strf::constrained_fpe<Filter, FPE>& do_get_element
         ( std::integral_constant<std::size_t, Rank::number> ) const
     {
         return fpe_;
     }
 
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD FPE& do_get_element
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD strf::constrained_fpe<Filter, FPE>& do_get_element
         ( std::integral_constant<std::size_t, Rank::number> )
     {
         return fpe_;
@@ -383,7 +383,7 @@ public:
 
 private:
 
-    FPE fpe_; // NOLINT(cppcoreguidelines-avoid-const-or-ref-data-members)
+    strf::constrained_fpe<Filter, FPE> fpe_; // NOLINT(cppcoreguidelines-avoid-const-or-ref-data-members)
 };
 
 template <typename Rank, typename FPE>
-- 
2.43.0


From f0eb48ff01c0110a9b8aa25bfa6e068689370137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:16 +0000
Subject: [PATCH 32/58] fix: representative type of printables not defined with
 printable_def

---
 include/strf/detail/printable_def.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_def.hpp b/include/strf/detail/printable_def.hpp
index 70490dd..04ba12d 100644
--- a/include/strf/detail/printable_def.hpp
+++ b/include/strf/detail/printable_def.hpp
@@ -451,7 +451,14 @@ namespace detail {
 template <typename PrintableDef>
 struct representative_from_printable_def
 {
-    using type = PrintableDef;
+    template <typename U>
+    static STRF_HD strf::tag<typename U::representative> test_(const U*);
+
+    template <typename U>
+    static STRF_HD strf::tag<PrintableDef> test_(...);
+
+    using tag_type = decltype(test_<PrintableDef>((PrintableDef*)nullptr));
+    using type = typename tag_type::type;
 };
 
 template <typename P>
-- 
2.43.0


From 78547ebda8eaffb250e80b2e18cda3eaf5934093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:07 +0000
Subject: [PATCH 33/58] fix: tr() with facets_pack lvalues among its leading
 facets was ill-formed

---
 include/strf/detail/separate_args_and_print.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/strf/detail/separate_args_and_print.hpp b/include/strf/detail/separate_args_and_print.hpp
index 1df9fe2..eaa8d6f 100644
--- a/include/strf/detail/separate_args_and_print.hpp
+++ b/include/strf/detail/separate_args_and_print.hpp
@@ -107,7 +107,8 @@ struct first_is_fpe<>
 template <typename Arg0, typename... OtherArgs>
 struct first_is_fpe<Arg0, OtherArgs...>
 {
-    static constexpr bool value = strf::detail::is_fpe<Arg0>::value;
+    static constexpr bool value =
+        strf::detail::is_fpe<strf::detail::remove_cvref_t<Arg0>>::value;
 };
 
 template <bool FirstIsFpe, typename... Args>
-- 
2.43.0


From cd40c706119b300470f2afb90f71bc8d18fe6569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 34/58] fix: constrained tr error notifiers were not applied by
 .tr()

---
 include/strf/detail/reserve_policies.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/reserve_policies.hpp b/include/strf/detail/reserve_policies.hpp
index e5e69f7..2065fad 100644
--- a/include/strf/detail/reserve_policies.hpp
+++ b/include/strf/detail/reserve_policies.hpp
@@ -281,10 +281,10 @@ private:
         auto fp = strf::pack((Fpes&&)fpes...);
 
         using charset_cat = strf::charset_c<CharT>;
-        auto charset = strf::get_facet<charset_cat, void>(fp);
+        auto charset = strf::get_facet<charset_cat, strf::tr_string_tag<CharT>>(fp);
 
         using err_handler_cat = strf::tr_error_notifier_c;
-        auto&& err_handler = strf::get_facet<err_handler_cat, void>(fp);
+        auto&& err_handler = strf::get_facet<err_handler_cat, strf::tr_string_tag<CharT>>(fp);
 
         detail::tr_string_write
             ( dst, charset, err_handler, tr_string.begin(), tr_string.end()
@@ -359,10 +359,10 @@ private:
         using dest_type = typename dest_creator_t::sized_destination_type;
 
         using charset_cat = strf::charset_c<CharT>;
-        auto charset = strf::get_facet<charset_cat, void>(fp);
+        auto charset = strf::get_facet<charset_cat, strf::tr_string_tag<CharT>>(fp);
 
         using err_handler_cat = strf::tr_error_notifier_c;
-        auto&& err_handler = strf::get_facet<err_handler_cat, void>(fp);
+        auto&& err_handler = strf::get_facet<err_handler_cat, strf::tr_string_tag<CharT>>(fp);
 
         auto invalid_arg_size = charset.replacement_char_size();
         const std::ptrdiff_t size = strf::detail::tr_string_size
-- 
2.43.0


From df1f65a5f2e81d5f557c9eb4f8d9aa36cda8e1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 35/58] fix: reserve() was missing when the reserve policy is
 reserve_given_space

---
 include/strf/printing_syntax.hpp | 36 +++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/include/strf/printing_syntax.hpp b/include/strf/printing_syntax.hpp
index 9c000d5..b06d19d 100644
--- a/include/strf/printing_syntax.hpp
+++ b/include/strf/printing_syntax.hpp
@@ -275,38 +275,50 @@ public:
         return poli_;
     }
 
-    template < typename FP = strf::facets_pack<FPEs...>
+    template < typename IntT
+             , typename FP = strf::facets_pack<FPEs...>
              , typename DC = DestCreator
              , strf::detail::enable_if_t
-                 < std::is_copy_constructible<FP>::value
+                 < std::is_integral<IntT>::value
+                && std::is_copy_constructible<FP>::value
                 && std::is_copy_constructible<DC>::value
                  , int > = 0 >
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_ reserve_given_space(std::size_t space) const &
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_ reserve(IntT space) const &
     {
         auto& self = static_cast<const this_pss_&>(*this);
-        return {self.dest_creator_, reserve_policy_t{space}, self.fpack_};
+        return { self.dest_creator_
+               , reserve_policy_t{detail::safe_cast_size_t(space)}
+               , self.fpack_ };
     }
 
-    template < typename FP = strf::facets_pack<FPEs...>
+    template < typename IntT
+             , typename FP = strf::facets_pack<FPEs...>
              , typename DC = DestCreator
              , strf::detail::enable_if_t
-                 < std::is_copy_constructible<FP>::value
+                 < std::is_integral<IntT>::value
+                && std::is_copy_constructible<FP>::value
                 && std::is_copy_constructible<DC>::value
                  , int > = 0 >
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_ reserve_given_space(std::size_t space) const &&
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_ reserve(IntT space) const &&
     {
         auto& self = static_cast<const this_pss_&>(*this);
-        return {self.dest_creator_, reserve_policy_t{space}, self.fpack_};
+        return { self.dest_creator_
+               , reserve_policy_t{detail::safe_cast_size_t(space)}
+               , self.fpack_ };
     }
 
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_& reserve_given_space(std::size_t space) &
+    template < typename IntT
+             , strf::detail::enable_if_t<std::is_integral<IntT>::value, int> =0>
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_& reserve(IntT space) &
     {
-        poli_.space = space;
+        poli_.space = detail::safe_cast_size_t(space);
         return static_cast<pss_<reserve_policy_t>&>(*this);
     }
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_&& reserve_given_space(std::size_t space) &&
+    template < typename IntT
+             , strf::detail::enable_if_t<std::is_integral<IntT>::value, int> =0>
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_&& reserve(IntT space) &&
     {
-        poli_.space = space;
+        poli_.space = detail::safe_cast_size_t(space);
         return static_cast<pss_<reserve_policy_t>&&>(*this);
     }
 };
-- 
2.43.0


From c3a1e01085254ec8b74853fdcfec7cb81513a29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 36/58] fix: basic_sized_string_maker remained good after
 finish()

---
 include/strf/to_string.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/strf/to_string.hpp b/include/strf/to_string.hpp
index d769397..d729b51 100644
--- a/include/strf/to_string.hpp
+++ b/include/strf/to_string.hpp
@@ -225,6 +225,11 @@ public:
 
     void recycle() override
     {
+        STRF_IF_UNLIKELY ( ! this->good()) {
+            this->set_buffer_ptr(strf::garbage_buff<CharT>());
+            this->set_buffer_end(strf::garbage_buff_end<CharT>());
+            return;
+        }
         const auto original_size = detail::safe_cast_size_t(this->buffer_ptr() - str_.data());
         constexpr std::size_t min_buff_size = strf::min_destination_buffer_size;
         auto append_size = strf::detail::max<std::size_t>(original_size, min_buff_size);
@@ -235,8 +240,15 @@ public:
 
     std::basic_string<CharT, Traits, Allocator> finish()
     {
-        str_.resize(detail::safe_cast_size_t(this->buffer_ptr() - str_.data()));
-        return std::move(str_);
+        STRF_IF_LIKELY (this->good()) {
+            this->set_good(false);
+            const auto count = detail::safe_cast_size_t(this->buffer_ptr() - str_.data());
+            this->set_buffer_ptr(strf::garbage_buff<CharT>());
+            this->set_buffer_end(strf::garbage_buff_end<CharT>());
+            str_.resize(count);
+            return std::move(str_);
+        }
+        return {};
     }
 
 private:
-- 
2.43.0


From 9fb16ce12af3aeccbc622b7ae2db43e017ccb485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 37/58] fix: exceptions from the destination terminated the
 program while printing floats or fill characters

---
 include/strf/detail/printable_types/float.hpp | 16 ++++++++--------
 include/strf/detail/utf.hpp                   |  6 +++---
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index be2febe..3d7e74e 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -2315,16 +2315,16 @@ public:
 private:
 
     STRF_HD void print_fixed_
-        ( strf::destination<CharT>& dst ) const noexcept;
+        ( strf::destination<CharT>& dst ) const;
 
     STRF_HD void print_scientific_
-        ( strf::destination<CharT>& dst ) const noexcept;
+        ( strf::destination<CharT>& dst ) const;
 
     STRF_HD void print_hexadecimal_
-        ( strf::destination<CharT>& dst ) const noexcept;
+        ( strf::destination<CharT>& dst ) const;
 
     STRF_HD void print_inf_or_nan_
-        ( strf::destination<CharT>& dst ) const noexcept;
+        ( strf::destination<CharT>& dst ) const;
 
     strf::encode_char_f<CharT> encode_char_ = nullptr;
     strf::encode_fill_f<CharT> encode_fill_;
@@ -2364,7 +2364,7 @@ STRF_HD void punct_double_printer<CharT>::operator()
 
 template <typename CharT>
 STRF_HD void punct_double_printer<CharT>::print_fixed_
-    ( strf::destination<CharT>& dst ) const noexcept
+    ( strf::destination<CharT>& dst ) const
 {
     if (data_.showsign) {
         put(dst, static_cast<CharT>(data_.sign));
@@ -2465,7 +2465,7 @@ STRF_HD void punct_double_printer<CharT>::print_fixed_
 
 template <typename CharT>
 STRF_HD void punct_double_printer<CharT>::print_scientific_
-    ( strf::destination<CharT>& dst ) const noexcept
+    ( strf::destination<CharT>& dst ) const
 {
     if (data_.showsign) {
         put(dst, static_cast<CharT>(data_.sign));
@@ -2481,7 +2481,7 @@ STRF_HD void punct_double_printer<CharT>::print_scientific_
 
 template <typename CharT>
 STRF_HD void punct_double_printer<CharT>::print_hexadecimal_
-    ( strf::destination<CharT>& dst ) const noexcept
+    ( strf::destination<CharT>& dst ) const
 {
     const auto sub_size = data_.sub_chars_count + decimal_point_size_ - data_.showpoint;
     STRF_ASSERT(data_.showpoint == (decimal_point_size_ != 0));
@@ -2548,7 +2548,7 @@ STRF_HD void punct_double_printer<CharT>::print_hexadecimal_
 
 template <typename CharT>
 STRF_HD void punct_double_printer<CharT>::print_inf_or_nan_
-    ( strf::destination<CharT>& dst ) const noexcept
+    ( strf::destination<CharT>& dst ) const
 {
     if (data_.showsign) {
         put(dst, static_cast<CharT>(data_.sign));
diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 134a00e..f3d34bb 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -28,7 +28,7 @@ inline STRF_HD void repeat_sequence
     ( strf::transcode_dst<CharT>& dst
     , std::ptrdiff_t count
     , CharT ch0
-    , CharT ch1 ) noexcept
+    , CharT ch1 )
 {
     auto *p = dst.buffer_ptr();
     constexpr std::ptrdiff_t seq_size = 2;
@@ -61,7 +61,7 @@ inline STRF_HD void repeat_sequence
     , std::ptrdiff_t count
     , CharT ch0
     , CharT ch1
-    , CharT ch2 ) noexcept
+    , CharT ch2 )
 {
     auto *p = dst.buffer_ptr();
     constexpr std::ptrdiff_t seq_size = 3;
@@ -96,7 +96,7 @@ inline STRF_HD void repeat_sequence
     , CharT ch0
     , CharT ch1
     , CharT ch2
-    , CharT ch3 ) noexcept
+    , CharT ch3 )
 {
     auto *p = dst.buffer_ptr();
     constexpr std::ptrdiff_t seq_size = 4;
-- 
2.43.0


From 1b9b5c781d1dd39fb298ee03fc46b61479be05f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 38/58] fix: basic_streambuf_writer kept on writing after a
 short write

---
 include/strf/to_streambuf.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/strf/to_streambuf.hpp b/include/strf/to_streambuf.hpp
index 755bc40..cc83b05 100644
--- a/include/strf/to_streambuf.hpp
+++ b/include/strf/to_streambuf.hpp
@@ -86,7 +86,9 @@ private:
         STRF_IF_LIKELY (this->good()) {
             this->set_good(false);
             auto count_inc = dst_.sputn(buf_, count);
-            count_inc += dst_.sputn(str,  str_slen);
+            if (count_inc == count) {
+                count_inc += dst_.sputn(str,  str_slen);
+            }
             count_ += count_inc;
             this->set_good(count_inc == count + str_slen);
         }
-- 
2.43.0


From 9abeb5a28f7544d47376c0eda03c1c7cae90cb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 39/58] fix: basic_streambuf_writer remained good after the
 streambuf threw in recycle()

---
 include/strf/to_streambuf.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/strf/to_streambuf.hpp b/include/strf/to_streambuf.hpp
index cc83b05..a48b6c7 100644
--- a/include/strf/to_streambuf.hpp
+++ b/include/strf/to_streambuf.hpp
@@ -51,6 +51,7 @@ public:
         const std::streamsize count = this->buffer_ptr() - buf_;
         this->set_buffer_ptr(buf_);
         STRF_IF_LIKELY (this->good()) {
+            this->set_good(false); // in case the following code throws
             auto count_inc = dst_.sputn(buf_, count);
             count_ += count_inc;
             this->set_good(count_inc == count);
-- 
2.43.0


From 625dbe3529220d54f640ebf40a66f773a103543f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 40/58] fix: grouping strings terminated with CHAR_MAX, as in
 std::lconv, were discarded

---
 include/strf/detail/facets/numpunct.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/facets/numpunct.hpp b/include/strf/detail/facets/numpunct.hpp
index cd7c554..43427b0 100644
--- a/include/strf/detail/facets/numpunct.hpp
+++ b/include/strf/detail/facets/numpunct.hpp
@@ -410,7 +410,7 @@ STRF_FUNC_IMPL STRF_HD digits_grouping::digits_grouping(const char* str) noexcep
             *this = creator.finish();
             break;
         }
-        if (0 != (ch & 0x80)) {
+        if (ch == '\x7F' || 0 != (ch & 0x80)) { // CHAR_MAX, as in std::lconv, or '\xFF'
             *this = creator.finish_no_more_sep();
             break;
         }
-- 
2.43.0


From af751d343232072a0e2b3a1657279f8c40785223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:35 +0000
Subject: [PATCH 41/58] fix: the library did not compile with STRF_FREESTANDING
 (std::abs without <cstdlib>)

---
 include/strf/detail/printable_types/float.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 3d7e74e..c0d671a 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -1135,7 +1135,7 @@ STRF_HD void print_scientific_notation
 
     unsigned adv = 4;
     CharT* it = nullptr;
-    int abs_e10 = std::abs(exponent);
+    int abs_e10 = (exponent < 0 ? -exponent : exponent);
     STRF_ASSERT(abs_e10 < 1000);
 
     if (abs_e10 >= 100) {
@@ -1355,7 +1355,7 @@ STRF_HD void fast_double_printer<CharT>::operator()
         }
         it[0] = static_cast<CharT>('E' | ((lettercase_ != strf::uppercase) << 5));
         it[1] = static_cast<CharT>('+' + ((e10 < 0) << 1));
-        int abs_e10 = std::abs(e10);
+        int abs_e10 = (e10 < 0 ? -e10 : e10);
         if (abs_e10 >= 100) {
             it[4] = static_cast<CharT>('0' + abs_e10 % 10);
             abs_e10 /= 10;
@@ -1827,7 +1827,7 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_s
         data.m10_digcount += xz;
 #if defined(__GNUC__) && __GNUC__ <= 10
         // silent a false warning of GCC
-        data.m10_digcount = std::abs(data.m10_digcount);
+        data.m10_digcount = (data.m10_digcount < 0 ? -data.m10_digcount : data.m10_digcount);
 #endif
         data.e10 -= xz;
         auto p10 = strf::detail::pow10(-xz);
-- 
2.43.0


From 2e63f0b9be655f4d12ba4a415bcb8a0f60762108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:06 +0000
Subject: [PATCH 42/58] fix: buffer overflow when printing an unaligned decimal
 integer with a sign format

`+strf::dec(x)` and `~strf::fmt(x)` ensured 1 character only, because of the
precedence of != over +.
---
 include/strf/detail/printable_types/int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index 16948cc..fd6998c 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -1355,7 +1355,7 @@ public:
 
     STRF_HD void operator()(strf::destination<CharT>& dst) const
     {
-        dst.ensure(data_.digcount + data_.prefix != 0);
+        dst.ensure(data_.digcount + (data_.prefix != 0));
         auto *it = dst.buffer_ptr();
         if (data_.prefix != 0) {
             *it++ = static_cast<CharT>(data_.prefix);
-- 
2.43.0


From 9a27933530142fa13d3afd17742af4b72fcc8ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:57 +0000
Subject: [PATCH 43/58] fix: clear_alignment_format() did not exist on values
 without alignment

---
 include/strf/detail/format_functions.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/strf/detail/format_functions.hpp b/include/strf/detail/format_functions.hpp
index 1789fb3..d9a87f6 100644
--- a/include/strf/detail/format_functions.hpp
+++ b/include/strf/detail/format_functions.hpp
@@ -235,6 +235,10 @@ public:
             , strf::tag<strf::alignment_format_specifier_q<true>>{}
             , data };
     }
+    constexpr STRF_HD T clear_alignment_format() const
+    {
+        return self_downcast_();
+    }
     constexpr static STRF_HD strf::default_alignment_format get_alignment_format() noexcept
     {
         return {};
-- 
2.43.0


From ac4d2ee940b46dcae2aff6e6ef708cba7afd93b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:57 +0000
Subject: [PATCH 44/58] fix: ambiguous
 set_alignment_format(default_alignment_format) on rvalues

---
 include/strf/detail/format_functions.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/strf/detail/format_functions.hpp b/include/strf/detail/format_functions.hpp
index d9a87f6..9d68783 100644
--- a/include/strf/detail/format_functions.hpp
+++ b/include/strf/detail/format_functions.hpp
@@ -132,6 +132,15 @@ public:
     {
         return { self_downcast_(), strf::tag<strf::alignment_format_specifier_q<false>>{} };
     }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD
+    auto set_alignment_format(strf::default_alignment_format) &&
+        -> strf::fmt_replace
+            < T
+            , strf::alignment_format_specifier_q<true>
+            , strf::alignment_format_specifier_q<false> >
+    {
+        return { self_downcast_(), strf::tag<strf::alignment_format_specifier_q<false>>{} };
+    }
     constexpr STRF_HD auto clear_alignment_format() const
         -> strf::fmt_replace
             < T
-- 
2.43.0


From 80ec6a71de1df2da530fc08658604df4af742ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:57 +0000
Subject: [PATCH 45/58] fix: ambiguous set_float_format(default_float_format)
 on rvalues

---
 include/strf/detail/printable_types/float.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index c0d671a..e624603 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -523,6 +523,14 @@ public:
                , format };
     }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD
+    strf::fmt_replace<T, float_format_specifier_no_punct, float_format_specifier>
+    set_float_format(strf::default_float_format format) && noexcept
+    {
+        return { self_downcast_()
+               , strf::tag<float_format_specifier>{}
+               , format };
+    }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD
     strf::fmt_replace<T, float_format_specifier_no_punct, float_format_specifier_full_dynamic>
     set_float_format(strf::float_format format) const & noexcept
     {
@@ -674,6 +682,14 @@ public:
                , strf::tag<float_format_specifier>{}
                , format };
     }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD
+    strf::fmt_replace<T, float_format_specifier_full_dynamic, float_format_specifier>
+    set_float_format(strf::default_float_format format) && noexcept
+    {
+        return { self_downcast_()
+               , strf::tag<float_format_specifier>{}
+               , format };
+    }
     constexpr STRF_HD strf::float_notation float_notation() const noexcept
     {
         return data_.notation;
-- 
2.43.0


From d819787f2e528a7d39f39e1892159fdd34255bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:57 +0000
Subject: [PATCH 46/58] fix: ambiguous or ill-formed set_int_format() calls on
 rvalues

---
 include/strf/detail/printable_types/int.hpp | 54 ++++++++++++++++-----
 1 file changed, 42 insertions(+), 12 deletions(-)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index fd6998c..d2855ac 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -546,14 +546,16 @@ public:
     {
         return data_;
     }
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD T&& set_int_format
-        ( strf::int_format_no_pad0_nor_punct<Base> data ) && noexcept
+    template <int B>
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD strf::detail::enable_if_t<Base == B, T&&>
+    set_int_format( strf::int_format_no_pad0_nor_punct<B> data ) && noexcept
     {
         data_ = data;
         return static_cast<T&&>(*this);
     }
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD T& set_int_format
-        ( strf::int_format_no_pad0_nor_punct<Base> data ) & noexcept
+    template <int B>
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD strf::detail::enable_if_t<Base == B, T&>
+    set_int_format( strf::int_format_no_pad0_nor_punct<B> data ) & noexcept
     {
         data_ = data;
         return static_cast<T&>(*this);
@@ -577,9 +579,11 @@ public:
     constexpr STRF_HD strf::fmt_replace
         < T, int_format_specifier_no_pad0_nor_punct<Base>
         , default_int_format_specifier >
-    set_int_format(strf::default_int_format) const & noexcept
+    set_int_format(strf::default_int_format data) const & noexcept
     {
-        return { * static_cast<const T*>(this) };
+        return { *static_cast<const T*>(this)
+               , strf::tag<strf::default_int_format_specifier>{}
+               , data };
     }
     constexpr STRF_HD full_dynamic_t_
     set_int_format(strf::int_format_full_dynamic new_data) const & noexcept
@@ -796,14 +800,16 @@ public:
     {
         return data_;
     }
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD T&& set_int_format
-        ( strf::int_format_static_base_and_punct<Base, Punctuate> data ) && noexcept
+    template <int B, bool P>
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD strf::detail::enable_if_t<Base == B && Punctuate == P, T&&>
+    set_int_format( strf::int_format_static_base_and_punct<B, P> data ) && noexcept
     {
         data_ = data;
         return static_cast<T&&>(*this);
     }
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD T& set_int_format
-        ( strf::int_format_static_base_and_punct<Base, Punctuate> data ) & noexcept
+    template <int B, bool P>
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD strf::detail::enable_if_t<Base == B && Punctuate == P, T&>
+    set_int_format( strf::int_format_static_base_and_punct<B, P> data ) & noexcept
     {
         data_ = data;
         return static_cast<T&>(*this);
@@ -826,9 +832,11 @@ public:
         < T
         , int_format_specifier_static_base_and_punct<Base, Punctuate>
         , default_int_format_specifier >
-    set_int_format(strf::default_int_format) const & noexcept
+    set_int_format(strf::default_int_format data) const & noexcept
     {
-        return { * static_cast<const T*>(this) };
+        return { *static_cast<const T*>(this)
+               , strf::tag<strf::default_int_format_specifier>{}
+               , data };
     }
     constexpr STRF_HD
     strf::fmt_replace
@@ -1047,6 +1055,28 @@ public:
             , strf::tag<strf::default_int_format_specifier>{}
             , data };
     }
+    template <int Base, bool Punctuate>
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD
+    strf::fmt_replace< T
+                     , int_format_specifier_full_dynamic
+                     , int_format_specifier_static_base_and_punct<Base, Punctuate> >
+    set_int_format(strf::int_format_static_base_and_punct<Base, Punctuate> data) && noexcept
+    {
+        return
+            { *static_cast<const T*>(this)
+            , strf::tag<strf::int_format_specifier_static_base_and_punct<Base, Punctuate>>{}
+            , data };
+
+    }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD
+    strf::fmt_replace<T, int_format_specifier_full_dynamic, default_int_format_specifier >
+    set_int_format(strf::default_int_format data) && noexcept
+    {
+        return
+            { *static_cast<const T*>(this)
+            , strf::tag<strf::default_int_format_specifier>{}
+            , data };
+    }
 
     constexpr STRF_HD const int_format_full_dynamic& get_int_format() const
     {
-- 
2.43.0


From 141dadea05e30739af0650f422aad7f87f8ce11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:57 +0000
Subject: [PATCH 47/58] fix: static_base_and_punct specifier alias ignored its
 base argument

---
 include/strf/detail/printable_types/int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index d2855ac..16acec7 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -386,7 +386,7 @@ private:
     template <int OtherBase, bool Punctuate>
     using static_base_and_punct_t_ = strf::fmt_replace
         < T, int_format_specifier_no_pad0_nor_punct<Base>
-        , int_format_specifier_static_base_and_punct<Base, Punctuate> >;
+        , int_format_specifier_static_base_and_punct<OtherBase, Punctuate> >;
 
     using full_dynamic_t_ = strf::fmt_replace
         < T, int_format_specifier_no_pad0_nor_punct<Base>
-- 
2.43.0


From c556fe6c37be222fd19149bfa54523e971947dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:57 +0000
Subject: [PATCH 48/58] fix: value_and_format constructor cast a const value to
 a non-const rvalue

---
 include/strf/detail/value_and_format.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/value_and_format.hpp b/include/strf/detail/value_and_format.hpp
index dbf2e16..b2692b8 100644
--- a/include/strf/detail/value_and_format.hpp
+++ b/include/strf/detail/value_and_format.hpp
@@ -326,7 +326,7 @@ public:
               < typename Fmts
              :: template fn<value_and_format<OtherPrintableDef, Fmts...>> &&>(std::move(f)) )
         ...
-        , value_(static_cast<value_type&&>(v))
+        , value_(v)
     {
     }
 
-- 
2.43.0


From ad8bd3ebc5758e00f61fd7fa938b6dc8819ccd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:01 +0000
Subject: [PATCH 49/58] fix: base(int) on a formatted integer dropped its
 precision, zero padding, sign and base prefix

---
 include/strf/detail/printable_types/int.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index 16acec7..d7d8118 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -783,9 +783,8 @@ public:
         , int_format_specifier_full_dynamic >
     base(int b) const
     {
-        int_format_full_dynamic data;
+        int_format_full_dynamic data = data_;
         data.base = b;
-        data.punctuate = Punctuate;
         return { *static_cast<const T*>(this)
                , strf::tag<int_format_specifier_full_dynamic>{}
                , data };
-- 
2.43.0


From ba927a0013c038ece994e05842f28d64ee0c0a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:24 +0000
Subject: [PATCH 50/58] fix: width_as_u32len: don't assert on strings wider
 than width_max

---
 include/strf/detail/facets/width_calculator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/facets/width_calculator.hpp b/include/strf/detail/facets/width_calculator.hpp
index ed236c1..68c8cad 100644
--- a/include/strf/detail/facets/width_calculator.hpp
+++ b/include/strf/detail/facets/width_calculator.hpp
@@ -134,7 +134,7 @@ public:
         STRF_ASSERT(str <= str_end);
         auto lim = limit.non_negative_ceil();
         auto res = charset.count_codepoints(str, str_end, lim);
-        STRF_ASSERT(res.count <= strf::width_max.floor());
+        STRF_ASSERT(res.count <= strf::width_max.ceil());
         return strf::width_t::sat_cast(res.count);
     }
 
-- 
2.43.0


From 4394c6eaecc89324a2f1a84cf4b42721969f37f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:38 +0000
Subject: [PATCH 51/58] fix: in a tr-string, pass the converted argument to
 make_printer

make_polymorphic_printer passed the argument as given by the user, even
when PrintableDef::make_printer only accepts the value without formats.
---
 include/strf/detail/printing_helpers.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/strf/detail/printing_helpers.hpp b/include/strf/detail/printing_helpers.hpp
index fcd7a76..69c0669 100644
--- a/include/strf/detail/printing_helpers.hpp
+++ b/include/strf/detail/printing_helpers.hpp
@@ -371,7 +371,9 @@ struct printer_wrapper_maker_without_premeasurements
         , const Arg& arg )
    {
        strf::no_premeasurements no_pre;
-       return tof.make_printer(strf::tag<CharT>{}, &no_pre, fp, arg);
+       return tof.make_printer
+           ( strf::tag<CharT>{}, &no_pre, fp
+           , PrintableArgConverter::convert_printable_arg(arg) );
    }
 };
 
-- 
2.43.0


From 4bccec2a6572cdee01408a7c0c774f9668ec8127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:13 +0000
Subject: [PATCH 52/58] fix: strf::fmt did not compile for types convertible to
 an aggregate forwarded_type

---
 include/strf/detail/printable_def.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/printable_def.hpp b/include/strf/detail/printable_def.hpp
index 04ba12d..71096e3 100644
--- a/include/strf/detail/printable_def.hpp
+++ b/include/strf/detail/printable_def.hpp
@@ -307,9 +307,9 @@ inline namespace format_functions {
 
 template <typename T>
 constexpr STRF_HD fmt_type<T> fmt(T&& value)
-    noexcept(noexcept(fmt_type<T>{fmt_value_type<T>{value}}))
+    noexcept(noexcept(fmt_type<T>{static_cast<fmt_value_type<T>>(value)}))
 {
-    return fmt_type<T>{fmt_value_type<T>{value}};
+    return fmt_type<T>{static_cast<fmt_value_type<T>>(value)};
 }
 
 #else //defined (STRF_NO_GLOBAL_CONSTEXPR_VARIABLE)
@@ -324,9 +324,9 @@ struct fmt_fn
              , typename FmtType = fmt_type<T>
              , typename FmtValueType = typename FmtType::value_type >
     constexpr STRF_HD fmt_type<T> operator()(T&& value) const
-        noexcept(noexcept(FmtType{FmtValueType{(T&&)value}}))
+        noexcept(noexcept(FmtType{static_cast<FmtValueType>((T&&)value)}))
     {
-        return FmtType{FmtValueType{(T&&)value}};
+        return FmtType{static_cast<FmtValueType>((T&&)value)};
     }
 
     template < typename T
-- 
2.43.0


From dd5c218342c042d85e0581573314a1ee991db037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:56 +0000
Subject: [PATCH 53/58] fix: printing_syntax::no_reserve() const& did not
 compile when changing the policy

---
 include/strf/printing_syntax.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/strf/printing_syntax.hpp b/include/strf/printing_syntax.hpp
index b06d19d..998418e 100644
--- a/include/strf/printing_syntax.hpp
+++ b/include/strf/printing_syntax.hpp
@@ -76,7 +76,8 @@ public:
     {
         const auto& self = static_cast<const this_pss_&>(*this);
         return { self.dest_creator_
-               , self.fpack_};
+               , new_poli_{}
+               , self.fpack_ };
     }
 
     STRF_CONSTEXPR_IN_CXX14 STRF_HD new_pss_ no_reserve() &&
-- 
2.43.0


From 8db58b09f8f3da58665dd65725ac267960be9b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:56 +0000
Subject: [PATCH 54/58] fix: printing_syntax::with() without arguments did not
 compile on lvalues

---
 include/strf/printing_syntax.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/printing_syntax.hpp b/include/strf/printing_syntax.hpp
index 998418e..c6a7371 100644
--- a/include/strf/printing_syntax.hpp
+++ b/include/strf/printing_syntax.hpp
@@ -449,7 +449,7 @@ public:
 
     STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_& with() &
     {
-        return static_cast<this_pss_&&>(*this);
+        return static_cast<this_pss_&>(*this);
     }
 
     constexpr STRF_HD const this_pss_&& with() const &&
@@ -459,7 +459,7 @@ public:
 
     constexpr STRF_HD const this_pss_& with() const &
     {
-        return static_cast<const this_pss_&&>(*this);
+        return static_cast<const this_pss_&>(*this);
     }
 };
 
-- 
2.43.0


From b3476532f84085db84e35ebff7931cb9b40615a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:25 +0000
Subject: [PATCH 55/58] fix: find_transcoder looked for the wrong member to
 tell whether a charset has find_transcoder_to

---
 include/strf/detail/facets/charset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/facets/charset.hpp b/include/strf/detail/facets/charset.hpp
index d005123..8327109 100644
--- a/include/strf/detail/facets/charset.hpp
+++ b/include/strf/detail/facets/charset.hpp
@@ -834,7 +834,7 @@ class has_find_transcoder_to_impl
     template < typename D
              , typename S
              , typename = decltype
-                 ( std::declval<const S&>().find_transcoder_from
+                 ( std::declval<const S&>().find_transcoder_to
                    (strf::tag<D>(), strf::csid_utf8) ) >
     static std::true_type test(strf::tag<D> dtag, const S* s);
 
-- 
2.43.0


From 0230e5d41a56a4d720e2a56700e9baa7dcf0cc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:18 +0000
Subject: [PATCH 56/58] fix: let exceptions of width calculators pass through
 characters and strings

make_printer calls the width calculator facet, which may be provided by the
user, but was marked noexcept.
---
 include/strf/detail/printable_types/char.hpp   | 10 +++++-----
 include/strf/detail/printable_types/string.hpp |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/strf/detail/printable_types/char.hpp b/include/strf/detail/printable_types/char.hpp
index 4ceb6e6..65e1472 100644
--- a/include/strf/detail/printable_types/char.hpp
+++ b/include/strf/detail/printable_types/char.hpp
@@ -291,7 +291,7 @@ struct char_printing
         ( strf::tag<DstCharT>
         , PreMeasurements* pre
         , const FPack& facets
-        , SrcCharT x ) noexcept
+        , SrcCharT x )
         -> strf::detail::char_printer<DstCharT>
     {
         static_assert( std::is_same<SrcCharT, DstCharT>::value, "Character type mismatch.");
@@ -312,7 +312,7 @@ struct char_printing
         ( strf::tag<DstCharT>
         , PreMeasurements* pre
         , const FPack& facets
-        , strf::value_and_format<T...> arg ) noexcept
+        , strf::value_and_format<T...> arg )
         -> strf::detail::fmt_char_printer<DstCharT>
     {
         return {pre, facets, arg};
@@ -344,7 +344,7 @@ struct printable_def<char32_t>
         ( strf::tag<DstCharT>
         , PreMeasurements* pre
         , const FPack& facets
-        , char32_t x ) noexcept
+        , char32_t x )
     {
         return detail::char_printing<char32_t>::make_printer
             ( strf::tag<char32_t>(), pre, facets, x );
@@ -356,7 +356,7 @@ struct printable_def<char32_t>
         ( strf::tag<DstCharT>
         , PreMeasurements* pre
         , const FPack& facets
-        , char32_t x ) noexcept
+        , char32_t x )
         -> strf::detail::conv_char32_printer<DstCharT>
     {
         auto encoding = strf::get_facet<charset_c<DstCharT>, char32_t>(facets);
@@ -376,7 +376,7 @@ struct printable_def<char32_t>
         ( strf::tag<DstCharT>
         , PreMeasurements* pre
         , const FPack& fp
-        , strf::value_and_format<F...> x ) noexcept
+        , strf::value_and_format<F...> x )
         -> detail::conditional_t
             < std::is_same<DstCharT, char32_t>::value
             , strf::detail::fmt_char_printer<DstCharT>
diff --git a/include/strf/detail/printable_types/string.hpp b/include/strf/detail/printable_types/string.hpp
index b42dbe7..4ac65b9 100644
--- a/include/strf/detail/printable_types/string.hpp
+++ b/include/strf/detail/printable_types/string.hpp
@@ -1742,7 +1742,7 @@ struct string_printing
         ( strf::tag<DstCharT>
         , PreMeasurements* pre
         , const FPack& facets
-        , forwarded_type arg ) noexcept
+        , forwarded_type arg )
         -> detail::strcpy_printer<SrcCharT, DstCharT>
     {
         static_assert
@@ -1763,7 +1763,7 @@ struct string_printing
             < string_printing<SrcCharT>
             , string_precision_format_specifier<HasPrecision>
             , strf::alignment_format_specifier_q<HasAlignment>
-            , transcoding_format_specifier_q<SrcCharT, Charset, TranscPoli> >& arg ) noexcept
+            , transcoding_format_specifier_q<SrcCharT, Charset, TranscPoli> >& arg )
 
         -> typename string_printer_type
             < HasAlignment
-- 
2.43.0


From cd51321df18d79bc13b4ab96737dea8119f4874d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:19 +0000
Subject: [PATCH 57/58] fix: let exceptions of basic_string::reserve pass
 through strf::append

basic_string_appender_creator::create(size) was marked noexcept.
---
 include/strf/to_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/to_string.hpp b/include/strf/to_string.hpp
index d729b51..c7dc719 100644
--- a/include/strf/to_string.hpp
+++ b/include/strf/to_string.hpp
@@ -301,7 +301,7 @@ public:
     {
         return *str_;
     }
-    std::basic_string<CharT, Traits, Allocator>& create(std::size_t size) const noexcept
+    std::basic_string<CharT, Traits, Allocator>& create(std::size_t size) const
     {
         if (size > 0) {
             str_->reserve(str_->size() + size);
-- 
2.43.0


From f1e5e7217e8fc3ca75e6dc431eef522b6cc6b626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:19 +0000
Subject: [PATCH 58/58] fix: destroy the string of basic_string_maker when
 reserve throws

---
 include/strf/to_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/to_string.hpp b/include/strf/to_string.hpp
index c7dc719..1365d08 100644
--- a/include/strf/to_string.hpp
+++ b/include/strf/to_string.hpp
@@ -189,10 +189,10 @@ void basic_string_maker<CharT, Traits, Allocator>::do_write(const CharT* str, st
         this->set_good(false); // in case the following code throws
         if ( ! string_initialized_) {
             new (string_ptr()) string_type_();
+            string_initialized_ = true;
             string_ptr()->reserve((buf_count + str_len) << 1);
             string_ptr()->append(buf_, buf_count);
             string_ptr()->append(str, str_len);
-            string_initialized_ = true;
         } else {
             string_ptr()->append(buf_, buf_count);
             string_ptr()->append(str, str_len);
-- 
2.43.0

