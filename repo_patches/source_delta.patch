From d2a652d775fce11d2504c7d398864c8ede331a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:27 +0000
Subject: [PATCH 01/39] fix: keep the FILE locked while putting characters back

posix_stdio_file_interface released the stdio lock around ungetc(), so
another thread could read from the stream between the pushback of two
characters of a single rollback. flockfile is recursive, there is no need
to release it.
---
 include/scn/scan.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 255f789..9025a26 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -4947,14 +4947,10 @@ struct posix_stdio_file_interface : stdio_file_interface_base<File> {
         return static_cast<char>(res);
     }
 
-    void prepare_putback()
-    {
-        unlock();
-    }
-    void finalize_putback()
-    {
-        lock();
-    }
+    // `flockfile` is recursive, so the lock doesn't need to be (and, to keep
+    // the scan atomic, must not be) released for `ungetc`
+    void prepare_putback() {}
+    void finalize_putback() {}
 
     bool putback(char ch)
     {
-- 
2.43.0


From 5a93c34d586c91a490a55df3ae78cd280b0b16a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:27 +0000
Subject: [PATCH 02/39] fix: nested scans on segmented sources lost or repeated
 input

basic_scan_ref_buffer decided from the wrong condition whether the parent
buffer needs to be filled, and read past the end of the putback buffer when
it started inside the current segment.
---
 include/scn/scan.h | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 9025a26..6736ad4 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -5124,8 +5124,11 @@ public:
           m_starting_pos(starting_pos)
     {
         this->m_current_view = other.get_segment_starting_at(starting_pos);
-        m_fill_needs_to_propagate = other.get_segment_starting_at(0).end() ==
-                                    this->m_current_view.end();
+        // If we're starting from inside the putback buffer of `other`, the next
+        // segment is the current view of `other`, and nothing needs to be read
+        m_fill_needs_to_propagate =
+            starting_pos >=
+            static_cast<std::ptrdiff_t>(other.putback_buffer().size());
     }
 
     basic_scan_ref_buffer(std::basic_string_view<CharT> view)
@@ -5142,9 +5145,18 @@ public:
 
         if (m_fill_needs_to_propagate) {
             auto ret = m_other->fill();
-            this->m_current_view = m_other->current_view();
-            this->m_putback_buffer =
-                m_other->putback_buffer().substr(m_starting_pos);
+            const auto putback_size =
+                static_cast<std::ptrdiff_t>(m_other->putback_buffer().size());
+            if (m_starting_pos < putback_size) {
+                this->m_putback_buffer =
+                    m_other->putback_buffer().substr(m_starting_pos);
+                this->m_current_view = m_other->current_view();
+            }
+            else {
+                this->m_putback_buffer.clear();
+                this->m_current_view =
+                    m_other->get_segment_starting_at(m_starting_pos);
+            }
             return ret;
         }
 
-- 
2.43.0


From c9e4e75a3febf08fb20076ad5b81b94c8a9cf050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:27 +0000
Subject: [PATCH 03/39] fix: don't treat a source with unread segments as
 contiguous

is_segment_contiguous returned true for the last segment read so far, even
though more input can follow it, so values were cut at a buffer boundary.
---
 src/scn/impl.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 676a9e5..ba516e6 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -996,11 +996,9 @@ bool is_segment_contiguous(Range r)
                    ranges::end(r).contiguous_segment().end();
         }
         else {
-            if (beg.stores_parent()) {
-                return beg.contiguous_segment().end() ==
-                       beg.parent()->current_view().end();
-            }
-            return true;
+            // If the iterator stores its parent, more input may follow the
+            // segments that have been read so far
+            return !beg.stores_parent();
         }
     }
     else {
-- 
2.43.0


From fcc68f6e161a9c2cf7dcd9e9bdc0908ebf27a90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:27 +0000
Subject: [PATCH 04/39] fix: syncing a never-read FILE asserted

---
 src/scn/impl.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index ba516e6..c00eae9 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -1203,8 +1203,11 @@ bool basic_scan_file_buffer<FileInterface>::sync(std::ptrdiff_t position)
             return true;
         }
 
-        m_file.unsafe_advance_n(position - static_cast<std::ptrdiff_t>(
-                                               this->putback_buffer().size()));
+        const auto n = position - static_cast<std::ptrdiff_t>(
+                                      this->putback_buffer().size());
+        if (n != 0) {
+            m_file.unsafe_advance_n(n);
+        }
         return true;
     }
 
-- 
2.43.0


From 7c2dc0153c1c9881c138abedbd15ed0bb6087399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:27 +0000
Subject: [PATCH 05/39] fix: whitespace code points split across segments
 weren't recognised

---
 src/scn/impl.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index c00eae9..29de64d 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -2182,6 +2182,24 @@ auto read_while_code_point(Range range, function_ref<bool(char32_t)> pred)
     return read_until_code_point(range, std::not_fn(pred));
 }
 
+// Drop an incomplete code point from the end of `seg`.
+// Needed, when `seg` is only the beginning of a larger non-contiguous range.
+inline std::string_view without_partial_code_point_at_end(std::string_view seg)
+{
+    const auto n = std::min(seg.size(), std::size_t{3});
+    for (std::size_t i = 1; i <= n; ++i) {
+        const auto ch = seg[seg.size() - i];
+        if ((static_cast<unsigned char>(ch) & 0xc0) == 0x80) {
+            continue;
+        }
+        if (detail::code_point_length_by_starting_code_unit(ch) > i) {
+            seg.remove_suffix(i);
+        }
+        break;
+    }
+    return seg;
+}
+
 template <typename Range>
 auto read_until_classic_space(Range range) -> ranges::const_iterator_t<Range>
 {
@@ -2197,7 +2215,8 @@ auto read_until_classic_space(Range range) -> ranges::const_iterator_t<Range>
         auto it = range.begin();
 
         if constexpr (std::is_same_v<detail::char_t<Range>, char>) {
-            auto seg = get_contiguous_beginning(range);
+            auto seg = without_partial_code_point_at_end(
+                get_contiguous_beginning(range));
             if (auto seg_it = find_classic_space_narrow_fast(seg);
                 seg_it != seg.end()) {
                 return ranges::next(it, ranges::distance(seg.begin(), seg_it));
@@ -2226,7 +2245,8 @@ auto read_while_classic_space(Range range) -> ranges::const_iterator_t<Range>
         auto it = range.begin();
 
         if constexpr (std::is_same_v<detail::char_t<Range>, char>) {
-            auto seg = get_contiguous_beginning(range);
+            auto seg = without_partial_code_point_at_end(
+                get_contiguous_beginning(range));
             if (auto seg_it = find_classic_nonspace_narrow_fast(seg);
                 seg_it != seg.end()) {
                 return ranges::next(it, ranges::distance(seg.begin(), seg_it));
-- 
2.43.0


From 418a57ec7993275240c19e0695541104a93082a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:11 +0000
Subject: [PATCH 06/39] fix: hexfloats without an integral part or digits
 depended on the source kind

"0x.8" and "0x" (read as "0") were accepted from a contiguous source, but
rejected from a non-contiguous one.
---
 src/scn/impl.h | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 29de64d..fd1b796 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -3958,9 +3958,12 @@ private:
         std::ptrdiff_t digits_count = 0;
         if (auto r = read_hex_digits(ranges::subrange{it, range.end()}, true);
             SCN_UNLIKELY(!r)) {
-            return r.transform_error(map_parse_error_to_scan_error(
-                scan_error::invalid_scanned_value,
-                "Invalid hexadecimal floating-point value"));
+            // The integral part can be omitted after a "0x" prefix
+            if (m_kind != float_kind::hex_with_prefix) {
+                return r.transform_error(map_parse_error_to_scan_error(
+                    scan_error::invalid_scanned_value,
+                    "Invalid hexadecimal floating-point value"));
+            }
         }
         else {
             digits_count += ranges::distance(it, *r);
@@ -4072,20 +4075,26 @@ private:
             return *r;
         }
 
+        // "0x" not followed by a hexfloat is just the "0"
+        auto read_hex_after_prefix = [&](ranges::const_iterator_t<Range> it)
+            -> scan_expected<ranges::const_iterator_t<Range>> {
+            m_kind = float_kind::hex_with_prefix;
+            if (auto r = read_hex(ranges::subrange{it, range.end()});
+                SCN_LIKELY(r)) {
+                return *r;
+            }
+            return ranges::next(range.begin());
+        };
+
         if (allowed_hex && !allowed_nonhex) {
             // only hex allowed:
             // prefix "0x" allowed, not required
-            auto it = range.begin();
-
             if (auto r = read_hex_prefix(range)) {
-                m_kind = float_kind::hex_with_prefix;
-                it = *r;
-            }
-            else {
-                m_kind = float_kind::hex_without_prefix;
+                return read_hex_after_prefix(*r);
             }
 
-            return read_hex(ranges::subrange{it, range.end()});
+            m_kind = float_kind::hex_without_prefix;
+            return read_hex(range);
         }
         if (!allowed_hex && allowed_nonhex) {
             // only nonhex allowed:
@@ -4098,8 +4107,7 @@ private:
         // regular otherwise
 
         if (auto r = read_hex_prefix(range); SCN_UNLIKELY(r)) {
-            m_kind = float_kind::hex_with_prefix;
-            return read_hex(ranges::subrange{*r, range.end()});
+            return read_hex_after_prefix(*r);
         }
 
         m_kind = float_kind::generic;
-- 
2.43.0


From 75afedec46316ffbe40f209ffd57f22408db0cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:11 +0000
Subject: [PATCH 07/39] fix: scanning %Z with no time zone name in the input
 crashed

---
 src/scn/impl.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index f97c748..5c2a629 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3152,11 +3152,9 @@ public:
                 }
             }());
         if (!res) {
-            set_error(res.error());
-        }
-        else {
-            setter::set_tz_name(*this, m_tm, m_st, std::move(res->value()));
+            return set_error(res.error());
         }
+        setter::set_tz_name(*this, m_tm, m_st, std::move(res->value()));
         m_begin = res->begin();
     }
 
-- 
2.43.0


From 546bff2799c1a4f649cd0b443a09fbe5ef0f8903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:46 +0000
Subject: [PATCH 08/39] fix: control characters were accepted in place of
 digits in prefixes

fast_streq_nocase ignored the 0x20 bit of every character, so that
"\x10x9" was read as "0x9", if all of the differing characters differed in
that bit. Non-contiguous sources used another comparison, and rejected it.
---
 src/scn/impl.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index fd1b796..57f4bdf 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -2335,14 +2335,17 @@ auto read_matching_string_classic(Range range, std::string_view str)
     }
 }
 
-// Ripped from fast_float
+// `b` must be in lower case
 constexpr bool fast_streq_nocase(const char* a, const char* b, size_t len)
 {
-    unsigned char running_diff{0};
+    bool differs = false;
     for (size_t i = 0; i < len; ++i) {
-        running_diff |= static_cast<unsigned char>(a[i] ^ b[i]);
+        const auto ch = (a[i] >= 'A' && a[i] <= 'Z')
+                            ? static_cast<char>(a[i] + ('a' - 'A'))
+                            : a[i];
+        differs |= (ch != b[i]);
     }
-    return running_diff == 0 || running_diff == 32;
+    return !differs;
 }
 
 template <typename Range>
-- 
2.43.0


From 7b0c9a6c9b5fad4ce16d5c33eb361b422dd9ab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:46 +0000
Subject: [PATCH 09/39] fix: don't replace a scanning error with "Argument list
 not exhausted"

When an argument other than the last one failed to scan, the error reported
was always invalid_format_string.
---
 src/scn/impl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 5c2a629..a392bfd 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1416,6 +1416,11 @@ struct format_handler_base {
 
     void check_args_exhausted()
     {
+        if (SCN_UNLIKELY(!error)) {
+            // Keep the original error
+            return;
+        }
+
         {
             const auto args_count_lower64 = args_count >= 64 ? 64 : args_count;
             const uint64_t mask = args_count_lower64 == 64
-- 
2.43.0


From 9d3cf991dda0ac65da1701e05ef2a025bec150a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:46 +0000
Subject: [PATCH 10/39] fix: out-of-bounds access when scanning 64 or more
 arguments

---
 src/scn/impl.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index a392bfd..b4eb96c 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1409,8 +1409,8 @@ private:
 struct format_handler_base {
     format_handler_base(size_t argcount) : args_count(argcount)
     {
-        if (SCN_UNLIKELY(args_count >= 64)) {
-            visited_args_upper.resize((args_count - 64) / 8);
+        if (SCN_UNLIKELY(args_count > 64)) {
+            visited_args_upper.resize((args_count - 64 + 7) / 8);
         }
     }
 
@@ -1433,7 +1433,7 @@ struct format_handler_base {
             }
         }
 
-        if (args_count < 64) {
+        if (args_count <= 64) {
             return;
         }
 
@@ -1447,7 +1447,7 @@ struct format_handler_base {
             last_args_count -= 8;
         }
 
-        const auto mask = static_cast<uint8_t>(1u << last_args_count) - 1;
+        const auto mask = static_cast<uint8_t>((1u << last_args_count) - 1);
         if (visited_args_upper.back() != mask) {
             return on_error({scan_error::invalid_format_string,
                              "Argument list not exhausted"});
-- 
2.43.0


From 1e4bfd036f5f1a1da07ac079e21ef14c16cc894b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:13 +0000
Subject: [PATCH 11/39] fix: a scan could continue past a read error

A failing read was taken as the end of the input in one place, and retried
in the next, so that a single value could be put together from the input
before and after the error. Treat the first failure as the end of the input
for the rest of the scan.
---
 include/scn/scan.h |  1 +
 src/scn/impl.h     | 10 +++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 6736ad4..ca04dd3 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -5096,6 +5096,7 @@ public:
 private:
     FileInterface m_file;
     std::optional<char_type> m_latest{std::nullopt};
+    bool m_at_end{false};
 };
 
 struct scan_file_buffer : public basic_scan_file_buffer<stdio_file_interface> {
diff --git a/src/scn/impl.h b/src/scn/impl.h
index 57f4bdf..be815b8 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -1146,6 +1146,12 @@ basic_scan_file_buffer<FileInterface>::~basic_scan_file_buffer()
 template <typename FileInterface>
 bool basic_scan_file_buffer<FileInterface>::fill()
 {
+    if (m_at_end) {
+        // EOF or a read error was already seen during this scan:
+        // don't continue with what comes after it
+        return false;
+    }
+
     if (!this->m_current_view.empty()) {
         this->m_putback_buffer.insert(this->m_putback_buffer.end(),
                                       this->m_current_view.begin(),
@@ -1161,11 +1167,13 @@ bool basic_scan_file_buffer<FileInterface>::fill()
             m_file.fill_buffer();
         }
         m_current_view = m_file.buffer();
-        return !this->m_current_view.empty();
+        m_at_end = this->m_current_view.empty();
+        return !m_at_end;
     }
 
     this->m_latest = m_file.read_one();
     if (!this->m_latest) {
+        m_at_end = true;
         this->m_current_view = {};
         return false;
     }
-- 
2.43.0


From a6f5ba952cbb058b5b61e47b393d83e8dd234893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:58 +0000
Subject: [PATCH 12/39] fix: scanning a float changed the locale of the process
 on current glibc

glibc >= 2.26 has no xlocale.h, which made scanning a float fall back to
setlocale(LC_NUMERIC, "C") around strtod: other threads could observe the
change, and a locale set with uselocale() still affected the result.
strtod_l and newlocale are available from the regular headers.
---
 src/scn/impl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index b4eb96c..0dc4160 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -88,8 +88,13 @@ SCN_GCC_POP
 
 #if !((__GLIBC__ > 2) || ((__GLIBC__ == 2) && (__GLIBC_MINOR__ > 25)))
 #include <xlocale.h>
-#define SCN_XLOCALE SCN_XLOCALE_POSIX
+#else
+// No xlocale.h since 2.26
+#include <clocale>
+#include <cstdlib>
+#include <cwchar>
 #endif  // __GLIBC__ <= 2.25
+#define SCN_XLOCALE SCN_XLOCALE_POSIX
 
 #elif defined(__FreeBSD_version) && __FreeBSD_version >= 1000010
 
-- 
2.43.0


From 194a5359f53383134babf6d3ced1808f9ae55f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:06 +0000
Subject: [PATCH 13/39] fix: reading a malformed code point asserted

Scanning a char32_t or a wchar_t from narrow input assumed that the input
was valid, instead of reporting invalid_scanned_value.
---
 src/scn/impl.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index be815b8..00d542a 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5660,9 +5660,13 @@ public:
             return detail::unexpected_scan_error(
                 scan_error::invalid_scanned_value, "Invalid code point");
         }
-        cp = detail::decode_code_point_exhaustive_valid(
+        cp = detail::decode_code_point_exhaustive(
             std::basic_string_view<detail::char_t<SourceRange>>{
                 result.codepoint});
+        if (SCN_UNLIKELY(cp >= detail::invalid_code_point)) {
+            return detail::unexpected_scan_error(
+                scan_error::invalid_scanned_value, "Invalid code point");
+        }
         return result.iterator;
     }
 };
-- 
2.43.0


From 99aad705ccdeeba9cc6e6edf3798ea6c1e84441a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:06 +0000
Subject: [PATCH 14/39] fix: scanning an integer into a char discarded the
 value

---
 src/scn/impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 00d542a..ea6536b 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5751,7 +5751,7 @@ public:
         reader_impl_for_int<CharT> reader{};
         signed char tmp_value{};
         auto ret = reader.read_specs(range, specs, tmp_value, loc);
-        value = static_cast<signed char>(value);
+        value = static_cast<char>(tmp_value);
         return ret;
     }
 };
-- 
2.43.0


From 07914bd6caf3f305113097672a3e348e5828c434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:22 +0000
Subject: [PATCH 15/39] fix: incrementing an iterator over a buffered source
 read ahead of need

scn::input<std::string>("{}") on an interactive stream had to wait for
input after the newline that already decided its result.
---
 include/scn/scan.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index ca04dd3..f211e3c 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -4501,8 +4501,9 @@ public:
 
     forward_iterator& operator++()
     {
+        // Don't read the next character before it's needed:
+        // with an interactive source, it may not be available yet
         ++m_position;
-        (void)read_at_position();
         return *this;
     }
 
-- 
2.43.0


From 601e2f04bfc65c9258ba5baad06880294eda1d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:22 +0000
Subject: [PATCH 16/39] fix: matching a string read past the first mismatch

Scanning a floating-point number or a textual boolean from an interactive
stream could wait for input past the end of the line.
---
 src/scn/impl.h | 70 +++++++++++++++++++-------------------------------
 1 file changed, 27 insertions(+), 43 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index ea6536b..6655ced 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -2300,47 +2300,41 @@ auto read_matching_code_point(Range range, char32_t cp)
     return val.iterator;
 }
 
+// Stops at the first code unit that doesn't match, in order not to read any
+// further from the source than necessary
+template <typename Range, typename Str, typename Equal>
+auto read_matching_code_units(Range range, Str str, Equal equal)
+    -> parse_expected<ranges::const_iterator_t<Range>>
+{
+    auto it = range.begin();
+    for (auto ch : str) {
+        if (it == range.end()) {
+            return unexpected(make_eof_parse_error(eof_error::eof));
+        }
+        if (!equal(*it, ch)) {
+            return unexpected(parse_error::error);
+        }
+        ++it;
+    }
+    return it;
+}
+
 template <typename Range>
 auto read_matching_string(Range range,
                           std::basic_string_view<detail::char_t<Range>> str)
     -> parse_expected<ranges::const_iterator_t<Range>>
 {
-    SCN_TRY(it, read_exactly_n_code_units(
-                    range, static_cast<std::ptrdiff_t>(str.size()))
-                    .transform_error(make_eof_parse_error));
-
-    auto sv = make_contiguous_buffer(ranges::subrange{range.begin(), it});
-    if (SCN_UNLIKELY(sv.view() != str)) {
-        return unexpected(parse_error::error);
-    }
-    return it;
+    return read_matching_code_units(range, str,
+                                    [](auto a, auto b) { return a == b; });
 }
 
 template <typename Range>
 auto read_matching_string_classic(Range range, std::string_view str)
     -> parse_expected<ranges::const_iterator_t<Range>>
 {
-    SCN_TRY(it, read_exactly_n_code_units(
-                    range, static_cast<std::ptrdiff_t>(str.size()))
-                    .transform_error(make_eof_parse_error));
-
-    if constexpr (std::is_same_v<detail::char_t<Range>, char>) {
-        auto sv = make_contiguous_buffer(ranges::subrange{range.begin(), it});
-        if (SCN_UNLIKELY(sv.view() != str)) {
-            return unexpected(parse_error::error);
-        }
-        return it;
-    }
-    else {
-        auto range_it = range.begin();
-        for (size_t i = 0; i < str.size(); ++i, (void)++range_it) {
-            if (SCN_UNLIKELY(*range_it !=
-                             static_cast<detail::char_t<Range>>(str[i]))) {
-                return unexpected(parse_error::error);
-            }
-        }
-        return it;
-    }
+    return read_matching_code_units(range, str, [](auto a, char b) {
+        return a == static_cast<detail::char_t<Range>>(b);
+    });
 }
 
 // `b` must be in lower case
@@ -2381,19 +2375,9 @@ auto read_matching_string_classic_nocase(Range range, std::string_view str)
                                           static_cast<char_type>('a' - 'A'));
         };
 
-        SCN_TRY(it, read_exactly_n_code_units(
-                        range, static_cast<std::ptrdiff_t>(str.size()))
-                        .transform_error(make_eof_parse_error));
-
-        if (SCN_UNLIKELY(!std::equal(
-                range.begin(), it, str.begin(), [&](auto a, auto b) {
-                    return ascii_tolower(a) ==
-                           static_cast<detail::char_t<Range>>(b);
-                }))) {
-            return unexpected(parse_error::error);
-        }
-
-        return it;
+        return read_matching_code_units(range, str, [&](auto a, char b) {
+            return ascii_tolower(a) == static_cast<char_type>(b);
+        });
     }
 }
 
-- 
2.43.0


From f6971b3675c94ee10051a0de86c116576c9ba7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:33 +0000
Subject: [PATCH 17/39] fix: let user operator>> put characters back into a
 scanned stream

The stream buffer given to operator>> aborted on the second unget() or on a
putback(): pbackfail stepped before the start of the get area and compared
against the wrong character. Return eof instead, and give back the character
that was read.
---
 include/scn/istream.h | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/scn/istream.h b/include/scn/istream.h
index 3fd86d1..737810e 100644
--- a/include/scn/istream.h
+++ b/include/scn/istream.h
@@ -72,7 +72,10 @@ public:
     using int_type = typename base::int_type;
 
     explicit basic_range_streambuf(range_type range)
-        : m_range(range), m_begin(ranges::begin(m_range)), m_begin_prev(m_begin)
+        : m_range(range),
+          m_begin(ranges::begin(m_range)),
+          m_begin_prev(m_begin),
+          m_begin_extracted(m_begin)
     {
     }
 
@@ -114,6 +117,8 @@ private:
         auto ret = underflow();
         if (ret != traits_type::eof()) {
             m_ch = traits_type::eof();
+            m_begin_extracted = m_begin_prev;
+            m_can_put_back = true;
         }
         return ret;
     }
@@ -125,23 +130,28 @@ private:
 
     int_type pbackfail(int_type c) override
     {
-        SCN_EXPECT(traits_type::eq_int_type(c, traits_type::eof()));
-        SCN_EXPECT(!m_has_put_back);
-        m_has_put_back = true;
-
-        m_begin = m_begin_prev;
-
-        if (m_begin == ranges::end(m_range)) {
+        // Only the character most recently extracted can be put back
+        if (!m_can_put_back) {
             return traits_type::eof();
         }
-        return traits_type::to_int_type(0);
+        if (!traits_type::eq_int_type(c, traits_type::eof()) &&
+            !traits_type::eq_int_type(
+                c, traits_type::to_int_type(*m_begin_extracted))) {
+            return traits_type::eof();
+        }
+
+        m_begin = m_begin_extracted;
+        m_ch = traits_type::eof();
+        m_can_put_back = false;
+        return traits_type::not_eof(c);
     }
 
     range_type m_range;
     iterator m_begin;
     iterator m_begin_prev;
+    iterator m_begin_extracted;
     int_type m_ch{traits_type::eof()};
-    bool m_has_put_back{false};
+    bool m_can_put_back{false};
 };
 
 using range_streambuf = basic_range_streambuf<scan_context::range_type>;
-- 
2.43.0


From 4ee2d1d2bd7e8bb70455d55918ba0544cf813131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:33 +0000
Subject: [PATCH 18/39] fix: stop at the end of the source when matching a
 range's bracket

scan_str compared every character of a multi-character bracket or separator
without checking for the end of the source first, and read past it when the
source ended inside the bracket.
---
 include/scn/ranges.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/scn/ranges.h b/include/scn/ranges.h
index f592adc..b102f1b 100644
--- a/include/scn/ranges.h
+++ b/include/scn/ranges.h
@@ -153,6 +153,9 @@ scan_expected<ranges::iterator_t<Source>> scan_str(
 {
     SCN_TRY(it, internal_skip_classic_whitespace(source, false));
     for (auto ch_to_read : str_to_read) {
+        if (SCN_UNLIKELY(it == source.end())) {
+            return unexpected_scan_error(scan_error::end_of_input, "EOF");
+        }
         if (SCN_UNLIKELY(ch_to_read != *it)) {
             return unexpected_scan_error(scan_error::invalid_scanned_value,
                                          "Invalid range character");
-- 
2.43.0


From 0c07d4e18f7a66d344cd3a0da5576cf1ef1a7522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:33 +0000
Subject: [PATCH 19/39] fix: remove thousands separators of a float before
 replacing its decimal point

With a locale that groups with '.' and uses ',' as the decimal point (de_DE),
the replaced decimal point of "1.234,5" was then taken for a separator.
---
 src/scn/impl.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 6655ced..0c968d5 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4117,6 +4117,13 @@ private:
         }
 
         auto& str = this->m_buffer.make_into_allocated_string();
+
+        // Thousands separators need to be removed first:
+        // they may be the same character as the classic decimal point
+        if (m_locale_options.thousands_sep != 0) {
+            remove_thousands_separators(str);
+        }
+
         if (m_locale_options.decimal_point != CharT{'.'}) {
             for (auto& ch : str) {
                 if (ch == m_locale_options.decimal_point) {
@@ -4124,11 +4131,10 @@ private:
                 }
             }
         }
+    }
 
-        if (m_locale_options.thousands_sep == 0) {
-            return;
-        }
-
+    void remove_thousands_separators(std::basic_string<CharT>& str)
+    {
         auto first =
             std::find(str.begin(), str.end(), m_locale_options.thousands_sep);
         if (first == str.end()) {
-- 
2.43.0


From 6d941fdb35d7f3302a196d400175292038ffbe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:59 +0000
Subject: [PATCH 20/39] fix: use one iterator type for both ends of localized
 chrono input

Scanning a localized date or time from a stream or other buffered source
instantiated std::time_get on an iterator that can't represent the end of the
source, and read past the end.
---
 src/scn/impl.cpp | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 0dc4160..2f0a925 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3458,8 +3458,16 @@ private:
     }
 
 #if !SCN_DISABLE_LOCALE
+    // Iterator type given to the time_get facet: it compares two iterators, so
+    // the end of the source needs to have the same type as the beginning
+    using facet_iterator = std::conditional_t<
+        std::is_same_v<iterator,
+                       remove_cvref_t<decltype(std::declval<Range&>().end())>>,
+        iterator,
+        typename basic_scan_buffer<CharT>::common_forward_iterator>;
+
     struct localized_read_state {
-        using time_facet_type = std::time_get<CharT, iterator>;
+        using time_facet_type = std::time_get<CharT, facet_iterator>;
         using numpunct_facet_type = std::numpunct<CharT>;
 
         std::locale locale;
@@ -3508,21 +3516,10 @@ private:
         const auto& facet = *get_localized_read_state().time_facet;
         std::ios_base::iostate err{std::ios_base::goodbit};
         std::tm tm{};
-        auto [begin, end] = [&]() {
-            if constexpr (std::is_same_v<
-                              iterator,
-                              remove_cvref_t<decltype(m_range.end())>>) {
-                return std::pair{m_range.begin(), m_range.end()};
-            }
-            else {
-                using common_iterator_type =
-                    typename basic_scan_buffer<CharT>::common_forward_iterator;
-                return std::pair{common_iterator_type{m_range.begin()},
-                                 common_iterator_type{m_range.end()}};
-            }
-        }();
-        auto iter = facet.get(begin, end, m_loc_state->dummy_stream, err, &tm,
-                              fmt.data(), fmt.data() + fmt.size());
+        auto iter = facet.get(facet_iterator{m_range.begin()},
+                              facet_iterator{m_range.end()},
+                              m_loc_state->dummy_stream, err, &tm, fmt.data(),
+                              fmt.data() + fmt.size());
         if ((err & std::ios_base::failbit) != 0) {
             set_error({scan_error::invalid_scanned_value,
                        "Failed to scan localized datetime"});
-- 
2.43.0


From 738e90def6ab318b2e67bae2b32aa1036674c971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:59 +0000
Subject: [PATCH 21/39] fix: continue localized chrono input where the previous
 field ended

Every localized field was read from the start of the source, so that
"{:L%A %B}" could never be matched.
---
 src/scn/impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 2f0a925..7af94cc 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3516,7 +3516,7 @@ private:
         const auto& facet = *get_localized_read_state().time_facet;
         std::ios_base::iostate err{std::ios_base::goodbit};
         std::tm tm{};
-        auto iter = facet.get(facet_iterator{m_range.begin()},
+        auto iter = facet.get(facet_iterator{m_begin},
                               facet_iterator{m_range.end()},
                               m_loc_state->dummy_stream, err, &tm, fmt.data(),
                               fmt.data() + fmt.size());
-- 
2.43.0


From 0be6637edd41100b22e213a04ba4280122d857e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:59 +0000
Subject: [PATCH 22/39] fix: don't leak the time facet when creating a locale
 fails

std::locale's constructor doesn't delete the given facet if it throws. Don't
allocate it in the first place.
---
 src/scn/impl.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 7af94cc..cb479b9 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3476,6 +3476,10 @@ private:
         std::basic_stringstream<CharT> dummy_stream;
     };
 
+    struct default_time_facet : localized_read_state::time_facet_type {
+        default_time_facet() : localized_read_state::time_facet_type(1) {}
+    };
+
     localized_read_state& get_localized_read_state()
     {
         if (!m_loc_state) {
@@ -3485,11 +3489,18 @@ private:
                 }
                 return std::locale::classic();
             }();
-            if (!std::has_facet<typename localized_read_state::time_facet_type>(
-                    loc)) {
-                loc = std::locale(
-                    loc, new typename localized_read_state::time_facet_type{});
-            }
+            const auto* time_facet = [&]() -> const
+                typename localized_read_state::time_facet_type* {
+                if (std::has_facet<
+                        typename localized_read_state::time_facet_type>(loc)) {
+                    return &std::use_facet<
+                        typename localized_read_state::time_facet_type>(loc);
+                }
+                // Not reference counted, so that nothing needs to be allocated
+                // for (or installed into) a locale
+                static const default_time_facet facet{};
+                return &facet;
+            }();
             if (!std::has_facet<
                     typename localized_read_state::numpunct_facet_type>(loc)) {
                 loc = std::locale(
@@ -3499,8 +3510,7 @@ private:
 
             m_loc_state = localized_read_state{
                 SCN_MOVE(loc),
-                &std::use_facet<typename localized_read_state::time_facet_type>(
-                    loc),
+                time_facet,
                 &std::use_facet<
                     typename localized_read_state::numpunct_facet_type>(loc),
                 std::basic_stringstream<CharT>{}};
-- 
2.43.0


From dbcdfb0a43f20e13c68815860d6d4702d3e2aacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:59 +0000
Subject: [PATCH 23/39] fix: read localized month names regardless of
 SCN_DISABLE_FAST_FLOAT

---
 src/scn/impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index cb479b9..33fcdbc 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2809,7 +2809,7 @@ public:
 
     void on_month_name()
     {
-#if !SCN_DISABLE_FAST_FLOAT
+#if !SCN_DISABLE_LOCALE
         if (m_st.localized) {
             if (auto t = read_localized("%b", L"%b")) {
                 setter::set_mon(*this, m_tm, m_st, t->tm_mon + 1);
-- 
2.43.0


From d1fc9df5286124a5cc783a547d1980c827514e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:00 +0000
Subject: [PATCH 24/39] fix: don't abort on a subsecond value that rounds up to
 a full second

---
 src/scn/impl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 33fcdbc..59fa763 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3079,7 +3079,10 @@ public:
             return set_error(dbl_res.error());
         }
 
-        setter::set_subsec(*this, m_tm, m_st, dbl_res->value());
+        // With enough digits, the value may get rounded up to a full second
+        setter::set_subsec(
+            *this, m_tm, m_st,
+            std::min(dbl_res->value(), std::nextafter(1.0, 0.0)));
 
 #else  // !SCN_DISABLE_TYPE_STRING && !SCN_DISABLE_TYPE_DOUBLE
         SCN_UNUSED(sys);
-- 
2.43.0


From 3fa33da51f4ef8c0fd61f3f76b1d900f5a83d8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:51 +0000
Subject: [PATCH 25/39] sim: option to use the stream interface of unknown
 platforms

Off by default. Lets a simulation on glibc run the code used where nothing is
known about the internals of FILE.
---
 include/scn/scan.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index f211e3c..4d8b31f 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -5079,8 +5079,15 @@ struct stdio_file_interface_impl<File, win32_file_tag>
     }
 };
 
+#ifdef SCN_SIM_PORTABLE_FILE
+// For simulation only: use the interface of platforms, where the internals of
+// `FILE` aren't known
+using stdio_file_interface =
+    stdio_file_interface_impl<std::FILE, default_file_tag>;
+#else
 using stdio_file_interface =
     stdio_file_interface_impl<std::FILE, decltype(get_file_tag())::type>;
+#endif
 
 template <typename FileInterface>
 class basic_scan_file_buffer : public basic_scan_buffer<char> {
-- 
2.43.0


From cdda0524d2774f5e21681ac54f3186d79c2fd2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:52 +0000
Subject: [PATCH 26/39] fix: don't abort in sync() of an unbuffered file at the
 end of the file

On platforms without a known FILE layout, m_current_view is empty after
the end of the file has been reached. Also, report a failing pushback.
---
 src/scn/impl.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 0c968d5..0faf063 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -1225,8 +1225,11 @@ bool basic_scan_file_buffer<FileInterface>::sync(std::ptrdiff_t position)
     }
 
     putback_wrapper wrapper{m_file};
-    SCN_EXPECT(m_current_view.size() == 1);
-    m_file.putback(m_current_view.front());
+    // m_current_view is empty, if the end of the file was reached
+    SCN_EXPECT(m_current_view.size() <= 1);
+    if (!m_current_view.empty() && !m_file.putback(m_current_view.front())) {
+        return false;
+    }
 
     auto segment = std::string_view{this->putback_buffer()}.substr(position);
     for (auto it = segment.rbegin(); it != segment.rend(); ++it) {
-- 
2.43.0


From e17129ff970b21c9683db7653a12ce965a096a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:07 +0000
Subject: [PATCH 27/39] fix: store the year read with %y and %C into
 datetime_components

The year was computed from values that were never set, so that
"{:%D}" always gave the year 2000, and "{:%C%y}" the year 0.
---
 src/scn/impl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 59fa763..f9c530f 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2418,6 +2418,7 @@ struct datetime_setter<datetime_components> {
         else {
             t.year = *t.year + c * 100;
         }
+        st.century_value = c;
         st.set_century(h);
     }
     template <typename Handler>
@@ -2432,6 +2433,7 @@ struct datetime_setter<datetime_components> {
         else {
             t.year = *t.year + y;
         }
+        st.short_year_value = y;
         st.set_short_year(h);
     }
     template <typename Handler>
-- 
2.43.0


From ad01706e4fba994e0f7a3af37dad0953418fec6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:07 +0000
Subject: [PATCH 28/39] fix: accept days of the year above 7 in
 datetime_components

---
 src/scn/impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index f9c530f..d732bc3 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2455,7 +2455,7 @@ struct datetime_setter<datetime_components> {
                          setter_state& st,
                          int d)
     {
-        if (SCN_UNLIKELY(d < 0 || d > 6)) {
+        if (SCN_UNLIKELY(d < 0 || d > 365)) {
             return h.set_error(
                 {scan_error::invalid_scanned_value, "Invalid value for yday"});
         }
-- 
2.43.0


From a24bf0fbab3a4a15ac30f8bf3134dd1119b6f3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:07 +0000
Subject: [PATCH 29/39] fix: read the ISO 8601 weekday (%u) as the day it means

1 is Monday, and 7 is Sunday. Every day was off by one.
---
 src/scn/impl.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index d732bc3..dc76ceb 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2956,24 +2956,25 @@ public:
     }
     void on_dec1_weekday(numeric_system sys = numeric_system::standard)
     {
-        auto adjust_wday = [](int d) {
-            if (d == 0) {
-                return 6;
-            }
-            return d - 1;
-        };
-
 #if !SCN_DISABLE_LOCALE
         if (m_st.localized && sys != numeric_system::standard) {
             if (auto t = read_localized("%Ow", L"%Ow")) {
-                setter::set_wday(*this, m_tm, m_st, adjust_wday(t->tm_wday));
+                setter::set_wday(*this, m_tm, m_st, t->tm_wday);
             }
             return;
         }
 #endif
 
         int wday = read_classic_unsigned_integer(1, 1);
-        setter::set_wday(*this, m_tm, m_st, adjust_wday(wday));
+        if (wday == 0) {
+            // Invalid, reported by set_wday
+            wday = -1;
+        }
+        else if (wday == 7) {
+            // Sunday is 7 in ISO 8601, 0 in tm_wday
+            wday = 0;
+        }
+        setter::set_wday(*this, m_tm, m_st, wday);
     }
 
     void on_24_hour(numeric_system sys = numeric_system::standard)
-- 
2.43.0


From 91fec1d218808a481e60aa3ec27297b3d709a3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:10 +0000
Subject: [PATCH 30/39] fix: store the integer scanned into a wchar_t

---
 src/scn/impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 0faf063..a082120 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5782,7 +5782,7 @@ public:
             std::conditional_t<sizeof(wchar_t) == 2, int16_t, int32_t>;
         integer_type tmp_value{};
         auto ret = reader.read_specs(range, specs, tmp_value, loc);
-        value = static_cast<integer_type>(value);
+        value = static_cast<wchar_t>(tmp_value);
         return ret;
     }
 };
-- 
2.43.0


From c292872622ea85ee17125f36ac40c0757b4475d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:08 +0000
Subject: [PATCH 31/39] fix: match literal text in a format string that is not
 ASCII

Literals are compared code unit by code unit, and every code unit was
decoded as the first one of a code point, which failed for the second.
---
 src/scn/impl.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index dc76ceb..2cbc8fd 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1607,6 +1607,8 @@ struct format_handler : format_handler_base {
 
     void on_literal_text(const char_type* begin, const char_type* end)
     {
+        // End of the code point `begin` is in
+        const char_type* cp_end = begin;
         for (; begin != end; ++begin) {
             auto it = get_ctx().begin();
             if (impl::is_range_eof(it, get_ctx().end())) {
@@ -1615,9 +1617,14 @@ struct format_handler : format_handler_base {
                     {scan_error::invalid_literal, "Unexpected end of source"});
             }
 
-            if (auto [after_space_it, cp, is_space] = impl::is_first_char_space(
-                    detail::make_string_view_from_pointers(begin, end));
-                cp == detail::invalid_code_point) {
+            if (begin != cp_end) {
+                // In the middle of a code point
+            }
+            else if (auto [after_space_it, cp, is_space] =
+                         impl::is_first_char_space(
+                             detail::make_string_view_from_pointers(begin,
+                                                                    end));
+                     cp == detail::invalid_code_point) {
                 SCN_UNLIKELY_ATTR
                 return on_error({scan_error::invalid_format_string,
                                  "Invalid encoding in format string"});
@@ -1631,10 +1638,14 @@ struct format_handler : format_handler_base {
                     detail::make_string_view_from_pointers(
                         detail::to_address(after_space_it),
                         detail::to_address(end)));
+                cp_end = detail::to_address(begin_it);
                 // (-1 because of the for loop ++begin)
-                begin = detail::to_address(begin_it) - 1;
+                begin = cp_end - 1;
                 continue;
             }
+            else {
+                cp_end = detail::to_address(after_space_it);
+            }
 
             if (*it != *begin) {
                 SCN_UNLIKELY_ATTR
-- 
2.43.0


From 49997ae071ddef6167768e943b0837a38e70a513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:39 +0000
Subject: [PATCH 32/39] fix: don't copy everything read so far at each read of
 a nested scan

---
 include/scn/scan.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 4d8b31f..07877a7 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -5157,8 +5157,13 @@ public:
             const auto putback_size =
                 static_cast<std::ptrdiff_t>(m_other->putback_buffer().size());
             if (m_starting_pos < putback_size) {
-                this->m_putback_buffer =
-                    m_other->putback_buffer().substr(m_starting_pos);
+                // Only copy what's new, to not be quadratic when `other` is
+                // filled a few characters at a time
+                this->m_putback_buffer.append(
+                    m_other->putback_buffer(),
+                    static_cast<std::size_t>(m_starting_pos) +
+                        this->m_putback_buffer.size(),
+                    std::string::npos);
                 this->m_current_view = m_other->current_view();
             }
             else {
-- 
2.43.0


From 13f4bd7d8e18423350f3b0c70393ccb26312dfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:02 +0000
Subject: [PATCH 33/39] fix: don't count from the start of an integer at each
 thousands separator

---
 src/scn/impl.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index a082120..37daf81 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -3461,10 +3461,9 @@ auto parse_integer_digits_with_thsep(
     std::string thsep_indices;
     auto it = range.begin();
     bool digit_matched = false;
-    for (; it != range.end(); ++it) {
+    for (std::ptrdiff_t i = 0; it != range.end(); ++it, (void)++i) {
         if (*it == locale_options.thousands_sep) {
-            thsep_indices.push_back(
-                static_cast<char>(ranges::distance(range.begin(), it)));
+            thsep_indices.push_back(static_cast<char>(i));
         }
         else if (char_to_int(*it) >= base) {
             break;
-- 
2.43.0


From 2b46b8499bec79711ab1cd43a1677f64b0c64d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:29 +0000
Subject: [PATCH 34/39] fix: do not skip invalid code units as whitespace in
 non-contiguous sources

---
 src/scn/impl.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 37daf81..4d7ceea 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -2265,9 +2265,19 @@ auto read_while_classic_space(Range range) -> ranges::const_iterator_t<Range>
             ranges::advance(it, seg.size());
         }
 
-        return read_while_code_point(range, [](char32_t cp) noexcept {
-            return detail::is_cp_space(cp);
-        });
+        // Invalid code points are not whitespace, and must not be skipped
+        while (it != range.end()) {
+            const auto val =
+                read_code_point_into(ranges::subrange{it, range.end()});
+            if (!val.is_valid() ||
+                !detail::is_cp_space(detail::decode_code_point_exhaustive(
+                    std::basic_string_view<detail::char_t<Range>>{
+                        val.codepoint}))) {
+                break;
+            }
+            it = val.iterator;
+        }
+        return it;
     }
 }
 
-- 
2.43.0


From 6cea0ec0a1d5d0d7c3083dec61f38791d73c64f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:29 +0000
Subject: [PATCH 35/39] fix: scanning a char32_t with format specs at the end
 of input failed an assertion

---
 src/scn/impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 4d7ceea..d9267b6 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5657,6 +5657,10 @@ public:
     auto read(const SourceRange& range, char32_t& cp)
         -> scan_expected<ranges::const_iterator_t<SourceRange>>
     {
+        if (auto e = eof_check(range); SCN_UNLIKELY(!e)) {
+            return unexpected(make_eof_scan_error(e));
+        }
+
         auto result = read_code_point_into(range);
         if (SCN_UNLIKELY(!result.is_valid())) {
             return detail::unexpected_scan_error(
-- 
2.43.0


From b0bb9bead926cbb55c274b4b219acb49be65ea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:38 +0000
Subject: [PATCH 36/39] fix: reject reading a string_view from a buffered
 source instead of returning a dangling view

---
 src/scn/impl.h | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index d9267b6..4689af4 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4847,6 +4847,22 @@ auto read_string_impl(Range range,
     return SCN_MOVE(result);
 }
 
+template <typename Iterator>
+bool is_iterator_buffered(const Iterator&)
+{
+    return false;
+}
+inline bool is_iterator_buffered(
+    const detail::basic_scan_buffer<char>::forward_iterator& it)
+{
+    return it.stores_parent();
+}
+inline bool is_iterator_buffered(
+    const detail::basic_scan_buffer<wchar_t>::forward_iterator& it)
+{
+    return it.stores_parent();
+}
+
 template <typename Range, typename Iterator, typename ValueCharT>
 auto read_string_view_impl(Range range,
                            Iterator&& result,
@@ -4867,7 +4883,17 @@ auto read_string_view_impl(Range range,
     }();
     using src_type = decltype(src);
 
-    if (src.stores_allocated_string()) {
+    // A view into the buffer of a non-contiguous source would dangle
+    const bool source_is_buffered = [&]() {
+        if constexpr (detail::is_specialization_of_v<Range, take_width_view>) {
+            return is_iterator_buffered(range.begin().base());
+        }
+        else {
+            return is_iterator_buffered(range.begin());
+        }
+    }();
+
+    if (src.stores_allocated_string() || source_is_buffered) {
         return detail::unexpected_scan_error(
             scan_error::invalid_format_string,
             "Cannot read a string_view from this source range (not "
-- 
2.43.0


From 5fa4c56ae84cb53550de207b13f6354e1dbd1292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:02 +0000
Subject: [PATCH 37/39] fix: skipping a multi-byte fill character asked for
 input after the first mismatch

---
 src/scn/impl.h | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 4689af4..3d3d08d 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -2146,23 +2146,21 @@ auto read_while_code_units(Range range, const CodeUnits& needle)
     -> ranges::const_iterator_t<Range>
 {
     static_assert(ranges::common_range<CodeUnits>);
+    SCN_EXPECT(needle.begin() != needle.end());
 
     auto it = range.begin();
-    while (it != range.end()) {
-        auto r = read_exactly_n_code_units(ranges::subrange{it, range.end()},
-                                           needle.size());
-        if (!r) {
-            return it;
-        }
-        static_assert(
-            std::is_same_v<decltype(it), detail::remove_cvref_t<decltype(*r)>>);
-        if (!std::equal(it, *r, needle.begin())) {
-            return it;
+    while (true) {
+        // Compare one by one: don't ask for input after the first mismatch
+        auto candidate = it;
+        for (auto needle_it = needle.begin(); needle_it != needle.end();
+             ++needle_it) {
+            if (candidate == range.end() || *candidate != *needle_it) {
+                return it;
+            }
+            ++candidate;
         }
-        it = *r;
+        it = candidate;
     }
-    SCN_ENSURE(it == range.end());
-    return it;
 }
 
 template <typename Range>
-- 
2.43.0


From cac7ed544e9e181af5cad2cd2185cc4cc9780d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:06 +0000
Subject: [PATCH 38/39] fix: regular expressions depended on the global C++
 locale

std::basic_regex takes its character classes and case folding from the global
locale at the time it is constructed. Scans that don't ask for localized
behaviour must not depend on it: use the classic locale.
---
 src/scn/impl.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 3d3d08d..2bee408 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4422,10 +4422,12 @@ auto read_regex_string_impl(std::basic_string_view<CharT> pattern,
 
 #if SCN_REGEX_BACKEND == SCN_REGEX_BACKEND_STD
     std::basic_regex<CharT> re{};
+    // Character classes must not depend on the global locale
+    re.imbue(std::locale::classic());
     try {
         SCN_TRY(re_flags, make_regex_flags(flags));
-        re = std::basic_regex<CharT>{pattern.data(), pattern.size(),
-                                     re_flags | std::regex_constants::nosubs};
+        re.assign(pattern.data(), pattern.size(),
+                  re_flags | std::regex_constants::nosubs);
     }
     catch (const std::regex_error& err) {
         return detail::unexpected_scan_error(scan_error::invalid_format_string,
@@ -4537,9 +4539,11 @@ auto read_regex_matches_impl(std::basic_string_view<CharT> pattern,
 
 #if SCN_REGEX_BACKEND == SCN_REGEX_BACKEND_STD
     std::basic_regex<CharT> re{};
+    // Character classes must not depend on the global locale
+    re.imbue(std::locale::classic());
     try {
         SCN_TRY(re_flags, make_regex_flags(flags));
-        re = std::basic_regex<CharT>{pattern.data(), pattern.size(), re_flags};
+        re.assign(pattern.data(), pattern.size(), re_flags);
     }
     catch (const std::regex_error& err) {
         return detail::unexpected_scan_error(scan_error::invalid_format_string,
-- 
2.43.0


From 87a93198e81c2a234a5141b242e4b38d008bf886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:51 +0000
Subject: [PATCH 39/39] fix: iostream-based scanners depended on the global C++
 locale

The std::istream that basic_istream_scanner hands to operator>> was created with
the global locale, so numbers were read with its decimal point and grouping.
Everything else in a scan behaves as if the global locale was "C": imbue the
classic locale.
---
 include/scn/istream.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/scn/istream.h b/include/scn/istream.h
index 737810e..35c7f71 100644
--- a/include/scn/istream.h
+++ b/include/scn/istream.h
@@ -193,6 +193,8 @@ struct basic_istream_scanner {
             ctx.range());
         using traits = typename decltype(streambuf)::traits_type;
         std::basic_istream<CharT> stream(std::addressof(streambuf));
+        // The default is always unlocalized
+        stream.imbue(std::locale::classic());
 
         if (!(stream >> val)) {
             if (stream.eof()) {
-- 
2.43.0

