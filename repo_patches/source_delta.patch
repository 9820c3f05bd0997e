From d1ac273450168bf672db1ae51a238aeeee884c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 01/66] fix: make ulight_lang_from_path_u8 look at the file
 extension

It looked the whole path up as a language name.
---
 src/main/cpp/ulight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index 092935c..b09dea9 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -258,7 +258,7 @@ ulight_lang ulight_lang_from_path(const char* path, size_t path_length) noexcept
 ULIGHT_EXPORT
 ulight_lang ulight_lang_from_path_u8(const char8_t* path, size_t path_length) noexcept
 {
-    return ulight_get_lang(reinterpret_cast<const char*>(path), path_length);
+    return ulight_lang_from_path(reinterpret_cast<const char*>(path), path_length);
 }
 
 ULIGHT_EXPORT
-- 
2.43.0


From 1137408990e96ef76b8ffbdf9ab686ca6409e530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 02/66] fix: reject every out-of-range language value

ULIGHT_LANG_COUNT itself passed validation and ended in an internal error;
values that are negative as an int were used as an index.
---
 src/main/cpp/ulight.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index b09dea9..36d6254 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -196,7 +196,7 @@ static_assert(std::ranges::none_of(ulight_lang_display_names, [](ulight_string_v
 ULIGHT_EXPORT
 ulight_string_view ulight_lang_display_name(ulight_lang lang) noexcept
 {
-    if (lang == ULIGHT_LANG_NONE || int(lang) >= int(ULIGHT_LANG_COUNT)) {
+    if (lang == ULIGHT_LANG_NONE || unsigned(lang) >= unsigned(ULIGHT_LANG_COUNT)) {
         return {};
     }
     return ulight_lang_display_names[std::size_t(lang)];
@@ -411,7 +411,8 @@ ulight_status ulight_source_to_tokens(ulight_state* state) noexcept
     if (state->flush_tokens == nullptr) {
         return error(state, ULIGHT_STATUS_BAD_BUFFER, u8"flush_tokens must not be null.");
     }
-    if (state->lang == ULIGHT_LANG_NONE || int(state->lang) > ULIGHT_LANG_COUNT) {
+    if (state->lang == ULIGHT_LANG_NONE
+        || unsigned(state->lang) >= unsigned(ULIGHT_LANG_COUNT)) {
         return error(
             state, ULIGHT_STATUS_BAD_LANG, u8"The given language (numeric value) is invalid."
         );
-- 
2.43.0


From 5874cb1ff70eca6430e363dd34bdc27a7bc51ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 03/66] fix: return null from ulight_new when allocation fails

---
 src/main/cpp/ulight.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index 36d6254..2fd8385 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -354,6 +354,9 @@ ULIGHT_EXPORT
 ulight_state* ulight_new() noexcept
 {
     void* const result = ulight_alloc(sizeof(ulight_state), alignof(ulight_state));
+    if (!result) {
+        return nullptr;
+    }
     return ulight_init(static_cast<ulight_state*>(result));
 }
 
-- 
2.43.0


From a11bd7e7d8f0a422943919c8ac59c60aa6a0ad1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 04/66] fix: set the attribute name length in
 State::set_html_attr_name

---
 include/ulight/ulight.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/ulight.hpp b/include/ulight/ulight.hpp
index da170ab..bc4500f 100644
--- a/include/ulight/ulight.hpp
+++ b/include/ulight/ulight.hpp
@@ -484,7 +484,7 @@ struct [[nodiscard]] State {
     void set_html_attr_name(std::string_view name) noexcept
     {
         impl.html_attr_name = name.data();
-        impl.html_tag_name_length = name.length();
+        impl.html_attr_name_length = name.length();
     }
 
     void set_text_buffer(std::span<char> buffer)
-- 
2.43.0


From 722a9c8d2da9f4d2a15d3923464265ecce8aceea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 05/66] fix: report JSON block comments before advancing past
 them

The visitor got the position after the comment, and the text following it.
---
 src/main/cpp/lang/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index d2298c4..076b2df 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -525,8 +525,8 @@ private:
                 error(JSON_Error::comment);
                 return false;
             }
-            advance(block_comment.length);
             out.block_comment(pos, remainder.substr(0, block_comment.length));
+            advance(block_comment.length);
             return true;
         }
         ULIGHT_DEBUG_ASSERT_UNREACHABLE(u8"/* should have been tested.");
-- 
2.43.0


From 7d7c2d572588ad1f2c4b74cbd2610ffff3230e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 06/66] fix: report a match after highlighting true, false or
 null in JSON

Within arrays, the character after these literals was highlighted as an error.
---
 src/main/cpp/lang/json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 076b2df..6865c89 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -414,6 +414,7 @@ private:
             const auto coalescing
                 = highlight == Highlight_Type::error ? Coalescing::forced : Coalescing::normal;
             emit_and_advance(id.length, highlight, coalescing);
+            return true;
         }
         return false;
     }
-- 
2.43.0


From c16ab0c8b0859ce994057a2b2c827e5c37d5a81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 07/66] fix: leave room for the null terminator of a file path

---
 src/main/cpp/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/io.cpp b/src/main/cpp/io.cpp
index 1101513..92415e8 100644
--- a/src/main/cpp/io.cpp
+++ b/src/main/cpp/io.cpp
@@ -24,7 +24,7 @@ std::expected<void, IO_Error_Code> file_to_bytes_chunked(
     constexpr std::size_t block_size = BUFSIZ;
     char buffer[block_size] {};
 
-    if (path.size() > block_size) {
+    if (path.size() >= block_size) {
         return std::unexpected { IO_Error_Code::cannot_open };
     }
     std::memcpy(buffer, path.data(), path.size());
-- 
2.43.0


From e11566f8b5bb86324806a108d454109137f0f823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 08/66] fix: let C++98 compilers include ulight.h

noexcept is C++11 and [[deprecated]] is C++14, but the README promises C++98.
---
 include/ulight/ulight.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ulight/ulight.h b/include/ulight/ulight.h
index 18f7f89..05a8781 100644
--- a/include/ulight/ulight.h
+++ b/include/ulight/ulight.h
@@ -13,7 +13,7 @@
 #define ULIGHT_HAS_CHAR8 1
 #endif
 
-#ifdef __cplusplus
+#if defined(__cplusplus) && __cplusplus >= 201103L
 #define ULIGHT_NOEXCEPT noexcept
 #else
 #define ULIGHT_NOEXCEPT
@@ -26,7 +26,8 @@
 #define nullptr ((void*)0)
 #endif
 
-#if defined(__cplusplus) || (defined(__STDC_VERSION__) && __STDC_VERSION__ >= 202311L)
+#if (defined(__cplusplus) && __cplusplus >= 201402L)                                               \
+    || (defined(__STDC_VERSION__) && __STDC_VERSION__ >= 202311L)
 #define ULIGHT_DEPRECATED [[deprecated]]
 #else
 #define ULIGHT_DEPRECATED
-- 
2.43.0


From 40dcfedf268fb1f48ac0117867b5d801fade7f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 09/66] fix: set an error text when a highlighter fails

---
 src/main/cpp/ulight.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index 2fd8385..8042101 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -441,7 +441,12 @@ ulight_status ulight_source_to_tokens(ulight_state* state) noexcept
         // bad_lang at this point can only be developer error.
         ULIGHT_ASSERT(result != ulight::Status::bad_lang);
         buffer.flush();
-        return ulight_status(result);
+        if (result != ulight::Status::ok) {
+            return error(
+                state, ulight_status(result), u8"The given source code could not be highlighted."
+            );
+        }
+        return ULIGHT_STATUS_OK;
 #ifdef ULIGHT_EXCEPTIONS
     } catch (const ulight::utf8::Unicode_Error&) {
         return error(
-- 
2.43.0


From 5257115076438de58b53cc35e9b92cf228de1cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 10/66] fix: do not leave a dangling token callback in the
 state after HTML conversion

---
 src/main/cpp/ulight.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index 8042101..72b5dbf 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -541,10 +541,16 @@ ulight_status ulight_source_to_html(ulight_state* state) noexcept
     ulight::Function_Ref<void( ulight_token*, std::size_t)> flush_text_ref = flush_text;
 
     // clang-format on
+    // flush_text_ref must not be left in the state because it refers to local variables.
+    const void* const old_flush_tokens_data = state->flush_tokens_data;
+    const auto old_flush_tokens = state->flush_tokens;
     state->flush_tokens_data = flush_text_ref.get_entity();
     state->flush_tokens = flush_text_ref.get_invoker();
 
     const ulight_status result = ulight_source_to_tokens(state);
+
+    state->flush_tokens_data = old_flush_tokens_data;
+    state->flush_tokens = old_flush_tokens;
     if (result != ULIGHT_STATUS_OK) {
         return result;
     }
-- 
2.43.0


From 4443f7e0c965358f637b8edd14d5f9d18868ef20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 11/66] fix: correct misspelt and duplicate highlight type
 names

name_delim had the long name of another type, name_shell_command_delim the
short name of name_shell_command, and the theme converter lacked both and text.
---
 include/ulight/ulight.hpp | 4 ++--
 scripts/theme-to-css.cjs  | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ulight/ulight.hpp b/include/ulight/ulight.hpp
index bc4500f..ca9440f 100644
--- a/include/ulight/ulight.hpp
+++ b/include/ulight/ulight.hpp
@@ -148,7 +148,7 @@ constexpr Flag operator|(Flag x, Flag y) noexcept
     F(name, "name", "name", ULIGHT_HL_NAME)                                                        \
     F(name_decl, "name-decl", "name_decl", ULIGHT_HL_NAME_DECL)                                    \
     F(name_builtin, "name-builtin", "name_pre", ULIGHT_HL_NAME_BUILTIN)                            \
-    F(name_delim, "name-builtin-delim", "name_dlim", ULIGHT_HL_NAME_DELIM)                         \
+    F(name_delim, "name-delim", "name_dlim", ULIGHT_HL_NAME_DELIM)                                 \
                                                                                                    \
     F(name_var, "name-var", "name_var", ULIGHT_HL_NAME_VAR)                                        \
     F(name_var_decl, "name-var-decl", "name_var_decl", ULIGHT_HL_NAME_VAR_DECL)                    \
@@ -220,7 +220,7 @@ constexpr Flag operator|(Flag x, Flag y) noexcept
       ULIGHT_HL_NAME_SHELL_COMMAND_DECL)                                                           \
     F(name_shell_command_builtin, "name-command-builtin", "sh_cmd_pre",                            \
       ULIGHT_HL_NAME_SHELL_COMMAND_BUILTIN)                                                        \
-    F(name_shell_command_delim, "name-command-delim", "name_cmd",                                  \
+    F(name_shell_command_delim, "name-command-delim", "name_cmd_dlim",                             \
       ULIGHT_HL_NAME_SHELL_COMMAND_DELIM)                                                          \
                                                                                                    \
     F(name_shell_option, "name-option", "name_opt", ULIGHT_HL_NAME_SHELL_OPTION)                   \
diff --git a/scripts/theme-to-css.cjs b/scripts/theme-to-css.cjs
index 582d050..4fca6ed 100644
--- a/scripts/theme-to-css.cjs
+++ b/scripts/theme-to-css.cjs
@@ -26,7 +26,7 @@ const longNameToShort = {
     "name": "name",
     "name-decl": "name_decl",
     "name-builtin": "name_pre",
-    "name-builtin-delim": "name_dlim",
+    "name-delim": "name_dlim",
     "name-var": "name_var",
     "name-var-decl": "name_var_decl",
     "name-var-builtin": "name_var_pre",
@@ -74,7 +74,7 @@ const longNameToShort = {
     "name-command": "name_cmd",
     "name-command-decl": "name_cmd_decl",
     "name-command-builtin": "sh_cmd_pre",
-    "name-command": "name_cmd",
+    "name-command-delim": "name_cmd_dlim",
     "name-option": "name_opt",
     "name-option-decl": "name_opt_decl",
     "name-option-builtin": "name_opt_pre",
@@ -112,7 +112,7 @@ const longNameToShort = {
     "markup-attr-decl": "mk_attr_decl",
     "markup-attr-builtin": "mk_attr_pre",
     "markup-attr-delim": "mk_attr_dlim",
-    "text-emph": "text",
+    "text": "text",
     "text-heading": "text_head",
     "text-link": "text_link",
     "text-mark": "text_mark",
-- 
2.43.0


From 5266db2720f85b9d6c87410238fba2e19ee66cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 12/66] fix: report disallowed JSON comments as
 JSON_Error::comment

---
 src/main/cpp/lang/json.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 6865c89..4069b5e 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -483,6 +483,10 @@ private:
         if (!options.allow_comments) {
             const std::size_t white_length = match_whitespace(remainder);
             advance(white_length);
+            if (remainder.starts_with(u8"//") || remainder.starts_with(u8"/*")) {
+                error(JSON_Error::comment);
+                return false;
+            }
             return true;
         }
         while (true) {
-- 
2.43.0


From df222af785f90a4f66d4841e5cbdb3d5b9ac5756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 13/66] fix: report an error whenever JSON parsing fails, and
 reject trailing text

Several failure paths did not call JSON_Visitor::error, a member not starting
with a quote failed an assertion, and text after the value was ignored.
---
 src/main/cpp/lang/json.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 4069b5e..61794ef 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -442,7 +442,14 @@ public:
     [[nodiscard]]
     bool operator()()
     {
-        return consume_whitespace_comments() && consume_value() && consume_whitespace_comments();
+        if (!consume_whitespace_comments() || !consume_value() || !consume_whitespace_comments()) {
+            return false;
+        }
+        if (!remainder.empty()) {
+            error(JSON_Error::illegal_character);
+            return false;
+        }
+        return true;
     }
 
 private:
@@ -543,6 +550,7 @@ private:
     bool consume_value()
     {
         if (remainder.empty()) {
+            error(JSON_Error::error);
             return false;
         }
         switch (remainder[0]) {
@@ -574,6 +582,7 @@ private:
                 advance_on_same_line(4);
                 return true;
             }
+            error(JSON_Error::illegal_character);
             return false;
         }
         case u8'f': {
@@ -582,6 +591,7 @@ private:
                 advance_on_same_line(5);
                 return true;
             }
+            error(JSON_Error::illegal_character);
             return false;
         }
         case u8'n': {
@@ -590,9 +600,10 @@ private:
                 advance_on_same_line(4);
                 return true;
             }
+            error(JSON_Error::illegal_character);
             return false;
         }
-        default: error(JSON_Error::illegal_escape); return false;
+        default: error(JSON_Error::illegal_character); return false;
         }
     }
 
@@ -759,6 +770,12 @@ private:
     [[nodiscard]]
     bool consume_member()
     {
+        if (!remainder.starts_with(u8'"')) {
+            error(
+                remainder.empty() ? JSON_Error::unterminated_object : JSON_Error::illegal_character
+            );
+            return false;
+        }
         if (!consume_string(String_Type::property)) {
             return false;
         }
-- 
2.43.0


From 9d8b282841436899f7bf15e831d487bfd92ddff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 14/66] fix: convert exactly the matched JSON number,
 independently of the locale

std::strtod read past the end of sources that are not null-terminated,
picked up following characters (0x10, or digits after the end of the source),
and used the decimal point of the current locale.
---
 src/main/cpp/lang/json.cpp | 58 ++++++++++++++++++++++++++++++++------
 1 file changed, 50 insertions(+), 8 deletions(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 61794ef..326ba6c 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -1,7 +1,10 @@
+#include <algorithm>
 #include <charconv>
 #include <cstddef>
 #include <cstdlib>
+#include <limits>
 #include <string_view>
+#include <system_error>
 
 #include "ulight/json.hpp"
 #include "ulight/ulight.hpp"
@@ -148,6 +151,52 @@ Number_Result match_number(std::u8string_view str)
 
 namespace {
 
+/// @brief Converts a number previously matched by `match_number` without errors to `double`.
+/// If its magnitude is too large or too small, the result is an infinity or zero, respectively.
+[[nodiscard]]
+double parse_number(std::u8string_view str)
+{
+    const std::string_view digits = as_string_view(str);
+#ifdef __cpp_lib_to_chars
+    // Unlike std::strtod, std::from_chars does not depend on the locale,
+    // and does not read past the end of the matched number.
+    double value = 0;
+    const auto result = std::from_chars(digits.data(), digits.data() + digits.size(), value);
+    if (result.ec != std::errc::result_out_of_range) {
+        return value;
+    }
+    // The number is out of range,
+    // so the sign of its decimal exponent tells whether it is too large or too small.
+    const std::size_t exponent_pos = std::min(digits.find_first_of("eE"), digits.size());
+    const std::string_view mantissa = digits.substr(0, exponent_pos);
+    const std::size_t point_pos = std::min(mantissa.find('.'), mantissa.size());
+    const std::size_t leading_pos
+        = std::min(mantissa.find_first_of("123456789"), mantissa.size());
+    auto exponent = std::ptrdiff_t(point_pos) - std::ptrdiff_t(leading_pos);
+    if (exponent_pos < digits.size()) {
+        std::string_view exponent_digits = digits.substr(exponent_pos + 1);
+        if (exponent_digits.starts_with('+')) {
+            exponent_digits.remove_prefix(1);
+        }
+        int explicit_exponent = 0;
+        const auto exponent_result = std::from_chars(
+            exponent_digits.data(), exponent_digits.data() + exponent_digits.size(),
+            explicit_exponent
+        );
+        if (exponent_result.ec == std::errc::result_out_of_range) {
+            explicit_exponent = exponent_digits.starts_with('-')
+                ? std::numeric_limits<int>::min()
+                : std::numeric_limits<int>::max();
+        }
+        exponent += explicit_exponent;
+    }
+    const double magnitude = exponent > 0 ? std::numeric_limits<double>::infinity() : 0.0;
+    return digits.starts_with('-') ? -magnitude : magnitude;
+#else
+    return std::strtod(digits.data(), nullptr);
+#endif
+}
+
 enum struct Comment_Policy : bool {
     not_if_strict,
     always_allow,
@@ -708,14 +757,7 @@ private:
 
         const std::u8string_view number_string = remainder.substr(0, number.length);
         if (options.parse_numbers) {
-            const auto* const str_begin = reinterpret_cast<const char*>(number_string.data());
-            char* str_end = nullptr;
-            const double value = std::strtod(str_begin, &str_end);
-            if (str_end == str_begin) {
-                error(JSON_Error::illegal_number);
-                return false;
-            }
-            out.number(pos, number_string, value);
+            out.number(pos, number_string, parse_number(number_string));
         }
         else {
             out.number(pos, number_string);
-- 
2.43.0


From 7c16d41b0c1eee1362cdff55fabe47ade89d1ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 15/66] fix: exit with failure when highlighting or writing the
 output fails

---
 src/main/cpp/main.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/main.cpp b/src/main/cpp/main.cpp
index d022e38..6b22363 100644
--- a/src/main/cpp/main.cpp
+++ b/src/main/cpp/main.cpp
@@ -1,3 +1,4 @@
+#include <cstdio>
 #include <cstdlib>
 #include <expected>
 #include <iostream>
@@ -65,9 +66,14 @@ int main(int argc, const char** argv)
     Status status = state.source_to_html();
     if (status != Status::ok) {
         std::cerr << "Error: " << state.get_error_string() << '\n';
+        return EXIT_FAILURE;
+    }
+    if (std::fflush(out_file) != 0 || std::ferror(out_file) != 0) {
+        std::cerr << "Error: failed to write output.\n";
+        return EXIT_FAILURE;
     }
 
-    return 0;
+    return EXIT_SUCCESS;
 }
 
 } // namespace
-- 
2.43.0


From 5dd25407adcf4d0d2e37bb8c0aa93e1d2724de6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 16/66] fix: do not close a Unique_File twice

close() kept the pointer, so the destructor closed the file again.
---
 include/ulight/impl/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/io.hpp b/include/ulight/impl/io.hpp
index b0c7792..3bfed25 100644
--- a/include/ulight/impl/io.hpp
+++ b/include/ulight/impl/io.hpp
@@ -72,7 +72,7 @@ public:
     void close() noexcept
     {
         if (m_file) {
-            std::fclose(m_file);
+            std::fclose(std::exchange(m_file, nullptr));
         }
     }
 
-- 
2.43.0


From c54dd64838f7f1b6dc10046a09afe5b1fcb05b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:35 +0000
Subject: [PATCH 17/66] fix: treat only white space as white space in
 JavaScript, not U+1681 to U+180E

---
 include/ulight/impl/lang/js.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/js.hpp b/include/ulight/impl/lang/js.hpp
index d6be250..79b6b21 100644
--- a/include/ulight/impl/lang/js.hpp
+++ b/include/ulight/impl/lang/js.hpp
@@ -40,7 +40,7 @@ inline constexpr struct Is_JS_Whitespace {
                 || c == U'\N{NARROW NO-BREAK SPACE}'
                 || c == U'\N{MEDIUM MATHEMATICAL SPACE}'
                 || c == U'\N{IDEOGRAPHIC SPACE}'
-                || (c >= U'\u1680' && c <= U'\u180E')
+                || c == U'\N{OGHAM SPACE MARK}'
                 || (c >= U'\u2000' && c <= U'\u200A');
         // clang-format on
     }
-- 
2.43.0


From 2bb0dae1e13567339a100b985c8d429341043a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 18/66] fix: do not accept form feeds as white space in JSON

---
 include/ulight/impl/lang/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/json.hpp b/include/ulight/impl/lang/json.hpp
index be33d2f..b63ad1b 100644
--- a/include/ulight/impl/lang/json.hpp
+++ b/include/ulight/impl/lang/json.hpp
@@ -11,7 +11,7 @@
 namespace ulight::json {
 
 // https://www.json.org/json-en.html
-inline constexpr auto is_json_whitespace = Charset256(u8" \t\f\n\r");
+inline constexpr auto is_json_whitespace = Charset256(u8" \t\n\r");
 
 inline constexpr auto is_json_escapable = Charset256(u8"\"\\/bfnrtu");
 
-- 
2.43.0


From a48fbbb5e16b24b559df7eb89a7ac0cc5fdaf864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 19/66] fix: end the last range of XML name characters at
 U+EFFFF

---
 include/ulight/impl/lang/xml.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/xml.hpp b/include/ulight/impl/lang/xml.hpp
index e1918ce..33170bb 100644
--- a/include/ulight/impl/lang/xml.hpp
+++ b/include/ulight/impl/lang/xml.hpp
@@ -36,7 +36,7 @@ inline constexpr struct Is_XML_Name_Start {
             || (c >= U'\u3001' && c <= U'\ud7ff') //
             || (c >= U'\uf900' && c <= U'\ufdcf') //
             || (c >= U'\ufdf0' && c <= U'\ufffd') //
-            || (c >= U'\U00010000' && c <= U'\U000effef');
+            || (c >= U'\U00010000' && c <= U'\U000effff');
     }
 } is_xml_name_start;
 
-- 
2.43.0


From 5edde31c1e5c49d5511375290f4019df77d65432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 20/66] fix: build character ranges that end before the last
 limb

---
 include/ulight/impl/charset.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ulight/impl/charset.hpp b/include/ulight/impl/charset.hpp
index 59e3a5a..8623300 100644
--- a/include/ulight/impl/charset.hpp
+++ b/include/ulight/impl/charset.hpp
@@ -27,7 +27,8 @@ struct Charset {
         for (std::size_t limb = 0; limb < limb_count; ++limb) {
             const std::size_t begin = limb * limb_width;
             const std::size_t lo = i > begin ? i - begin : 0;
-            const std::size_t hi = j < begin + limb_width ? j - begin : limb_width;
+            const std::size_t hi
+                = j <= begin ? 0 : j < begin + limb_width ? j - begin : limb_width;
             if (lo < hi) {
                 const limb_type lo_mask = all_bits << lo;
                 const limb_type hi_mask = hi == limb_width ? all_bits : (limb_type { 1 } << hi) - 1;
-- 
2.43.0


From 1913aa601cbc2b3ae60f779bd7b6c5c3cd263638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:55 +0000
Subject: [PATCH 21/66] fix: count the space among the basic characters of C++

---
 include/ulight/impl/lang/cpp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/cpp.hpp b/include/ulight/impl/lang/cpp.hpp
index 4c2734e..67e2346 100644
--- a/include/ulight/impl/lang/cpp.hpp
+++ b/include/ulight/impl/lang/cpp.hpp
@@ -45,7 +45,7 @@ inline constexpr auto is_cpp_whitespace = Charset256(u8"\t\n\f\r \v");
 /// @brief Returns `true` iff `c` is in the
 /// [basic character set](https://eel.is/c++draft/tab:lex.charset.basic).
 inline constexpr auto is_cpp_basic
-    = is_ascii_alphanumeric | Charset256(u8"\t\v\f\r\n!\"#$%&'()*+,-./:;<>=?@[]\\^_`{|}~");
+    = is_ascii_alphanumeric | Charset256(u8" \t\v\f\r\n!\"#$%&'()*+,-./:;<>=?@[]\\^_`{|}~");
 
 inline constexpr auto is_cpp_d_char = (is_ascii_set & ~is_cpp_whitespace) - u8'(' - u8')' - u8'\\';
 
-- 
2.43.0


From b85a57a3dd46a43a0d5319dbfece3df5845fdc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:07 +0000
Subject: [PATCH 22/66] fix: exclude the C1 controls from HTML attribute names

---
 include/ulight/impl/lang/html.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/html.hpp b/include/ulight/impl/lang/html.hpp
index 8b1cf97..edb507a 100644
--- a/include/ulight/impl/lang/html.hpp
+++ b/include/ulight/impl/lang/html.hpp
@@ -91,7 +91,8 @@ inline constexpr struct Is_HTML_Attribute_Name_Character {
     static constexpr bool operator()(const char32_t c) noexcept
     {
         // https://html.spec.whatwg.org/dev/syntax.html#syntax-attribute-name
-        return is_ascii(c) ? is_html_ascii_attribute_name_character(c) : !is_noncharacter(c);
+        return is_ascii(c) ? is_html_ascii_attribute_name_character(c)
+                           : !is_html_control(c) && !is_noncharacter(c);
     }
 } is_html_attribute_name_character;
 
-- 
2.43.0


From ce8ed4b1066f1de214ce3a73fd300a3b400d411a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 23/66] fix: decode characters in strings longer than INT_MAX

---
 include/ulight/impl/unicode.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ulight/impl/unicode.hpp b/include/ulight/impl/unicode.hpp
index 9e14002..8cd60d6 100644
--- a/include/ulight/impl/unicode.hpp
+++ b/include/ulight/impl/unicode.hpp
@@ -502,9 +502,8 @@ constexpr Code_Point_And_Length decode_and_length_or_replacement(const std::u8st
     }
     // Check each expected continuation byte.
     // Stop early if a byte is absent or invalid, returning the maximal subpart.
-    const int available = static_cast<int>(str.size());
     for (int i = 1; i < expected; ++i) {
-        if (i >= available) [[unlikely]] {
+        if (std::size_t(i) >= str.size()) [[unlikely]] {
             // Truncated at end of input: bytes [0, i) are a valid prefix.
             return { U'\N{REPLACEMENT CHARACTER}', i };
         }
-- 
2.43.0


From 7ec97bd42f8dcfe2f9ac6add2f5f373d84e832d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 24/66] fix: match the longest number suffix, so that UL is not
 split into U and L

---
 src/main/cpp/parse_utils.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index a289886..ba83bf0 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -245,12 +245,11 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
     if (length < str.length()) {
         if (!options.suffixes.empty()) {
             for (const std::u8string_view suffix : options.suffixes) {
-                if (str.substr(length).starts_with(suffix)) {
+                if (suffix.length() > result.suffix && str.substr(length).starts_with(suffix)) {
                     result.suffix = suffix.length();
-                    length += result.suffix;
-                    break;
                 }
             }
+            length += result.suffix;
         }
         else if (options.match_suffix) {
             const std::size_t suffix = options.match_suffix(str.substr(length));
-- 
2.43.0


From 9246588b884b9fd8a29d8448402203e66a80feeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 25/66] fix: match the asterisk and plus operators of Bash

---
 src/main/cpp/lang/bash.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index 7c58241..15467ed 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -106,7 +106,8 @@ std::optional<Token_Type> match_operator(std::u8string_view str)
                                        : amp;
     case u8'(': return left_parens;
     case u8')': return right_parens;
-    case u8'*': return plus;
+    case u8'*': return asterisk;
+    case u8'+': return plus;
     case u8'-': return minus;
     case u8':': return colon;
     case u8';': return semicolon;
-- 
2.43.0


From 36640e793a85ac38f7a96a794e27480a4860e7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 26/66] fix: match the %> digraph as a brace

---
 src/main/cpp/lang/cpp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index e50a9c4..1ddf442 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -481,7 +481,7 @@ std::optional<Token_Type> match_preprocessing_op_or_punc(std::u8string_view str,
         return str.starts_with(u8"%:%:") ? pound_pound_alt
             : str.starts_with(u8"%:")    ? pound_alt
             : str.starts_with(u8"%=")    ? percent_eq
-            : str.starts_with(u8"%>")    ? right_square_alt
+            : str.starts_with(u8"%>")    ? right_brace_alt
                                          : percent;
     case u8'{': return left_brace;
     case u8'}': return right_brace;
-- 
2.43.0


From dc9c2bf5b8d6c2de81c5b8c261198770e34465a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 27/66] fix: match the double arrow of Kotlin

---
 src/main/cpp/lang/kotlin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 9d24fda..2955b07 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -128,7 +128,7 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
     case u8'=':
         return str.starts_with(u8"===") ? eqeqeq
             : str.starts_with(u8"==")   ? eqeq
-            : str.starts_with(u8">=")   ? double_arrow
+            : str.starts_with(u8"=>")   ? double_arrow
                                         : assignment;
     case u8'>': return str.starts_with(u8">=") ? ge : rangle;
     case u8'?':
-- 
2.43.0


From 27791bb16b476d15de2ee31a63ed52b8acbe02cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 28/66] fix: list Kotlin's super keyword without the label sign

---
 include/ulight/impl/lang/kotlin.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/kotlin.hpp b/include/ulight/impl/lang/kotlin.hpp
index 6036cce..64a9bf0 100644
--- a/include/ulight/impl/lang/kotlin.hpp
+++ b/include/ulight/impl/lang/kotlin.hpp
@@ -118,7 +118,7 @@ namespace ulight::kotlin {
     F(sealed, "sealed", keyword)                                                                   \
     F(set, "set", keyword)                                                                         \
     F(setparam, "setparam", keyword)                                                               \
-    F(super, "super@", keyword_this)                                                               \
+    F(super, "super", keyword_this)                                                                \
     F(super_at, "super@", keyword_this)                                                            \
     F(suspend, "suspend", keyword)                                                                 \
     F(this_, "this", keyword_this)                                                                 \
-- 
2.43.0


From 33e5e3948b37f70157a5d23ee4503a2266080cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 29/66] fix: match the <- token of Rust

---
 src/main/cpp/lang/rust.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 4dedc55..da8e95c 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -215,6 +215,7 @@ std::optional<Token_Type> match_punctuation(std::u8string_view str) noexcept
         return str.starts_with(u8"<<=") ? lt_lt_eq
             : str.starts_with(u8"<<")   ? lt_lt
             : str.starts_with(u8"<=")   ? lt_eq
+            : str.starts_with(u8"<-")   ? lt_minus
                                         : lt;
     case u8'=':
         return str.starts_with(u8"==") ? eq_eq //
-- 
2.43.0


From 113784a67777078b8157a59d0428953d90219f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 30/66] fix: try the longer number prefixes of LLVM before 0x

---
 src/main/cpp/lang/llvm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/llvm.cpp b/src/main/cpp/lang/llvm.cpp
index 8411d91..1e504a4 100644
--- a/src/main/cpp/lang/llvm.cpp
+++ b/src/main/cpp/lang/llvm.cpp
@@ -354,11 +354,11 @@ private:
     {
         // https://llvm.org/docs/LangRef.html#simple-constants
         static constexpr Number_Prefix prefixes[] {
-            { u8"0x"sv, 16 }, // float and double
             { u8"0xK"sv, 16 }, // x86 80-bit
             { u8"0xL"sv, 16 }, // IEEE 128-bit
             { u8"0xM"sv, 16 }, // PowerPC 128-bit
             { u8"0xR"sv, 16 }, // bfloat 16-bit
+            { u8"0x"sv, 16 }, // float and double
             { u8"s0x"sv, 16 }, // signed integer
             { u8"u0x"sv, 16 }, // unsigned integer
         };
-- 
2.43.0


From 6ee2e842679d8be34000b3fbb117a688ae41cfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:48 +0000
Subject: [PATCH 31/66] fix: list the jna instruction once

---
 src/main/cpp/lang/nasm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 3f28f46..8b493e9 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -266,7 +266,7 @@ constexpr std::u8string_view label_instructions[] {
     u8"call",
 
     u8"ja",   u8"jae",   u8"jb",     u8"jbe",    u8"jc",    u8"je",   u8"jg",  u8"jge",
-    u8"jl",   u8"jle",   u8"jmp",    u8"jna",    u8"jna",   u8"jnae", u8"jnb", u8"jnbe",
+    u8"jl",   u8"jle",   u8"jmp",    u8"jna",    u8"jnae", u8"jnb", u8"jnbe",
     u8"jnc",  u8"jne",   u8"jng",    u8"jnge",   u8"jnl",   u8"jnle", u8"jno", u8"jnp",
     u8"jnz",  u8"jo",    u8"jp",     u8"jpe",    u8"jpo",   u8"js",   u8"jz",
 
-- 
2.43.0


From 2f6c011787b2b03a05e60be4246463e0fe775611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 32/66] fix: match raw text past an end tag whose name only
 starts with the element's name

After rejecting a name such as "</scripty" as the end tag, match_raw_text skipped two further code units
(possibly past the end of the text) and lost the length of the rejected name; match_escapable_raw_text_piece
lost that length as well.
---
 src/main/cpp/lang/html.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index 3705701..e0241f7 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -104,8 +104,7 @@ std::size_t match_raw_text(std::u8string_view str, std::u8string_view closing_na
         if (is_html_whitespace(c) || c == u8'>' || c == u8'/') {
             return length;
         }
-        length += 2;
-        str.remove_prefix(2);
+        length = new_length;
     }
     return length;
 }
@@ -153,6 +152,7 @@ match_escapable_raw_text_piece(std::u8string_view str, std::u8string_view closin
         if (is_html_whitespace(c) || c == u8'>' || c == u8'/') {
             return { .raw_length = length, .ref_length = 0 };
         }
+        length = new_length;
     }
     return { .raw_length = length, .ref_length = 0 };
 }
-- 
2.43.0


From f2d7833b6a61e725f855d7115f2430853f99b1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:28 +0000
Subject: [PATCH 33/66] fix: do not advance past the end of a truncated
 character literal

---
 src/main/cpp/lang/cpp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index 1ddf442..12bdbd0 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -811,7 +811,8 @@ public:
                 fresh_line = true;
                 return;
             }
-            const auto code_units = std::size_t(utf8::sequence_length(source[index], 1));
+            const auto code_units
+                = std::size_t(utf8::decode_and_length_or_replacement(remainder()).length);
             chars_length += code_units;
             advance(code_units);
         }
-- 
2.43.0


From f2fb0cf6f749f19feaaa6ce04a8d05bdec472621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:28 +0000
Subject: [PATCH 34/66] fix: advance by the decoded length of malformed UTF-8
 in CSS

---
 src/main/cpp/lang/css.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 1a895b2..7ba277b 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -98,7 +98,7 @@ std::size_t match_escaped_code_point(std::u8string_view str)
         }
         return length;
     }
-    return std::size_t(utf8::sequence_length(str[0]));
+    return std::size_t(utf8::decode_and_length_or_replacement(str).length);
 }
 
 std::size_t match_ident_sequence(std::u8string_view str)
@@ -398,7 +398,7 @@ public:
                     consume_ident_like_token(contextual_highlight_type);
                 }
                 else {
-                    advance(std::size_t(utf8::sequence_length(c)));
+                    advance(std::size_t(utf8::decode_and_length_or_replacement(remainder).length));
                 }
                 break;
             }
-- 
2.43.0


From ec4927e73cba1d5d2c2045a3a90ce3cf792c3776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:28 +0000
Subject: [PATCH 35/66] fix: do not skip a code unit after a character
 reference

---
 src/main/cpp/lang/html.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index e0241f7..ad060f7 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -454,7 +454,7 @@ private:
             }
         };
 
-        for (; piece_length < remainder.length(); ++piece_length) {
+        while (piece_length < remainder.length()) {
             const char8_t c = remainder[piece_length];
             if (is_html_unquoted_attribute_value_terminator(c)) {
                 flush();
@@ -464,7 +464,9 @@ private:
                 = match_character_reference(remainder.substr(piece_length))) {
                 flush();
                 emit_and_advance(ref_length, Highlight_Type::string_escape);
+                continue;
             }
+            ++piece_length;
         }
         flush();
         return true;
@@ -483,7 +485,7 @@ private:
             }
         };
 
-        for (; piece_length < remainder.length(); ++piece_length) {
+        while (piece_length < remainder.length()) {
             const char8_t c = remainder[piece_length];
             if (c == quote_char) {
                 ++piece_length;
@@ -494,7 +496,9 @@ private:
                 = match_character_reference(remainder.substr(piece_length))) {
                 flush();
                 emit_and_advance(ref_length, Highlight_Type::string_escape);
+                continue;
             }
+            ++piece_length;
         }
         flush();
         return true;
-- 
2.43.0


From 8f0c51f1bbf4671a84d50000da258e8d587ea287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:28 +0000
Subject: [PATCH 36/66] fix: keep JavaScript tokens within JSX braces and
 string contents

---
 src/main/cpp/lang/js.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 7449ea1..07008fb 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1178,9 +1178,18 @@ private:
         emit_and_advance(1, Highlight_Type::symbol_brace);
         const std::size_t js_length = braced.length - (braced.is_terminated ? 2 : 1);
 
-        if (js_length != 0) {
+        // match_jsx_braced only counts braces, so tokens such as regular expressions
+        // and template literals may extend past the closing brace that was found.
+        // Therefore, tokens are limited to the text inside the braces.
+        const std::u8string_view after_js = remainder.substr(js_length);
+        remainder = remainder.substr(0, js_length);
+        while (!remainder.empty()) {
             consume_js_before_closing_brace();
+            if (!remainder.empty()) {
+                emit_and_advance(1, Highlight_Type::symbol_brace);
+            }
         }
+        remainder = after_js;
         if (braced.is_terminated) {
             emit_and_advance(1, Highlight_Type::symbol_brace);
         }
@@ -1284,7 +1293,8 @@ private:
         std::size_t remaining = content_length;
         while (remaining > 0) {
             if (remainder.starts_with(u8'\\')) {
-                if (const Escape_Result esc = match_escape_sequence(remainder)) {
+                if (const Escape_Result esc
+                    = match_escape_sequence(remainder.substr(0, remaining))) {
                     flush_chars();
                     emit_and_advance(
                         esc.length,
-- 
2.43.0


From 1d50c7af408fa9d676b2cd8cd9f2e239e7605329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:28 +0000
Subject: [PATCH 37/66] fix: emit no empty tokens for empty Lua comments and
 strings

---
 src/main/cpp/lang/lua.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/lang/lua.cpp b/src/main/cpp/lang/lua.cpp
index 9c048ad..269356c 100644
--- a/src/main/cpp/lang/lua.cpp
+++ b/src/main/cpp/lang/lua.cpp
@@ -528,6 +528,10 @@ bool highlight_lua(
 )
 {
     const auto emit = [&](std::size_t begin, std::size_t length, Highlight_Type type) {
+        // Empty comments and long strings have no content, and tokens are never empty.
+        if (length == 0) {
+            return;
+        }
         const bool coalesce = options.coalescing //
             && !out.empty() //
             && Highlight_Type(out.back().type) == type //
-- 
2.43.0


From 32a7dc432770f093880c99d63e5ce3cdfdba3d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:28 +0000
Subject: [PATCH 38/66] fix: emit no empty token for an unterminated comment

---
 src/main/cpp/lang/markdown.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/markdown.cpp b/src/main/cpp/lang/markdown.cpp
index 5e1f766..84e315b 100644
--- a/src/main/cpp/lang/markdown.cpp
+++ b/src/main/cpp/lang/markdown.cpp
@@ -830,7 +830,11 @@ private:
             return true;
         }
 
-        emit_and_advance(comment.length - html_comment_prefix.length(), Highlight_Type::comment);
+        if (comment.length > html_comment_prefix.length()) {
+            emit_and_advance(
+                comment.length - html_comment_prefix.length(), Highlight_Type::comment
+            );
+        }
         in_html_comment = true;
         return true;
     }
-- 
2.43.0


From df0d2ec046370fb81d2d14095edc817c0e0a6d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:28 +0000
Subject: [PATCH 39/66] fix: drop wrong assertions about Rust lifetimes

---
 src/main/cpp/lang/rust.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index da8e95c..d5354b0 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -585,9 +585,6 @@ private:
             else {
                 emit_result(raw_prefix.length(), id_length);
             }
-            // There should not be a closing apostrophe here because any such case would have
-            // been interpreted as a character literal already.
-            ULIGHT_DEBUG_ASSERT(!remainder.starts_with(u8'\''));
         }
         else {
             const std::size_t id_length = match_identifier(remainder.substr(1));
@@ -595,7 +592,6 @@ private:
                 return false;
             }
             emit_result(1, id_length);
-            ULIGHT_DEBUG_ASSERT(!remainder.starts_with(u8'\''));
         }
         return true;
     }
-- 
2.43.0


From de23d645b01b3c7be8992b950225afec96475f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:28 +0000
Subject: [PATCH 40/66] fix: do not overflow the YAML indentation stack

---
 src/main/cpp/lang/yaml.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 7297ae8..058f13e 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -216,9 +216,19 @@ struct Highlighter : Highlighter_Base {
         std::size_t data[capacity];
         std::size_t size = 0;
 
+        /// @brief Pushes an indentation level.
+        /// A level equal to the current one is not pushed again,
+        /// so that entries of the same collection do not accumulate.
+        /// If there are too many levels, the outermost one is forgotten.
         void push(std::size_t n)
         {
-            ULIGHT_ASSERT(size < capacity);
+            if (size != 0 && top() == n) {
+                return;
+            }
+            if (size == capacity) {
+                std::shift_left(data, data + capacity, 1);
+                --size;
+            }
             data[size++] = n;
         }
 
-- 
2.43.0


From 97ebb765bdf45fdba37fd9dc52b667869ba5bc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:32 +0000
Subject: [PATCH 41/66] fix: reject file paths with an embedded null character

---
 src/main/cpp/io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/io.cpp b/src/main/cpp/io.cpp
index 92415e8..838f3b7 100644
--- a/src/main/cpp/io.cpp
+++ b/src/main/cpp/io.cpp
@@ -24,7 +24,8 @@ std::expected<void, IO_Error_Code> file_to_bytes_chunked(
     constexpr std::size_t block_size = BUFSIZ;
     char buffer[block_size] {};
 
-    if (path.size() >= block_size) {
+    // A path with a null character would be cut off by std::fopen.
+    if (path.size() >= block_size || path.contains('\0')) {
         return std::unexpected { IO_Error_Code::cannot_open };
     }
     std::memcpy(buffer, path.data(), path.size());
-- 
2.43.0


From 68d2123f1a6a4635d9c0cee9d96be68eab401f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:58 +0000
Subject: [PATCH 42/66] fix: XML attribute without a value is reported as
 consumed

expect_attribute consumed the name and the equals sign, and then returned
false when no value followed, so that its caller took the attribute for
absent although the text had been consumed.
---
 src/main/cpp/lang/xml.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 9dec07c..8389e11 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -601,7 +601,9 @@ private:
 
         expect_whitespace();
 
-        return expect_attribute_value();
+        // The attribute is consumed even if its value is missing.
+        expect_attribute_value();
+        return true;
     }
 
     bool expect_attribute_value()
-- 
2.43.0


From 69a549a1514f0613d533b37b061e10728b005e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:31 +0000
Subject: [PATCH 43/66] fix: trailing digit separators are erroneous anywhere

The character which ends the run of digits was taken for its last character,
so a trailing separator was reported only at the end of the text, and an
empty run at the end of the text was reported as erroneous.
---
 src/main/cpp/parse_utils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index ba83bf0..e54a4ed 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -154,10 +154,12 @@ Digits_Result match_separated_digits(std::u8string_view str, int base, char8_t s
             return true;
         }
         const bool is_digit = is_ascii_digit_base(c, base);
-        previous = c;
+        if (is_digit) {
+            previous = c;
+        }
         return is_digit;
     });
-    erroneous |= previous == separator;
+    erroneous |= length != 0 && previous == separator;
 
     return { .length = length, .erroneous = erroneous };
 }
-- 
2.43.0


From 45af30e6c9efc15e60f9b1b42d39c4a3aaee1ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:31 +0000
Subject: [PATCH 44/66] fix: blank lines at the end of the text end with a line
 feed

Blanks after the last line feed were counted as a part of the blank lines.
---
 src/main/cpp/parse_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index e54a4ed..e1731ce 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -66,7 +66,7 @@ Blank_Line find_blank_line_sequence // NOLINT(bugprone-exception-escape)
 
     static_assert(!Blank_Line {}, "A value-initialized Blank_Line should be falsy");
     if (state == State::blank) {
-        return { .begin = blank_begin, .length = str.size() - blank_begin };
+        return { .begin = blank_begin, .length = blank_end - blank_begin };
     }
     return {};
 }
-- 
2.43.0


From cc830bfa65469e1a87bef2ce55b52556a8b7bd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:31 +0000
Subject: [PATCH 45/66] fix: digit separators in numbers with a base suffix

A separator was taken for a digit beyond every base, so any number with one
was erroneous, and without a separator every character was a digit.
---
 src/main/cpp/parse_utils.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index e1731ce..240698a 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -280,7 +280,7 @@ Suffix_Number_Result match_suffix_number(
     ULIGHT_ASSERT(determine_suffix);
 
     const std::size_t length = ascii::length_if(str, [s = digit_separator](char8_t c) {
-        return s == 0 || c == s || is_ascii_alphanumeric(c);
+        return (s != 0 && c == s) || is_ascii_alphanumeric(c);
     });
 
     if (length <= 1) {
@@ -297,18 +297,19 @@ Suffix_Number_Result match_suffix_number(
         for (std::size_t i = 0; i + suffix.length < length; ++i) {
             const char8_t c = number[i];
 
+            if (digit_separator != 0 && c == digit_separator) {
+                if (i == 0 || number[i - 1] == digit_separator) {
+                    return true;
+                }
+                continue;
+            }
+
             const int digit_value = c >= u8'A' && c <= u8'Z' ? c - u8'A' + 10
                 : c >= u8'a' && c <= u8'z'                   ? c - u8'a' + 10
                                                              : c - u8'0';
             if (digit_value >= suffix.base) {
                 return true;
             }
-            const bool repeated_separator = digit_separator != 0 && c == digit_separator //
-                && i != 0 //
-                && number[i - 1] == digit_separator;
-            if (repeated_separator) {
-                return true;
-            }
         }
         return false;
     }();
-- 
2.43.0


From 303189152a2fdc5de585eb2ad634b16c532a4ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:31 +0000
Subject: [PATCH 46/66] fix: a number of only a sign and a prefix is erroneous

Only a prefix without a sign was.
---
 src/main/cpp/parse_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 240698a..1ffb352 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -261,7 +261,7 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
     }
 
     result.length = length;
-    result.erroneous |= result.prefix == length;
+    result.erroneous |= result.prefix != 0 && result.sign + result.prefix == length;
     ULIGHT_DEBUG_ASSERT(
         (result.sign + result.prefix + result.integer + result.radix_point + result.fractional
          + result.exponent_sep + result.exponent_digits + result.suffix)
-- 
2.43.0


From 525b8018495d2f2f46bc2cc65d2151caa07cf474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:31 +0000
Subject: [PATCH 47/66] fix: braced escapes without a brace or contents are
 erroneous

Numeric escapes which are not closed, and named escapes which are empty,
were reported as valid.
---
 include/ulight/impl/escapes.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/ulight/impl/escapes.hpp b/include/ulight/impl/escapes.hpp
index 649b296..ad473f3 100644
--- a/include/ulight/impl/escapes.hpp
+++ b/include/ulight/impl/escapes.hpp
@@ -111,11 +111,9 @@ constexpr Escape_Result match_common_braced_escape(std::u8string_view str, Predi
     }
     const std::size_t length_without_brace = ascii::length_before(str, u8'}', 1);
     const std::u8string_view digits = str.substr(1, length_without_brace - 1);
-    const bool erroneous = length_without_brace <= 1 || !all_of(digits, p);
-    const std::size_t length
-        = length_without_brace == str.length() || str[length_without_brace] != u8'}'
-        ? length_without_brace
-        : length_without_brace + 1;
+    const bool is_terminated = length_without_brace != str.length();
+    const bool erroneous = !is_terminated || digits.empty() || !all_of(digits, p);
+    const std::size_t length = is_terminated ? length_without_brace + 1 : length_without_brace;
     return { .length = length, .erroneous = erroneous };
 }
 
@@ -175,7 +173,7 @@ constexpr Escape_Result match_common_escape(std::u8string_view str)
         if (index == std::u8string_view::npos) {
             return { .length = str.length(), .erroneous = true };
         }
-        return { .length = index + 1 };
+        return { .length = index + 1, .erroneous = index == 1 };
     }
 
     else if constexpr (type == Common_Escape::hex_braced) {
-- 
2.43.0


From 4f3215de36d0aa7b3097077ca8308b287738be33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:25 +0000
Subject: [PATCH 48/66] fix: Convert the result of a bound constant function in
 Function_Ref

---
 include/ulight/function_ref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/function_ref.hpp b/include/ulight/function_ref.hpp
index 1b49718..5305727 100644
--- a/include/ulight/function_ref.hpp
+++ b/include/ulight/function_ref.hpp
@@ -97,7 +97,7 @@ public:
                      && std::convertible_to<T*, Storage*>
     [[nodiscard]]
     constexpr Function_Ref_Base(Constant<F>, T* entity) noexcept
-        : m_invoker { [](Storage* entity, Args... args) noexcept(nothrow) { //
+        : m_invoker { [](Storage* entity, Args... args) noexcept(nothrow) -> R { //
             return F(const_cast<T*>(static_cast<const T*>(entity)), std::forward<Args>(args)...);
         } }
         , m_entity { entity }
-- 
2.43.0


From 9e560b3621a6a3aabe23f079627aa80d87bbdadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:25 +0000
Subject: [PATCH 49/66] fix: Compare with the output's element type before
 using memmove in copy

---
 include/ulight/impl/algorithm/copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/algorithm/copy.hpp b/include/ulight/impl/algorithm/copy.hpp
index e7badbe..5d27e1b 100644
--- a/include/ulight/impl/algorithm/copy.hpp
+++ b/include/ulight/impl/algorithm/copy.hpp
@@ -23,7 +23,7 @@ template <typename Iter, typename Out>
 constexpr void copy(Iter begin, Iter end, Out dest)
 {
     using Iter_Element = std::iter_value_t<Iter>;
-    using Out_Element = std::iter_value_t<Iter>;
+    using Out_Element = std::iter_value_t<Out>;
 
     constexpr bool can_memmove //
         = std::contiguous_iterator<Iter> //
-- 
2.43.0


From 9d6718a9125c956d35b08096625003b5d209a1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:25 +0000
Subject: [PATCH 50/66] fix: Include the closing '>' in HTML end tags with
 whitespace

---
 src/main/cpp/lang/html.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index ad060f7..c8ef86e 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -252,7 +252,7 @@ End_Tag_Result match_end_tag_permissive(const std::u8string_view str)
         return {};
     }
 
-    return { .length = end_pos, .name_length = name_length };
+    return { .length = end_pos + 1, .name_length = name_length };
 }
 
 namespace {
-- 
2.43.0


From 41d2f77c951a36debb6f387c2d02c6f41686ed0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:25 +0000
Subject: [PATCH 51/66] fix: Match HTML character references with uppercase X

---
 src/main/cpp/lang/html.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index c8ef86e..8278971 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -31,7 +31,7 @@ constexpr std::u8string_view doctype_prefix = u8"<!DOCTYPE";
 
 bool is_character_reference_content(std::u8string_view str)
 {
-    if (str.starts_with(u8"#x")) {
+    if (str.starts_with(u8"#x") || str.starts_with(u8"#X")) {
         return str.length() > 2 && std::ranges::all_of(str.substr(2), is_ascii_hex_digit);
     }
     if (str.starts_with(u8'#')) {
-- 
2.43.0


From 3029044035cefc157bc6bc0f174326a9013e090d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:26 +0000
Subject: [PATCH 52/66] fix: Recognize url( in CSS

---
 src/main/cpp/lang/css.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 7ba277b..ec38fd3 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -127,7 +127,7 @@ Ident_Result match_ident_like_token(std::u8string_view str)
     // parenthesis or the following URL, just the identifier.
 
     const std::size_t length = match_ident_sequence(str);
-    const std::u8string_view result = str.substr(length);
+    const std::u8string_view result = str.substr(0, length);
 
     if (length == str.length() || str[length] != u8'(') {
         return { .length = length, .type = Ident_Type::ident };
-- 
2.43.0


From c49d3f9b408296e5b5edabda8cd9c44d0484161d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:26 +0000
Subject: [PATCH 53/66] fix: Accept NASM octal escapes of one to three digits

---
 src/main/cpp/lang/nasm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 8b493e9..1cd5a99 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -43,7 +43,7 @@ Escape_Result match_escape_sequence(std::u8string_view str)
     case u8'5':
     case u8'6':
     case u8'7': {
-        return match_common_escape<Common_Escape::octal_1_to_2>(str, 2);
+        return match_common_escape<Common_Escape::octal_1_to_3>(str, 1);
     }
     case u8'x': {
         return match_common_escape<Common_Escape::hex_1_to_2>(str, 2);
-- 
2.43.0


From 672bc3b8d1fec27aec3dc554dc62d0d4ce1e5300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:26 +0000
Subject: [PATCH 54/66] fix: Accept Python octal escapes of one to three digits

---
 src/main/cpp/lang/python.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index ff8b430..84a6f62 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -165,7 +165,7 @@ Escape_Result match_escape_sequence(const std::u8string_view str, const String_P
         // Note that while octal escapes with a value above 255 produce a `SyntaxWarning`
         // as of Python 3.12, they do not raise an error yet,
         // so we don't highlight them as an error.
-        return match_common_escape<Common_Escape::octal_3>(str, 1);
+        return match_common_escape<Common_Escape::octal_1_to_3>(str, 1);
     }
 
     case u8'x': return match_common_escape<Common_Escape::hex_2>(str, 2);
-- 
2.43.0


From 40dc296474d73864bde08b748535d2e4578a898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:26 +0000
Subject: [PATCH 55/66] fix: Accept Python numbers that start with a point

---
 src/main/cpp/lang/python.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index 84a6f62..f6d6a88 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -138,7 +138,6 @@ Common_Number_Result match_number(std::u8string_view str)
         .exponent_separators = exponent_separators,
         .suffixes = suffixes,
         .digit_separator = digit_separator,
-        .nonempty_integer = true,
     };
     return match_common_number(str, options);
 }
-- 
2.43.0


From 9060ebc8675edcc388bfb5c5ff5845e850fe38a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:26 +0000
Subject: [PATCH 56/66] fix: Treat a lone carriage return as line terminator
 sequence in JavaScript

---
 src/main/cpp/lang/js.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 07008fb..d94a8d2 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -171,6 +171,7 @@ std::size_t match_line_terminator_sequence(std::u8string_view s)
 
     return s.starts_with(u8'\n') ? 1
         : s.starts_with(crlf)    ? crlf.length()
+        : s.starts_with(u8'\r') ? 1
         : s.starts_with(ls)      ? ls.length()
         : s.starts_with(ps)      ? ps.length()
                                  : 0;
-- 
2.43.0


From a9158b86a1baf573b65cce40dd3247b617db5dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:26 +0000
Subject: [PATCH 57/66] fix: Detect trailing separators in JavaScript digits

---
 src/main/cpp/lang/js.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index d94a8d2..aace09c 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -338,7 +338,9 @@ Digits_Result match_digits(std::u8string_view str, int base)
             return true;
         }
         const bool is_digit = is_ascii_digit_base(c, base);
-        previous = c;
+        if (is_digit) {
+            previous = c;
+        }
         return is_digit;
     });
     erroneous |= previous == u8'_';
-- 
2.43.0


From 48fbe6f72a5ca86bf47485ae14faa77a9993ab8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:26 +0000
Subject: [PATCH 58/66] fix: End JavaScript strings at carriage returns, but
 not in line continuations

---
 src/main/cpp/lang/js.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index aace09c..1f2faa5 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -309,6 +309,10 @@ String_Literal_Result match_string_literal(std::u8string_view str)
 
         if (escaped) {
             escaped = false;
+            // "\r\n" is a single line terminator sequence in a line continuation.
+            if (str.substr(length).starts_with(u8"\r\n")) {
+                ++length;
+            }
         }
         else if (c == u8'\\') {
             escaped = true;
@@ -316,7 +320,7 @@ String_Literal_Result match_string_literal(std::u8string_view str)
         else if (c == quote) {
             return String_Literal_Result { .length = length + 1, .terminated = true };
         }
-        else if (c == u8'\n') {
+        else if (c == u8'\n' || c == u8'\r') {
             return String_Literal_Result { .length = length, .terminated = false };
         }
 
-- 
2.43.0


From 7f15d2844c642e313bbd88025333c9e2cd8a22c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:26 +0000
Subject: [PATCH 59/66] fix: Treat non-ASCII characters as parts of CSS
 identifiers

---
 src/main/cpp/lang/css.cpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index ec38fd3..a8d1741 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -34,6 +34,25 @@ bool starts_with_valid_escape(std::u8string_view str)
     return str.length() >= 2 && str[0] == u8'\\' && !is_css_newline(str[1]);
 }
 
+namespace {
+
+/// @brief Returns `true` if `c` is an ident-start code point or part of one;
+/// every non-ASCII code point is an ident-start code point.
+[[nodiscard]]
+constexpr bool is_ident_start_unit(char8_t c)
+{
+    return !is_ascii(c) || is_css_identifier_start(c);
+}
+
+/// @brief Returns `true` if `c` is an ident code point or part of one.
+[[nodiscard]]
+constexpr bool is_ident_unit(char8_t c)
+{
+    return !is_ascii(c) || is_css_identifier(c);
+}
+
+} // namespace
+
 bool starts_with_ident_sequence(std::u8string_view str)
 {
     // https://www.w3.org/TR/css-syntax-3/#would-start-an-identifier
@@ -41,10 +60,10 @@ bool starts_with_ident_sequence(std::u8string_view str)
         return false;
     }
     if (str[0] == u8'-') {
-        return (str.length() > 1 && is_css_identifier_start(str[1]))
+        return (str.length() > 1 && is_ident_start_unit(str[1]))
             || starts_with_valid_escape(str.substr(1));
     }
-    return is_css_identifier_start(str[0]) || starts_with_valid_escape(str);
+    return is_ident_start_unit(str[0]) || starts_with_valid_escape(str);
 }
 
 std::size_t match_number(std::u8string_view str)
@@ -110,7 +129,7 @@ std::size_t match_ident_sequence(std::u8string_view str)
             ++length;
             length += match_escaped_code_point(str.substr(length));
         }
-        else if (is_css_identifier(str[length])) {
+        else if (is_ident_unit(str[length])) {
             ++length;
         }
         else {
@@ -209,7 +228,7 @@ public:
             }
             case u8'#': {
                 if (remainder.length() > 1
-                    && (is_css_identifier(remainder[1])
+                    && (is_ident_unit(remainder[1])
                         || starts_with_valid_escape(remainder.substr(1)))) {
                     const auto highlight_type = context == Context::value
                         ? Highlight_Type::value
@@ -394,7 +413,7 @@ public:
                 break;
             }
             default: {
-                if (is_css_identifier_start(c)) {
+                if (is_ident_start_unit(c)) {
                     consume_ident_like_token(contextual_highlight_type);
                 }
                 else {
@@ -503,7 +522,7 @@ public:
                 const std::size_t escape_length = match_escaped_code_point(remainder.substr(1)) + 1;
                 emit_and_advance(escape_length, Highlight_Type::string_escape);
             }
-            else if (is_css_identifier(remainder[length])) {
+            else if (is_ident_unit(remainder[length])) {
                 ++length;
             }
             else {
-- 
2.43.0


From f277b3022d4b7958795b747467ecf099c8dd24df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:26 +0000
Subject: [PATCH 60/66] fix: Recognize CSS identifiers that start with two
 hyphens

---
 src/main/cpp/lang/css.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index a8d1741..a99845c 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -60,7 +60,7 @@ bool starts_with_ident_sequence(std::u8string_view str)
         return false;
     }
     if (str[0] == u8'-') {
-        return (str.length() > 1 && is_ident_start_unit(str[1]))
+        return (str.length() > 1 && (str[1] == u8'-' || is_ident_start_unit(str[1])))
             || starts_with_valid_escape(str.substr(1));
     }
     return is_ident_start_unit(str[0]) || starts_with_valid_escape(str);
-- 
2.43.0


From ba061ec425b4202594b42d24c9d23d857b197bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:28 +0000
Subject: [PATCH 61/66] fix: Recognize positional parameters as substitutions
 in Bash

---
 include/ulight/impl/lang/bash.hpp | 2 +-
 src/main/cpp/lang/bash.cpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ulight/impl/lang/bash.hpp b/include/ulight/impl/lang/bash.hpp
index a53e3ef..790fe3c 100644
--- a/include/ulight/impl/lang/bash.hpp
+++ b/include/ulight/impl/lang/bash.hpp
@@ -45,7 +45,7 @@ inline constexpr auto is_bash_identifier = is_ascii_alphanumeric | u8'_';
 
 /// @brief Returns `true` iff `c` would start a parameter substitution when following `'$'`.
 inline constexpr auto is_bash_parameter_substitution_start
-    = Charset256(u8"({") | is_bash_identifier_start | is_bash_special_parameter;
+    = Charset256(u8"({") | is_bash_identifier_start | is_bash_special_parameter | is_ascii_digit_set;
 
 /// @brief Returns `true` if `c` is a character that ends a sequence of unquoted characters that
 /// comprise a single argument for the highlighter.
diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index 15467ed..9dd159a 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -402,7 +402,7 @@ private:
             };
         };
 
-        if (is_bash_special_parameter(next)) {
+        if (is_bash_special_parameter(next) || is_ascii_digit(next)) {
             emit_and_advance(2, Highlight_Type::string_interpolation);
             update_state();
             return;
-- 
2.43.0


From 9cecddcc8a36718f985c96ec3157c917fcd2463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:28 +0000
Subject: [PATCH 62/66] fix: Correct the characters of NASM identifiers

---
 include/ulight/impl/lang/nasm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/nasm.hpp b/include/ulight/impl/lang/nasm.hpp
index 4c0a95a..78a9eeb 100644
--- a/include/ulight/impl/lang/nasm.hpp
+++ b/include/ulight/impl/lang/nasm.hpp
@@ -12,7 +12,7 @@ namespace ulight::nasm {
 inline constexpr auto is_nasm_identifier_start = is_ascii_alpha | Charset256(u8"._?$");
 
 // https://www.nasm.us/xdoc/2.16.03/html/nasmdoc3.html
-inline constexpr auto is_nasm_identifier = is_ascii_alphanumeric | Charset256(u8"_$@-.?");
+inline constexpr auto is_nasm_identifier = is_ascii_alphanumeric | Charset256(u8"_$#@~.?");
 
 [[nodiscard]]
 bool is_pseudo_instruction(std::u8string_view name) noexcept;
-- 
2.43.0


From f2b03f15f8ad6d5e54f930ce956df15c47adeaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:28 +0000
Subject: [PATCH 63/66] fix: Recognize parameter-entity references in XML
 declarations by their percent sign

---
 src/main/cpp/lang/xml.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 8389e11..bbd58f6 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -189,14 +189,14 @@ std::size_t match_entity_reference(const std::u8string_view str)
 std::size_t match_pe_reference(const std::u8string_view str)
 {
 
-    if (!str.starts_with(u8'&')) {
+    if (!str.starts_with(u8'%')) {
         return 0;
     }
 
     const std::size_t result = str.find(u8';', 1);
     const std::u8string_view ref_content = str.substr(1, result - 1);
-    const bool success
-        = result != std::u8string_view::npos && match_name(ref_content) == ref_content.size();
+    const bool success = result != std::u8string_view::npos && !ref_content.empty()
+        && match_name(ref_content) == ref_content.size();
     return success ? result + 1 : 0;
 }
 
-- 
2.43.0


From d6172a258c39835824e515422a28f1e79cdbfe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:22 +0000
Subject: [PATCH 64/66] fix: Do not copy bytes of other integers into bool in
 copy

---
 include/ulight/impl/algorithm/copy.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ulight/impl/algorithm/copy.hpp b/include/ulight/impl/algorithm/copy.hpp
index 5d27e1b..2147981 100644
--- a/include/ulight/impl/algorithm/copy.hpp
+++ b/include/ulight/impl/algorithm/copy.hpp
@@ -17,7 +17,8 @@ concept bitwise_convertible_to = //
     sizeof(T) == sizeof(U) //
     && std::is_trivially_copyable_v<T> //
     && std::is_trivially_copyable_v<U>
-    && (std::is_same_v<T, U> || (std::is_integral_v<T> && std::is_integral_v<U>));
+    && (std::is_same_v<T, U>
+        || (std::is_integral_v<T> && std::is_integral_v<U> && !std::is_same_v<U, bool>));
 
 template <typename Iter, typename Out>
 constexpr void copy(Iter begin, Iter end, Out dest)
-- 
2.43.0


From 2c5280c87238f19351722c6da0ceb2f7f9b8bfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:05 +0000
Subject: [PATCH 65/66] fix: JavaScript '?.' before a digit is the conditional
 operator

---
 src/main/cpp/lang/js.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 1f2faa5..0009da3 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -859,10 +859,13 @@ std::optional<Token_Type> match_operator_or_punctuation(std::u8string_view str)
                                          : greater_than;
     case u8'@': return at;
     case u8'?':
+        // https://262.ecma-international.org/15.0/index.html#prod-OptionalChainingPunctuator
+        // A decimal digit following "?." makes the point a part of a numeric literal.
         return str.starts_with(u8"??=") ? nullish_coalescing_equal
             : str.starts_with(u8"??")   ? nullish_coalescing
-            : str.starts_with(u8"?.")   ? optional_chaining
-                                        : conditional;
+            : str.starts_with(u8"?.") && (str.length() == 2 || !is_ascii_digit(str[2]))
+            ? optional_chaining
+            : conditional;
     case u8'[': return left_bracket;
     case u8']': return right_bracket;
     case u8'^': return str.starts_with(u8"^=") ? bitwise_xor_equal : bitwise_xor;
-- 
2.43.0


From 1fc5b03cbbb0ac31a2b297dbe6d073b22895a23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:05 +0000
Subject: [PATCH 66/66] fix: Kotlin '!in' and '!is' end where an identifier
 would

---
 src/main/cpp/lang/kotlin.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 2955b07..098b370 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -99,11 +99,15 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
     if (str.empty()) {
         return {};
     }
+    // For example, "!inner" is the operator "!" followed by an identifier.
+    const auto is_excl_keyword = [&](const std::u8string_view keyword) {
+        return str.starts_with(keyword) && cpp::match_identifier(str.substr(1)) == keyword.length() - 1;
+    };
     switch (str[0]) {
     case u8'!':
         return str.starts_with(u8"!=") ? excl_eq
-            : str.starts_with(u8"!in") ? not_in
-            : str.starts_with(u8"!is") ? not_is
+            : is_excl_keyword(u8"!in") ? not_in
+            : is_excl_keyword(u8"!is") ? not_is
                                        : excl;
     case u8'"': return str.starts_with(u8"\"\"\"") ? triple_quote_open : quote_open;
     case u8'#': return hash;
-- 
2.43.0

