"""Witnesses of the scanners that all highlighters share: digits, numbers, escapes, lines, enclosed spans, and character searches, against independent definitions."""
import os, re
from vp import *
from overlay import overlay, overlay_flags

COMMON = r'''
using namespace ulight;
using vp_str = std::u8string_view;
template <std::size_t N> struct Vp_Text { char8_t d[N] {}; std::size_t n = 0; constexpr vp_str view() const { return { d, n }; } };
// all texts of at most N characters of an alphabet, in the order of their lengths
template <std::size_t N, typename F>
constexpr int vp_each(vp_str alphabet, std::size_t lo, std::size_t hi, F f)
{
    for (std::size_t n = lo; n <= hi; ++n) {
        std::size_t at[N + 1] {};
        while (true) {
            // in an allocation of its own, so that nothing around it can be read
            char8_t* const t = n ? new char8_t[n] : nullptr;
            for (std::size_t i = 0; i < n; ++i) { t[i] = alphabet[at[i]]; }
            const int r = f(vp_str { t, n });
            delete[] t;
            if (r) {
                int code = 0;
                for (std::size_t i = n; i-- > 0;) { code = code * int(alphabet.size() + 1) + int(at[i]) + 1; }
                return code * 32 + r;
            }
            std::size_t i = 0;
            while (i < n && ++at[i] == alphabet.size()) { at[i++] = 0; }
            if (i == n) { break; }
        }
    }
    return -1;
}
constexpr int vp_digit(char8_t c)
{
    return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99;
}
'''
ASCII = COMMON + r'''
constexpr int vp_ascii(vp_str s)
{
    const auto a = [](char8_t c) { return c == 'a'; };
    const auto b = [](char8_t c) { return c == 'b' || c == 'a'; };
    const std::size_t npos = vp_str::npos;
    for (std::size_t start = 0; start <= s.size(); ++start) {
        std::size_t y = npos, n = npos;
        for (std::size_t i = s.size(); i-- > start;) { if (s[i] == 'a') { y = i; } else { n = i; } }
        if (ascii::find_if(s, a, start) != y) { return 1; }
        if (ascii::find_if_not(s, a, start) != n) { return 2; }
        if (ascii::length_if(s, a, start) != (n == npos ? s.size() : n)) { return 3; }
        if (ascii::length_if_not(s, a, start) != (y == npos ? s.size() : y)) { return 4; }
        if (ascii::length_before(s, u8'a', start) != (y == npos ? s.size() : y)) { return 5; }
        if (ascii::length_before_not(s, u8'a', start) != (n == npos ? s.size() : n)) { return 6; }
        if (ascii::length_until(s, u8'a', start) != (y == npos ? s.size() : y + 1)) { return 7; }
        if (ascii::length_until_not(s, u8'a', start) != (n == npos ? s.size() : n + 1)) { return 8; }
    }
    std::size_t k = 0;
    if (!s.empty() && s[0] == 'a') { for (k = 1; k < s.size() && (s[k] == 'a' || s[k] == 'b'); ) { ++k; } }
    if (ascii::length_if_head_tail(s, a, b) != k) { return 9; }
    k = 0;
    if (!s.empty() && (s[0] == 'a' || s[0] == 'b')) { for (k = 1; k < s.size() && s[k] != 'a'; ) { ++k; } }
    if (ascii::length_if_not_head_tail(s, b, a) != k) { return 10; }
    bool has = false, all = true;
    for (char8_t c : s) { has |= c == 'a'; all &= c < 0x80; }
    if (contains(s, u8'a') != has) { return 11; }
    if (is_all_ascii(s) != all) { return 12; }
    return 0;
}
constexpr int vp_run() { return vp_each<7>(u8"ab_\xff", 0, %d, vp_ascii); }
'''
CASE = COMMON + r'''
constexpr int vp_low(char8_t c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
constexpr int vp_case(vp_str x, vp_str y)
{
    int o = 0;
    std::size_t i = 0;
    while (i < x.size() && i < y.size() && vp_low(x[i]) == vp_low(y[i])) { ++i; }
    const bool prefix = i == y.size();
    o = i < x.size() && i < y.size() ? (vp_low(x[i]) < vp_low(y[i]) ? -1 : 1) : x.size() < y.size() ? -1 : x.size() > y.size() ? 1 : 0;
    const auto c = ascii::compare_to_lower(x, y);
    if ((c < 0 ? -1 : c > 0 ? 1 : 0) != o) { return 1; }
    if (ascii::equals_ignore_case(x, y) != (o == 0)) { return 2; }
    if (ascii::starts_with_ignore_case(x, y) != prefix) { return 3; }
    bool has = y.empty();
    for (std::size_t p = 0; p + y.size() <= x.size(); ++p) {
        bool here = true;
        for (std::size_t k = 0; k < y.size(); ++k) { here &= vp_low(x[p + k]) == vp_low(y[k]); }
        has |= here;
    }
    if (ascii::contains_ignore_case(x, y) != has) { return 4; }
    return 0;
}
constexpr int vp_run()
{
    for (int i = 0; i < 256; ++i) { for (int k = 0; k < 256; ++k) {
        const char8_t x[] = { char8_t(i) }, y[] = { char8_t(k) };
        if (const int r = vp_case({ x, 1 }, { y, 1 })) { return 1000 + (i * 256 + k) * 8 + r; }
    } }
    return vp_each<6>(u8"aAbB@", 0, %d, [](vp_str s) {
        for (std::size_t cut = 0; cut <= s.size(); ++cut) { if (const int r = vp_case(s.substr(0, cut), s.substr(cut))) { return r; } }
        return 0;
    });
}
'''
UTF8 = '#include <array>\n#include "ulight/impl/unicode_algorithm.hpp"\n' + COMMON + r'''
constexpr std::size_t vp_unit(vp_str s, char32_t& c)
{
    const std::size_t want = s[0] < 0x80 ? 1 : s[0] >= 0xc2 && s[0] <= 0xdf ? 2 : s[0] >= 0xe0 && s[0] <= 0xef ? 3 : s[0] >= 0xf0 && s[0] <= 0xf4 ? 4 : 0;
    c = 0xfffd;
    if (want == 0 || want > s.size()) { return 1; }
    char32_t v = want == 1 ? s[0] : s[0] & (0x7f >> want);
    for (std::size_t i = 1; i < want; ++i) { if ((s[i] & 0xc0) != 0x80) { return 1; } v = v << 6 | (s[i] & 0x3f); }
    if ((want == 3 && v < 0x800) || (want == 4 && v < 0x10000) || v > 0x10ffff || (v >= 0xd800 && v <= 0xdfff)) { return 1; }
    c = v;
    return want;
}
constexpr int vp_utf8(vp_str s)
{
    const std::size_t npos = vp_str::npos;
    for (int which = 0; which < 3; ++which) {
        const auto p = [which](char32_t c) { return which == 0 ? c == U'a' : which == 1 ? c >= 0x80 : c == 0xfffd; };
        std::size_t y = npos, n = npos, at = 0;
        bool any = false, every = true;
        while (at < s.size()) {
            char32_t c = 0;
            const std::size_t k = vp_unit(s.substr(at), c);
            const bool is = p(c);
            any |= is; every &= is;
            if (is && y == npos) { y = at; }
            if (!is && n == npos) { n = at; }
            at += k;
        }
        if (utf8::find_if(s, p) != y) { return 1; }
        if (utf8::find_if_not(s, p) != n) { return 2; }
        if (utf8::length_if(s, p) != (n == npos ? s.size() : n)) { return 3; }
        if (utf8::length_if_not(s, p) != (y == npos ? s.size() : y)) { return 4; }
        if (utf8::all_of(s, p) != every) { return 5; }
        if (utf8::any_of(s, p) != any) { return 6; }
        if (utf8::none_of(s, p) != !any) { return 7; }
        if (utf8::any_not_of(s, p) != !every) { return 8; }
    }
    return 0;
}
constexpr int vp_run() { return vp_each<7>(u8"a\xc3\xa9\xe2\xf0\x9f", 0, %d, vp_utf8); }
'''
DIGITS = '#include "parse_utils.cpp"\n' + COMMON + r'''
constexpr int vp_digits(vp_str s)
{
    for (int base : { 2, 8, 10, 16 }) {
        std::size_t n = 0;
        while (n < s.size() && vp_digit(s[n]) < base) { ++n; }
        if (match_digits(s, base) != n) { return 1; }
        if (!(match_separated_digits(s, base, 0) == Digits_Result { n, false })) { return 2; }
        for (char8_t sep : { u8'_', u8'\'' }) {
            std::size_t k = 0;
            while (k < s.size() && (vp_digit(s[k]) < base || s[k] == sep)) { ++k; }
            bool bad = k > 0 && (s[0] == sep || s[k - 1] == sep);
            for (std::size_t i = 1; i < k; ++i) { bad |= s[i] == sep && s[i - 1] == sep; }
            const Digits_Result r = match_separated_digits(s, base, sep);
            if (r.length != k) { return 3; }
            if (r.erroneous != bad) { return 4; }
        }
    }
    return 0;
}
constexpr int vp_run() { return vp_each<6>(u8"0179afgF_'", 0, %d, vp_digits); }
'''
NUMBER = '#include "parse_utils.cpp"\n' + COMMON + r'''
inline constexpr Number_Prefix vp_p[] = { { u8"0b", 2 }, { u8"0x", 16, true }, { u8"$", 16 } };
inline constexpr Exponent_Separator vp_e[] = { { u8"e+", 10 }, { u8"e-", 10 }, { u8"e", 10 } };
inline constexpr std::u8string_view vp_s[] = { u8"u", u8"ul", u8"n" };
constexpr auto vp_f = [](vp_str s) -> std::size_t { std::size_t n = 0; while (n < s.size() && s[n] == 'u') { ++n; } return n; };
constexpr Common_Number_Options vp_options(int k)
{
    Common_Number_Options o {};
    if (k != 0) { o.exponent_separators = vp_e; }
    if (k == 1) { o.prefixes = vp_p; o.suffixes = vp_s; o.digit_separator = u8'_'; }
    if (k == 2) { o.signs = Matched_Signs::minus_and_plus; o.prefixes = vp_p; o.default_leading_zero_base = 8; o.nonempty_fraction = true; }
    if (k == 3) { o.signs = Matched_Signs::minus_only; o.digit_separator = u8'_'; o.nonempty_integer = true; o.match_suffix = Constant<vp_f> {}; }
    if (k == 4) { o.prefixes = vp_p; o.suffixes = vp_s; o.nonempty_integer = true; o.nonempty_fraction = true; o.default_base = 16; o.default_leading_zero_base = 10; }
    return o;
}
constexpr bool vp_bad(vp_str run, char8_t sep)
{
    if (sep == 0 || run.empty()) { return false; }
    bool bad = run.front() == sep || run.back() == sep;
    for (std::size_t i = 1; i < run.size(); ++i) { bad |= run[i] == sep && run[i - 1] == sep; }
    return bad;
}
constexpr int vp_number(vp_str s, int k)
{
    const Common_Number_Options o = vp_options(k);
    const Common_Number_Result r = match_common_number(s, o);
    if (r.length > s.size()) { return 1; }
    if (r.length == 0) { if (!(r == Common_Number_Result {})) { return 2; } }
    else if (r.sign + r.prefix + r.integer + r.radix_point + r.fractional + r.exponent_sep + r.exponent_digits + r.suffix != r.length) { return 3; }
    // the parts, from left to right
    std::size_t i = 0;
    Common_Number_Result w {};
    if (i < s.size() && ((s[i] == '-' && int(o.signs) & 1) || (s[i] == '+' && int(o.signs) & 2))) { w.sign = 1; ++i; }
    int base = i < s.size() && s[i] == '0' ? o.default_leading_zero_base : o.default_base;
    bool fraction = true;
    for (const Number_Prefix& p : o.prefixes) {
        if (s.substr(i).starts_with(p.str)) { w.prefix = p.str.size(); base = p.base; fraction = p.floating_point; i += w.prefix; break; }
    }
    const std::size_t from = i;
    const auto digits = [&] { std::size_t n = i; while (n < s.size() && (vp_digit(s[n]) < base || (o.digit_separator && s[n] == o.digit_separator))) { ++n; } return n - i; };
    w.integer = digits(); i += w.integer;
    w.erroneous = (o.nonempty_integer && w.integer == 0) || vp_bad(s.substr(from, w.integer), o.digit_separator);
    if (fraction && i < s.size() && s[i] == '.') {
        w.radix_point = 1; ++i;
        w.fractional = digits();
        w.erroneous |= (o.nonempty_fraction && w.fractional == 0) || vp_bad(s.substr(i, w.fractional), o.digit_separator);
        if (w.prefix == 0 && w.integer == 0 && !(i < s.size() && vp_digit(s[i]) < 10)) { return r.length == 0 ? 0 : 4; }
        i += w.fractional;
    }
    if (i == 0) { return r.length == 0 ? 0 : 5; }
    if (w.sign && i == 1) { return 0; }
    if (fraction && i < s.size()) {
        for (const Exponent_Separator& e : o.exponent_separators) {
            if (s.substr(i).starts_with(e.str)) {
                w.exponent_sep = e.str.size(); i += w.exponent_sep;
                while (i < s.size() && vp_digit(s[i]) < 10) { ++i; ++w.exponent_digits; }
                w.erroneous |= w.exponent_digits == 0;
                break;
            }
        }
    }
    if (o.match_suffix) { w.suffix = vp_f(s.substr(i)); }
    for (const std::u8string_view x : o.suffixes) { if (s.substr(i).starts_with(x) && x.size() > w.suffix) { w.suffix = x.size(); } }
    w.length = i + w.suffix;
    w.erroneous |= w.prefix != 0 && w.sign + w.prefix == w.length;
    if (r.sign != w.sign || r.prefix != w.prefix) { return 6; }
    if (r.integer != w.integer) { return 7; }
    if (r.radix_point != w.radix_point || r.fractional != w.fractional) { return 8; }
    if (r.exponent_sep != w.exponent_sep || r.exponent_digits != w.exponent_digits) { return 9; }
    if (r.suffix != w.suffix || r.length != w.length) { return 10; }
    if (r.erroneous != w.erroneous) { return 11; }
    if (r.extract_sign(s).size() != r.sign || r.extract_prefix(s).data() != s.data() + r.sign || r.extract_prefix(s).size() != r.prefix) { return 12; }
    if (r.extract_integer(s).data() != s.data() + r.sign + r.prefix || r.extract_integer(s).size() != r.integer) { return 12; }
    if (r.extract_suffix(s).size() != r.suffix || r.extract_suffix(s).data() + r.suffix != s.data() + r.length) { return 12; }
    if (r.is_integer() == (r.radix_point || r.exponent_sep || r.exponent_digits) || r.is_integer() == r.is_non_integer()) { return 13; }
    return 0;
}
inline constexpr vp_str vp_frag[] = { u8"0", u8"17", u8"9", u8"f", u8"_", u8".", u8"e", u8"e+", u8"-", u8"+", u8"0x", u8"0b", u8"$", u8"u", u8"ul", u8" " };
constexpr int vp_run()
{
    const int k = OPTIONS, depth = DEPTH;
    constexpr int F = int(std::size(vp_frag));
    int total = 1; for (int i = 0; i < depth; ++i) { total *= F + 1; }
    for (int code = 0; code < total; ++code) {
        char8_t text[16] {}; std::size_t n = 0; bool gap = false, skip = false;
        for (int c = code; c; c /= F + 1) {
            const int f = c % (F + 1);
            if (f == 0) { gap = true; continue; }
            skip |= gap;
            for (char8_t x : vp_frag[f - 1]) { text[n++] = x; }
        }
        if (skip) { continue; }
        char8_t* const t = n ? new char8_t[n] : nullptr;
        for (std::size_t i = 0; i < n; ++i) { t[i] = text[i]; }
        const int r = vp_number({ t, n }, k);
        delete[] t;
        if (r) { return code * 32 + r; }
    }
    return -1;
}
'''
SUFFIX = '#include "parse_utils.cpp"\n' + COMMON + r'''
constexpr auto vp_base = [](vp_str s) -> Base_Suffix { return s.back() == 'h' ? Base_Suffix { 1, 16 } : s.back() == 'b' ? Base_Suffix { 1, 2 } : s.size() >= 2 && s.ends_with(u8"zz") ? Base_Suffix { 2, 10 } : Base_Suffix {}; };
constexpr int vp_suffix_with(vp_str s, char8_t sep)
{
    const Suffix_Number_Result r = match_suffix_number(s, Constant<vp_base> {}, sep);
    std::size_t n = 0;
    while (n < s.size() && (vp_digit(s[n]) < 99 || (sep && s[n] == sep))) { ++n; }
    const Base_Suffix b = n > 1 ? vp_base(s.substr(0, n)) : Base_Suffix {};
    const Suffix_Number_Result none {};
    if (n < 2 || b.length == 0 || b.length == n) { return r.digits == 0 ? 0 : 1; }
    bool bad = false;
    for (std::size_t i = 0; i < n - b.length; ++i) {
        if (s[i] != '_') { bad |= vp_digit(s[i]) >= b.base; }
        else if (i > 0 && s[i - 1] == '_') { bad = true; }
    }
    // a separator may be rejected or accepted at the start
    if (s[0] == '_') { return r.digits == 0 || (r.digits + r.suffix == n && r.suffix == b.length) ? 0 : 2; }
    // or at the end
    if (s[n - b.length - 1] == '_' && !bad) { bad = r.erroneous; }
    if (bad && vp_digit(s[0]) >= 10) { return r.digits == 0 ? 0 : 3; }
    if (r.digits != n - b.length || r.suffix != b.length || r.base != b.base) { return 4; }
    if (r.erroneous != bad) { return 5; }
    return 0;
}
constexpr int vp_suffix(vp_str s)
{
    const int r = vp_suffix_with(s, u8'_');
    return r ? r : vp_suffix_with(s, 0);
}
constexpr int vp_run() { return vp_each<6>(u8"029afbhz_ ", 0, %d, vp_suffix); }
'''
ESCAPE = '#include "ulight/impl/escapes.hpp"\n' + COMMON + r'''
constexpr std::size_t vp_while(vp_str s, int base, std::size_t cap)
{
    std::size_t n = 0;
    while (n < s.size() && n < cap && vp_digit(s[n]) < base) { ++n; }
    return n;
}
template <Common_Escape E> constexpr int vp_check_escape(vp_str s, bool ok, std::size_t length, std::size_t most)
{
    const Escape_Result r = match_common_escape<E>(s);
    if (r.length > s.size() || r.length > most) { return 1; }
    if (r.erroneous == ok) { return 2; }
    if (ok && r.length != length) { return 3; }
    char8_t t[16] { u8'\\', u8'x' };
    for (std::size_t i = 0; i < s.size(); ++i) { t[i + 2] = s[i]; }
    const Escape_Result p = match_common_escape<E>(vp_str { t, s.size() + 2 }, 2);
    if (p.length != r.length + 2 || p.erroneous != r.erroneous) { return 4; }
    return 0;
}
constexpr int vp_escape(vp_str s)
{
    using enum Common_Escape;
    const std::size_t all = s.size(), o = vp_while(s, 8, 99), h = vp_while(s, 16, 99);
    int r = 0;
    const auto min2 = [](std::size_t a, std::size_t b) { return a < b ? a : b; };
    if ((r = vp_check_escape<octal_1_to_2>(s, o >= 1, min2(o, 2), 2))) { return r; }
    if ((r = vp_check_escape<octal_1_to_3>(s, o >= 1, min2(o, 3), 3))) { return r; }
    if ((r = vp_check_escape<octal_3>(s, o >= 3, 3, 3))) { return r + 4; }
    if ((r = vp_check_escape<hex_1_to_2>(s, h >= 1, min2(h, 2), 2))) { return r + 4; }
    if ((r = vp_check_escape<hex_1_to_inf>(s, h >= 1, h, all))) { return r + 8; }
    if ((r = vp_check_escape<hex_2>(s, h >= 2, 2, 2))) { return r + 8; }
    if ((r = vp_check_escape<hex_4>(s, h >= 4, 4, 4))) { return r + 12; }
    if ((r = vp_check_escape<hex_8>(s, h >= 8, 8, 8))) { return r + 12; }
    const std::size_t close = s.find(u8'}');
    const bool braces = s.starts_with(u8'{') && close != vp_str::npos && close > 1;
    const auto braced = [&](int base) { return braces && vp_while(s.substr(1), base, 99) == close - 1; };
    if ((r = vp_check_escape<octal_braced>(s, braced(8), close + 1, all))) { return r + 16; }
    if ((r = vp_check_escape<hex_braced>(s, braced(16), close + 1, all))) { return r + 20; }
    if ((r = vp_check_escape<nonempty_braced>(s, braces, close + 1, all))) { return r + 24; }
    const std::size_t nl = s.starts_with(u8"\r\n") ? 2 : s.starts_with(u8'\r') || s.starts_with(u8'\n') ? 1 : 0;
    if ((r = vp_check_escape<lf_cr_crlf>(s, nl != 0, nl, 2))) { return r + 27; }
    return 0;
}
constexpr int vp_run()
{
    if (const int r = vp_each<6>(u8"08fg{}\r\n", 0, %d, vp_escape); r != -1) { return r; }
    return vp_each<10>(u8"fg", 5, 9, vp_escape);
}
'''
LINES = '#include "parse_utils.cpp"\n' + COMMON + r'''
constexpr int vp_lines(vp_str s)
{
    std::size_t n = 0;
    while (n < s.size() && s[n] != '\r' && s[n] != '\n') { ++n; }
    const std::size_t t = n == s.size() ? 0 : s.substr(n).starts_with(u8"\r\n") ? 2 : 1;
    if (!(match_crlf_line(s) == Line_Result { n, t })) { return 1; }
    const auto enclosed = [&](vp_str p, vp_str q, Enclosed_Result r) {
        if (!s.starts_with(p)) { return r.length == 0; }
        for (std::size_t i = p.size(); i + q.size() <= s.size(); ++i) {
            if (s.substr(i).starts_with(q)) { return r.length == i + q.size() && r.is_terminated; }
        }
        return r.length == s.size() && !r.is_terminated;
    };
    if (!enclosed(u8"a", u8"a", match_enclosed(s, u8'a', u8'a'))) { return 2; }
    if (!enclosed(u8"a", u8" ", match_enclosed(s, u8'a', u8' '))) { return 2; }
    if (!enclosed(u8"a ", u8" a", match_enclosed(s, u8"a ", u8" a"))) { return 3; }
    if (!enclosed(u8"aa", u8"a", match_enclosed(s, u8"aa", u8"a"))) { return 3; }
    // the first blank lines: from the start of a line that is blank to the end of the last blank line in a row
    const auto blank = [&](std::size_t b) { while (b < s.size() && s[b] != '\n' && s[b] != 'a') { ++b; } return b < s.size() && s[b] == '\n' ? b + 1 : 0; };
    const auto next = [&](std::size_t b) { while (b < s.size() && s[b] != '\n') { ++b; } return b < s.size() ? b + 1 : s.size(); };
    Blank_Line want {};
    for (std::size_t b = 0; b < s.size(); b = next(b)) {
        if (std::size_t e = blank(b)) {
            while (e < s.size() && blank(e)) { e = blank(e); }
            want = { b, e - b };
            break;
        }
    }
    const Blank_Line got = find_blank_line_sequence(s);
    if (got.length != want.length || (want.length && got.begin != want.begin)) { return 4; }
    return 0;
}
constexpr int vp_run() { return vp_each<8>(u8"a \n\r", 0, %d, vp_lines); }
'''
WHAT = {
 "ascii": ("ab_\xff", ["", "find_if", "find_if_not", "length_if", "length_if_not", "length_before", "length_before_not", "length_until", "length_until_not", "length_if_head_tail", "length_if_not_head_tail", "contains", "is_all_ascii"]),
 "case": ("aAbB@", ["", "compare_to_lower", "equals_ignore_case", "starts_with_ignore_case", "contains_ignore_case"]),
 "utf8": ("a\xc3\xa9\xe2\xf0\x9f", ["", "utf8::find_if", "utf8::find_if_not", "utf8::length_if", "utf8::length_if_not", "utf8::all_of", "utf8::any_of", "utf8::none_of", "utf8::any_not_of"]),
 "digits": ("0179afgF_'", ["", "match_digits", "match_separated_digits without separator", "match_separated_digits: length", "match_separated_digits: erroneous"]),
 "suffix": ("029afbhz_ ", ["", "match_suffix_number: a match without a suffix or digits", "match_suffix_number: leading separator", "match_suffix_number: an erroneous name is a number", "match_suffix_number: parts", "match_suffix_number: erroneous"]),
 "lines": ("a \n\r", ["", "match_crlf_line", "match_enclosed (character)", "match_enclosed (string)", "find_blank_line_sequence"]),
 "number": (None, ["", "length is beyond the text", "no length but parts", "the parts do not add up to the length", "a lone point is a number", "nothing is a number", "sign or prefix", "integer part", "fraction", "exponent", "suffix or length", "erroneous", "an extracted part", "is_integer"]),
}
ESC = ["octal_1_to_2/3", "octal_3 or hex_1_to_2", "hex_1_to_inf or hex_2", "hex_4 or hex_8", "octal_braced", "hex_braced", "nonempty_braced or lf_cr_crlf", "lf_cr_crlf"]
FRAG = ["0", "17", "9", "f", "_", ".", "e", "e+", "-", "+", "0x", "0b", "$", "u", "ul", " "]

def prepare(d):
    """a copy of parse_utils.cpp whose use of std::from_chars can be evaluated -> its directory"""
    src = os.path.join(d, "src/main/cpp/parse_utils.cpp")
    o = os.path.join(BUILD, "wit", "scan")
    os.makedirs(o, exist_ok=True)
    if os.path.exists(src):
        t = open(src, encoding="utf-8", errors="surrogateescape").read()
        t = re.sub(r"(?<![\w:])(?:ulight::)?as_string_view\s*\(", "::vp_rt::text(", t)
        t = re.sub(r"(?<![\w:])(?:::)?std::from_chars_result\b", "auto", t)
        t = re.sub(r"(?<![\w:])(?:::)?std::from_chars\s*\(", "::vp_rt::from_chars(", t)
        open(os.path.join(o, "parse_utils.cpp"), "w", encoding="utf-8", errors="surrogateescape").write(t)
    return o

def jobs(deep):
    d = overlay()
    o = prepare(d)
    fl = ["-include", os.path.join(VERIF, "witness", "rtchars.hpp"), "-I", o] + overlay_flags(d) + ["-std=c++2c", "-fno-access-control"]
    head = '#include "ulight/impl/ascii_algorithm.hpp"\n#include "ulight/impl/strings.hpp"\n#include "ulight/const.hpp"\n#include <iterator>\n#include <string_view>\n'
    tail = "\ntemplate <class T> void vp_check() { static_assert(vp_run() + int(sizeof(T)) - 1 == -1); }\nvoid vp_use() { vp_check<char>(); }\n"
    out = [("ascii", ASCII.replace("%d", "7" if deep else "6")), ("case", CASE.replace("%d", "6" if deep else "5")), ("utf8", UTF8.replace("%d", "6" if deep else "5")),
           ("digits", DIGITS.replace("%d", "5" if deep else "4")), ("suffix", SUFFIX.replace("%d", "5" if deep else "4")), ("escape", ESCAPE.replace("%d", "5" if deep else "4")), ("lines", LINES.replace("%d", "8" if deep else "7"))]
    out += [("number%d" % k, NUMBER.replace("OPTIONS", str(k)).replace("DEPTH", "3" if k in (0, 4) and not deep else "5" if deep and k in (1, 2, 3) else "4")) for k in range(5)]
    return [("scan_" + n, head + t + tail, 2000000000, fl) for n, t in out]

def explain(name, n):
    """-> (function, text) of a counterexample"""
    name = name[5:]
    if name.startswith("number"):
        code, r = divmod(n, 32)
        t = ""
        while code:
            code, f = divmod(code, len(FRAG) + 1)
            t += FRAG[f - 1] if f else ""
        return "match_common_number (%s)" % WHAT["number"][1][r], t
    if name == "case" and n >= 1000 and (n - 1000) // 8 < 65536 and (n - 1000) % 8 in (1, 2, 3, 4):
        p, r = divmod(n - 1000, 8)
        return WHAT["case"][1][r], "%s and %s" % (chr(p // 256), chr(p % 256))
    code, r = divmod(n, 32)
    alpha = "08fg{}\r\n" if name == "escape" else WHAT[name][0]
    t = ""
    while code:
        code, f = divmod(code, len(alpha) + 1)
        t += alpha[f - 1] if f and f <= len(alpha) else "?"
    if name == "escape":
        return "match_common_escape (%s)" % ESC[min((r - 1) // 4, 7)], t
    return WHAT[name][1][r], t
