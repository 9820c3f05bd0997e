// An independent reference for UTF-8, written from Table 3-7 of the Unicode Standard.
#pragma once
#include <array>
#include <string_view>
#include "ulight/impl/unicode.hpp"
#include "ulight/impl/unicode_algorithm.hpp"
namespace vpw {
using namespace ulight;
using B = unsigned;
constexpr int lead(B b) { return b < 0x80 ? 1 : b < 0xc2 ? 0 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : b < 0xf5 ? 4 : 0; }
constexpr bool cont(B b) { return b >= 0x80 && b <= 0xbf; }
constexpr bool second(B a, B b)
{
    switch (a) {
    case 0xe0: return b >= 0xa0 && b <= 0xbf;
    case 0xed: return b >= 0x80 && b <= 0x9f;
    case 0xf0: return b >= 0x90 && b <= 0xbf;
    case 0xf4: return b >= 0x80 && b <= 0x8f;
    default: return cont(b);
    }
}
struct Ref { bool ok; char32_t cp; int len; int subpart; int error; };
// error: 0 no_data, 1 missing_units, 2 illegal_bits
constexpr Ref ref_decode(const char8_t* s, std::size_t n)
{
    if (n == 0) { return { false, 0xfffd, 0, 0, 0 }; }
    const int len = lead(s[0]);
    if (len == 0) { return { false, 0xfffd, 0, 1, 2 }; }
    int i = 1;
    for (; i < len; ++i) {
        if (std::size_t(i) >= n) { return { false, 0xfffd, 0, i, 1 }; }
        if (!(i == 1 ? second(s[0], s[1]) : cont(s[i]))) {
            return { false, 0xfffd, 0, i, std::size_t(len) > n ? 1 : 2 };
        }
    }
    char32_t c = len == 1 ? s[0] : len == 2 ? s[0] & 0x1f : len == 3 ? s[0] & 0xf : s[0] & 7;
    for (int k = 1; k < len; ++k) { c = c << 6 | (s[k] & 0x3f); }
    return { true, c, len, len, 0 };
}
constexpr int ref_encode(char32_t c, char8_t* o)
{
    if (c < 0x80) { o[0] = char8_t(c); return 1; }
    if (c < 0x800) { o[0] = char8_t(0xc0 + c / 64); o[1] = char8_t(0x80 + c % 64); return 2; }
    if (c < 0x10000) { o[0] = char8_t(0xe0 + c / 4096); o[1] = char8_t(0x80 + c / 64 % 64); o[2] = char8_t(0x80 + c % 64); return 3; }
    o[0] = char8_t(0xf0 + c / 262144); o[1] = char8_t(0x80 + c / 4096 % 64); o[2] = char8_t(0x80 + c / 64 % 64); o[3] = char8_t(0x80 + c % 64);
    return 4;
}
constexpr bool sur(char32_t c) { return c >= 0xd800 && c <= 0xdfff; }
using utf8::Error_Code;
constexpr int code(Error_Code e) { return e == Error_Code::no_data ? 0 : e == Error_Code::missing_units ? 1 : 2; }

// All decoders on the first n of the four units.
constexpr bool agree(const std::array<char8_t, 4> u, std::size_t n)
{
    const Ref r = ref_decode(u.data(), n);
    const std::u8string_view v { u.data(), n };
    const auto d = utf8::decode_and_length(v);
    if (d.has_value() != r.ok) { return false; }
    if (d && (d->code_point != r.cp || d->length != r.len)) { return false; }
    // With all units there, the error is illegal_bits; a short sequence may be either, if it is ill-formed anyway.
    if (!d && (r.error == 0 || (r.error == 2 && lead(u[0]) <= int(n))) && code(d.error()) != r.error) { return false; }
    if (!d && n != 0 && d.error() == Error_Code::no_data) { return false; }
    const auto e = utf8::decode(v);
    if (e.has_value() != r.ok || (e && *e != r.cp)) { return false; }
    const auto p = utf8::decode_and_length_or_replacement(v);
    if (p.code_point != r.cp || p.length != r.subpart) { return false; }
    if (utf8::decode_or_replacement(v) != r.cp) { return false; }
    if (n == 4) {
        const auto q = utf8::decode_and_length_or_replacement(u);
        if (q.code_point != r.cp || q.length != r.subpart || utf8::decode_or_replacement(u) != r.cp) { return false; }
    }
    return true;
}
// is_valid, decode and decode_or_replacement for a given length.
constexpr bool agree_len(const std::array<char8_t, 4> u, int len)
{
    const Ref r = ref_decode(u.data(), 4);
    const bool ok = r.ok && r.len == len;
    if (utf8::is_valid(u, len) != ok) { return false; }
    const auto d = utf8::decode(u, len);
    if (d.has_value() != ok || (ok && *d != r.cp)) { return false; }
    return utf8::decode_or_replacement(u, len) == (ok ? r.cp : char32_t(0xfffd));
}
}
