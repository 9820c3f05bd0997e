// Reference definitions of character classes, and the machinery that compares a class of the library with one.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string_view>
#include <type_traits>
namespace vpw {
constexpr bool in(char32_t c, char32_t a, char32_t b) { return c >= a && c <= b; }
constexpr bool of(char32_t c, std::u32string_view s) { for (char32_t x : s) { if (x == c) return true; } return false; }
constexpr bool digit(char32_t c) { return in(c, 0x30, 0x39); }
constexpr bool upper(char32_t c) { return in(c, 0x41, 0x5a); }
constexpr bool lower(char32_t c) { return in(c, 0x61, 0x7a); }
constexpr bool alpha(char32_t c) { return upper(c) || lower(c); }
constexpr bool alnum(char32_t c) { return alpha(c) || digit(c); }
constexpr bool word(char32_t c) { return alnum(c) || c == '_'; }
constexpr bool punct(char32_t c) { return in(c, 0x21, 0x2f) || in(c, 0x3a, 0x40) || in(c, 0x5b, 0x60) || in(c, 0x7b, 0x7e); }
constexpr bool nonchar(char32_t c) { return in(c, 0xfdd0, 0xfdef) || (c & 0xfffeu) == 0xfffeu; }
constexpr bool control(char32_t c) { return c <= 0x1f || in(c, 0x7f, 0x9f); }
constexpr bool surrogate(char32_t c) { return in(c, 0xd800, 0xdfff); }

// XML 1.0 (5th ed.), productions 4 and 4a.
constexpr bool xml_start(char32_t c) {
    return c == ':' || word(c) && !digit(c) || in(c, 0xc0, 0xd6) || in(c, 0xd8, 0xf6) || in(c, 0xf8, 0x2ff)
        || in(c, 0x370, 0x37d) || in(c, 0x37f, 0x1fff) || in(c, 0x200c, 0x200d) || in(c, 0x2070, 0x218f)
        || in(c, 0x2c00, 0x2fef) || in(c, 0x3001, 0xd7ff) || in(c, 0xf900, 0xfdcf) || in(c, 0xfdf0, 0xfffd)
        || in(c, 0x10000, 0xeffff);
}
constexpr bool xml_name(char32_t c) {
    return xml_start(c) || c == '-' || c == '.' || digit(c) || c == 0xb7 || in(c, 0x300, 0x36f) || in(c, 0x203f, 0x2040);
}
// HTML, "potential custom element name", with upper case letters.
constexpr bool pcen(char32_t c) {
    return c == '-' || c == '.' || c == '_' || alnum(c) || c == 0xb7 || in(c, 0xc0, 0xd6) || in(c, 0xd8, 0xf6)
        || in(c, 0xf8, 0x37d) || in(c, 0x37f, 0x1fff) || in(c, 0x200c, 0x200d) || in(c, 0x203f, 0x2040)
        || in(c, 0x2070, 0x218f) || in(c, 0x2c00, 0x2fef) || in(c, 0x3001, 0xd7ff) || in(c, 0xf900, 0xfdcf)
        || in(c, 0xfdf0, 0xfffd) || in(c, 0x10000, 0xeffff);
}
constexpr bool html_ws(char32_t c) { return c == 9 || c == 10 || c == 12 || c == 13 || c == 32; }
constexpr bool cpp_ws(char32_t c) { return in(c, 9, 13) || c == 32; }
constexpr bool js_ws(char32_t c) {
    return in(c, 9, 13) || c == 32 || c == 0xa0 || c == 0x1680 || in(c, 0x2000, 0x200a) || c == 0x2028 || c == 0x2029
        || c == 0x202f || c == 0x205f || c == 0x3000 || c == 0xfeff;
}
// The project's own approximation of ID_Start and ID_Continue for JavaScript.
constexpr bool js_start(char32_t c) {
    return c == '$' || alpha(c) || c == '_' || in(c, 0xc0, 0xd6) || in(c, 0xd8, 0xf6) || in(c, 0xf8, 0x2ff)
        || in(c, 0x370, 0x37d) || in(c, 0x37f, 0x1fff) || in(c, 0x200c, 0x200d) || in(c, 0x2070, 0x218f)
        || in(c, 0x2c00, 0x2fef) || in(c, 0x3001, 0xd7ff) || in(c, 0xf900, 0xfdcf) || in(c, 0xfdf0, 0xfffd)
        || in(c, 0x10000, 0xeffff);
}
constexpr bool js_part(char32_t c) {
    return js_start(c) || digit(c) || in(c, 0x300, 0x36f) || in(c, 0x1dc0, 0x1dff) || in(c, 0x20d0, 0x20ff)
        || in(c, 0xfe20, 0xfe2f);
}

// Every code unit; every code point of the ranges the tier asks for; and values that are no code points at all.
template <class P, class R> constexpr long differs8(P p, R ref) {
    if constexpr (requires { p(char8_t {}); }) {
        for (unsigned i = 0; i < 256; ++i) {
            if (bool(p(char8_t(i))) != bool(ref(char32_t(i)))) return long(i);
        }
    }
    return -1;
}
template <class P, class R> constexpr long differs32(P p, R ref, char32_t lo, char32_t hi, char32_t step) {
    if constexpr (requires { p(char32_t {}); }) {
        for (char32_t c = lo; c < hi; c += step) {
            if (bool(p(c)) != bool(ref(c))) return long(c);
        }
    }
    return -1;
}
template <class P, class R, std::size_t N> constexpr long differs_at(P p, R ref, const char32_t (&at)[N]) {
    if constexpr (requires { p(char32_t {}); }) {
        for (char32_t c : at) {
            if (bool(p(c)) != bool(ref(c))) return long(c);
        }
    }
    return -1;
}
template <class P, class R> constexpr long differs_edges(P p, R ref) {
    if constexpr (requires { p(char32_t {}); }) {
        for (char32_t plane = 1; plane <= 0x10; ++plane) {
            for (char32_t low : { 0x0u, 0x1u, 0x41u, 0x61u, 0x30u, 0x20u, 0xffeeu, 0xffefu, 0xfff0u, 0xfffdu, 0xfffeu, 0xffffu, 0xfdd0u, 0xd800u, 0xdfffu }) {
                if (const auto c = char32_t((plane << 16) | low); bool(p(c)) != bool(ref(c))) return long(c);
            }
        }
    }
    return -1;
}
template <class P, class R> constexpr long differs_beyond(P p, R ref) {
    if constexpr (requires { p(char32_t {}); }) {
        for (char32_t high : { 0x100u, 0x10000u, 0x110000u, 0x200000u, 0x80000000u, 0xffffff00u }) {
            for (char32_t low = 0; low < 0x100; ++low) {
                if (const auto c = char32_t(high | low); bool(p(c)) != bool(ref(c))) return long(c);
            }
        }
    }
    return -1;
}
}
