// Constant-evaluable stand-ins for the byte view of a UTF-8 string and for the number conversions of the standard library.
#pragma once
#include <charconv>
#include <string_view>
#include <system_error>
namespace vp_rt {
struct text {
    std::u8string_view v;
    constexpr text(std::u8string_view s) : v { s } { }
    operator std::string_view() const { return { reinterpret_cast<const char*>(v.data()), v.size() }; }
    constexpr const char8_t* data() const { return v.data(); }
    constexpr const char8_t* begin() const { return v.data(); }
    constexpr const char8_t* end() const { return v.data() + v.size(); }
    constexpr std::size_t size() const { return v.size(); }
    constexpr std::size_t length() const { return v.size(); }
    constexpr bool empty() const { return v.empty(); }
    constexpr char operator[](std::size_t i) const { return char(v[i]); }
    constexpr text substr(std::size_t p, std::size_t n = std::size_t(-1)) const { return v.substr(p, n); }
};
template <typename C> struct result { const C* ptr; std::errc ec; };
template <typename C, typename T>
constexpr result<C> from_chars(const C* b, const C* e, T& out, int base = 10)
{
    T v = 0; const C* p = b;
    for (; p != e; ++p) {
        const int d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'z' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'Z' ? *p - 'A' + 10 : 99;
        if (d >= base) { break; }
        v = T(v * base + d);
    }
    if (p == b) { return { p, std::errc::invalid_argument }; }
    out = v;
    return { p, std::errc {} };
}
}
