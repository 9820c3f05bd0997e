"""C32: the library's stand-ins for standard algorithms, on every small input, as constant evaluation and as the running program see them."""
from vp import *
from overlay import overlay, runtime, overlay_flags

COPY = r'''
#include "ulight/impl/algorithm/copy.hpp"
struct Pair { int a; char b; constexpr bool operator==(const Pair&) const = default; };
struct In { using value_type = int; using difference_type = long; const int* p; constexpr const int& operator*() const { return *p; } constexpr In& operator++() { ++p; return *this; } constexpr In operator++(int) { In r = *this; ++p; return r; } constexpr bool operator==(const In&) const = default; };
template <typename A, typename B, typename F> constexpr long one(F make)
{
    for (int n = 0; n <= 5; ++n) {
        A* const a = new A[n + 1] {}; B* const b = new B[n + 2] {};
        for (int i = 0; i < n; ++i) { a[i] = make(i); }
        const B before = b[0], after = b[n + 1];
        ulight::copy(static_cast<const A*>(a), static_cast<const A*>(a + n), b + 1);
        for (int i = 0; i < n; ++i) { if (!(b[i + 1] == static_cast<B>(a[i]))) { return n; } }
        if (!(b[0] == before) || !(b[n + 1] == after)) { return 10 + n; }
        delete[] a; delete[] b;
    }
    return -1;
}
constexpr long f() {
    %s
    return -1;
}
template <class T> void g() { static_assert(f() + long(sizeof(T)) - 1 == -1); }
void u() { g<char>(); }
'''
N = "[](int i) { return %s; }"
PAIRS = [
 ("char", "char", N % "char('a' + i)"), ("char8_t", "char", N % "char8_t('a' + i)"), ("char", "char8_t", N % "char(i - 3)"), ("char8_t", "char32_t", N % "char8_t(0x7e + i)"),
 ("unsigned char", "int", N % "(unsigned char)(0xfe - i)"), ("int", "long", N % "i - 2"), ("long", "int", N % "long(i) << 8"), ("int", "char", N % "'a' + i"), ("float", "int", N % "float(i)"), ("int", "float", N % "i"),
 ("float", "double", N % "i * .5f"), ("unsigned", "int", N % "unsigned(i)"), ("unsigned char", "bool", N % "(unsigned char)(2 * i)"), ("bool", "char", N % "i % 2 == 0"), ("Pair", "Pair", N % "Pair { i, 'x' }"), ("short", "unsigned short", N % "short(i)"), ("double", "long", N % "double(i)"),
]
SMALL = r'''
#include "ulight/impl/algorithm/min_max.hpp"
#include "ulight/impl/algorithm/all_of.hpp"
#include "ulight/impl/strings.hpp"
#include <array>
#include <span>
constexpr long f() {
    for (int a = 0; a < 3; ++a) {
        if (&ulight::min(a) != &a || &ulight::max(a) != &a) { return 1; }
        for (int b = 0; b < 3; ++b) {
            if (&ulight::min(a, b) != (b < a ? &b : &a)) { return 2; }
            if (&ulight::max(a, b) != (a < b ? &b : &a)) { return 3; }
            for (int c = 0; c < 3; ++c) {
                const int* lo = &a; if (b < *lo) { lo = &b; } if (c < *lo) { lo = &c; }
                const int* hi = &a; if (b > *hi) { hi = &b; } if (c > *hi) { hi = &c; }
                if (ulight::min(a, b, c) != *lo) { return 4; }
                if (ulight::max(a, b, c) != *hi) { return 5; }
                for (int d = 0; d < 3; ++d) {
                    if (ulight::min(a, b, c, d) != (d < *lo ? d : *lo)) { return 6; }
                    if (ulight::max(a, b, c, d) != (d > *hi ? d : *hi)) { return 7; }
                }
            }
        }
    }
    for (int n = 0; n <= 4; ++n) for (int bits = 0; bits < 1 << n; ++bits) {
        bool* const x = new bool[n + 1] {};
        bool all = true;
        for (int i = 0; i < n; ++i) { x[i] = bits >> i & 1; all = all && x[i]; }
        if (ulight::all_of(std::span<const bool>(x, n), [](bool b) { return b; }) != all) { return 8; }
        delete[] x;
    }
    for (unsigned c = 0; c < 256; ++c) {
        const char8_t one[] { char8_t(c) };
        if (ulight::is_all_ascii(std::u8string_view(one, 1)) != (c < 128)) { return 9; }
        for (unsigned d = 0; d < 256; d += 17) {
            const char8_t two[] { char8_t(c), char8_t(d) };
            if (ulight::is_all_ascii(std::u8string_view(two, 2)) != (c < 128 && d < 128)) { return 9; }
            if (ulight::contains(std::u8string_view(two, 2), char8_t(97)) != (c == 97 || d == 97)) { return 10; }
            const char32_t wide[] { char32_t(c * 0x101), char32_t(d) };
            if (ulight::contains(std::u32string_view(wide, 2), char32_t(d)) != true || ulight::contains(std::u32string_view(wide, 1), char32_t(0x6161)) != (c == 0x61)) { return 11; }
        }
    }
    if (!ulight::is_all_ascii({}) || ulight::contains(std::u8string_view {}, u8'a')) { return 12; }
    return -1;
}
template <class T> void g() { static_assert(f() + long(sizeof(T)) - 1 == -1); }
void u() { g<char>(); }
'''
WHAT = {1: "min or max of one", 2: "min of two", 3: "max of two", 4: "min of three", 5: "max of three", 6: "min of four", 7: "max of four", 8: "all_of", 9: "is_all_ascii", 10: "contains (code units)", 11: "contains (code points)", 12: "the empty string"}
def jobs():
    o = overlay(); r = runtime(o)
    js = []
    for how, d in (("constant", o), ("running", r)):
        fl = overlay_flags(d) + ["-std=c++2c"]
        for a, b, m in PAIRS:
            js.append(("copy %s to %s, %s" % (a, b, how), COPY % ("if (const long r = one<%s, %s>(%s); r != -1) { return r; }" % (a, b, m)), 1000000, fl))
        js.append(("copy through an iterator, " + how, COPY % "const int a[] { 1, 2, 3 }; long b[3] {}; ulight::copy(In { a }, In { a + 3 }, b); if (b[0] != 1 || b[1] != 2 || b[2] != 3) { return 1; }", 1000000, fl))
        js.append(("small, " + how, SMALL, 20000000, fl))
    return js
