"""C33: the line diff, on every pair of small texts: a shortest script of deletions and insertions that leads from one to the other, printed
as hunks that lead from one to the other."""
import os, re
from vp import *

STD = r'''
#include <algorithm>
#include <cstddef>
#include <ostream>
#include <span>
#include <string_view>
#include <string>
#include <vector>
#include "rtchars.hpp"
namespace vp_rt {
struct Out {
    std::string s;
    constexpr Out& operator<<(std::string_view t) { s += t; return *this; }
    constexpr Out& operator<<(const char* t) { s += t; return *this; }
    constexpr Out& operator<<(char c) { s += c; return *this; }
    constexpr Out& operator<<(text t) { for (const char8_t c : t.v) { s += char(c); } return *this; }
    constexpr Out& operator<<(std::size_t n) { char b[24] {}; int k = 24; do { b[--k] = char('0' + n % 10); n /= 10; } while (n); s.append(b + k, 24 - k); return *this; }
};
}
'''
SCRIPT = r'''
constexpr std::u8string_view words[] { u8"a", u8"b", u8"" };
constexpr std::size_t lcs(const std::u8string_view* a, std::size_t n, const std::u8string_view* b, std::size_t m)
{
    return n == 0 || m == 0 ? 0 : a[0] == b[0] ? 1 + lcs(a + 1, n - 1, b + 1, m - 1) : std::max(lcs(a + 1, n - 1, b, m), lcs(a, n, b + 1, m - 1));
}
constexpr int try_one(const std::u8string_view* a, std::size_t n, const std::u8string_view* b, std::size_t m)
{
    const auto e = ulight::shortest_edit_script({ a, n }, { b, m });
    std::size_t i = 0, j = 0, changes = 0; bool inserting = false;
    for (const auto t : e) {
        switch (t) {
        case ulight::Edit_Type::common: if (i >= n || j >= m || a[i] != b[j]) { return 1; } ++i; ++j; inserting = false; break;
        case ulight::Edit_Type::del: if (i >= n) { return 2; } if (inserting) { return 3; } ++i; ++changes; break;
        case ulight::Edit_Type::ins: if (j >= m) { return 4; } ++j; ++changes; inserting = true; break;
        default: return 5;
        }
    }
    if (i != n || j != m) { return 6; }
    if (changes != n + m - 2 * lcs(a, n, b, m)) { return 7; }
    return 0;
}
constexpr long f()
{
    constexpr std::size_t depth = %d;
    std::u8string_view a[depth + 1], b[depth + 1];
    for (std::size_t n = %d; n <= %d; ++n) for (std::size_t m = 0; m <= depth; ++m) {
        std::size_t an = 1, bn = 1;
        for (std::size_t k = 0; k < n; ++k) { an *= %d; }
        for (std::size_t k = 0; k < m; ++k) { bn *= %d; }
        for (std::size_t x = 0; x < an; ++x) {
            for (std::size_t k = 0, r = x; k < n; ++k, r /= %d) { a[k] = words[r %% %d]; }
            for (std::size_t y = 0; y < bn; ++y) {
                for (std::size_t k = 0, r = y; k < m; ++k, r /= %d) { b[k] = words[r %% %d]; }
                if (const int w = try_one(a, n, b, m)) { return w; }
            }
        }
    }
    return -1;
}
static_assert(f() == -1);
'''
PRINT = r'''
// the text without the sequences that set colours
constexpr std::string plain(const std::string& s)
{
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '\x1b') { while (s[i] != 'm') { ++i; } continue; }
        r += s[i];
    }
    return r;
}
constexpr std::string escaped(std::u8string_view l)
{
    std::string r;
    for (const char8_t c : l) { if (c == u8'\t') { r += "\\t"; } else if (c == u8'\r') { r += "\\r"; } else if (c == u8'\v') { r += "\\v"; } else { r += char(c); } }
    return r;
}
constexpr std::size_t number(const std::string& s, std::size_t& i, bool& ok)
{
    std::size_t n = 0; ok = ok && i < s.size() && s[i] >= '0' && s[i] <= '9';
    for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) { n = n * 10 + std::size_t(s[i] - '0'); }
    return n;
}
constexpr bool take(const std::string& s, std::size_t& i, std::string_view t)
{
    if (s.compare(i, t.size(), t) != 0) { return false; }
    i += t.size(); return true;
}
constexpr std::vector<std::string> split(std::u8string_view s)
{
    std::vector<std::string> r(1); 
    std::u8string cur;
    for (const char8_t c : s) { if (c == u8'\n') { r.back() = escaped(cur); r.emplace_back(); cur.clear(); } else { cur += c; } }
    r.back() = escaped(cur);
    return r;
}
constexpr int try_one(std::u8string_view a, std::u8string_view b, std::size_t context)
{
    const auto from = split(a), to = split(b);
    ::vp_rt::Out o, p;
    ulight::print_lines_diff(o, a, b, context, false);
    ulight::print_lines_diff(p, a, b, context, true);
    const std::string& s = o.s;
    if (plain(p.s) != s) { return 1; }
    if ((from == to) != s.empty()) { return 2; }
    std::size_t i = 0, x = 0, y = 0; bool ok = true;
    while (i < s.size()) {
        if (!take(s, i, "@@ -")) { return 3; }
        const std::size_t fs = number(s, i, ok); ok = ok && take(s, i, ",");
        const std::size_t fc = number(s, i, ok); ok = ok && take(s, i, " +");
        const std::size_t ts = number(s, i, ok); ok = ok && take(s, i, ",");
        const std::size_t tc = number(s, i, ok); ok = ok && take(s, i, " @@\n");
        if (!ok) { return 3; }
        // what is left out is the same in both
        if (fs == 0 || ts == 0 || fs - 1 < x || fs - 1 - x != ts - 1 - y) { return 4; }
        for (; x < fs - 1; ++x, ++y) { if (x >= from.size() || y >= to.size() || from[x] != to[y]) { return 5; } }
        std::size_t f = 0, t = 0, run = 0; bool changed = false;
        while (f < fc || t < tc) {
            if (i >= s.size()) { return 6; }
            const char k = s[i++]; const std::size_t e = s.find('\n', i);
            if (e == std::string::npos) { return 6; }
            const std::string l = s.substr(i, e - i); i = e + 1;
            if (k == ' ') {
                if (x >= from.size() || y >= to.size() || from[x] != l || to[y] != l) { return 7; }
                ++x; ++y; ++f; ++t; ++run;
                if (!changed && run > context || run > 2 * context) { return 8; }
            }
            else if (k == '-') { if (x >= from.size() || from[x] != l) { return 9; } ++x; ++f; run = 0; changed = true; }
            else if (k == '+') { if (y >= to.size() || to[y] != l) { return 10; } ++y; ++t; run = 0; changed = true; }
            else { return 6; }
        }
        if (f != fc || t != tc) { return 11; }
        if (!changed || run > context) { return 8; }
        // less context only at the ends of the texts
        if (run < context && x != from.size() && i == s.size()) { return 12; }
    }
    if (from.size() - x != to.size() - y) { return 13; }
    for (; x < from.size(); ++x, ++y) { if (from[x] != to[y]) { return 13; } }
    return 0;
}
constexpr long f()
{
    constexpr std::u8string_view parts[] { %s };
    constexpr std::size_t n = sizeof(parts) / sizeof(*parts);
    for (std::size_t x = %d; x < n; x += %d) for (std::size_t y = 0; y < n; ++y) for (const std::size_t context : { std::size_t(0), std::size_t(1), std::size_t(3) }) {
        if (const int w = try_one(parts[x], parts[y], context)) { return w; }
    }
    return -1;
}
static_assert(f() == -1);
'''
PARTS = ["", "a", "b", "a\n", "\n", "a\nb", "b\na", "a\\tb\n\\r", "a\\vb\\t", "\\t\\t", "1\n2\n3\n4\n5\n6\n7\n8\n9\n0", "1\n2\nx\n4\n5\n6\n7\n8\n9\n0", "1\n2\nx\n4\n5\n6\n7\ny\n9\n0", "x\n1\n2\n3\n4\n5\n6\n7\n8\n9\n0\ny", "1\n2\n3\n4\n5\n6\n7\n8\n9", "3\n4\n5\n6\n7\n8\n9\n0\n1\n2",
         "1\n2\n3\nx\ny\n6\n7\n8\n9\n0\n0\n0", "1\nx\n3\n4\ny\n6\n7\n8\n9\n0", "a\nb\nc\na\nb\nb\na", "c\nb\na\nb\na\nc"]
WHAT_SCRIPT = {1: "keeps lines that differ", 2: "deletes more lines than there are", 3: "deletes after inserting within one change", 4: "inserts more lines than there are", 5: "has an unknown step", 6: "does not cover both texts", 7: "is not the shortest"}
WHAT_PRINT = {1: "the coloured output differs from the plain one in more than colours", 2: "output is empty although the texts differ, or not although they are the same", 3: "malformed heading of a hunk", 4: "a hunk's position is wrong", 5: "a change is left out between hunks",
              6: "malformed line", 7: "a kept line is not that of both texts", 8: "too much context", 9: "a deleted line is not that of the first text", 10: "an inserted line is not that of the second text", 11: "the heading's counts are wrong", 12: "too little context", 13: "a change is left out at the end"}

def header():
    """string_diff.hpp with its functions constexpr and its output stream replaced by one the constant evaluator knows."""
    p = os.path.join(REPO, "include/ulight/impl/string_diff.hpp")
    if not os.path.exists(p):
        return None
    t = open(p, encoding="utf-8").read()
    t = re.sub(r"^(?:\[\[nodiscard\]\]\s*)?(?:static )?inline (?!constexpr)(?!namespace)", "constexpr ", t, flags=re.M)
    t = re.sub(r"^(?!.*\bconstexpr\b)((?:template <.*>\n)?)((?:void|bool|int|auto|std::[\w:<> ,]+) \w+\()", r"\1constexpr \2", t, flags=re.M)
    t = t.replace("std::pmr::", "std::")
    t = re.sub(r"\bstd::ostream\b", "::vp_rt::Out", t)
    t = re.sub(r"(?<![\w:])(?:ulight::)?as_string_view\s*\(", "::vp_rt::text(", t)
    return t

def jobs(deep):
    h = header()
    if h is None:
        return []
    d = os.path.join(BUILD, "diffwit"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "string_diff_%d.hpp" % os.getpid())
    open(p, "w").write(h)
    fl = ["-std=c++2c", "-Wno-invalid-constexpr"]
    js = []
    depth, k = (5, 3) if deep else (4, 2)
    for n in range(depth + 1):
        js.append(("script %d" % n, STD + '#include "%s"\n' % p + SCRIPT % (depth, n, n, k, k, k, k, k, k), 2000000000, fl))
    if not deep:
        for n in range(4):
            js.append(("script %d of three" % n, STD + '#include "%s"\n' % p + SCRIPT % (3, n, n, 3, 3, 3, 3, 3, 3), 2000000000, fl))
    w = 8
    for i in range(w):
        js.append(("print %d" % i, STD + '#include "%s"\n' % p + PRINT % (", ".join('u8"%s"' % x.replace("\n", "\\n") for x in PARTS), i, w), 2000000000, fl))
    return js, p
