"""Witnesses of the token emitter every highlighter is built on: Highlighter_Base (and the C++ highlighter's own), over all short sequences of
operations, decided by the constant evaluator."""
import re
from vp import *
from witness import run_witnesses
from overlay import overlay, runtime, overlay_flags

PRE = r'''
#include "ulight/impl/highlighter.hpp"
#include <array>
using namespace ulight;
struct Tok { std::size_t b, l; int t; };
struct Sink { Tok got[40] {}; int n = 0; int bad = 0; Token* start = nullptr; std::size_t cap = 0; };
constexpr void on_flush(const void* d, Token* p, std::size_t n)
{
    Sink* l = static_cast<Sink*>(const_cast<void*>(d));
    if (p != l->start || n == 0 || n > l->cap) { l->bad = 1; return; }
    for (std::size_t i = 0; i < n; ++i) {
        l->got[l->n++] = Tok { p[i].begin, p[i].length, int(p[i].type) };
        p[i].begin = 1000; p[i].length = 1000; p[i].type = 255;
    }
}
'''
# every sequence of N emissions, adjacent or after a gap, two types, with and without the option and the forced policy
EMIT = PRE + r'''
%(include)s
using H = %(cls)s;
constexpr char8_t src[] = u8"abcdefghijklmnopqrstuvwxyz";
constexpr int run(int cap, bool opt, unsigned code)
{
    Token mem[8] {}; for (Token& t : mem) { t.begin = 77; t.length = 77; t.type = 77; }
    Sink sink; sink.start = mem; sink.cap = std::size_t(cap);
    Non_Owning_Buffer<Token> out { mem, std::size_t(cap), &sink, &on_flush };
    Highlight_Options o {}; o.coalescing = opt;
    Tok want[8] {}; bool forced[8] {}; int n = 0; std::size_t pos = 0; int type_at[32] {};
    {
        %(make)s
        for (int i = 0; i < STEPS; ++i, code >>= 4) {
            const bool gap = code & 1, forc = code & 8; const int t = code & 2 ? 5 : 9; const std::size_t len = code & 4 ? 2 : 1;
            if (gap) { %(advance)s pos += 1; }
            want[n] = Tok { pos, len, t }; forced[n] = forc; ++n;
            for (std::size_t k = 0; k < len; ++k) { type_at[pos + k] = t; }
            %(emit)s
            pos += len;
            %(pos)s
        }
    }
    out.flush();
    if (sink.bad) { return 1; }
    for (int i = cap; i < 8; ++i) { if (mem[i].begin != 77 || mem[i].length != 77 || mem[i].type != 77) { return 2; } }
    int seen[32] {}; std::size_t end = 0;
    for (int i = 0; i < sink.n; ++i) {
        const Tok& g = sink.got[i];
        if (g.l == 0 || g.b < end || g.b + g.l > 26) { return 3; }
        for (std::size_t k = 0; k < g.l; ++k) { seen[g.b + k] = g.t; }
        end = g.b + g.l;
    }
    for (int i = 0; i < 32; ++i) { if (seen[i] != type_at[i]) { return 4; } }
    // a token is only ever the union of adjacent emissions of one type, and without the option or the policy it is one emission
    int w = 0;
    for (int i = 0; i < sink.n; ++i) {
        const Tok& g = sink.got[i];
        if (w >= n || want[w].b != g.b || want[w].t != g.t) { return 5; }
        std::size_t e = want[w].b + want[w].l; ++w;
        while (w < n && e < g.b + g.l) {
            if (want[w].b != e || want[w].t != g.t) { return 5; }
            if (!opt && !forced[w]) { return 6; }
            e += want[w].l; ++w;
        }
        if (e != g.b + g.l) { return 5; }
    }
    if (w != n) { return 5; }
    return 0;
}
constexpr int all()
{
    for (int cap = 1; cap <= 3; ++cap) for (int opt = 0; opt < 2; ++opt) for (unsigned c = CODE0; c < CODE1; ++c) {
        if (%(skip)s) { continue; }
        const int r = run(cap, opt, c);
        if (r) { return ((r * 4 + cap) * 2 + opt) * (1 << 16) + int(c); }
    }
    return -1;
}
static_assert(all() == -1);
'''
WHY = {1: "the flush callback gets the wrong buffer or a wrong number of tokens", 2: "tokens are written behind the end of the buffer", 3: "an empty, overlapping or out-of-range token is produced",
       4: "the type of some code unit differs from the type emitted for it", 5: "the tokens delivered are not the tokens emitted, in order", 6: "tokens are merged although coalescing is off",
       7: "the position after advancing is wrong", 8: "the status of the embedded highlighter is not reported", 9: "the position after the embedded span is wrong", 10: "a token of the embedded language is lost, misplaced or delivered late"}
BASE = dict(cls="Highlighter_Base", include="", make="H h { out, std::u8string_view(src, 26), nullptr, o };", skip="false",
            advance="h.advance(1);", emit="h.emit_and_advance(len, Highlight_Type(t), forc ? Coalescing::forced : Coalescing::normal);",
            pos="if (h.index != pos || h.remainder.data() != src + pos || h.remainder.size() != 26 - pos || h.eof()) { return 7; }")
CPP = dict(cls="ulight::cpp::Highlighter", include='#include "lang/cpp.cpp"', make="H h { out, std::u8string_view(src, 26), Lang::cpp, o };", skip="(c & 0x888) != 0",
           advance="h.advance(1);", emit="h.emit_and_advance(len, Highlight_Type(t));", pos="if (h.index != pos) { return 7; }")
# An embedded language: css is replaced by a fake highlighter that emits, for each code unit, a token or nothing, and fails on 'X'
NEST = PRE + r'''
constexpr bool ulight::highlight_css(Non_Owning_Buffer<Token>& out, std::u8string_view s, std::pmr::memory_resource*, const Highlight_Options& o)
{
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] == u8'X') { return false; }
        if (s[i] == u8'.') { continue; }
        out.emplace_back(i, std::size_t(1), (unsigned char)(s[i] + (o.coalescing ? 1 : 0) + (o.strict ? 2 : 0)));
    }
    return true;
}
using H = Highlighter_Base;
constexpr char8_t pool[] = u8"a.bb.cXa";
constexpr int run(int cap, int ncap, std::size_t at, std::size_t len, int pre, unsigned flags)
{
    Token mem[8] {}, nest[8] {}; for (Token& t : nest) { t.begin = 77; }
    Sink sink; sink.start = mem; sink.cap = std::size_t(cap);
    Non_Owning_Buffer<Token> out { mem, std::size_t(cap), &sink, &on_flush };
    Highlight_Options o {}; o.coalescing = flags & 1; o.strict = flags & 2;
    char8_t src[16]; std::size_t n = 0;
    for (int i = 0; i < pre; ++i) { src[n++] = u8'p'; }
    const std::size_t begin = n;
    for (std::size_t i = 0; i < len; ++i) { src[n++] = pool[at + i]; }
    src[n++] = u8'q'; src[n++] = u8'q';
    H h { out, std::u8string_view(src, n), nullptr, o };
    Tok want[32] {}; int w = 0; bool fail = false;
    for (int i = 0; i < pre; ++i) { h.emit_and_advance(1, Highlight_Type(9 + i)); want[w++] = Tok { std::size_t(i), 1, 9 + i }; }
    for (std::size_t i = 0; i < len && !fail; ++i) {
        const char8_t c = src[begin + i];
        if (c == u8'X') { fail = true; }
        else if (c != u8'.') { want[w++] = Tok { begin + i, 1, int(c) + (o.coalescing ? 1 : 0) + (o.strict ? 2 : 0) }; }
    }
    const Status st = h.consume_nested_language(Lang::css, len, std::span<Token>(nest, std::size_t(ncap)));
    if (fail) { return st == Status::ok ? 8 : 0; }
    if (st != Status::ok) { return 8; }
    if (h.index != begin + len || h.remainder.data() != src + begin + len || h.remainder.size() != 2) { return 9; }
    h.emit_and_advance(1, Highlight_Type(7)); want[w++] = Tok { begin + len, 1, 7 };
    out.flush();
    if (sink.bad) { return 1; }
    for (int i = ncap; i < 8; ++i) { if (nest[i].begin != 77) { return 2; } }
    // with coalescing the tokens at the seams may be one
    int s[32] {}, g[32] {};
    for (int i = 0; i < w; ++i) { s[want[i].b] = want[i].t; }
    std::size_t end = 0;
    for (int i = 0; i < sink.n; ++i) {
        if (sink.got[i].l == 0 || sink.got[i].b < end || sink.got[i].b + sink.got[i].l > n) { return 10; }
        for (std::size_t k = 0; k < sink.got[i].l; ++k) { g[sink.got[i].b + k] = sink.got[i].t; }
        end = sink.got[i].b + sink.got[i].l;
    }
    for (int i = 0; i < 32; ++i) { if (s[i] != g[i]) { return 10; } }
    if (!o.coalescing && sink.n != w) { return 10; }
    return 0;
}
constexpr int all()
{
    for (int cap = 1; cap <= 3; ++cap) for (int ncap = 1; ncap <= 4; ++ncap) for (unsigned at = 0; at < 8; ++at) for (unsigned len = 0; at + len <= 8; ++len)
    for (int pre = 0; pre < 3; ++pre) for (unsigned fl = 0; fl < 4; ++fl) {
        const int r = run(cap, ncap, at, len, pre, fl);
        if (r) { return ((((r * 4 + cap) * 8 + ncap) * 8 + int(at)) * 16 + int(len)) * 16 + pre * 4 + int(fl); }
    }
    return -1;
}
static_assert(all() == -1);
'''

def emit_jobs(tag="e"):
    base, jobs = overlay(), []
    for d, how in ((base, "constant"), (runtime(base), "run-time")):
        fl = overlay_flags(d) + ["-std=c++2c", "-fno-access-control"]
        for nm, m in (("Highlighter_Base", BASE), ("cpp_Highlighter", CPP)):
            if how == "run-time" and nm != "Highlighter_Base":
                continue
            steps, top = (3, 4096) if TIER == "quick" else (4, 65536)
            part = top // (4 if TIER == "quick" else 16)
            for k in range(0, top, part):
                if m is CPP and k & 0x800:
                    continue
                t = (EMIT % m).replace("STEPS", str(steps)).replace("CODE0", str(k)).replace("CODE1", str(k + part))
                if m is CPP:
                    t = t.replace("0x888", "0x8888")
                jobs.append(("%s_emit_%s_%s_%d" % (tag, nm, how[0], k), t, 80000000, fl))
    return jobs

def nest_jobs(tag="n"):
    base = overlay()
    return [("%s_nest_%s" % (tag, h), NEST, 80000000, overlay_flags(d) + ["-std=c++2c", "-fno-access-control"]) for d, h in ((base, "c"), (runtime(base), "r"))]

def judge(rep, res, only=None):
    """-> number of witnesses decided; failures are reported if their reason is in `only`."""
    n = 0
    for name, r in sorted(res.items()):
        if r.status in ("gone", "broken"):
            rep.note("%s is not decided: %s" % (name, r.text[:200])); continue
        n += 1
        if r.status != "fail":
            continue
        nest = "_nest_" in name
        what = "Highlighter_Base::consume_nested_language" if nest else ("Highlighter_Base::emit" if "Base" in name else "cpp::Highlighter::emit")
        if r.counter is None:
            if only is None or 0 in only:
                rep.violate(what, "%s: %s" % (what, r.text))
            continue
        c = r.counter
        if nest:
            why, cap, ncap, at, ln, low = c >> 16, c >> 14 & 3, c >> 11 & 7, c >> 8 & 7, c >> 4 & 15, c & 15
            text = "buffer of %d, nested buffer of %d, %d tokens before, a span of %d code units, options %d" % (cap, ncap, low >> 2, ln, low & 3)
        else:
            why, cap, opt, code = c >> 19, c >> 17 & 3, c >> 16 & 1, c & 0xffff
            steps = 3 if TIER == "quick" else 4
            text = "buffer of %d, coalescing %s, emissions %s" % (cap, "on" if opt else "off", "; ".join(
                "%s%d units of type %d%s" % ("gap, " if x & 1 else "", 2 if x & 4 else 1, 5 if x & 2 else 9, " forced" if x & 8 else "") for x in (code >> 4 * k & 15 for k in range(steps))))
        if only is None or why in only:
            rep.violate(what, "%s: %s (%s)" % (what, WHY.get(why, "wrong"), text))
        else:
            rep.note("%s: %s (%s), which is not this property" % (what, WHY.get(why, "wrong"), text))
    return n
