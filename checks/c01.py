#!/usr/bin/env python3
"""C01: HTML output is the escaped source in order, nothing lost or injected. Compile-fail witnesses of the HTML writer and the escaper."""
import os, sys, re, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vp import *
import capi, flow
from witness import run_witnesses
from overlay import overlay, runtime, overlay_flags

RULE = ("Modular: the HTML writer is separated from the highlighter (whose guarantee is C02) at the call to ulight_source_to_tokens, which is replaced by one "
        "that delivers an arbitrary valid token stream in arbitrary batches. For every stream over every short source, batching, capacity and name, the text "
        "delivered must be exactly the reference output; for every byte value, in a gap, in a token and in the tail, the escaped form must be the byte itself or, "
        "for < > &, the entity. Decided by the compiler's constant evaluator (static_assert). Dataflow: the failing statuses of the token pass are returned.")

WIT = r'''
#include <string_view>
#include <cstddef>
namespace vp_rt {
// A view of the same characters as char: a lookup in a pool of all arrangements of the characters that matter in HTML
struct Pool { char s[2000] {}; std::size_t n = 0; };
constexpr void grow(Pool& p, char* cur, int len, unsigned used) {
    for (int i = 0; i < len; ++i) { p.s[p.n++] = cur[i]; }
    if (len) { p.s[p.n++] = ' '; }
    for (int k = 0; k < 5; ++k) { if (!(used >> k & 1)) { cur[len] = "<>&\"'"[k]; grow(p, cur, len + 1, used | 1u << k); } }
}
constexpr Pool make() { Pool p; char cur[6] {}; grow(p, cur, 0, 0); return p; }
inline constexpr Pool pool = make();
std::string_view vp_gone();
constexpr std::string_view as_string_view(std::u8string_view v) {
    for (std::size_t i = 0; i + v.size() <= pool.n; ++i) {
        bool eq = true;
        for (std::size_t k = 0; eq && k < v.size(); ++k) { eq = pool.s[i + k] == char(v[k]); }
        if (eq) { return { pool.s + i, v.size() }; }
    }
    return vp_gone();
}
}
#include "ulight.cpp"
using TK = ulight_token;
struct Out { char got[300] {}; std::size_t n = 0; char* start = nullptr; std::size_t cap = 0; int bad = 0; };
constexpr void on_text(const void* d, char* p, std::size_t n)
{
    Out* l = static_cast<Out*>(const_cast<void*>(d));
    if (p != l->start || n == 0 || n > l->cap) { l->bad = 1; return; }
    for (std::size_t i = 0; i < n; ++i) { if (l->n < 300) { l->got[l->n++] = p[i]; } p[i] = '?'; }
}
constexpr void no_tokens(const void*, TK*, std::size_t) { }
// The token pass is replaced: the caller's token buffer holds the script, [0].begin tokens from [1] on, cut into batches by [0].length.
constexpr ulight_status ulight_source_to_tokens(ulight_state* st) noexcept
{
    TK* s = st->token_buffer; const std::size_t n = s[0].begin, cuts = s[0].length;
    TK room[6] {}; std::size_t from = 0;
    for (std::size_t i = 0; i < n; ++i) {
        room[i - from] = s[i + 1];
        if ((cuts >> i & 1) || i + 1 == n) { st->flush_tokens(st->flush_tokens_data, room, i + 1 - from); for (TK& t : room) { t = TK {}; } from = i + 1; }
    }
    return ulight_status(s[0].type);
}
struct Want { char s[300] {}; std::size_t n = 0;
    constexpr void put(char c) { s[n++] = c; }
    constexpr void put(std::string_view v) { for (char c : v) { put(c); } }
    constexpr void esc(char c) { if (c == '<') { put("&lt;"); } else if (c == '>') { put("&gt;"); } else if (c == '&') { put("&amp;"); } else { put(c); } }
};
// quotes need no escape in text, but may have one
constexpr bool same(const Out& o, const Want& w)
{
    std::size_t i = 0, k = 0;
    while (i < o.n && k < w.n) {
        if (o.got[i] == w.s[k]) { ++i; ++k; continue; }
        if (w.s[k] != '"' && w.s[k] != '\'') { return false; }
        std::string_view r(o.got + i, o.n - i);
        std::size_t l = 0;
        if (w.s[k] == '"') { l = r.starts_with("&quot;") ? 6 : r.starts_with("&#34;") ? 5 : 0; }
        else { l = r.starts_with("&apos;") ? 6 : r.starts_with("&#39;") ? 5 : 0; }
        if (!l) { return false; }
        i += l; ++k;
    }
    return i == o.n && k == w.n;
}
constexpr int go(const char* src, std::size_t len, const TK* toks, std::size_t n, unsigned cuts, std::size_t cap, std::string_view tag, std::string_view attr, int status = 0)
{
    TK script[6] {}; script[0].begin = n; script[0].length = cuts; script[0].type = (unsigned char)status;
    for (std::size_t i = 0; i < n; ++i) { script[i + 1] = toks[i]; }
    char mem[70]; for (char& c : mem) { c = '#'; }
    Out out; out.start = mem; out.cap = cap;
    ulight_state st {};
    st.source = src; st.source_length = len; st.lang = ULIGHT_LANG_TXT;
    st.token_buffer = script; st.token_buffer_length = 6; st.flush_tokens = &no_tokens;
    st.html_tag_name = tag.data(); st.html_tag_name_length = tag.size();
    st.html_attr_name = attr.data(); st.html_attr_name_length = attr.size();
    st.text_buffer = mem; st.text_buffer_length = cap; st.flush_text = &on_text; st.flush_text_data = &out;
    const ulight_status r = ulight_source_to_html(&st);
    if (status) { return int(r) == status ? 0 : 1; }
    if (r != ULIGHT_STATUS_OK) { return 1; }
    if (out.bad) { return 2; }
    for (std::size_t i = cap; i < 70; ++i) { if (mem[i] != '#') { return 3; } }
    Want w; std::size_t pos = 0;
    for (std::size_t i = 0; i < n; ++i) {
        for (; pos < toks[i].begin; ++pos) { w.esc(src[pos]); }
        w.put('<'); w.put(tag); w.put(' '); w.put(attr); w.put('=');
        w.put(ulight::highlight_type_short_string(ulight::Highlight_Type(toks[i].type))); w.put('>');
        for (; pos < toks[i].begin + toks[i].length; ++pos) { w.esc(src[pos]); }
        w.put("</"); w.put(tag); w.put('>');
    }
    for (; pos < len; ++pos) { w.esc(src[pos]); }
    return same(out, w) ? 0 : 4;
}
'''
# every byte value in a gap, in a token, in the tail
BYTES = WIT + r'''
constexpr int all()
{
    for (int c = LO; c < HI; ++c) for (int ctx = 0; ctx < 4; ++ctx) for (int where = 0; where < 3; ++where) {
        char src[8] = { 'x', 'x', 'x', 'x', 'x', 'x', 'x', 'x' };
        // neighbours that matter: plain, the same byte again, an ampersand before, an entity-like tail
        src[3] = char(c);
        if (ctx == 1) { src[4] = char(c); }
        if (ctx == 2) { src[2] = '&'; }
        if (ctx == 3) { src[4] = 'l'; src[5] = 't'; src[6] = ';'; }
        TK t[2] {};
        std::size_t n = 1;
        if (where == 0) { t[0].begin = 7; t[0].length = 1; } // in the gap before
        else if (where == 1) { t[0].begin = 1; t[0].length = 6; }
        else { t[0].begin = 0; t[0].length = 1; }
        t[0].type = ULIGHT_HL_COMMENT;
        const int r = go(src, 8, t, n, 0, 64, "h-", "c");
        if (r) { return ((r * 256 + c) * 4 + ctx) * 4 + where; }
    }
    return -1;
}
static_assert(all() == -1);
'''
# every partition of a short source into gaps and up to three tokens, in every batching, for small and large text buffers
SHAPES = WIT + r'''
constexpr int all()
{
    const char src[5] = { 'a', '<', '&', 'b', '>' };
    const std::size_t caps[] = { 1, 2, 3, 7, 64 };
    for (std::size_t len = 0; len <= 5; ++len) for (unsigned code = LO; code < HI; ++code) {
        // each position: 0 gap, 1 a token starts, 2 the token goes on
        TK t[6] {}; std::size_t n = 0; bool ok = true, in = false; unsigned c = code;
        for (std::size_t i = 0; i < len && ok; ++i, c /= 3) {
            if (c % 3 == 0) { in = false; }
            else if (c % 3 == 1) { if (n == 5) { ok = false; break; } t[n].begin = i; t[n].length = 1; t[n].type = (unsigned char)(n % 2 ? ULIGHT_HL_STRING : ULIGHT_HL_COMMENT); ++n; in = true; }
            else { if (!in) { ok = false; break; } ++t[n - 1].length; }
        }
        if (!ok || c != 0) { continue; }
        for (unsigned cuts = 0; cuts < (n ? 1u << (n - 1) : 1u); ++cuts) for (std::size_t cap : caps) {
            const int r = go(src, len, t, n, cuts, cap, len % 2 ? "h-" : "b", len % 2 ? "data" : "c");
            if (r) { return (((r * 8 + int(len)) * 256 + int(code)) * 32 + int(cuts)) * 8 + int(cap == 64 ? 6 : cap == 7 ? 5 : cap); }
        }
    }
    return -1;
}
static_assert(all() == -1);
'''
TYPES = WIT + r'''
constexpr int all()
{
    const char src[4] = { 'a', 'b', 'c', 'd' };
    for (int ty = 0; ty < 256; ++ty) {
        if (ulight::highlight_type_short_string(ulight::Highlight_Type(ty)).empty() && ty != 0) { continue; }
        TK t[1] {}; t[0].begin = 1; t[0].length = 2; t[0].type = (unsigned char)ty;
        const int r = go(src, 4, t, 1, 0, 64, "span", "class");
        if (r) { return r * 256 + ty; }
    }
    return -1;
}
static_assert(all() == -1);
'''
WHY = {1: "the status is wrong", 2: "the text callback gets the wrong buffer or a wrong number of characters", 3: "text is written behind the end of the buffer", 4: "the text delivered is not the escaped source with one pair of tags around each token"}

def prepare(d, how):
    """The overlay in which the definition of the token pass has another name, so that the witness can give its own."""
    p = os.path.join(d, "src/main/cpp/ulight.cpp")
    t = open(p, encoding="utf-8").read()
    u, k = re.subn(r"\bulight_source_to_tokens(?=\s*\(\s*ulight_state\s*\*\s*\w*\s*\)[^;{}]*\{)", "vp_original_token_pass", t)
    u = re.sub(r"(?<![\w:])(?:ulight::)?as_string_view\s*\(", "::vp_rt::as_string_view(", u)
    if k != 1:
        return None
    o = os.path.join(BUILD, "wit", "c01_" + how)
    os.makedirs(o, exist_ok=True)
    open(os.path.join(o, "ulight.cpp"), "w", encoding="utf-8").write(u)
    return o

def jobs():
    base, out = overlay(), []
    for d, how in ((base, "constant"), (runtime(base), "run-time")):
        o = prepare(d, how)
        if not o:
            return None
        fl = ["-I", o] + overlay_flags(d) + ["-std=c++2c", "-Wno-enum-constexpr-conversion", "-fno-access-control"]
        for lo in range(0, 256, 64):
            out.append(("c01_bytes_%s_%d" % (how, lo), BYTES.replace("LO;", "%d;" % lo).replace("HI;", "%d;" % (lo + 64)), 80000000, fl))
        for lo in range(0, 243, 81):
            out.append(("c01_shapes_%s_%d" % (how, lo), SHAPES.replace("LO;", "%d;" % lo).replace("HI;", "%d;" % (lo + 81)), 80000000, fl))
        out.append(("c01_types_" + how, TYPES, 80000000, fl))
    return out

def check(rep):
    j = jobs()
    if j is None:
        rep.note("the definition of ulight_source_to_tokens is not where it is expected; the writer cannot be separated from it")
        rep.count("witnesses decided", 0, 0)
        return
    n = 0
    for name, r in sorted(run_witnesses(j).items()):
        if r.status in ("gone", "broken"):
            rep.note("%s is not decided: %s" % (name, r.text[:300])); continue
        n += 1
        if r.status != "fail":
            continue
        if r.counter is None:
            rep.violate("html:undefined", "ulight_source_to_html: " + r.text); continue
        c = r.counter
        if "bytes" in name:
            why, b, ctx, wh = c >> 12, c >> 4 & 255, c >> 2 & 3, c & 3
            rep.violate("html:byte", "ulight_source_to_html, byte 0x%02x %s: %s" % (b, ["before a token", "in a token", "after the last token"][wh], WHY.get(why)))
        elif "types" in name:
            rep.violate("html:type", "ulight_source_to_html, token of type %d: %s" % (c & 255, WHY.get(c >> 8)))
        else:
            why, ln, code, cuts, cap = c >> 19, c >> 16 & 7, c >> 8 & 255, c >> 3 & 31, c & 7
            lay = "".join("gTt"[code // 3 ** i % 3] for i in range(ln))
            rep.violate("html:shape", "ulight_source_to_html, source of %d characters with layout %s (g gap, T token start, t token), batches %s, capacity %d: %s" % (
                ln, lay, bin(cuts), {6: 64, 5: 7}.get(cap, cap), WHY.get(why)))
    rep.count("witnesses decided", n, 0)
    rep.assume("the token stream is valid (C02) and the text buffer keeps its protocol (C13)")

main("C01", RULE, check)
