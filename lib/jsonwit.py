"""Witnesses of the JSON parser: its whole stream of events on every sequence of fragments, against an independent parser, decided by the
compiler's constant evaluator on the library's own source (see overlay.py)."""
import os, re
from vp import *
from witness import run_witnesses
from overlay import overlay, overlay_flags

FRAG = ["{", "}", "[", "]", ",", ":", '"', "\\", "/", "*", "//", "/*", "*/", "1", "0", "-", ".", "e", "+", "true", "nul", "l", "x", " ", "\n", "\r", "\xc3\xa9", "u", "00e9", '"a"', "false", "\t", "\x01"]
STRUCT = ["{", "}", "[", "]", ",", '"a"', ":", "1", "//b\n"]
STR = ["\\", '"', "n", "u", "0", "00E9", "a", "\n", "d8"]
COM = ["/", "*", "//", "/*", "*/", "\n", "1", " "]

HEAD = r'''
#include "json.cpp"
#include "lang/js.cpp"
#include <array>
using namespace ulight;
struct Ev { int k = 0; std::size_t cu = 0, line = 0, col = 0, l = 0; std::uint32_t cp = 0; int n = 0; char8_t enc[4] {}; bool placed = true; };
enum { LINE_C, BLOCK_C, LIT, ESC, ESC_P, ESC_E, NUM, NUM_V, NUL, TRUE_, FALSE_, PUSH_S, POP_S, PUSH_P, POP_P, PUSH_O, POP_O, PUSH_A, POP_A };
struct Log : JSON_Visitor {
    const char8_t* base; Ev e[48]; int n = 0; int errors = 0; Source_Position at {}; JSON_Error code {}; bool after = false;
    constexpr Log(const char8_t* b) : base { b } { }
    constexpr ~Log() override { }
    constexpr void add(int k, const Source_Position& p, std::u8string_view t = {}, std::uint32_t cp = 0, std::u8string_view enc = {})
    {
        after |= errors != 0;
        Ev& x = e[n++]; x.k = k; x.cu = p.code_unit; x.line = p.line; x.col = p.line_code_unit; x.l = t.size(); x.cp = cp; x.n = int(enc.size());
        for (std::size_t i = 0; i < enc.size(); ++i) { x.enc[i] = enc[i]; }
        x.placed = t.data() == nullptr || t.data() == base + p.code_unit;
    }
    constexpr void line_comment(const Source_Position& p, std::u8string_view t) override { add(LINE_C, p, t); }
    constexpr void block_comment(const Source_Position& p, std::u8string_view t) override { add(BLOCK_C, p, t); }
    constexpr void literal(const Source_Position& p, std::u8string_view t) override { add(LIT, p, t); }
    constexpr void escape(const Source_Position& p, std::u8string_view t) override { add(ESC, p, t); }
    constexpr void escape(const Source_Position& p, std::u8string_view t, char32_t c) override { add(ESC_P, p, t, c); }
    constexpr void escape(const Source_Position& p, std::u8string_view t, char32_t c, std::u8string_view u) override { add(ESC_E, p, t, c, u); }
    constexpr void number(const Source_Position& p, std::u8string_view t) override { add(NUM, p, t); }
    constexpr void number(const Source_Position& p, std::u8string_view t, double) override { add(NUM_V, p, t); }
    constexpr void null(const Source_Position& p) override { add(NUL, p); }
    constexpr void boolean(const Source_Position& p, bool v) override { add(v ? TRUE_ : FALSE_, p); }
    constexpr void push_string(const Source_Position& p) override { add(PUSH_S, p); }
    constexpr void pop_string(const Source_Position& p) override { add(POP_S, p); }
    constexpr void push_property(const Source_Position& p) override { add(PUSH_P, p); }
    constexpr void pop_property(const Source_Position& p) override { add(POP_P, p); }
    constexpr void push_object(const Source_Position& p) override { add(PUSH_O, p); }
    constexpr void pop_object(const Source_Position& p) override { add(POP_O, p); }
    constexpr void push_array(const Source_Position& p) override { add(PUSH_A, p); }
    constexpr void pop_array(const Source_Position& p) override { add(POP_A, p); }
    constexpr Error_Reaction error(const Source_Position& p, JSON_Error c) override { ++errors; at = p; code = c; return Error_Reaction::abort; }
};
// the independent parser: RFC 8259, with comments between tokens
struct Ref {
    const char8_t* s; std::size_t len; bool comments; int esc; std::size_t i = 0; Ev e[48]; int n = 0; bool comment_error = false; std::size_t error_at = 0;
    constexpr char8_t c(std::size_t k = 0) const { return i + k < len ? s[i + k] : char8_t(0); }
    constexpr void add(int k, std::size_t p, std::size_t l, std::uint32_t cp = 0)
    {
        Ev& x = e[n++]; x.k = k; x.cu = p; x.l = l; x.cp = cp;
        for (std::size_t q = 0; q < p; ++q) { if (s[q] == u8'\n') { ++x.line; x.col = 0; } else { ++x.col; } }
        if (k == ESC_E) {
            if (cp < 0x80) { x.enc[x.n++] = char8_t(cp); }
            else if (cp < 0x800) { x.enc[x.n++] = char8_t(0xc0 | cp >> 6); x.enc[x.n++] = char8_t(0x80 | (cp & 63)); }
            else { x.enc[x.n++] = char8_t(0xe0 | cp >> 12); x.enc[x.n++] = char8_t(0x80 | (cp >> 6 & 63)); x.enc[x.n++] = char8_t(0x80 | (cp & 63)); }
        }
    }
    constexpr bool fail() { error_at = i; return false; }
    constexpr bool ws()
    {
        for (;;) {
            while (i < len && (c() == u8' ' || c() == u8'\t' || c() == u8'\n' || c() == u8'\r')) { ++i; }
            if (c() != u8'/' || (c(1) != u8'/' && c(1) != u8'*')) { return true; }
            if (!comments) { comment_error = true; return fail(); }
            std::size_t e = i + 2;
            if (c(1) == u8'/') {
                while (e < len && s[e] != u8'\n' && s[e] != u8'\r') { ++e; }
                add(LINE_C, i, e - i);
            }
            else {
                while (e + 1 < len && !(s[e] == u8'*' && s[e + 1] == u8'/')) { ++e; }
                if (e + 1 >= len) { return fail(); }
                e += 2;
                add(BLOCK_C, i, e - i);
            }
            i = e;
        }
    }
    constexpr bool word(std::u8string_view w, int k)
    {
        for (std::size_t q = 0; q < w.size(); ++q) { if (c(q) != w[q]) { return fail(); } }
        add(k, i, 0); i += w.size(); return true;
    }
    static constexpr bool digit(char8_t x) { return x >= u8'0' && x <= u8'9'; }
    static constexpr int hex(char8_t x) { return digit(x) ? x - u8'0' : x >= u8'a' && x <= u8'f' ? x - u8'a' + 10 : x >= u8'A' && x <= u8'F' ? x - u8'A' + 10 : -1; }
    constexpr bool number()
    {
        std::size_t b = i;
        if (c() == u8'-') { ++i; }
        if (!digit(c())) { return fail(); }
        if (c() == u8'0') { ++i; if (digit(c())) { return fail(); } }
        while (digit(c())) { ++i; }
        if (c() == u8'.') { ++i; if (!digit(c())) { return fail(); } while (digit(c())) { ++i; } }
        if (c() == u8'e' || c() == u8'E') { ++i; if (c() == u8'+' || c() == u8'-') { ++i; } if (!digit(c())) { return fail(); } while (digit(c())) { ++i; } }
        add(NUM, b, i - b); return true;
    }
    constexpr bool string(bool prop)
    {
        add(prop ? PUSH_P : PUSH_S, i, 0); ++i;
        for (;;) {
            std::size_t b = i;
            while (i < len && c() != u8'"' && c() != u8'\\' && c() >= 0x20) { ++i; }
            if (i != b) { add(LIT, b, i - b); }
            if (i >= len) { return fail(); }
            if (c() == u8'"') { add(prop ? POP_P : POP_S, i, 0); ++i; return true; }
            if (c() != u8'\\') { return fail(); }
            std::size_t l = 2; std::uint32_t v = 0;
            switch (c(1)) {
            case u8'"': case u8'\\': case u8'/': v = c(1); break;
            case u8'b': v = 8; break; case u8'f': v = 12; break; case u8'n': v = 10; break; case u8'r': v = 13; break; case u8't': v = 9; break;
            case u8'u': for (int q = 2; q < 6; ++q) { if (i + q >= len || hex(c(q)) < 0) { return fail(); } v = v * 16 + hex(c(q)); } l = 6; break;
            default: return fail();
            }
            add(esc == 0 ? ESC : esc == 1 ? ESC_P : ESC_E, i, l, esc == 0 ? 0 : v); i += l;
        }
    }
    constexpr bool member() { if (c() != u8'"') { return fail(); } if (!string(true) || !ws()) { return false; } if (c() != u8':') { return fail(); } ++i; return ws() && value(); }
    constexpr bool value()
    {
        switch (c()) {
        case u8'"': return string(false);
        case u8'{': case u8'[': {
            const bool obj = c() == u8'{'; const char8_t close = obj ? u8'}' : u8']';
            add(obj ? PUSH_O : PUSH_A, i, 0); ++i;
            if (!ws()) { return false; }
            if (i < len && c() != close) {
                for (;;) {
                    if (!(obj ? member() : value()) || !ws()) { return false; }
                    if (c() != u8',') { break; }
                    ++i; if (!ws()) { return false; }
                }
            }
            if (c() != close) { return fail(); }
            add(obj ? POP_O : POP_A, i, 0); ++i; return true;
        }
        case u8't': return word(u8"true", TRUE_);
        case u8'f': return word(u8"false", FALSE_);
        case u8'n': return word(u8"null", NUL);
        default: return number();
        }
    }
    constexpr bool all() { if (!ws() || !value() || !ws()) { return false; } return i == len ? true : fail(); }
};
constexpr int run(const char8_t* src, std::size_t len, bool comments, int esc)
{
    Log log { src };
    JSON_Options o {}; o.allow_comments = comments; o.escapes = Escape_Parsing(esc);
    const bool ok = parse_json(log, std::u8string_view(src, len), o);
    Ref r { src, len, comments, esc };
    const bool want = r.all();
    if (ok && log.errors) { return 1; }
    if (!ok && log.errors == 0) { return 2; }
    if (!ok && log.errors > 1) { return 3; }
    if (ok && !want) { return 4; }
    if (!ok && want) { return 5; }
    if (!ok) {
        if (log.at.code_unit > len) { return 6; }
        std::size_t line = 0, col = 0;
        for (std::size_t q = 0; q < log.at.code_unit; ++q) { if (src[q] == u8'\n') { ++line; col = 0; } else { ++col; } }
        if (line != log.at.line || col != log.at.line_code_unit) { return 6; }
        if (log.n && log.at.code_unit < log.e[log.n - 1].cu) { return 6; }
        if (r.comment_error && (log.code != JSON_Error::comment || log.at.code_unit != r.error_at)) { return 7; }
        if (!comments && !r.comment_error && log.code == JSON_Error::comment) { return 7; }
        if (log.after) { return 8; }
    }
    // the events before an error are those of the text up to it; the construct in which it lies need not have been reported
    if (log.n > r.n || (ok && log.n != r.n) || log.n + 1 < r.n) { return 10; }
    for (int k = 0; k < log.n; ++k) {
        if (log.e[k].k != r.e[k].k) { return 10; }
        if (log.e[k].cu != r.e[k].cu || log.e[k].line != r.e[k].line || log.e[k].col != r.e[k].col) { return 11; }
        if (!log.e[k].placed || log.e[k].l != r.e[k].l) { return 12; }
        if (log.e[k].cp != r.e[k].cp || log.e[k].n != r.e[k].n) { return 13; }
        for (int q = 0; q < r.e[k].n; ++q) { if (log.e[k].enc[q] != r.e[k].enc[q]) { return 13; } }
    }
    return 0;
}
constexpr std::u8string_view frags[] = { FRAGS };
constexpr std::u8string_view pre = PRE, post = POST;
constexpr int all()
{
    constexpr int F = int(std::size(frags));
    for (int n = 0; n <= DEPTH; ++n) {
        int top = 1; for (int i = 0; i < n; ++i) { top *= F; }
        for (int code = 0; code < top; ++code) {
            if (code % PARTS != PART_) { continue; }
            char8_t src[64] {}; std::size_t len = 0;
            for (char8_t x : pre) { src[len++] = x; }
            for (int i = 0, c = code; i < n; ++i, c /= F) { for (char8_t x : frags[c % F]) { src[len++] = x; } }
            for (char8_t x : post) { src[len++] = x; }
            for (int com = 0; com < 2; ++com) for (int esc = 0; esc < ESCS; ++esc) {
                const int r = run(src, len, com, esc);
                if (r) { return (((r * 2 + com) * 4 + esc) * 8 + n) * (1 << 20) + code; }
            }
        }
    }
    return -1;
}
static_assert(all() == -1);
'''
WHY = {1: "it succeeds after calling the error handler", 2: "it fails without calling the error handler", 3: "it calls the error handler more than once", 4: "it accepts text that is not JSON",
       5: "it rejects JSON", 6: "the position of the error is not a position inside the source", 7: "a comment where comments are disallowed is not reported as such", 8: "events follow the error",
       10: "an event is missing, added or in the wrong order", 11: "the position of an event is wrong", 12: "the text of an event is not the text at its position", 13: "the value or encoding of an escape sequence is wrong"}
ERRORS = {1, 2, 3, 4, 5, 6, 7, 8}
EVENTS = {10, 11, 12, 13}

def lit(x):
    return 'u8"%s"' % "".join("\\x%02x\" u8\"" % b if b < 32 or b > 126 or chr(b) in '"\\?' else chr(b) for b in x.encode("utf-8" if all(ord(c) < 256 for c in x) and False else "latin-1"))

SETS = [("any", FRAG, "", "", 3, 2, 1), ("struct", STRUCT, "", "", 5, 5, 1), ("str", STR, '"', '"', 4, 5, 3), ("key", STR, '{"', '":1}', 3, 4, 3), ("com", COM, "[", "]", 4, 5, 1), ("tail", COM + ["]", "}", ","], "{\"a\":[1", "", 3, 4, 1)]

def jobs():
    d = overlay()
    p = os.path.join(d, "src/main/cpp/lang/json.cpp")
    if not os.path.exists(p):
        return []
    t = open(p, encoding="utf-8").read()
    t = re.sub(r"(?<![\w:])(?:ulight::)?as_string_view\s*\(", "::vp_rt::text(", t)
    t = re.sub(r"(?<![\w:])(?:::)?std::from_chars\s*\(", "::vp_rt::from_chars(", t)
    o = os.path.join(BUILD, "wit", "json")
    os.makedirs(o, exist_ok=True)
    open(os.path.join(o, "json.cpp"), "w", encoding="utf-8").write(t)
    fl = ["-include", os.path.join(VERIF, "witness", "rtchars.hpp"), "-I", o] + overlay_flags(d) + ["-std=c++2c", "-Wno-enum-constexpr-conversion", "-fno-access-control"]
    out = []
    for name, fr, pre, post, quick, thorough, esc in SETS:
        depth = quick if TIER == "quick" else thorough + (1 if name == "any" else 0)
        total = len(fr) ** depth * 2 * esc
        parts = max(1, total // 12000)
        while any(len(fr) % q == 0 and parts % q == 0 for q in (2, 3, 5, 7, 11)):
            parts += 1
        for k in range(parts):
            text = HEAD.replace("FRAGS", ", ".join(map(lit, fr))).replace("PRE,", lit(pre) + ",").replace("POST;", lit(post) + ";").replace("DEPTH", str(depth)).replace("PARTS", str(parts)).replace("PART_", str(k)).replace("ESCS", str(esc))
            out.append(("json_%s_%d_%d" % (name, depth, k), text, 1000000000, fl))
    return out

def judge(rep, res, only):
    n = 0
    sets = {s[0]: s for s in SETS}
    for name, r in sorted(res.items()):
        if r.status in ("gone", "broken"):
            rep.note("%s is not decided: %s" % (name, r.text[:300])); continue
        n += 1
        if r.status != "fail":
            continue
        _, fr, pre, post = sets[name.split("_")[1]][:4]
        if r.counter is None:
            rep.violate("json:undefined", "parse_json (texts of the form %s): %s" % (name, r.text)); continue
        c = r.counter
        code, k, esc, com, why = c & 0xfffff, c >> 20 & 7, c >> 23 & 3, c >> 25 & 1, c >> 26
        text = pre + "".join(fr[code // len(fr) ** i % len(fr)] for i in range(k)) + post
        msg = "parse_json of %r (comments %s, escapes %d): %s" % (text, "allowed" if com else "disallowed", esc, WHY.get(why, why))
        if why in only:
            rep.violate("json:%d" % why, msg)
        else:
            rep.note(msg + ", which is not this property")
    return n
