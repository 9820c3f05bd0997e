#!/usr/bin/env python3
"""C13: caller-provided buffers are never overrun and are flushed completely. Compile-fail witnesses of the buffer (both the constant and
the run-time branches), symbolic dataflow over the IR of its operations for every size and capacity, and of the entry points that make
buffers from the caller's fields."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vp import *
import flow, capi, basewit
from witness import run_witnesses
from overlay import overlay, runtime, overlay_flags

RULE = ("Protocol of Non_Owning_Buffer. Witnesses: for every capacity, fill and pair of operations of the closed small model the flush callback gets the "
        "buffer's start, the caller's data pointer, 1..capacity elements, and all elements appended in order, and nothing behind the capacity is written; "
        "decided by the compiler's constant evaluator, for the constant and for the run-time branch of the copy. Dataflow: for symbolic fill and capacity each "
        "single-element operation stores at start+fill and increments the fill, or, when full, calls flush(data, start, fill) once and then stores at start. "
        "Entry points: the buffer is made of the caller's buffer, length, flush data and flush function.")

WIT = r'''
#include "ulight/impl/buffer.hpp"
#include <cstddef>
#include <span>
#include <utility>
using ulight::Non_Owning_Buffer;
struct Log;
struct E {
    int v = -1; Log* log = nullptr;
    constexpr E() = default;
    constexpr E(int v, Log* l) : v { v }, log { l } { }
};
static constexpr int tag = 0;
struct Log { E* start = nullptr; std::size_t cap = 0; int expect = 0; int bad = 0; int calls = 0; };
constexpr void on_flush(const void* d, E* p, std::size_t n)
{
    Log* l = p[0].log;
    ++l->calls;
    if (d != &tag) { l->bad |= 1; }
    if (p != l->start) { l->bad |= 2; }
    if (n == 0) { l->bad |= 4; }
    if (n > l->cap) { l->bad |= 8; return; }
    for (std::size_t i = 0; i < n; ++i) {
        if (p[i].v != l->expect) { l->bad |= 16; }
        ++l->expect;
        p[i] = E { -2, l };
    }
}
// A forward iterator over values that is not a random access iterator.
struct It {
    using value_type = E; using difference_type = std::ptrdiff_t; using iterator_concept = std::forward_iterator_tag;
    const E* p = nullptr;
    constexpr const E& operator*() const { return *p; }
    constexpr It& operator++() { ++p; return *this; }
    constexpr It operator++(int) { It r = *this; ++p; return r; }
    friend constexpr bool operator==(It, It) = default;
};
struct End { const E* p = nullptr; friend constexpr bool operator==(It a, End b) { return a.p == b.p; } };
constexpr int GUARD = 4;
constexpr int MAXLEN = CAP * 2 + 1;
struct Run {
    E mem[CAP + GUARD]; Log log; int next = 0; int made = 0;
    constexpr E make() { return E { next++, &log }; }
    template <int OP> constexpr void op(Non_Owning_Buffer<E>& b, int len)
    {
        if constexpr (OP == 0) { const E e = make(); if constexpr (requires { b.push_back(e); }) { E& r = b.push_back(e); if (r.v != e.v) { log.bad |= 32; } } }
        else if constexpr (OP == 1) { E e = make(); E& r = b.push_back(std::move(e)); if (r.v != next - 1 || &r != &b.back()) { log.bad |= 32; } }
        else if constexpr (OP == 2) { const int v = next++; E& r = b.emplace_back(v, &log); if (r.v != v || &r != &b.back()) { log.bad |= 32; } }
        else if constexpr (OP == 6) { b.flush(); if (!b.empty() || b.size() != 0) { log.bad |= 64; } }
        else {
            E src[MAXLEN + 1];
            for (int i = 0; i < len; ++i) { src[i] = make(); }
            if constexpr (OP == 3) { b.append(static_cast<const E*>(src), static_cast<const E*>(src + len)); }
            else if constexpr (OP == 4) { b.append(It { src }, End { src + len }); }
            else { b.append_range(std::span<const E>(src, std::size_t(len))); }
        }
        check(b);
    }
    constexpr void check(const Non_Owning_Buffer<E>& b)
    {
        if (b.capacity() != CAP || b.size() > CAP || b.available() != CAP - b.size() || b.full() != (b.size() == CAP) || b.empty() != (b.size() == 0)) { log.bad |= 128; }
        if (log.expect + int(b.size()) != next) { log.bad |= 256; }
        if (!b.empty() && b.back().v != next - 1) { log.bad |= 512; }
    }
    constexpr bool go(int prefill, int op1, int l1, int op2, int l2)
    {
        for (E& e : mem) { e = E { -1, &log }; }
        log.start = mem; log.cap = CAP;
        Non_Owning_Buffer<E> b { mem, CAP, &tag, &on_flush };
        for (int i = 0; i < prefill; ++i) { op<0>(b, 0); }
        one(b, op1, l1); one(b, op2, l2);
        b.flush(); check(b);
        if (log.expect != next) { log.bad |= 1024; }
        const int calls = log.calls;
        b.flush();
        if (log.calls != calls) { log.bad |= 2048; }
        for (int i = CAP; i < CAP + GUARD; ++i) { if (mem[i].v != -1) { log.bad |= 4096; } }
        return log.bad == 0;
    }
    constexpr void one(Non_Owning_Buffer<E>& b, int o, int l)
    {
        switch (o) { case 0: op<0>(b, l); break; case 1: op<1>(b, l); break; case 2: op<2>(b, l); break; case 3: op<3>(b, l); break; case 4: op<4>(b, l); break; case 5: op<5>(b, l); break; default: op<6>(b, l); }
    }
};
constexpr int all()
{
    for (int o1 = LO; o1 < HI; ++o1) for (int l1 = 0; l1 <= (o1 >= 3 && o1 <= 5 ? MAXLEN : 0); ++l1)
    for (int o2 = 0; o2 < 7; ++o2) for (int l2 = 0; l2 <= (o2 >= 3 && o2 <= 5 ? MAXLEN : 0); ++l2)
    for (int f = 0; f <= CAP; ++f) {
        Run r;
        if (!r.go(f, o1, l1, o2, l2)) { return (((f * 8 + o1) * 16 + l1) * 8 + o2) * 16 + l2; }
    }
    return -1;
}
static_assert(all() == -1);
'''
# text buffers take other character types and string views; the callback finds its log through the data pointer
CHARS = r'''
#include "ulight/impl/buffer.hpp"
#include <string_view>
using ulight::Non_Owning_Buffer;
struct Log { char got[64] {}; std::size_t n = 0; char* start = nullptr; std::size_t cap = 0; int bad = 0; };
constexpr void on_flush(const void* d, char* p, std::size_t n)
{
    Log* l = static_cast<Log*>(const_cast<void*>(d));
    if (p != l->start) { l->bad |= 1; }
    if (n == 0 || n > l->cap) { l->bad |= 2; return; }
    for (std::size_t i = 0; i < n; ++i) { l->got[l->n++] = p[i]; p[i] = '?'; }
}
constexpr char text[] = "abcdefghijklmnopqrstuvwxyz";
constexpr char8_t text8[] = u8"ABCDEFGHIJKLMNOPQRSTUVWXYZ";
constexpr int all()
{
    for (std::size_t cap = 1; cap <= 5; ++cap) for (std::size_t a = 0; a <= cap + 2; ++a) for (std::size_t b = 0; b <= 2 * cap + 1; ++b) for (int k = 0; k < 3; ++k) {
        char mem[8]; for (char& c : mem) { c = '#'; }
        Log log; log.start = mem; log.cap = cap;
        Non_Owning_Buffer<char> out { mem, cap, &log, &on_flush };
        out.append_range(std::string_view(text, a));
        if (k == 0) { out.append_range(std::string_view(text + a, b)); }
        else if (k == 1) { out.append_range(std::u8string_view(text8, b)); }
        else { out.push_back('<'); out.append_range(std::string_view(text + a, b)); }
        out.flush();
        bool ok = log.bad == 0 && log.n == a + b + (k == 2);
        for (std::size_t i = 0; ok && i < log.n; ++i) {
            char want = i < a ? text[i] : k == 0 ? text[i] : k == 1 ? char(text8[i - a]) : i == a ? '<' : text[i - 1];
            ok = log.got[i] == want;
        }
        for (std::size_t i = cap; i < 8; ++i) { ok = ok && mem[i] == '#'; }
        if (!ok) { return int(((cap * 16 + a) * 16 + b) * 4 + std::size_t(k)); }
    }
    return -1;
}
static_assert(all() == -1);
'''
NAMES = ["push_back(const&)", "push_back(&&)", "emplace_back", "append(ptr, ptr)", "append(iterator, sentinel)", "append_range", "flush"]
BITS = {1: "flush called with another data pointer", 2: "flush called with another start", 4: "flush called with zero elements", 8: "flush called with more elements than the capacity",
        16: "elements flushed twice, lost or out of order"}

def witnesses(rep):
    base = overlay()
    jobs = []
    for d, how in ((base, "constant"), (runtime(base), "run-time")):
        fl = overlay_flags(d)
        caps = (1, 2, 3) if TIER == "quick" else (1, 2, 3, 4, 5)
        for cap in caps:
            for lo, hi in ((0, 3), (3, 4), (4, 5), (5, 6), (6, 7)):
                t = WIT.replace("CAP", str(cap)).replace("LO;", "%d;" % lo).replace("HI;", "%d;" % hi)
                jobs.append(("c13_%s_%d_%d" % (how[0], cap, lo), t, 60000000, fl))
        jobs.append(("c13_chars_%s" % how[0], CHARS, 20000000, fl + ["-std=c++2c"]))
    res = run_witnesses(jobs)
    gone = 0
    for n, r in sorted(res.items()):
        if r.status == "gone":
            gone += 1
            rep.note("%s: not expressible on this tree (%s)" % (n, r.text[:160]))
        elif r.status == "broken":
            rep.note("%s: %s" % (n, r.text[:160]))
            gone += 1
        elif r.status == "fail":
            what = r.text
            if r.counter is not None:
                c = r.counter
                if "chars" in n:
                    what = "capacity %d, %d characters then %d (variant %d): the text flushed is not the text appended, or the callback's arguments are wrong" % (c >> 10, c >> 6 & 15, c >> 2 & 15, c & 3)
                else:
                    what = "capacity %s, %d elements in the buffer, then %s[%d] then %s[%d], flush: the elements or arguments handed to the callback are wrong" % (
                        n.split("_")[2], c >> 14, NAMES[(c >> 11) & 7], c >> 7 & 15, NAMES[(c >> 4) & 7], c & 15)
            rep.violate("buffer:" + re.sub(r"_[cr]_\d+", "", n), "Non_Owning_Buffer: " + what)
    return len(res) - gone


TU = r"""
#include "ulight/impl/buffer.hpp"
#include "ulight/ulight.h"
#include <string_view>
using C = ulight::Non_Owning_Buffer<char>; using T = ulight::Non_Owning_Buffer<ulight_token>;
extern "C" {
void vp_ctor(C* o, char* b, std::size_t n, const void* d, void (*f)(const void*, char*, std::size_t)) { *o = C { b, n, d, f }; }
void vp_push(C* b, const char* p) { b->push_back(*p); }
void vp_move(C* b, char* p) { b->push_back(static_cast<char&&>(*p)); }
void vp_emplace(T* b, std::size_t x, std::size_t l, unsigned char t) { b->emplace_back(x, l, t); }
void vp_flush(C* b) { b->flush(); }
}"""

def ctor_layout(d):
    """Where the constructor keeps its arguments: {field: offset}."""
    f = d["functions"].get("vp_ctor")
    fl = flow.Flow(f, d["globals"]).run()
    for s, v, i in fl.returns:
        m = {}
        for o, z, e in s.mem.get(("arg", 0), ()):
            for n, want in (("start", ("ptr", ("arg", 1), 0)), ("capacity", ("arg", 2)), ("data", ("ptr", ("arg", 3), 0)), ("flush", ("ptr", ("arg", 4), 0)), ("size", 0)):
                if e == want and n not in m:
                    m[n] = o
        return m
    return {}

class Model:
    """Concrete values for the fields of the buffer, to decide which paths are taken and what they do there."""
    def __init__(self, lay, size, cap):
        self.v = {lay["size"]: size, lay["capacity"]: cap}
        self.lay = lay
    def ev(self, e):
        if isinstance(e, int):
            return e
        if not isinstance(e, tuple):
            return None
        k = e[0]
        if k == "init" and e[1] == ("arg", 0):
            if e[2] in self.v:
                return self.v[e[2]]
            n = {o: n for n, o in self.lay.items()}.get(e[2])
            return (n, 0) if n else None
        if k == "ptr":
            r = e[1]
            if r[0] == "dyn":
                b = self.ev(("ptr", r[1], 0))
                off = r[2] + e[2]
                for x, m in r[3]:
                    x = self.ev(x)
                    if not isinstance(x, int):
                        return None
                    off += x * m
                return (b[0], b[1] + off) if isinstance(b, tuple) else None
            if r[0] == "obj":
                b = self.ev(r[1])
                return (b[0], b[1] + e[2]) if isinstance(b, tuple) else None
            return (r, e[2])
        if k == "not":
            x = self.ev(e[1])
            return None if x is None else 1 - (x & 1)
        if k == "op":
            a, b = self.ev(e[3]), self.ev(e[4])
            if e[1] == "or" and e[2] == 1 and 1 in (a, b): return 1
            if e[1] == "and" and e[2] == 1 and 0 in (a, b): return 0
            if not isinstance(a, int) or not isinstance(b, int): return None
            m = (1 << e[2]) - 1
            return {"add": a + b, "sub": a - b, "mul": a * b, "or": a | b, "and": a & b, "xor": a ^ b, "shl": a << b if b < 64 else 0, "lshr": a >> b}.get(e[1], 0) & m
        if k == "icmp":
            a, b = self.ev(e[2]), self.ev(e[3])
            if isinstance(a, tuple) or isinstance(b, tuple):
                return {"eq": int(a == b), "ne": int(a != b)}.get(e[1]) if a is not None and b is not None and (isinstance(b, tuple) or b == 0) else None
            if a is None or b is None: return None
            return {"eq": int(a == b), "ult": int(a < b), "ule": int(a <= b), "slt": int(a < b), "sle": int(a <= b), "ne": int(a != b), "ugt": int(a > b), "uge": int(a >= b)}.get(e[1])
        if k == "sel":
            c = self.ev(e[1])
            return None if c is None else self.ev(e[2] if c else e[3])
        if k == "minmax":
            a, b = self.ev(e[2]), self.ev(e[3])
            return (min if "min" in e[1] else max)(a, b) if isinstance(a, int) and isinstance(b, int) else None
        if k == "cast":
            x = self.ev(e[3])
            return x & ((1 << e[2]) - 1) if isinstance(x, int) and e[1] in ("zext", "trunc") else None
        return None

def operations(rep):
    """Each single-element operation, on every path, for every relation of fill and capacity."""
    try:
        d = ir_dump_text("c13b", TU, O2S)
    except Broken as e:
        rep.note("the operations are not expressible on this tree: %s" % str(e)[:200]); return 0, None
    lay = ctor_layout(d)
    if len(lay) < 5:
        rep.note("the buffer does not keep its arguments in five fields: %s" % lay); return 0, None
    done = 0
    for name, width, adds in (("vp_push", 1, 1), ("vp_move", 1, 1), ("vp_emplace", 24, 1), ("vp_flush", 1, 0)):
        f = d["functions"].get(name)
        def on_call(fl, s, i, c, a):
            s.trace += (("call", c or self_target(fl, s, i), tuple(a)),)
            if c:
                return None
            fl.clobber_call(s, a); s.env[i["id"]] = ("v", i["id"]); return [s]
        def on_store(fl, s, i, p, z, v):
            s.trace += (("store", p, z, v),)
        fl = flow.Flow(f, d["globals"], on_call=on_call, on_store=on_store).run()
        if fl.incomplete or any(t[0] == "call" and isinstance(t[1], str) for s, _, _ in fl.returns for t in s.trace):
            rep.note("%s is not followed" % name); continue
        ok = True
        for size, cap in ((0, 1), (1, 1), (0, 2), (1, 2), (2, 2), (0, 1 << 40), (5, 7), (7, 7), ((1 << 40) - 1, 1 << 40), (1 << 40, 1 << 40)):
            m = Model(lay, size, cap)
            for s, v, i in fl.returns:
                sat = [m.ev(e) if t else (None if m.ev(e) is None else 1 - m.ev(e)) for e, t in s.facts.items()]
                if 0 in sat:
                    continue
                if None in sat:
                    ok = False; continue
                calls = [t for t in s.trace if t[0] == "call"]
                at, bad = [], None
                for t in s.trace:
                    if t[0] == "call":
                        a = [m.ev(x) for x in t[2]]
                        if m.ev(t[1]) != ("flush", 0) and m.ev(t[1]) is not None: bad = "something other than the flush callback is called"
                        elif a[:1] + a[1:2] != [("data", 0), ("start", 0)] and None not in a: bad = "the flush callback is called with (%s) instead of the data pointer and the start of the buffer" % a
                        elif isinstance(a[2], int) and a[2] != size: bad = "the flush callback is called with %d of %d elements" % (a[2], size)
                        elif a[2] == 0: bad = "the flush callback is called with zero elements"
                        elif None in a: ok = False
                    else:
                        p, val = m.ev(t[1]), m.ev(t[3])
                        if p is None:
                            ok = False
                        elif p == (("arg", 0), lay["size"]):
                            pass
                        elif p[0] == "start":
                            at.append(p[1])
                            if not 0 <= p[1] or p[1] + t[2] > cap * width:
                                bad = "it writes at byte %d of a buffer of %d elements" % (p[1], cap)
                want_calls = int(size != 0) if not adds else int(size == cap)
                want_fill = 0 if not adds else 1 if size == cap else size + 1
                end = m.ev(flow_field(s, lay["size"]))
                base = 0 if size == cap else size
                if not bad and len(calls) != want_calls: bad = "the flush callback is called %d times instead of %d" % (len(calls), want_calls)
                if not bad and end is not None and end != want_fill: bad = "the number of elements becomes %s instead of %s" % (end, want_fill)
                if not bad and adds and at and min(at) != base * width: bad = "the element is written at position %d instead of %d" % (min(at) // width, base)
                if bad:
                    rep.violate("Non_Owning_Buffer:%s" % name[3:], "Non_Owning_Buffer %s with %d of %d elements: %s" % (name[3:], size, cap, bad))
                done += 1
        if not ok:
            rep.note("%s: some path is not evaluated" % name)
    return done, lay

def self_target(fl, s, i):
    t = i.get("target")
    return fl.val(s, t) if t is not None else ("v", "?")

def flow_field(s, o):
    return capi.flow_load(s, o, 8)

def entries(rep, lay):
    """The buffers the entry points write to are made of the caller's fields."""
    if not lay:
        return 0
    api = capi.Api()
    found = set()
    sets = {"text": {"start": "text_buffer", "capacity": "text_buffer_length", "data": "flush_text_data", "flush": "flush_text"},
            "token": {"start": "token_buffer", "capacity": "token_buffer_length", "data": "flush_tokens_data", "flush": "flush_tokens"}}
    init = {("init", ("arg", 0)) + api.fields[n]: n for n in api.fields}
    for fn in ("ulight_source_to_tokens", "ulight_source_to_html"):
        bad = set()
        def on_call(fl, s, i, callee, args):
            for r in list(s.mem):
                if r[0] != "alloca":
                    continue
                vals = {o: v for o, z, v in s.mem[r] if z == 8}
                for o, v in vals.items():
                    for kind, names in sets.items():
                        if init.get(v) != names["start"]:
                            continue
                        b = o - lay["start"]
                        got = {n: vals.get(b + lay[n]) for n in ("capacity", "data", "flush")}
                        if any(x is None for x in got.values()):
                            continue
                        known = [init.get(x, "?") if not isinstance(x, int) else x for x in got.values()]
                        if "?" in known:
                            continue
                        # a record of pointers that is not a buffer has none of the other fields
                        if not any(init.get(got[n]) == names[n] for n in got):
                            continue
                        found.add((fn, kind))
                        for n in got:
                            w = init.get(got[n], got[n])
                            if w != names[n]:
                                bad.add((kind, n, str(w), capi.where(fl.fn, i)))
            return None
        api.run(fn, {}, on_call=on_call)
        for kind, n, w, at in bad:
            rep.violate("%s:%s-%s" % (fn, kind, n), "%s (%s): the %s of the buffer over %s is taken from %s instead of %s" % (fn, at, n, sets[kind]["start"], w, sets[kind][n]))
    for fn, kind in (("ulight_source_to_tokens", "token"), ("ulight_source_to_html", "text")):
        if (fn, kind) not in found:
            rep.note("%s: no buffer over the %s buffer recognised" % (fn, kind))
    return len(found)

def check(rep):
    rep.count("witnesses of the buffer decided", witnesses(rep), 0)
    res = basewit.run_witnesses(basewit.emit_jobs("c13"))
    rep.count("witnesses of the emitters decided", basewit.judge(rep, res, (0, 1, 2)), 0)
    n, lay = operations(rep)
    rep.count("path and fill combinations of the operations", n, 0)
    rep.count("buffers made by the entry points", entries(rep, lay), 0)
    rep.assume("the operations on several elements are decided for capacities up to 3 (5 in the thorough tier) by witnesses; they do not look at the elements, so larger capacities behave alike")

main("C13", RULE, check)
