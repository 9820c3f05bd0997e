#!/usr/bin/env python3
"""C12: the C++ state wrapper reads and writes exactly the matching C fields. Dataflow over the optimised IR of one call of each
operation of the wrapper."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vp import *
import flow, iface, capi

RULE = ("For each operation of ulight::State and each forwarding function of the C++ header a wrapper that calls it once is compiled and its optimised IR is "
        "followed on every path: a setter must leave its arguments in exactly the fields it is named after and every other field as it was, a getter must "
        "return exactly those fields and change none, an operation must hand the wrapped state (or its arguments, in order) to the C function of its name "
        "once and return its result. Wrapped enumerations are paired with the C ones by name and value.")
HEAD = """#include "ulight/ulight.hpp"
#include <cstddef>
using namespace ulight;
extern "C" void vp_missing();
#define HAS(...) if constexpr (requires { __VA_ARGS__; }) __VA_ARGS__; else vp_missing();
template <typename S> struct W {
%s
};
extern "C" {
%s
}
"""
SV = ("std::string_view", "const char", "data", "size")
U8 = ("std::u8string_view", "const char8_t", "data", "size")
SPT = ("std::span<Token>", "Token", "data", "size")
SPC = ("std::span<char>", "char", "data", "size")
SPU = ("std::span<char8_t>", "char8_t", "data", "size")
SETTERS = [("set_source", SV, "source"), ("set_source", U8, "source"), ("set_token_buffer", SPT, "token_buffer"),
           ("set_html_tag_name", SV, "html_tag_name"), ("set_html_attr_name", SV, "html_attr_name"), ("set_text_buffer", SPC, "text_buffer")]
GETTERS = [("get_source", SV, "source"), ("get_u8source", U8, "source"), ("get_token_buffer", SPT, "token_buffer"), ("get_text_buffer", SPC, "text_buffer"),
           ("get_text_u8buffer", SPU, "text_buffer"), ("get_text_buffer_string", SV, "text_buffer"), ("get_text_buffer_u8string", U8, "text_buffer"),
           ("get_error_string", SV, "error"), ("get_error_u8string", U8, "error")]
SCALARS = [("set_lang", "ulight_lang", "lang"), ("set_lang", "Lang", "lang"), ("set_flags", "ulight_flag", "flags"), ("set_flags", "Flag", "flags")]
SGET = [("get_lang", "Lang", "lang"), ("get_flags", "Flag", "flags")]
OPS = [("source_to_tokens", "ulight_source_to_tokens"), ("source_to_html", "ulight_source_to_html")]
VIEW = [("get_lang", "Lang", SV, "ulight_get_lang"), ("get_lang", "Lang", U8, "ulight_get_lang_u8"),
        ("lang_from_path", "Lang", SV, "ulight_lang_from_path"), ("lang_from_path", "Lang", U8, "ulight_lang_from_path_u8")]
TEXT = [("lang_display_name", "Lang", SV, "ulight_lang_display_name"), ("lang_display_name_u8", "Lang", U8, "ulight_lang_display_name_u8"),
        ("highlight_type_long_string", "Highlight_Type", SV, "ulight_highlight_type_long_string"),
        ("highlight_type_short_string", "Highlight_Type", SV, "ulight_highlight_type_short_string"),
        ("highlight_type_id", "Highlight_Type", SV, "ulight_highlight_type_id")]
# the twins may forward to one another: these pairs answer alike (decided by C10 and C11)
TWIN = {"ulight_highlight_type_id": "ulight_highlight_type_short_string"}

def twins(n):
    b = re.sub(r"_u8$", "", n)
    b = TWIN.get(b, b)
    return b

def wrappers():
    t, w, jobs = [], [], {}
    def job(kind, name, tmpl, sig, call, extra):
        k = "vp_%d" % len(jobs)
        t.append("  static void %s(%s) { %s }" % (k, sig, tmpl))
        w.append("void %s(%s) { W<State>::%s(%s); }" % (k, sig.replace("S*", "State*").replace("S const*", "State const*"), k, call))
        jobs[k] = (kind, name) + extra
    for n, (ty, el, _, _), f in SETTERS:
        job("set", "%s(%s)" % (n, ty), "HAS(s->%s(%s(p, n)))" % (n, ty), "S* s, %s* p, size_t n" % el, "s, p, n", (f,))
    for n, ty, f in SCALARS:
        job("sets", "%s(%s)" % (n, ty), "HAS(s->%s(v))" % n, "S* s, %s v" % ty, "s, v", (f,))
    for n, (ty, el, _, _), f in GETTERS:
        job("get", n, "if constexpr (requires { %s(s->%s()); }) { const %s v = s->%s(); *p = v.data(); *n = v.size(); } else vp_missing();" % (ty, n, ty, n),
            "S const* s, %s** p, size_t* n" % el, "s, p, n", (f,))
    for n, ty, f in SGET:
        job("gets", n, "if constexpr (requires { s->%s(); }) *v = s->%s(); else vp_missing();" % (n, n), "S const* s, %s* v" % ty, "s, v", (f,))
    for n, c in OPS:
        job("op", n, "if constexpr (requires { s->%s(); }) *v = s->%s(); else vp_missing();" % (n, n), "S* s, Status* v", "s, v", (c,))
    for n, f, a in (("on_flush_tokens", "flush_tokens", "Token*"), ("on_flush_text", "flush_text", "char*")):
        job("cb", n + "(Function_Ref)", "*i = r->get_invoker(); *e = r->get_entity(); HAS(s->%s(*r))" % n,
            "S* s, const Function_Ref<void(%s, size_t)>* r, void (**i)(const void*, %s, size_t), const void** e" % (a, a), "s, r, i, e", (f,))
    job("cb2", "on_flush_text(data, action)", "HAS(s->on_flush_text(d, a))", "S* s, const void* d, void (*a)(const void*, char*, size_t)", "s, d, a", ("flush_text",))
    # construction
    t.append("  static void vp_ctor(void* s) { ::new (s) S; }")
    w.append("void vp_ctor(void* s) { W<State>::vp_ctor(s); }")
    jobs["vp_ctor"] = ("ctor", "State()")
    # free functions
    for n, r, (ty, el, _, _), c in VIEW:
        k = "vp_%d" % len(jobs)
        w.append("void %s(%s* p, size_t n, %s* r) { *r = %s(%s(p, n)); }" % (k, el, r, n, ty)); jobs[k] = ("view", "%s(%s)" % (n, ty), c)
    for n, a, (ty, el, _, _), c in TEXT:
        k = "vp_%d" % len(jobs)
        w.append("void %s(%s v, %s** p, size_t* n) { const %s r = %s(v); *p = r.data(); *n = r.size(); }" % (k, a, el, ty, n)); jobs[k] = ("text", n, c)
    # what a callback reference calls
    for a in ("Token*", "char*"):
        k = "vp_%d" % len(jobs)
        w.append("void %s(void (*f)(%s, size_t), %s p, size_t n) { Function_Ref<void(%s, size_t)> r = f; r.get_invoker()(r.get_entity(), p, n); }" % (k, a, a, a))
        jobs[k] = ("fref", "Function_Ref<void(%s, size_t)> of a function pointer" % a)
        k = "vp_%d" % len(jobs)
        w.append("struct L%s { int x; void operator()(%s, size_t); }; void %s(L%s* f, %s p, size_t n) { Function_Ref<void(%s, size_t)> r = *f; r.get_invoker()(r.get_entity(), p, n); }" % (k, a, k, k, a, a))
        jobs[k] = ("fref", "Function_Ref<void(%s, size_t)> of a callable object" % a)
    return HEAD % ("\n".join(t), "\n".join(w)), jobs

def vague(v):
    """Whether the analysis lost track of the value."""
    if isinstance(v, tuple):
        if v and v[0] in ("v", "mix", "load", "undef", "const", "minmax", "copy"):
            return True
        return any(vague(x) for x in v if isinstance(x, tuple))
    return False

def strip(v):
    """Without widening and narrowing: the enumerations have different widths, and their values were compared above."""
    while isinstance(v, tuple) and v[0] == "cast":
        v = v[3]
    return v

def first(s, root):
    for o, z, v in s.mem.get(root, ()):
        if o == 0:
            return v
    return ("init", root, 0, 1)

def check(rep):
    facts = ast_facts()
    enums = iface.merged_enums(facts)
    npairs = 0
    for c, pre, x in (("ulight_status", "ULIGHT_STATUS_", "ulight::Status"), ("ulight_lang", "ULIGHT_LANG_", "ulight::Lang"),
                      ("ulight_highlight_type", "ULIGHT_HL_", "ulight::Highlight_Type")):
        if c in enums and x in enums:
            c2 = dict(enums[c]); c2["values"] = [v for v in enums[c]["values"] if v[0] != "ULIGHT_LANG_COUNT"]
            npairs += len(iface.pair_enums(rep, {**enums, c: c2}, c, pre, x))
        else:
            rep.note("no enumerations %s, %s" % (c, x))
    if "ulight_flag" in enums and "ulight::Flag" in enums:
        e = dict(enums["ulight_flag"]); e["values"] = [["ULIGHT_FLAG_" + re.sub(r"^ULIGHT_", "", n), v] for n, v in e["values"]]
        npairs += len(iface.pair_enums(rep, {**enums, "ulight_flag": e}, "ulight_flag", "ULIGHT_FLAG_", "ulight::Flag"))
    rep.count("enumeration constants paired", npairs, 20)
    fields, size = capi.layout(facts)
    text, jobs = wrappers()
    d = ir_dump_text("C12", text, O2S)
    S = ("arg", 0)
    done = ncalls = 0
    for k, j in sorted(jobs.items()):
        kind, name = j[:2]
        f = d["functions"].get(k)
        if f is None or f["decl"]:
            rep.note("no code for " + name); continue
        calls = []
        def on_call(fl, s, i, callee, args, calls=calls):
            t = callee or ("indirect", fl.val(s, i.get("target")))
            calls.append((t, tuple(strip(a) for a in args)))
            s.env[i["id"]] = ("result", t)
            return [s]
        fl = flow.Flow(f, d["globals"], on_call=on_call)
        fl.run(flow.State())
        if any(c[0] == "vp_missing" for c in calls):
            rep.violate("missing:" + name, "ulight::State has no operation %s" % name); continue
        if not fl.returns or fl.incomplete:
            rep.note("%s could not be followed" % name); continue
        bad = lambda what, text: rep.violate("%s:%s" % (name, what), "include/ulight/ulight.hpp: %s %s" % (name, text))
        def expect(what, v, w, text):
            if v == w or strip(v) == w:
                return
            if isinstance(strip(v), tuple) and isinstance(w, tuple) and strip(v)[0] == "init" == w[0] and strip(v)[1:3] == w[1:3]:
                return
            if vague(v):
                rep.note("%s: %s not decided (%r)" % (name, what, v))
            else:
                bad(what, text + " [%r]" % (v,))
        for s, val, inst in fl.returns:
            done += 1
            writes = {o: (z, v) for o, z, v in s.mem.get(S, ()) if v != ("init", S, o, z)} if kind in ("set", "sets", "get", "gets", "op", "cb", "cb2") else {}
            own = {}
            if kind in ("set", "sets"):
                own = {j[2]: ("ptr", ("arg", 1), 0) if kind == "set" else ("arg", 1)}
                if kind == "set": own[j[2] + "_length"] = ("arg", 2)
            elif kind == "cb":
                e = capi.flow_load(s, 0, 8, ("arg", 2)); g = capi.flow_load(s, 0, 8, ("arg", 3))
                own = {j[2]: e, j[2] + "_data": g}
            elif kind == "cb2":
                own = {j[2]: ("ptr", ("arg", 2), 0), j[2] + "_data": ("ptr", ("arg", 1), 0)}
            if s.epoch.get(S, 0) and kind != "op":
                rep.note("%s hands the state elsewhere" % name); continue
            for n, w in own.items():
                if n not in fields:
                    rep.note("no field " + n); continue
                o, z = fields[n]
                v = capi.flow_load(s, o, z)
                if v == ("init", S, o, z):
                    bad(n, "does not set %s" % n)
                else:
                    expect(n, v, w, "stores something other than its argument in %s" % n)
            for n, (o, z) in fields.items():
                if n in own: continue
                for a, (b, v) in writes.items():
                    if a < o + z and o < a + b:
                        bad(n, "changes %s" % n)
            if kind in ("get", "gets", "op", "set", "sets", "cb", "cb2"):
                if kind != "op":
                    for c in calls:
                        rep.note("%s calls %s" % (name, c[0]))
            if kind == "get":
                o, z = fields[j[2]]; o2, z2 = fields[j[2] + "_length"]
                expect("data", capi.flow_load(s, 0, 8, ("arg", 1)), ("init", S, o, z), "does not return %s" % j[2])
                expect("length", capi.flow_load(s, 0, 8, ("arg", 2)), ("init", S, o2, z2), "does not return %s_length" % j[2])
            if kind == "gets":
                o, z = fields[j[2]]
                expect("value", first(s, ("arg", 1)), ("init", S, o, z), "does not return %s" % j[2])
        ncalls += len(calls)
        if kind in ("op", "view", "text", "ctor", "fref"):
            want = {"op": lambda: j[2], "view": lambda: j[2], "text": lambda: j[2], "ctor": lambda: "ulight_init", "fref": lambda: None}[kind]()
            if kind == "fref":
                ok = [c for c in calls if (isinstance(c[0], tuple) and c[0][1] == ("ptr", ("arg", 0), 0) and c[1] == (("ptr", ("arg", 1), 0), ("arg", 2)))
                      or (isinstance(c[0], str) and c[1] == (("ptr", ("arg", 0), 0), ("ptr", ("arg", 1), 0), ("arg", 2)))]
                if not any(vague(x) for c in calls for x in list(c[1]) + [c[0]]) and (len(ok) != 1 or len(calls) != 1):
                    rep.violate("%s:call" % name, "include/ulight/function_ref.hpp: calling a %s does not call it once with the arguments given" % name)
                elif len(ok) != 1:
                    rep.note("%s not decided" % name)
                continue
            hit = [c for c in calls if isinstance(c[0], str) and twins(c[0]) == twins(want)]
            other = [c for c in calls if c not in hit]
            for c in other:
                if isinstance(c[0], str) and c[0].startswith("ulight_"):
                    bad("call", "calls %s rather than %s" % (c[0], want))
            if len(hit) != 1:
                if not other or len(hit) > 1:
                    bad("call", "calls %s %d times" % (want, len(hit)))
                continue
            a = hit[0][1]
            exp = {"op": (("ptr", S, 0),), "ctor": (("ptr", S, 0),), "view": (("ptr", S, 0), ("arg", 1)), "text": (("arg", 0),)}[kind]
            if kind == "text" and len(a) == 2:      # result through memory
                a = a[1:]
            for p, q in zip(a, exp):
                expect("argument", p, q, "does not hand its argument on to %s" % want)
            for s, val, inst in fl.returns:
                r = ("result", hit[0][0])
                if kind == "op":
                    expect("result", first(s, ("arg", 1)), r, "does not return the status of %s" % want)
                if kind == "view":
                    expect("result", first(s, ("arg", 2)), r, "does not return the answer of %s" % want)
                if kind == "text":
                    p, n = capi.flow_load(s, 0, 8, ("arg", 1)), capi.flow_load(s, 0, 8, ("arg", 2))
                    expect("text", p, ("ext", r, 0), "does not return the text of %s" % want)
                    expect("length", n, ("ext", r, 1), "does not return the length of %s" % want)
                if kind == "ctor" and any(v[2] != ("init", S, v[0], v[1]) for v in s.mem.get(S, ())):
                    bad("write", "changes the state besides initialising it")
    rep.count("operations of the wrapper followed", len(jobs), 30)
    rep.count("paths through them", done, 30)
    rep.count("calls checked", ncalls, 10)
    # operations this rule does not know
    known = {j[1].split("(")[0] for j in jobs.values()}
    hdr = open(os.path.join(REPO, "include/ulight/ulight.hpp"), encoding="utf-8").read()
    for m in sorted(set(re.findall(r"\b((?:[gs]et|on|source_to)_\w+)\(", hdr))):
        if m not in known and not m.startswith("on_") :
            rep.note("operation %s is not covered" % m)

main("C12", RULE, check)
