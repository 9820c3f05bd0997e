"""C09: every declared language is dispatchable, named and reachable by name.
AST: the C and C++ enumerations agree. Compiled witness: highlight() with the language fixed to each value calls that language's own
highlighter and no other. Constant witness: display names and the registry cover every language, values outside the range give empty
results. Dataflow on the IR of ulight_source_to_tokens: with the language field fixed to any value out of range, every return is the
bad-language status or an earlier rejection and no highlighter is called."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *
from overlay import overlay, overlay_flags
from witness import run_witnesses
import iface, capi

DISP = '''#include "ulight/impl/highlight.hpp"
namespace ulight {
%s
}
'''
SIG = "(Non_Owning_Buffer<Token>& o, std::u8string_view s, std::pmr::memory_resource* m, const Highlight_Options& p)"

def compiled(name, text):
    os.makedirs(os.path.join(BUILD, "wit"), exist_ok=True)
    src = os.path.join(BUILD, "wit", name + ".cpp")
    open(src, "w").write(text)
    bc = src[:-4] + ".bc"
    r = run([CLANGXX] + CXXFLAGS + ["-Wno-enum-constexpr-conversion", "-O2", "-g", "-emit-llvm", "-c", src, "-o", bc])
    if r.returncode:
        return None, r.stderr
    r = run([tool("irdump"), bc, ".*"])
    if r.returncode:
        raise Broken("irdump: " + r.stderr[-500:])
    import json
    return json.loads(r.stdout), ""

def callees(f):
    out = []
    for b in f["blocks"]:
        for i in b["insts"]:
            if i["op"] in ("call", "invoke") and not (i.get("callee") or "").startswith("llvm."):
                out.append(i.get("callee") or "an unknown function")
    return sorted(set(out))

def returns(f):
    """The set of constants a loop-free function can return, or None."""
    vals = {}
    out = set()
    d = {i["id"]: i for b in f["blocks"] for i in b["insts"]}
    def val(v, seen):
        if isinstance(v, int):
            return {v}
        i = d.get(v) if isinstance(v, str) else None
        if not i or v in seen:
            return {None}
        if i["op"] == "select":
            return val(i["ops"][1], seen | {v}) | val(i["ops"][2], seen | {v})
        if i["op"] == "phi":
            r = set()
            for x, _ in i["phi"]:
                r |= val(x, seen | {v})
            return r
        return {None}
    for b in f["blocks"]:
        t = b["insts"][-1]
        if t["op"] == "ret" and t.get("ops"):
            out |= val(t["ops"][0], set())
    return out

def check(rep):
    facts = ast_facts()
    enums = iface.merged_enums(facts)
    c = iface.pair_enums(rep, enums, "ulight_lang", "ULIGHT_LANG_", "ulight::Lang")
    langs = {k[12:].lower(): v for k, v in c.items()}
    cnt = next((dict(e["values"])["ULIGHT_LANG_COUNT"] for d in facts.values() for e in d["enums"] if any(v[0] == "ULIGHT_LANG_COUNT" for v in e["values"])), None)
    top = max(langs.values())
    if langs.get("none") != 0:
        rep.violate("none", "ULIGHT_LANG_NONE is %s" % langs.get("none"))
    if cnt is not None and cnt != top + 1:
        rep.violate("count", "ULIGHT_LANG_COUNT is %d and the largest language constant is %d" % (cnt, top))
    for v in range(top + 1):
        if v not in langs.values():
            rep.violate("gap:%d" % v, "no language has the value %d, which is inside the declared range" % v)
    rep.count("language constants paired with their C++ enumerators", len(langs), 20)

    # dispatch
    real = {k: v for k, v in langs.items() if k != "none"}
    by = {v: k for k, v in langs.items()}
    body = "".join("Status vp_lang_%d%s { return highlight(o, s, Lang(%d), m, p); }\n" % (k, SIG, k) for k in range(256))
    d, err = compiled("c09_dispatch", DISP % body)
    refs, _ = compiled("c09_refs", DISP % "".join("bool vp_ref_%s%s { return highlight_%s(o, s, m, p); }\n" % (k, SIG, k) for k in real))
    missing = []
    if refs is None:        # a language without a highlighter of its name: find out which
        for k in real:
            if compiled("c09_ref1", DISP % ("bool vp_ref_%s%s { return highlight_%s(o, s, m, p); }\n" % (k, SIG, k)))[0] is None:
                missing.append(k)
        refs, _ = compiled("c09_refs", DISP % "".join("bool vp_ref_%s%s { return highlight_%s(o, s, m, p); }\n" % (k, SIG, k) for k in real if k not in missing))
        rep.note("no function highlight_<name> for: " + ", ".join(missing))
    ok = 0
    if d is None:
        rep.note("the dispatch witness does not compile: " + err[-300:])
    else:
        fs = {re.search(r"vp_lang_(\d+)", f["demangled"]).group(1): f for f in d["functions"].values() if "vp_lang_" in f["demangled"]}
        ref = {re.search(r"vp_ref_(\w+)\(", f["demangled"]).group(1): f for f in (refs or {"functions": {}})["functions"].values() if "vp_ref_" in f["demangled"]}
        bad = dict((a, b) for a, b in enums["ulight::Status"]["values"])["bad_lang"]
        used = {}
        for k in range(256):
            f = fs[str(k)]
            cs = callees(f)
            name = by.get(k)
            if name in (None, "none"):
                if cs:
                    rep.violate("dispatch:%d" % k, "highlight() calls %s for the language value %d, which is no language" % (", ".join(cs), k))
                elif returns(f) != {bad} and None not in returns(f):
                    rep.violate("dispatch:%d" % k, "highlight() returns status %s for the language value %d, which is no language" % (sorted(returns(f)), k))
                else:
                    ok += 1
                continue
            if returns(f) == {bad}:
                rep.violate("dispatch:" + name, "highlight() rejects %s (%d): it has no highlighter" % (name, k)); continue
            if name in ref:
                want = callees(ref[name])
                if cs != want:
                    rep.violate("dispatch:" + name, "highlight() calls %s for %s, and highlight_%s is %s" % (", ".join(cs) or "nothing", name, name, ", ".join(want) or "empty"))
                else:
                    ok += 1
            for x in cs:
                used.setdefault(x, []).append(name)
        rep.cover["highlighters"] = {k: v for k, v in sorted(used.items())}
    rep.count("language values whose dispatch is decided", ok, 0)

    # names
    fl = overlay_flags(overlay()) + ["-Wno-enum-constexpr-conversion"]
    W = '#include "ulight.cpp"\n#pragma clang diagnostic ignored "-Wdeprecated-declarations"\nconstexpr std::size_t zlen(const char* p) { std::size_t n = 0; while (p[n]) ++n; return n; }\n' \
        "constexpr char low(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }\nconstexpr int langs[] { %s };\n" % ", ".join(str(v) for v in real.values())
    body = {
        "display names cover every language": "for (int v : langs) { const auto s = ulight_lang_display_name(ulight_lang(v)); if (s.length == 0 || !s.text) return v; } return -1;",
        "display names are null-terminated": "for (int v : langs) { const auto s = ulight_lang_display_name(ulight_lang(v)); if (s.text && (s.text[s.length] != 0 || zlen(s.text) != s.length)) return v; } return -1;",
        "display names are unique": "for (int v : langs) for (int w : langs) { const auto s = ulight_lang_display_name(ulight_lang(v)), t = ulight_lang_display_name(ulight_lang(w)); if (v < w && std::string_view(s.text, s.length) == std::string_view(t.text, t.length)) return w; } return -1;",
        "values that are no language have no display name": "for (int v = 0; v < 1024; ++v) { bool in = false; for (int w : langs) in |= v == w; if (!in && ulight_lang_display_name(ulight_lang(v)).length != 0) return v; } for (int v : { 65535, 65537, 1 << 30, -1, -2147483647 }) if (ulight_lang_display_name(ulight_lang(v)).length != 0) return 2000; return -1;",
        "every language has a lookup name": "for (int v : langs) { bool found = false; for (std::size_t i = 0; i < ulight_lang_list_length; ++i) { const auto& e = ulight_lang_list[i]; found |= e.lang == v && ulight_get_lang(e.name, e.name_length) == v; } if (!found) return v; } return -1;",
        "every registered name belongs to a language": "for (std::size_t i = 0; i < ulight_lang_list_length; ++i) { bool in = false; for (int w : langs) in |= ulight_lang_list[i].lang == w; if (!in) return int(i); } return -1;",
        "the registry's length is its extent": "return ulight_lang_list_length == sizeof(ulight_lang_list) / sizeof(ulight_lang_list[0]) ? -1 : 0;",
        # "javascript" must not be JSON: a display name, folded, that is registered belongs to the language it displays
        "a display name that is registered finds its own language": "for (int v : langs) { const auto s = ulight_lang_display_name(ulight_lang(v)); char b[64] {}; if (s.length > 60) continue; for (std::size_t i = 0; i < s.length; ++i) b[i] = low(s.text[i]); const auto g = ulight_get_lang(b, s.length); if (g != ULIGHT_LANG_NONE && g != v) return v; } return -1;",
    }
    jobs, what = [], {}
    for k, b in body.items():
        jobs.append(("c09 " + k, W + "constexpr int vp() { %s }\nstatic_assert(vp() == -1);\n" % b, 40_000_000, fl))
        what["c09 " + k] = (k, lambda n, k=k: "fails for %s" % (by.get(n, n)))
    for name, v in real.items():
        b = 'const auto g = ulight_get_lang(%s, %d); return g == ULIGHT_LANG_NONE || g == %d ? -1 : int(g);' % (iface.cstr(name), len(name), v)
        k = "the name '%s' finds its language" % name
        jobs.append(("c09 " + k, W + "constexpr int vp() { %s }\nstatic_assert(vp() == -1);\n" % b, 4_000_000, fl))
        what["c09 " + k] = (k, lambda n: "it finds " + by.get(n, str(n)))
    rep.count("witnesses over names and registry that hold", iface.judge(rep, run_witnesses(jobs), what), 0)

    # rejection before work
    a = capi.Api()
    bad = {a.status.get("ULIGHT_STATUS_BAD_LANG"), a.status.get("ULIGHT_STATUS_BAD_STATE"), a.status.get("ULIGHT_STATUS_BAD_BUFFER")}
    decided = 0
    for k in [0] + list(range(top + 1, 300)) + [65535, 65536 + 1, 2 ** 31, 2 ** 31 + 2, 2 ** 32 - 1]:
        calls = []
        def on_call(fl, s, i, callee, args):
            if capi.indirect(i) and len(args) == 5:
                calls.append(i)
            return None
        p = a.valid(); p["lang"] = k
        fl = a.run("ulight_source_to_tokens", p, on_call)
        if fl.incomplete:
            rep.note("paths of ulight_source_to_tokens not all followed for language %d" % k); continue
        if calls:
            rep.violate("range:call", "%s: ulight_source_to_tokens calls a highlighter for the language value %d, which is out of range" % (capi.where(capi.fn(a.d, "ulight_source_to_tokens"), calls[0]), k))
        for s, v, i in fl.returns:
            if isinstance(v, int) and v not in bad:
                rep.violate("range:status", "%s: ulight_source_to_tokens returns %s for the language value %d, which is out of range" % (capi.where(capi.fn(a.d, "ulight_source_to_tokens"), i), a.by_status.get(v, v), k))
        decided += 1
    rep.count("out-of-range language values followed through ulight_source_to_tokens", decided, 0)

if __name__ == "__main__":
    main("C09", "C and C++ language constants pair up; highlight() compiled for each of the 256 values of the language calls exactly that language's highlighter or rejects; display names and registry cover every language and nothing else (constant witnesses); path-sensitive constant propagation through ulight_source_to_tokens shows out-of-range languages are rejected before any highlighter runs", check)
