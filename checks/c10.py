"""C10: language lookup finds every registered name, and char8_t twins agree.
Constant witnesses over the whole registry: every registered name, the gaps between names, paths made of them, documented names.
IR: each char8_t function is either the same code as its counterpart or hands its own parameters to it."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *
from overlay import overlay, overlay_flags
from witness import run_witnesses
import iface, capi, flow

W = '''#include "ulight.cpp"
using vpsv = std::string_view;
constexpr vpsv nm(std::size_t i) { return { ulight_lang_list[i].name, ulight_lang_list[i].name_length }; }
constexpr ulight_lang want(vpsv s) { for (std::size_t i = 0; i < ulight_lang_list_length; ++i) if (nm(i) == s) return ulight_lang_list[i].lang; return ULIGHT_LANG_NONE; }
constexpr ulight_lang get(vpsv s) { return ulight_get_lang(s.data(), s.size()); }
constexpr ulight_lang path(vpsv s) { return ulight_lang_from_path(s.data(), s.size()); }
constexpr ulight_lang wpath(vpsv s) { std::size_t d = s.size(); while (d > 0 && s[d - 1] != '.') --d; return d == 0 ? ULIGHT_LANG_NONE : want(s.substr(d)); }
struct Buf { char b[80] {}; std::size_t n = 0; constexpr Buf& add(vpsv s) { for (char c : s) b[n++] = c; return *this; } constexpr Buf& ch(char c) { b[n++] = c; return *this; } constexpr operator vpsv() const { return { b, n }; } };
constexpr std::size_t N = ulight_lang_list_length;
'''
LOOP = "for (std::size_t i = 0; i < N; ++i) { const vpsv s = nm(i); if (s.size() > 40) continue; %s } return -1;"
CASES = {
    "every registered name gives its language": LOOP % "if (get(s) != ulight_lang_list[i].lang) return int(i);",
    "no name is registered twice": LOOP % "for (std::size_t j = 0; j < i; ++j) if (nm(j) == s) return int(i);",
    "names are recorded with their length": LOOP % "std::size_t n = 0; while (ulight_lang_list[i].name[n]) ++n; if (n != s.size() || n == 0) return int(i);",
    "names are lower-case ASCII": LOOP % "for (char c : s) if (c <= ' ' || c > '~' || (c >= 'A' && c <= 'Z')) return int(i);",
    "the registry is ordered by name": "for (std::size_t i = 1; i < N; ++i) if (!(nm(i - 1) < nm(i))) return int(i); return -1;",
    "proper prefixes of names are looked up exactly": LOOP % "for (std::size_t k = 0; k < s.size(); ++k) if (get(s.substr(0, k)) != want(s.substr(0, k))) return int(i);",
    "proper suffixes of names are looked up exactly": LOOP % "for (std::size_t k = 1; k <= s.size(); ++k) if (get(s.substr(k)) != want(s.substr(k))) return int(i);",
    "a character appended to a name": LOOP % "for (int c = 1; c < 128; c += (c < 33 || c > 121) ? 1 : 4) { Buf b; b.add(s).ch(char(c)); if (get(b) != want(b)) return int(i); } Buf z; z.add(s).ch(char(0)); if (get(z) != want(z)) return int(i); Buf h; h.add(s).ch(char(-1)); if (get(h) != want(h)) return int(i);",
    "a character changed in a name": LOOP % "for (std::size_t k = 0; k < s.size(); ++k) for (int d : { -32, -1, 1, -128 }) { Buf b; b.add(s); b.b[k] = char(b.b[k] + d); if (get(b) != want(b)) return int(i); }",
    "a character dropped from a name": LOOP % "for (std::size_t k = 0; k < s.size(); ++k) { Buf b; b.add(s.substr(0, k)).add(s.substr(k + 1)); if (get(b) != want(b)) return int(i); }",
    "only the given length of the name counts": LOOP % "Buf b; b.add(s).add(\"zzz\"); if (ulight_get_lang(b.b, s.size()) != ulight_lang_list[i].lang) return int(i);",
    "the empty name": "return get(vpsv(\"\", 0)) == want(vpsv()) && get(vpsv(\"x\", 0)) == want(vpsv()) && get(vpsv()) == want(vpsv()) ? -1 : 0;",
    "the text after the last dot of a path": LOOP % "for (vpsv pre : { vpsv(\".\"), vpsv(\"x.\"), vpsv(\"a.b.\"), vpsv(\"dir.cpp/f.\"), vpsv(\"/\"), vpsv(\"\"), vpsv(\"..\"), vpsv(\"a\\\\b.\") }) { Buf b; b.add(pre).add(s); if (path(b) != wpath(b)) return int(i); }",
    "what follows the extension of a path": LOOP % "for (vpsv post : { vpsv(\".\"), vpsv(\".x\"), vpsv(\"/\"), vpsv(\"/f\"), vpsv(\" \"), vpsv(\".bak\"), vpsv(\".h\") }) { Buf b; b.add(\"x.\").add(s).add(post); if (path(b) != wpath(b)) return int(i); }",
    "only the given length of the path counts": LOOP % "Buf b; b.add(\"x.\").add(s).add(\".txt\"); if (ulight_lang_from_path(b.b, 2 + s.size()) != ulight_lang_list[i].lang) return int(i); if (ulight_lang_from_path(b.b, 1) != want(vpsv()) ) return int(i);",
    "the empty path and paths of dots": "return path(vpsv()) == ULIGHT_LANG_NONE && path(\".\") == ULIGHT_LANG_NONE && path(\"..\") == ULIGHT_LANG_NONE && path(\"cpp\") == ULIGHT_LANG_NONE && path(\"c\") == ULIGHT_LANG_NONE ? -1 : 0;",
}

def normal(f):
    """The instructions of a function without names that differ between equal functions."""
    return [(b["id"], [{k: v for k, v in i.items() if k not in ("line", "file", "fn", "inl")} for i in b["insts"]]) for b in f["blocks"]]

def forwards(rep, d, n, twin, base):
    """'same', 'forwards', 'unknown', or a text that describes a definite disagreement."""
    f, g = d["functions"].get(twin), d["functions"].get(base)
    if f and g and not f["decl"] and not g["decl"] and normal(f) == normal(g):
        return "same"
    f, g = n["functions"].get(twin), n["functions"].get(base)
    if not f or not g or f["decl"] or g["decl"]:
        return "unknown"
    if normal(f) == normal(g):
        return "same"
    calls = [i for b in f["blocks"] for i in b["insts"] if i["op"] in ("call", "invoke") and not (i.get("callee") or "").startswith("llvm.")]
    same = lambda x, y: x == y or x.replace("_u8", "") == y.replace("_u8", "")
    api = [i for i in calls if (i.get("callee") or "").startswith("ulight_") or "6ulight" in (i.get("callee") or "")]
    api = [i for i in api if not re.search(r"basic_string_view|assert", i["callee"])]
    if len(api) != 1 or len(f["blocks"]) != 1:
        return "unknown"
    c = api[0]
    if c["callee"] != base:
        h = [i.get("callee") or "" for b in g["blocks"] for i in b["insts"] if i["op"] in ("call", "invoke")]
        if c["callee"] in h:
            x = next(i for b in g["blocks"] for i in b["insts"] if i.get("callee") == c["callee"])
            if len(g["blocks"]) == 1 and x.get("ops") == [a["id"] for a in g["args"]] and c.get("ops") != [a["id"] for a in f["args"]]:
                return "%s: %s hands other arguments to its helper than its own parameters in order" % (capi.where(f, c), twin)
            if x.get("ops") != [a["id"] for a in g["args"]] and c.get("ops") == [a["id"] for a in f["args"]]:
                return "%s: %s hands its parameters straight to %s, and %s does not" % (capi.where(f, c), twin, c["callee"], base)
            return "forwards" if x.get("ops") == [a["id"] for a in g["args"]] and c.get("ops") == [a["id"] for a in f["args"]] else "unknown"
        if c["callee"].startswith("ulight_") and base not in h:
            return "%s: %s calls %s, not %s" % (capi.where(f, c), twin, c["callee"], base)
        return "unknown"
    if c.get("ops") != [a["id"] for a in f["args"]]:
        return "%s: %s hands %s other arguments than its own parameters in order" % (capi.where(f, c), twin, base)
    fl = flow.Flow(f, n["globals"]).run()
    if len(fl.returns) != 1:
        return "unknown"
    v, me = fl.returns[0][1], ("v", c["id"])
    if v == me or v == ("agg", ("ext", me, 0), ("ext", me, 1)):
        return "forwards"
    if isinstance(v, int) or (isinstance(v, tuple) and v[0] == "agg" and all(isinstance(x, int) or x in (("ext", me, 0), ("ext", me, 1)) for x in v[1:])):
        return "%s: %s does not return what %s returned" % (capi.where(f, c), twin, base)
    return "unknown"

def check(rep):
    facts = ast_facts()
    fl = overlay_flags(overlay()) + ["-Wno-enum-constexpr-conversion"]
    jobs, what = [], {}
    for k, b in CASES.items():
        jobs.append(("c10 " + k, W + "constexpr int vp() { %s }\nstatic_assert(vp() == -1);\n" % b, 60_000_000, fl))
        names = next((v["value"] for d in facts.values() for v in d["vars"] if v["name"].endswith("ulight_lang_list") and v.get("value")), [])
        def why(n, names=names):
            return "fails for the registered name %s" % (repr(names[n].get("name", {}).get("s", n)) if 0 <= n < len(names) and isinstance(names[n], dict) and isinstance(names[n].get("name"), dict) else "no. %d" % n)
        what["c10 " + k] = (k, why)
    doc = iface.readme_names()
    if doc:
        rows = ", ".join("{ %s, int(%s) }" % (iface.cstr(n), c) for n, c in doc)
        b = "constexpr struct { const char* n; int l; } rows[] { %s }; for (int i = 0; i < %d; ++i) if (get(rows[i].n) != rows[i].l) return i; return -1;" % (rows, len(doc))
        jobs.append(("c10 documented names", W + "constexpr int vp() { %s }\nstatic_assert(vp() == -1);\n" % b, 40_000_000, fl))
        what["c10 documented names"] = ("documented names find their documented language", lambda n: "'%s' does not give %s" % doc[n])
    rep.count("lookup witnesses that hold over the whole registry", iface.judge(rep, run_witnesses(jobs), what), 0)

    d = ir_dump("O2S", O2S, "^ulight_|__clang_call_terminate")
    n1 = ir_dump("O1N", O1N, "^ulight_|highlight_type")
    n = 0
    for twin in sorted(x for x in d["functions"] if x.endswith("_u8") and not d["functions"][x]["decl"]):
        base = twin[:-3]
        r = forwards(rep, d, n1, twin, base)
        if r in ("same", "forwards"):
            n += 1; rep.sample("%s: %s" % (twin, r))
        elif r == "unknown":
            rep.note("%s is neither the same code as %s nor a plain forward" % (twin, base))
        else:
            rep.violate("twin:" + twin, r)
    rep.count("char8_t functions shown equal to their counterparts", n, 0)
    wrappers(rep)

WRAP = {  # name: (declaration, body, C function)
    "get_lang(std::string_view)": ("int vp_w0(const char* p, std::size_t n)", "return int(ulight::get_lang(std::string_view(p, n)));", "int vp_c0(const char* p, std::size_t n)", "return int(ulight::Lang(ulight_get_lang(p, n)));"),
    "get_lang(std::u8string_view)": ("int vp_w1(const char8_t* p, std::size_t n)", "return int(ulight::get_lang(std::u8string_view(p, n)));", "int vp_c1(const char8_t* p, std::size_t n)", "return int(ulight::Lang(ulight_get_lang_u8(p, n)));"),
    "lang_from_path(std::string_view)": ("int vp_w2(const char* p, std::size_t n)", "return int(ulight::lang_from_path(std::string_view(p, n)));", "int vp_c2(const char* p, std::size_t n)", "return int(ulight::Lang(ulight_lang_from_path(p, n)));"),
    "lang_from_path(std::u8string_view)": ("int vp_w3(const char8_t* p, std::size_t n)", "return int(ulight::lang_from_path(std::u8string_view(p, n)));", "int vp_c3(const char8_t* p, std::size_t n)", "return int(ulight::Lang(ulight_lang_from_path_u8(p, n)));"),
    "lang_display_name": ("std::string_view vp_w4(int l)", "return ulight::lang_display_name(ulight::Lang(l));", "std::string_view vp_c4(int l)", "const auto r = ulight_lang_display_name(ulight_lang(ulight::Lang(l))); return { r.text, r.length };"),
    "lang_display_name_u8": ("std::u8string_view vp_w5(int l)", "return ulight::lang_display_name_u8(ulight::Lang(l));", "std::u8string_view vp_c5(int l)", "const auto r = ulight_lang_display_name_u8(ulight_lang(ulight::Lang(l))); return { r.text, r.length };"),
}

def wrappers(rep):
    """The inline C++ wrappers compile to the same code as direct calls of the C function."""
    import json
    src = os.path.join(BUILD, "wit", "c10_wrap.cpp")
    open(src, "w").write('#include "ulight/ulight.hpp"\n' + "".join("%s { %s }\n%s { %s }\n" % w for w in WRAP.values()))
    r = run([CLANGXX] + CXXFLAGS + ["-O2", "-emit-llvm", "-c", src, "-o", src[:-4] + ".bc"])
    if r.returncode:
        rep.note("the wrapper witness does not compile: " + r.stderr[-300:]); return
    d = json.loads(run([tool("irdump"), src[:-4] + ".bc", "vp_"]).stdout)["functions"]
    n = 0
    for k, w in WRAP.items():
        a = next(f for f in d.values() if f["demangled"].startswith(re.search(r"vp_w\d", w[0]).group(0) + "("))
        b = next(f for f in d.values() if f["demangled"].startswith(re.search(r"vp_c\d", w[2]).group(0) + "("))
        if normal(a) == normal(b):
            n += 1; continue
        ca = [i for x in a["blocks"] for i in x["insts"] if i["op"] == "call" and not i["callee"].startswith("llvm.")]
        cb = [i for x in b["blocks"] for i in x["insts"] if i["op"] == "call" and not i["callee"].startswith("llvm.")]
        api = [i["callee"] for i in ca]
        if not api:
            rep.violate("wrapper:" + k, "ulight.hpp: %s does not call %s" % (k, cb[0]["callee"]))
        elif cb[0]["callee"] not in api and cb[0]["callee"].removesuffix("_u8") not in [x.removesuffix("_u8") for x in api]:
            rep.violate("wrapper:" + k, "ulight.hpp: %s calls %s, not %s" % (k, ", ".join(api), cb[0]["callee"]))
        elif len(a["blocks"]) == 1 and len(ca) == 1 and ca[0]["callee"] == cb[0]["callee"] and ca[0]["ops"] != cb[0]["ops"]:
            rep.violate("wrapper:" + k, "ulight.hpp: %s hands %s other arguments than its own" % (k, api[0]))
        elif len(a["blocks"]) == 1 and [i["op"] for i in a["blocks"][0]["insts"]] == [i["op"] for i in b["blocks"][0]["insts"]]:
            rep.violate("wrapper:" + k, "ulight.hpp: %s does not return what %s returned" % (k, cb[0]["callee"]))
        else:
            rep.note("%s is not the same code as a direct call of %s" % (k, cb[0]["callee"]))
    rep.count("C++ wrappers shown equal to a direct call", n, 0)

if __name__ == "__main__":
    main("C10", "constant witnesses evaluate the lookup functions over every registered name, every one-character edit, prefix and suffix of it, and paths made of it, against a linear search of the registry; char8_t functions are compared with their counterparts in the optimised IR, and the C++ wrappers with direct calls", check)
