"""C11: highlight types have unique, complete, markup-safe names everywhere.
AST: the C and C++ enumerations pair up. Constant witnesses: long and short strings over all 256 values. Structural comparison of the
bundled themes and the theme converter with the constant tables."""
import json, os, re, sys, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *
from overlay import overlay, overlay_flags
from witness import run_witnesses
import iface

W = '''#include "ulight/ulight.hpp"
using namespace ulight;
constexpr std::string_view lng(int v) { return highlight_type_long_string(Highlight_Type(v)); }
constexpr std::string_view sht(int v) { return highlight_type_short_string(Highlight_Type(v)); }
constexpr std::u8string_view lng8(int v) { return highlight_type_long_string_u8(Highlight_Type(v)); }
constexpr std::u8string_view sht8(int v) { return highlight_type_short_string_u8(Highlight_Type(v)); }
constexpr bool same(std::string_view a, std::u8string_view b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (char8_t(a[i]) != b[i]) return false; return true; }
'''

def check(rep):
    facts = ast_facts()
    enums = iface.merged_enums(facts)
    c = iface.pair_enums(rep, enums, "ulight_highlight_type", "ULIGHT_HL_", "ulight::Highlight_Type")
    types = {v: k[len("ULIGHT_HL_"):].lower() for k, v in c.items()}
    rep.count("highlight types paired", len(types), 100)
    for v in types:
        if not 0 <= v <= 255:
            rep.violate("range:%d" % v, "%s = %d does not fit the type of a token" % (types[v], v))
    fl = ["-Wno-enum-constexpr-conversion"]
    rows = "constexpr struct { int v; std::string_view n; } rows[] { %s };\n" % ", ".join('{ %d, "%s" }' % (v, "" if k == "none" else k.replace("_", "-")) for v, k in sorted(types.items()))
    nm = lambda v: "the type %s (%d)" % (types.get(v, "?"), v)
    L = {
        "long strings are the names with dashes": ("for (auto& r : rows) if (%s && lng(r.v) != r.n) return r.v; return -1;", True),
        "short strings are non-empty except for none": ("for (auto& r : rows) if (sht(r.v).empty() != (r.v == 0)) return r.v; return -1;", False),
        "long strings are non-empty except for none": ("for (auto& r : rows) if (lng(r.v).empty() != (r.v == 0)) return r.v; return -1;", False),
        "short strings hold only letters, digits and underscores": ("for (auto& r : rows) for (char c : sht(r.v)) if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_')) return r.v; return -1;", False),
        "long strings hold only lower-case letters and dashes": ("for (auto& r : rows) for (char c : lng(r.v)) if (!((c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '-')) return r.v; return -1;", False),
        "no two types share a short string": ("for (auto& r : rows) for (auto& q : rows) if (q.v < r.v && sht(q.v) == sht(r.v)) return r.v; return -1;", False),
        "no two types share a long string": ("for (auto& r : rows) for (auto& q : rows) if (q.v < r.v && lng(q.v) == lng(r.v)) return r.v; return -1;", False),
        "values that are no type have no name": ("for (int v = 0; v < 256; ++v) { bool in = false; for (auto& r : rows) in |= r.v == v; if (!in && (!lng(v).empty() || !sht(v).empty() || !lng8(v).empty() || !sht8(v).empty())) return v; } return -1;", False),
        "char8_t and char strings agree": ("for (int v = 0; v < 256; ++v) if (!same(lng(v), lng8(v)) || !same(sht(v), sht8(v))) return v; return -1;", False),
    }
    jobs, what = [], {}
    known = []
    skip = []
    # each wrong long string is its own finding
    while True:
        cond = " && ".join(["r.v != %d" % v for v in skip]) or "true"
        job = [("c11 long %d" % len(skip), W + rows + "constexpr int vp() { %s }\nstatic_assert(vp() == -1);\n" % (L["long strings are the names with dashes"][0] % cond), 20_000_000, fl)]
        r = list(run_witnesses(job).values())[0]
        if r.status == "fail" and r.counter is not None and len(skip) < 40:
            rep.violate("long:" + types.get(r.counter, str(r.counter)), "the long string of %s is not '%s'" % (nm(r.counter), types.get(r.counter, "").replace("_", "-")))
            skip.append(r.counter); continue
        if r.status not in ("ok", "fail"):
            rep.note("long strings are not decided: " + r.text[:200])
        break
    for k, (b, special) in L.items():
        if special:
            continue
        jobs.append(("c11 " + k, W + rows + "constexpr int vp() { %s }\nstatic_assert(vp() == -1);\n" % b, 60_000_000, fl))
        what["c11 " + k] = (k, nm)
    # the C functions return the same strings: their IR calls the C++ function with the type it was given
    rep.count("witnesses over the names of all types that hold", iface.judge(rep, run_witnesses(jobs), what), 0)
    c_functions(rep)
    themes(rep, types)

def c_functions(rep):
    d = ir_dump("O2S", O2S, "^ulight_|__clang_call_terminate")["functions"]
    n = 0
    want = {"ulight_highlight_type_long_string": "long", "ulight_highlight_type_long_string_u8": "long", "ulight_highlight_type_short_string": "short",
            "ulight_highlight_type_short_string_u8": "short", "ulight_highlight_type_id": "short"}
    for f, kind in want.items():
        if f not in d or d[f]["decl"]:
            rep.note("no definition of " + f); continue
        calls = [i for b in d[f]["blocks"] for i in b["insts"] if i["op"] == "call" and not (i.get("callee") or "").startswith("llvm.")]
        names = [i.get("callee") or "" for i in calls]
        m = [k for k in ("long", "short") for x in names if "highlight_type_%s_string" % k in x]
        if len(calls) == 1 and m and m[0] != kind:
            rep.violate("cfun:" + f, "%s:%s: %s returns the %s string" % (os.path.relpath(d[f].get("file", "?"), REPO), d[f].get("line"), f, m[0]))
        elif m == [kind]:
            n += 1
        else:
            rep.note("%s does not call the C++ function of the same kind" % f)
    rep.count("C functions that return the string of their kind", n, 0)

def table(types):
    """long string -> short string, read out of the constant switch in the type-checked program by evaluating each."""
    src = os.path.join(BUILD, "wit", "c11_table.cpp")
    body = '#include "ulight/ulight.hpp"\nusing namespace ulight;\nconstexpr struct S { char b[48] {}; unsigned char n = 0; constexpr S() = default; constexpr S(std::string_view s) { for (char c : s) if (n < 47) b[n++] = c; } } tab[%d] = {' % (2 * len(types)) + ", ".join(
        "S(highlight_type_long_string(Highlight_Type(%d))), S(highlight_type_short_string(Highlight_Type(%d)))" % (v, v) for v in sorted(types)) + "};\nextern const S* vp_use(int i) { return &tab[i]; }\n"
    open(src, "w").write(body)
    r = run([CLANGXX] + CXXFLAGS + ["-Wno-enum-constexpr-conversion", "-O0", "-emit-llvm", "-c", src, "-o", src[:-4] + ".bc"])
    if r.returncode:
        return None
    g = json.loads(run([tool("irdump"), src[:-4] + ".bc", "vp_use"]).stdout)["globals"]
    t = next((x for n, x in g.items() if "tab" in n), None)
    if not t or "init" not in t:
        return None
    out = {}
    rows = t["init"]["agg"]
    def text(x):
        if not isinstance(x, dict) or "agg" not in x:
            return ""
        def flat(v):
            return [v] if isinstance(v, int) else [c for y in v.get("agg", []) for c in flat(y)] if isinstance(v, dict) else []
        b, n = flat(x["agg"][0]), x["agg"][1]
        return "".join(chr(c & 0xff) for c in b[:n])
    for k, v in enumerate(sorted(types)):
        out[v] = (text(rows[2 * k]), text(rows[2 * k + 1]))
    return out

def themes(rep, types):
    t = table(types)
    if not t:
        rep.note("the strings of the types could not be read"); return
    short = {l: s for l, s in t.values() if l}
    rep.cover["names"] = len(short)
    keys = 0
    for p in sorted(glob.glob(os.path.join(REPO, "themes", "*.json"))):
        if p.endswith("schema.json"):
            continue
        try:
            j = json.load(open(p, encoding="utf-8"))
        except ValueError as e:
            rep.violate("theme:" + os.path.basename(p), "themes/%s is not JSON: %s" % (os.path.basename(p), e)); continue
        for var in ("light", "dark"):
            for k in (j.get(var) or {}):
                keys += 1
                if k not in short and k not in ("background", "foreground"):
                    rep.violate("theme:%s:%s" % (os.path.basename(p), k), "themes/%s: the style key '%s' names no highlight type" % (os.path.basename(p), k))
    rep.count("style keys of the bundled themes", keys, 0)
    sch = os.path.join(REPO, "themes/ulight-theme.schema.json")
    p = os.path.join(REPO, "scripts/theme-to-css.cjs")
    n = 0
    if os.path.exists(p):
        text = open(p, encoding="utf-8").read()
        m = re.search(r"longNameToShort\s*=\s*(?:new Map\()?\s*[\[{](.*?)[}\]]\)?;", text, re.S)
        pairs = re.findall(r"""\[?\s*["']?([a-z][a-z0-9-]*)["']?\s*[:,]\s*["']([A-Za-z0-9_]+)["']""", m.group(1)) if m else []
        seen = {}
        for k, s in pairs:
            n += 1
            if k not in short:
                rep.violate("converter:" + k, "scripts/theme-to-css.cjs: '%s' names no highlight type" % k)
            elif short[k] != s:
                rep.violate("converter:" + k, "scripts/theme-to-css.cjs: '%s' is converted to '%s', and its short string is '%s'" % (k, s, short[k]))
            seen[k] = s
        if pairs:
            for k in sorted(set(short) - set(seen)):
                rep.violate("converter-missing:" + k, "scripts/theme-to-css.cjs has no entry for '%s' (%s)" % (k, short[k]))
        else:
            rep.note("the converter's table was not recognised")
    rep.count("entries of the theme converter compared", n, 0)

if __name__ == "__main__":
    main("C11", "the enumerations of highlight types pair up by name and value; constant witnesses over all 256 values decide completeness, form and uniqueness of long and short strings and that char8_t strings agree; every style key of themes and converter is compared with the table", check)
