#!/usr/bin/env python3
"""C25: embedded languages are highlighted in place and completely."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vp import *
from witness import run_witnesses
from overlay import overlay, overlay_flags
import basewit, iface

RULE = ("The embedding operation of the highlighter base, with a stand-in for the embedded highlighter, delivers every token of it shifted by the start of "
        "the span, before any later token, leaves the position behind the span, and reports its failure, for every outer and nested buffer capacity up to "
        "three and four, span and option (compile-fail witnesses). In HTML, with stand-ins for the script and style highlighters, the tokens of a document "
        "are those of the opening tag, those of the right stand-in for exactly the raw text up to the next matching end tag, and those of the rest "
        "highlighted on its own (witnesses over all sequences of content fragments). Every embedding site names a language whose highlighter cannot fail "
        "(return-value analysis), as the site requires the status to be OK.")

TAGS = ["<script>", "<style>", "<ScRiPt a=b>", "<sTYLE >", '<script c="d" >']
FRAG = ["a", "<", "/", ">", " ", "</script", "</style", "<!--", "-->", "</SCRIPT", "&", "\"", "</scripty", "</sTyLe", "var x = 0;\n" * 8]
# `lang` 0 is the script language, 1 the style language
HTML = basewit.PRE.replace("Tok got[40]", "Tok got[400]") + r'''
#include "lang/html.cpp"
constexpr bool fake(Non_Owning_Buffer<Token>& out, std::u8string_view s, int base)
{
    for (std::size_t i = 0; i < s.size(); ++i) { out.emplace_back(i, std::size_t(1), (unsigned char)(base + (i & 1))); }
    return true;
}
constexpr bool ulight::highlight_css(Non_Owning_Buffer<Token>& out, std::u8string_view s, std::pmr::memory_resource*, const Highlight_Options&) { return fake(out, s, 202); }
constexpr bool ulight::highlight_javascript(Non_Owning_Buffer<Token>& out, std::u8string_view s, std::pmr::memory_resource*, const Highlight_Options&) { return fake(out, s, 200); }
constexpr std::u8string_view frags[] = { FRAGS };
constexpr std::u8string_view tags[] = { TAGS };
constexpr std::u8string_view tails[] = { u8"", u8">", u8" x>&amp;<p>" };
constexpr char8_t low(char8_t c) { return c >= u8'A' && c <= u8'Z' ? char8_t(c + 32) : c; }
constexpr std::size_t raw(std::u8string_view s, std::u8string_view name)
{
    for (std::size_t i = 0; i + 2 + name.size() < s.size(); ++i) {
        if (s[i] != u8'<' || s[i + 1] != u8'/') { continue; }
        bool same = true;
        for (std::size_t k = 0; k < name.size() && same; ++k) { same = low(s[i + 2 + k]) == name[k]; }
        const char8_t e = s[i + 2 + name.size()];
        if (same && (e == u8' ' || e == u8'\t' || e == u8'\n' || e == u8'\f' || e == u8'\r' || e == u8'>' || e == u8'/')) { return i; }
    }
    return s.size();
}
constexpr bool tokens(Sink& sink, std::size_t cap, std::u8string_view s)
{
    Token mem[16] {}; sink.start = mem; sink.cap = cap;
    Non_Owning_Buffer<Token> out { mem, cap, &sink, &on_flush };
    if (!highlight_html(out, s, nullptr, Highlight_Options {})) { return false; }
    out.flush();
    return !sink.bad;
}
constexpr int run(std::size_t cap, std::size_t tag, const int* f, int n, std::size_t tail)
{
    char8_t src[400] {}; std::size_t len = 0;
    const auto add = [&](std::u8string_view x) { for (char8_t c : x) { src[len++] = c; } };
    add(tags[tag]); const std::size_t b = len;
    for (int i = 0; i < n; ++i) { add(frags[f[i]]); }
    add(tails[tail]);
    const std::u8string_view all { src, len };
    const bool css = low(tags[tag][2]) == u8't';
    const std::size_t e = b + raw(all.substr(b), css ? u8"style" : u8"script");
    Sink got, open, rest;
    if (!tokens(got, cap, all)) { return 1; }
    if (!tokens(open, 16, all.substr(0, b)) || !tokens(rest, 16, all.substr(e))) { return 1; }
    int k = 0;
    for (int i = 0; i < open.n; ++i, ++k) { if (k >= got.n || got.got[k].b != open.got[i].b || got.got[k].l != open.got[i].l || got.got[k].t != open.got[i].t) { return 2; } }
    for (std::size_t i = b; i < e; ++i, ++k) {
        if (k >= got.n || got.got[k].b != i || got.got[k].l != 1) { return 3; }
        if (got.got[k].t != (css ? 202 : 200) + int((i - b) & 1)) { return got.got[k].t / 2 == (css ? 100 : 101) ? 4 : 3; }
    }
    for (int i = 0; i < rest.n; ++i, ++k) { if (k >= got.n || got.got[k].b != rest.got[i].b + e || got.got[k].l != rest.got[i].l || got.got[k].t != rest.got[i].t) { return 5; } }
    return k == got.n ? 0 : 5;
}
constexpr int all()
{
    constexpr int F = int(std::size(frags));
    for (std::size_t tail = 0; tail < 3; ++tail) for (int n = 0; n <= DEPTH; ++n) {
        int top = 1; for (int i = 0; i < n; ++i) { top *= F; }
        for (int code = 0; code < top; ++code) {
            int f[4] {}, c = code; for (int i = 0; i < n; ++i, c /= F) { f[i] = c % F; }
            if (n > 0 && f[n - 1] % PARTS != PART) { continue; }
            const int r = run(CAP, TAG, f, n, tail);
            if (r) { return ((r * 3 + int(tail)) * 4 + n) * (1 << 16) + code; }
        }
    }
    return -1;
}
static_assert(all() == -1);
'''
WHY = {1: "highlighting fails or breaks the buffer protocol", 2: "the tokens of the opening tag differ from those it has on its own", 3: "the embedded text is not handed to the embedded highlighter exactly, or its tokens are lost, misplaced or late",
       4: "the embedded text is handed to the wrong language", 5: "the text after the embedded span is not highlighted as it is on its own"}

def u8(x):
    return 'u8"%s"' % x.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n")

def html_jobs():
    d = overlay()
    if not os.path.exists(os.path.join(d, "src/main/cpp/lang/html.cpp")):
        return []
    fl = overlay_flags(d) + ["-std=c++2c", "-fno-access-control"]
    out = []
    depth, parts = (2, 1) if TIER == "quick" else (3, 7)
    for t in range(len(TAGS)):
        for cap in ((1, 3) if TIER == "quick" else (1, 2, 3, 16)):
            for part in range(parts):
                text = HTML.replace("FRAGS", ", ".join(map(u8, FRAG))).replace("TAGS", ", ".join(map(u8, TAGS))).replace("DEPTH", str(depth)).replace("CAP", str(cap)).replace("TAG,", "%d," % t).replace("PARTS", str(parts)).replace("PART", str(part))
                out.append(("c25_html_%d_%d_%d" % (t, cap, part), text, 400000000, fl))
    return out

def may_return(fns, f, seen=()):
    """-> set of the constants f may return; '?' for a value that is not traced."""
    if f not in fns or f in seen or not fns[f]["blocks"]:
        return {"?"} if f not in seen else set()
    fn = fns[f]
    defs = {i["id"]: i for b in fn["blocks"] for i in b["insts"]}
    out, done = set(), set()
    work = [o for b in fn["blocks"] for i in b["insts"] if i["op"] == "ret" for o in i["ops"]]
    while work:
        v = work.pop()
        if isinstance(v, int):
            out.add(v & 1); continue
        if v in done:
            continue
        done.add(v)
        i = defs.get(v)
        if not i:
            out.add("?")
        elif i["op"] == "phi":
            work += [x for x, _ in i["phi"]]
        elif i["op"] in ("zext", "trunc", "sext", "freeze"):
            work.append(i["ops"][0])
        elif i["op"] == "select":
            work += i["ops"][1:]
        elif i["op"] == "call" and i.get("callee") in fns:
            out |= may_return(fns, i["callee"], seen + (f,))
        elif i["op"] == "icmp" and all(isinstance(o, int) or any(o == a["id"] for a in fn["args"]) for o in i["ops"]):
            out |= {0, 1}   # a comparison of an argument with a constant that was not folded goes both ways
        elif i["op"] in ("and", "or", "xor"):
            work += i["ops"]
        else:
            out.add("?")
    return out

def languages(rep):
    """The languages named at embedding sites, and whether their highlighters can fail."""
    ir = ir_dump("O1N", O1N)["functions"]
    site = "_ZN6ulight16Highlighter_Base23consume_nested_language"
    langs, work, done = {}, [(f, 1) for f in ir if f.startswith(site)], set()
    while work:
        g, k = work.pop()
        if (g, k) in done:
            continue
        done.add((g, k))
        for f, fn in ir.items():
            for b in fn["blocks"]:
                for i in b["insts"]:
                    if i["op"] not in ("call", "invoke") or i.get("callee") != g or len(i["ops"]) <= k:
                        continue
                    v = i["ops"][k]
                    no = {a["id"]: n for n, a in enumerate(fn["args"])}
                    if isinstance(v, int):
                        langs.setdefault(v & 255, "%s (%s:%s)" % (fn["demangled"].replace("(anonymous namespace)::", "").split("(")[0], os.path.relpath(i.get("file") or fn["file"], REPO), i.get("line")))
                    elif v in no:
                        work.append((f, no[v]))
                    else:
                        rep.note("the language embedded at %s:%s is not a constant" % (fn["demangled"][:80], i.get("line")))
    names = {}
    for name, e in iface.merged_enums(ast_facts()).items():
        if name == "ulight::Lang" or (name.split("::")[-1] == "Lang" and not names):
            for k, x in e["values"]:
                names.setdefault(x, k)
    opt = ir_dump("O2S", O2S)["functions"]
    for v, where in sorted(langs.items()):
        fs = [f for f in opt if opt[f]["blocks"] and re.match(r"ulight::highlight_%s\(" % re.escape(names.get(v, "?")), opt[f]["demangled"])]
        if not fs:
            rep.note("no highlighter found for the embedded language %s" % names.get(v, v)); continue
        r = may_return(opt, fs[0])
        if 0 in r:
            rep.violate("fails:" + names[v], "%s embeds %s and requires the status to be OK, but ulight::highlight_%s returns false on some path (%s)" % (
                where, names[v], names[v], os.path.relpath(opt[fs[0]]["file"], REPO)))
        elif "?" in r:
            rep.note("whether ulight::highlight_%s can fail is not decided" % names[v])
        else:
            rep.sample("%s embeds %s, whose highlighter always succeeds" % (where, names[v]))
    rep.count("embedded languages", len(langs), 0)

def check(rep):
    jobs = basewit.nest_jobs("c25") + html_jobs()
    res = run_witnesses(jobs)
    nest = {k: v for k, v in res.items() if "_html_" not in k}
    n = basewit.judge(rep, nest, only={0, 1, 2, 8, 9, 10})
    for name, r in sorted(res.items()):
        if "_html_" not in name:
            continue
        if r.status in ("gone", "broken"):
            rep.note("%s is not decided: %s" % (name, r.text[:300])); continue
        n += 1
        if r.status != "fail":
            continue
        tag = TAGS[int(name.split("_")[2])]
        if r.counter is None:
            rep.violate("html:undefined", "highlight_html of a document starting with %s: %s" % (tag, r.text)); continue
        c = r.counter
        code, k, tail, why = c & 0xffff, c >> 16 & 3, (c >> 18) % 3, (c >> 18) // 3
        f = [FRAG[code // len(FRAG) ** i % len(FRAG)] for i in range(k)]
        rep.violate("html:" + str(why), "highlight_html of %r: %s" % (tag + "".join(f) + ["", ">", " x>&amp;<p>"][tail], WHY.get(why)))
    rep.count("witnesses decided", n, 0)
    languages(rep)

if __name__ == "__main__":
    main("C25", RULE, check)
