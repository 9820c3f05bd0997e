"""Compile-fail witnesses of whole highlighters: on every input of a systematically built set, highlighting finishes, trips no check, reads
nothing outside the text, and hands out well-formed tokens. Each group of inputs is one static_assert that the compiler's constant evaluator
has to accept; every access outside the text, failed check, overlapping token or endless repetition makes it ill-formed. Nothing is run."""
import json, os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from vp import *
from overlay import overlay, full, overlay_flags
import hlinputs

WIT = os.path.join(BUILD, "hlwit")
GROUP = 32
BYTES = 80000          # text per translation unit
STEPS = 60000           # evaluation steps granted to each input of a group
ONE = 6000000          # ... and to a single input when it is looked at alone

def lit(b):
    return 'u8"' + "".join('" u8"\\x%02x" u8"' % c if c < 32 or c > 126 or c in (34, 63, 92) else chr(c) for c in b) + '"'

TEXT = r'''
%(includes)s
#include <array>
using namespace ulight;
struct Vp_Sink { std::size_t end = 0, len = 0; int bad = 0; };
constexpr void vp_flush(const void* d, Token* p, std::size_t n)
{
    Vp_Sink* l = static_cast<Vp_Sink*>(const_cast<void*>(d));
    for (std::size_t i = 0; i < n; ++i) {
        if (p[i].length == 0) { l->bad |= 1; }
        if (p[i].begin < l->end) { l->bad |= 2; }
        if (p[i].begin > l->len || p[i].length > l->len - p[i].begin) { l->bad |= 4; }
        l->end = p[i].begin + p[i].length;
    }
}
constexpr std::u8string_view vp_in[] = { %(inputs)s };
constexpr int vp_one(int i, unsigned seed)
{
    // the text alone in an allocation of its own, so that nothing can be read around it
    const std::size_t n = vp_in[i].size();
    char8_t* const t = n ? new char8_t[n] : nullptr;
    for (std::size_t k = 0; k < n; ++k) { t[k] = vp_in[i][k]; }
    const std::u8string_view source { t, n };
    int r = 0;
    %(call)s
    delete[] t;
    return r;
}
constexpr int vp_range(int a, int b)
{
    for (int i = a; i < b; ++i) { if (const int r = vp_one(i, unsigned(i))) { return i * 8 + r; } }
    return -1;
}
'''

CALL = r'''Token mem[4] {}; Vp_Sink sink; sink.len = n;
    {
        Non_Owning_Buffer<Token> out { mem, std::size_t(1 + (seed >> 1) %% 4), &sink, &vp_flush };
        Highlight_Options o {}; o.coalescing = seed & 1; o.strict = (seed >> 3) & 1;
        (void)highlight_%s(out, source, nullptr, o);
        out.flush();
    }
    r = sink.bad;'''
JSON = "json parser"
JSON_CALL = r'''struct V : JSON_Visitor { constexpr ~V() override { } } v;
    JSON_Options o {}; o.allow_comments = seed & 1; o.escapes = Escape_Parsing((seed >> 1) % 3);
    (void)parse_json(v, source, o);'''

def literals():
    out = {}
    for d in ast_facts().values():
        for f, v in d.get("lits", {}).items():
            out.setdefault(os.path.basename(f).rsplit(".", 1)[0], set()).update(bytes.fromhex(x) for x in v)
    return out

def languages():
    """-> {name: stem of the source file} of the highlighters that are defined in the library's sources."""
    out = {}
    for s, d in ast_facts().items():
        for f in d["functions"]:
            m = re.match(r"ulight::highlight_(\w+)$", f["name"])
            if m and f.get("def") and len(f["params"]) == 4 and f["ret"] == "bool" and "/lang/" in f["file"]:
                out[m.group(1)] = os.path.basename(f["file"]).rsplit(".", 1)[0]
    out = dict(sorted(out.items()))
    if "json" in out:
        out[JSON] = out["json"]
    return out

def alphabet(stem, lits, n):
    a = {x for x in lits.get(stem, ()) if 0 < len(x) <= 4 or not x.isalpha() and len(x) <= 12}
    a = sorted(a, key=lambda x: (len(x) > 4, x.isalnum() and len(x) > 1, len(x), x))[:n]
    core = [x.encode() for x in hlinputs.CORE]
    return list(dict.fromkeys(core + a)), hlinputs.BAD

def corpus():
    with open(os.path.join(VERIF, "lib", "hlcorpus.json"), encoding="utf-8") as f:
        return {l: [x.encode("latin1") for x in v] for l, v in json.load(f).items()}

def mutants(lines, frags, budget, seed):
    """The pieces of code, and a fixed selection of what becomes of them by cutting, removing, inserting, replacing and splicing."""
    state = seed
    def pick(n):
        nonlocal state
        state = (state * 6364136223846793005 + 1442695040888963407) & (1 << 64) - 1
        return (state >> 33) % n
    for s in lines:
        yield s; budget -= len(s)
    while budget > 0 and lines:
        # the pieces at the front are the denser ones
        s = lines[min(pick(len(lines)), pick(len(lines)))]
        i, op = pick(len(s) + 1), pick(9)
        f = frags[pick(len(frags))]
        if op == 0: x = s[:i]
        elif op == 1: x = s[:i] + s[i + 1:]
        elif op <= 3: x = s[:i] + f + s[i:]
        elif op == 4: x = s[:i] + f + s[i + 1:]
        elif op == 5: x = s[:i] + f + frags[pick(len(frags))]
        elif op == 6: x = s[max(0, i - 12):i] + f + s[i:i + 12]
        elif op == 7: t = lines[pick(len(lines))]; x = s[:i] + t[pick(len(t) + 1):]
        else: x = s[i:] + f + s[:i]
        yield x
        budget -= len(x) + 8

def inputs(lang, stem, lits, deep):
    full_a, bad = alphabet(stem, lits, 120 if deep else 54)
    snip = [x.encode() for x in hlinputs.SNIPPETS.get("jsonc" if lang == JSON else lang, [])]
    out = {}
    def add(x):
        out.setdefault(x)
    add(b"")
    every = full_a + bad
    # what follows every prefix of a construct: all of the alphabet, or (quick) its most telling part
    tail = every if deep else full_a[:18] + [b"\xc3", b"\xff"]
    for a in every:
        add(a)
        for b in every:
            add(a + b)
    for s in snip:
        for i in range(len(s) + 1):
            add(s[:i]); add(s[i:])
            if i < len(s):
                add(s[:i] + s[i + 1:])
            for f in tail:
                add(s[:i] + f)
                if deep:
                    add(s[:i] + f + s[i:])
                    add(s[:i] + f + s[i + 1:])
        for t in snip:
            add(s + t)
    # repetition: what is kept on a stack, counted or nested
    for f in full_a[:54]:
        add(f * 70)
    for s in snip:
        add((s + b"\n") * 3)
    for s in hlinputs.LONG.get(lang, []):
        add(s.encode())
    for x in mutants(corpus().get("jsonc" if lang == JSON else lang, []), every, 800000 if deep else 60000, len(lang) + sum(lang.encode())):
        add(x)
    return list(out)

def includes(stem, alone):
    d = os.path.join(REPO, "src/main/cpp/lang")
    stems = [f[:-4] for f in sorted(os.listdir(d)) if f.endswith(".cpp")]
    if alone:
        stems = [s for s in stems if s == stem or stem == "html" and s in ("css", "js")]
    return "\n".join('#include "%s"' % x for x in ["parse_utils.cpp", "chars.cpp"] + (["json.cpp"] if os.path.exists(os.path.join(REPO, "src/main/cpp/json.cpp")) else []) + ["lang/%s.cpp" % s for s in stems])

def flags():
    return PRE + overlay_flags(OV) + CXXFLAGS + ["-std=c++2c", "-fno-access-control"]

def precompile():
    """All sources in one precompiled header -> its path, or None."""
    p = os.path.join(WIT, "all_%d.hpp" % os.getpid())
    open(p, "w").write(includes(None, False) + "\n#include <array>\n")
    r = subprocess.run([CLANGXX] + flags() + ["-x", "c++-header", "-o", p + ".pch", p], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return p + ".pch" if r.returncode == 0 else None

class Tu:
    def __init__(self, name, lang, stem, ins, singles):
        self.name, self.lang, self.stem, self.ins, self.singles = name, lang, stem, ins, singles

def compile_tu(tu, alone=False):
    """-> ('gone', why) or {index of the group or input: notes}"""
    pch = PCH if PCH and not alone else None
    text = TEXT % dict(includes="" if pch else includes(tu.stem, alone), call=JSON_CALL if tu.lang == JSON else CALL % tu.lang, inputs=",".join(lit(x) for x, _ in tu.ins))
    n = len(tu.ins)
    size = 1 if tu.singles else GROUP
    groups = [(a, min(a + size, n)) for a in range(0, n, size)]
    first = text.count("\n") + 1
    for g, (a, b) in enumerate(groups):
        e = "vp_one(%d, %du)" % (a, tu.ins[a][1]) if tu.singles else "vp_range(%d, %d) + 1" % (a, b)
        text += "template <class T> void vp_g%d() { static_assert(%s + int(sizeof(T)) == 1); }\n" % (g, e)
    text += "void vp_use() { " + " ".join("vp_g%d<char>();" % g for g in range(len(groups))) + " }\n"
    left = END - time.time()
    if left < 5:
        return ("gone", "no time is left")
    p = os.path.join(WIT, "%s_%s.cpp" % (tu.name, tu.lang.replace(" ", "_")))
    open(p, "w").write(text)
    steps = ONE if tu.singles else STEPS * GROUP
    try:
        r = subprocess.run([CLANGXX] + (["-include-pch", pch] if pch else []) + flags() + ["-fsyntax-only", "-fconstexpr-steps=%d" % steps,
                        "-fconstexpr-depth=4096", "-ferror-limit=0", "-fno-caret-diagnostics", "-fconstexpr-backtrace-limit=%d" % (0 if tu.singles else 1), p],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=min(780, left))
    except subprocess.TimeoutExpired:
        return ("gone", "the constant evaluator did not finish in time")
    finally:
        os.unlink(p)
    res, cur = {}, None
    for l in r.stderr.splitlines():
        if "error:" in l:
            m = re.match(r"(.*?):(\d+):\d+: (?:fatal )?error: (.*)", l)
            if m and m.group(1) == p and int(m.group(2)) >= first and "static" in m.group(3):
                cur = res.setdefault(int(m.group(2)) - first, [])
            else:
                return ("gone", l[-300:])
        if cur is not None and "note:" in l:
            cur.append(l)
    if r.returncode and not res:
        return ("gone", r.stderr[-300:])
    return res

CHECKFN = re.compile(r"assert|throw|terminate|abort|unreachable|__builtin_trap", re.I)
UNKNOWN = re.compile(r"^(?!.*assertion_handler).*(?:reinterpret_cast|cast from|cast that performs|dynamic_cast|non-literal type|goto|statement|inline asm|typeid|non-constexpr variable|thread_local|static variable|virtual)")

def words(bad):
    return ", ".join(w for b, w in ((1, "an empty token"), (2, "a token that starts before the end of the one before it"), (4, "a token outside the text")) if bad & b)

def judge(notes):
    """-> (property or None for an evaluation that is not constant for other reasons, text)"""
    notes = [l for l in notes if "note: in instantiation of" not in l]
    t = [re.sub(r".*?note: ", "", l) for l in notes]
    for x in t:
        m = re.search(r"expression evaluates to '(-?\d+) == 1'", x)
        if m:
            bad = int(m.group(1)) - 1
            return "C02", words(bad)
    where = [re.search(r"in call to '(.*)'", x) for x in t]
    where = [re.sub(r"\{.*?\}|\(.*", "", m.group(1)).replace("this->", "").strip() for m in where if m]
    lines = [re.match(r"(.*?):(\d+):\d+: note: ", l) for l in notes]
    at = next(("%s:%s" % (re.sub(r".*-hlx?/", "", m.group(1)), m.group(2)) for m in lines if m and re.search(r"-hlx?/", m.group(1))), "")
    path = " < ".join(dict.fromkeys(w for w in where if w and not w.startswith(("vp_", "std::")) and "assert" not in w))[:300]
    why = t[0] if t else "?"
    if "vp_leaves_a_trace" in why:
        return "C24", "a failed attempt has consumed text or produced tokens: " + path
    if not at and not path and not any("subexpression" in x or "step limit" in x for x in t):
        return None, "no longer constant, without a reason given: " + why
    if "step limit" in " ".join(t) or "exceeded" in why:
        return "C03", "it does not finish (%s; %s)" % (path, at)
    m = re.search(r"(?:non-constexpr|undefined) (?:function|constructor) '([^']*)'", why)
    if m and not CHECKFN.search(m.group(1)) or UNKNOWN.search(why) or "memory_resource" in " ".join(t) and "null" in why:
        return None, why
    if m or "assertion_handler" in why:
        why = "a check fails"
    return "C04", "%s in %s (%s)" % (why, path, at)

def rewritten():
    """lang/json.cpp with `as_string_view` and `std::from_chars` replaced by equivalents the constant evaluator knows."""
    src, d = os.path.join(OV, "src/main/cpp/lang/json.cpp"), os.path.join(WIT, "ov", "lang")
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(src):
        return []
    t = open(src, encoding="utf-8", errors="surrogateescape").read()
    t = re.sub(r"(?<![\w:])(?:ulight::)?as_string_view\s*\(", "::vp_rt::text(", t)
    t = re.sub(r"(?<![\w:])(?:::)?std::from_chars\s*\(", "::vp_rt::from_chars(", t)
    open(os.path.join(d, "json.cpp"), "w", encoding="utf-8", errors="surrogateescape").write(t)
    return ["-include", os.path.join(VERIF, "witness", "rtchars.hpp"), "-I", os.path.join(WIT, "ov")]

OV, PRE, PCH, END = None, [], None, 0
def run(rep, deep=False, only=None, attempts=False):
    """-> [(property, lang, input, text)]"""
    global OV, PRE, CALL, END, PCH
    END = time.time() + (3600 if deep else 690)
    OV = full(overlay(), attempts)
    if attempts:
        CALL = CALL.replace("mem[4]", "mem[48]").replace("std::size_t(1 + (seed >> 1) %% 4)", "48")
    os.makedirs(WIT, exist_ok=True)
    PRE = rewritten()
    PCH = precompile()
    lits, langs = literals(), languages()
    jobs, total, t0 = [], 0, time.time()
    for lang, stem in langs.items():
        if only and lang not in only:
            continue
        ins = inputs(lang, stem, lits, deep)
        total += len(ins)
        rep.sample({"language": lang, "source": stem + ".cpp", "inputs": len(ins), "bytes": sum(map(len, ins))})
        chunk, size = [], 0
        for i, x in enumerate(ins):
            chunk.append((x, len(chunk))); size += len(x) + 8
            if size >= BYTES:
                jobs.append(Tu("t%d_%d" % (os.getpid(), len(jobs)), lang, stem, chunk, False)); chunk, size = [], 0
        if chunk:
            jobs.append(Tu("t%d_%d" % (os.getpid(), len(jobs)), lang, stem, chunk, False))
    jobs.sort(key=lambda j: -sum(len(x) for x, _ in j.ins))
    found, follow, gone = [], {}, {}
    def go(tu):
        r = compile_tu(tu)
        if isinstance(r, tuple) and not tu.singles:
            r2 = compile_tu(tu, True)
            r = r2 if not isinstance(r2, tuple) else r
        return tu, r
    with ThreadPoolExecutor(8) as ex:
        for tu, r in ex.map(go, jobs):
            if isinstance(r, tuple):
                gone.setdefault(tu.lang, r[1])
                continue
            for g, notes in r.items():
                m = re.search(r"expression evaluates to '(-?\d+) == 1'", " ".join(notes))
                if m:
                    i, bad = divmod(int(m.group(1)) - 2, 8)
                    found.append(("C02", tu.lang, tu.ins[i][0], words(bad)))
                else:
                    follow.setdefault(tu.lang, []).append(tu.ins[g * GROUP:(g + 1) * GROUP])
        singles = []
        for lang, gs in follow.items():
            gs.sort(key=lambda g: sum(len(x) for x, _ in g))
            if len(gs) > 8:
                rep.note("%s: inputs in %d groups fail, those in the 8 shortest are looked at alone" % (lang, len(gs)))
            singles += [Tu("", lang, langs[lang], sum(gs[a:a + 2], []), True) for a in range(0, min(len(gs), 8), 2)]
        for k, s in enumerate(singles):
            s.name = "s%d_%d" % (os.getpid(), k)
        for tu, r in ex.map(go, singles):
            if isinstance(r, tuple):
                gone.setdefault(tu.lang, r[1])
                continue
            for i, notes in r.items():
                prop, text = judge(notes)
                if prop is None:
                    gone.setdefault(tu.lang, text)
                else:
                    found.append((prop, tu.lang, tu.ins[i][0], text))
    for x in (PCH, PCH[:-4]) if PCH else ():
        os.unlink(x)
    found.sort(key=lambda f: (f[0], f[1], len(f[2]), f[2]))
    for lang, why in gone.items():
        rep.note("the highlighter of %s is not evaluated (all of) its inputs: %s" % (lang, why))
    rep.count("highlighters", len(langs))
    rep.count("inputs", total)
    rep.count("seconds", int(time.time() - t0))
    return found

def check(rep, prop, what, attempts=False):
    """The body of the checks that share the witnesses."""
    per = {}
    for p, lang, text, why in run(rep, TIER != "quick", None, attempts):
        if p != prop:
            continue
        per[lang] = per.get(lang, 0) + 1
        if per[lang] <= 5:
            rep.violate("%s:%s" % (lang, text.hex()), "%s, input %r: %s" % (lang, text, why))
    for lang, n in per.items():
        if n > 5:
            rep.note("%s: %d inputs in all on which the %s" % (lang, n, what))
    rep.assume("the inputs of the set stand for all inputs of a language; longer texts than the constructs and their pairs are not evaluated")
    rep.assume("the highlighters behave at run time as they do in the constant evaluator (they have no branches on being evaluated at compile time but those that C16 and C26 compare)")
