"""C23: lookup tables are sorted, unique and in step, and every listed entry is found.
AST: the constant value of every table handed to a binary search is strictly increasing in the order searched; enumeration-indexed
tables are complete and in step. Witness: lookup functions and operator matchers, evaluated by the compiler over their whole tables,
find every listed entry, the longest one, and nothing in the gaps between entries."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *
from overlay import overlay, overlay_flags
from witness import run_witnesses

SEARCH = ("lower_bound", "upper_bound", "binary_search", "equal_range")
STR = re.compile(r"basic_string_view|ulight_string_view")

def key_of(row, proj):
    if isinstance(row, dict):
        if set(row) - {"raw"} == {"s"}:
            return row["s"]
        if proj and proj in row:
            return key_of(row[proj], None)
        ks = [v for v in row.values() if isinstance(v, dict) and "s" in v]
        if len(ks) == 1:
            return ks[0]["s"]
        if set(row) == {"min", "max"}:
            return (row["min"], row["max"])
    if isinstance(row, int):
        return row
    return None

def lit(s):
    return 'u8"' + "".join(chr(c) if 32 <= c < 127 and chr(c) not in '"\\?' else "\\%03o" % c for c in s.encode("utf-8")) + '"'

def fold(s):
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)

def short(n):
    return n.replace("(anonymous namespace)::", "")

# Functions that look a string up: (source, function, table, kind).
#  enum: optional enumerator, equal to the index; bool: found or not; bool_ci: the same, ignoring case;
#  prefix: a length; highlight: the highlight in the table
LOOKUPS = [("cpp", "cpp::cpp_token_type_by_code", "token_type_codes", "enum"), ("java", "java::token_type_by_code", "token_type_codes", "enum"),
           ("js", "js::token_type_by_code", "token_type_codes", "enum"), ("kotlin", "kotlin::token_type_by_code", "token_type_codes", "enum"),
           ("lua", "lua::lua_token_type_by_code", "token_type_codes", "enum"), ("python", "python::token_type_by_code", "token_type_codes", "enum"),
           ("rust", "rust::token_type_by_code", "token_type_codes", "enum"),
           ("cpp", "cpp::is_string_literal_prefix", "strings", "bool"), ("python", "python::classify_string_prefix", "prefixes", "bool"),
           ("yaml", "yaml::match_plain_identifier", "entries", "prefix"), ("llvm", "llvm::classify_keyword", "keywords", "highlight"),
           ("nasm", "nasm::is_pseudo_instruction", "pseudo_instructions", "bool_ci"), ("nasm", "nasm::is_type", "types", "bool_ci"),
           ("nasm", "nasm::is_operator_keyword", "operator_keywords", "bool_ci"), ("nasm", "nasm::is_register", "registers", "bool_ci"),
           ("nasm", "nasm::is_label_instruction", "label_instructions", "bool_ci"),
           ("xml", "xml::match_att_type", "attlist_att_types", "length"), ("xml", "xml::match_default_decl_type", "default_decl_types", "length")]

# Functions that recognise operators: (source, expression over s, table, domain predicate, expectation override)
def wordless(c):
    return re.search(r"[^A-Za-z0-9_]", c) is not None
MATCHERS = [("bash", "bash::match_operator(s)", "token_type_codes", lambda c, i, t: wordless(c) and not c.startswith("$")),
            ("cpp", "cpp::match_preprocessing_op_or_punc(s, Lang::cpp)", "token_type_codes", lambda c, i, t: wordless(c)),
            ("cpp", "cpp::match_preprocessing_op_or_punc(s, Lang::c)", "token_type_codes", lambda c, i, t: wordless(c) and (t.get("token_type_sources") or [3] * 999)[i] & 1),
            ("java", "java::match_symbol(s)", "token_type_codes", lambda c, i, t: wordless(c)),
            ("kotlin", "kotlin::match_symbol(s)", "token_type_codes", lambda c, i, t: wordless(c)),
            ("python", "python::match_symbol(s)", "token_type_codes", lambda c, i, t: wordless(c)),
            ("js", "js::match_operator_or_punctuation(s)", "token_type_codes", lambda c, i, t: wordless(c)),
            ("lua", "lua::match_operator_or_punctuation(s)", "token_type_codes", lambda c, i, t: wordless(c)),
            ("rust", "rust::match_punctuation(s)", "token_type_codes", lambda c, i, t: wordless(c))]

def lookup_witness(tu, fn, kind, rows, keys):
    ci = kind == "bool_ci"
    f = fold if ci else (lambda x: x)
    have = {f(k) for k in keys}
    pos = list(dict.fromkeys(keys + ([k.upper() for k in keys] + [k[:1].upper() + k[1:] for k in keys] if ci else [])))
    idx = {k: i for i, k in enumerate(keys)}
    neg = []
    if kind in ("enum", "bool", "bool_ci"):
        for k in keys:
            for p in (k[:-1], k + "\x01", k + "~", k[:-1] + chr(ord(k[-1]) - 1) if ord(k[-1]) in range(2, 127) else "", k[:-1] + chr(ord(k[-1]) + 1) if ord(k[-1]) < 126 else "", k[:-1] + chr(ord(k[-1]) + 1) + "~" if ord(k[-1]) < 126 else ""):
                if p and f(p) not in have and (not ci or p.isascii()):
                    neg.append(p)
        neg = sorted(set(neg))
    if kind == "enum":
        body = "for (int i = 0; i < NP; ++i) { const auto r = ulight::%s(pos[i]); if (!r || int(*r) != want[i]) return i; }" % fn
    elif kind == "highlight":
        body = "for (int i = 0; i < NP; ++i) { if (int(ulight::%s(pos[i])) != want[i]) return i; }" % fn
    elif kind == "prefix":
        body = "for (int i = 0; i < NP; ++i) { if (ulight::%s(pos[i]).length != pos[i].length()) return i; }" % fn
    elif kind == "length":
        body = "for (int i = 0; i < NP; ++i) { if (ulight::%s(pos[i]) != pos[i].length()) return i; }" % fn
    else:
        body = "for (int i = 0; i < NP; ++i) { if (!ulight::%s(pos[i])) return i; }" % fn
    ns, fn = fn.split("::")
    body = body.replace("ulight::%s::%s" % (ns, fn), fn)
    t = '#include "lang/%s.cpp"\nnamespace ulight::%s {\n' % (tu, ns)
    want = []
    for k in pos:
        i = idx.get(k, -1)
        want.append(str(rows[i]["highlight"] if kind == "highlight" else i))
    t += "consteval long f() {\nconstexpr std::u8string_view pos[] { %s };\nconstexpr int want[] { %s };\nconstexpr int NP = %d;\n%s\n" % (
        ", ".join(lit(k) for k in pos), ", ".join(want), len(pos), body)
    if neg:
        t += "constexpr std::u8string_view neg[] { %s };\nfor (int i = 0; i < %d; ++i) if (%s(neg[i])) return NP + i;\n" % (", ".join(lit(k) for k in neg), len(neg), fn)
    t += "return -1; }\nstatic_assert(f() == -1);\n}\n"
    return t, ["'%s' is listed but not found as itself" % k for k in pos] + ["'%s' is not listed but found" % k for k in neg]

def matcher_witness(tu, call, codes, dom, override):
    ops = [(c, i) for i, c in enumerate(codes) if dom[i]]
    byt = {c: i for c, i in ops}
    def best(s):
        if override and override(s) is not None:
            return override(s)
        for n in range(len(s), 0, -1):
            if s[:n] in byt:
                return byt[s[:n]]
        return -1
    alpha = sorted({ch for c, _ in ops for ch in c if not ch.isalnum()})
    probe = set(ops_c for ops_c, _ in ops)
    for c, _ in ops:
        for a in alpha + ["a", " ", "0"]:
            probe.add(c + a)
    for c, _ in ops:         # every prefix of a listed operator, and every prefix followed by something else
        for n in range(1, len(c)):
            for a in ["", "a", " "] + alpha:
                probe.add(c[:n] + a)
    firsts = {c[0] for c, _ in ops}
    for b in range(1, 127):
        if chr(b) not in firsts:
            probe.add(chr(b)); probe.add(chr(b) + "=")
    probe = sorted(p for p in probe if not p.startswith("$") or not codes or "$" in firsts)
    ns, call = call.split("::", 1)
    t = '#include "lang/%s.cpp"\nnamespace ulight::%s {\n' % (tu, ns)
    t += "consteval long f() {\nconstexpr std::u8string_view in[] { %s };\nconstexpr int want[] { %s };\n" % (", ".join(lit(p) for p in probe), ", ".join(str(best(p)) for p in probe))
    t += "for (int i = 0; i < %d; ++i) { const std::u8string_view s = in[i]; const auto r = %s; if ((r ? int(*r) : -1) != want[i]) return i; }\nif (const std::u8string_view s; %s) return %d;\nreturn -1; }\nstatic_assert(f() == -1);\n}\n" % (len(probe), call, call, len(probe))
    return t, ["on '%s' the longest listed operator is %s, which is not what is matched" % (p, repr(codes[best(p)]) if best(p) >= 0 else "none") for p in probe] + ["an operator is matched in an empty text"]

def number_witness(kind, rows):
    def row(r):
        if kind == "prefixes":
            return "{ %s, %d, %s }" % (lit(r["str"]["s"]), r["base"], "true" if r["floating_point"] else "false")
        if kind == "exponents":
            return "{ %s, %d }" % (lit(r["str"]["s"]), r["base"])
        return lit(r["s"])
    ty = {"prefixes": "Number_Prefix", "exponents": "Exponent_Separator", "suffixes": "std::u8string_view"}[kind]
    keys = [(r["s"] if kind == "suffixes" else r["str"]["s"]) for r in rows]
    texts = [k + "1" if kind == "prefixes" else "1" + k + "1" if kind == "exponents" else "1" + k for k in keys]
    if kind == "suffixes":
        texts = texts + [x + " " for x in texts]
        keys = keys + keys
    field = {"prefixes": "prefix", "exponents": "exponent_sep", "suffixes": "suffix"}[kind]
    opt = {"prefixes": ".prefixes = t", "exponents": ".prefixes = {}, .exponent_separators = t", "suffixes": ".prefixes = {}, .suffixes = t"}[kind]
    # an entry of base 16 may consume its own separators as digits: only the entry found is compared
    t = '#include "parse_utils.cpp"\nusing namespace ulight;\nconsteval long f() {\nconstexpr %s t[] { %s };\nconstexpr std::u8string_view in[] { %s };\nconstexpr std::size_t want[] { %s };\n' % (
        ty, ", ".join(row(r) for r in rows), ", ".join(lit(x) for x in texts), ", ".join(str(len(k.encode())) for k in keys))
    t += "for (int i = 0; i < %d; ++i) { const Common_Number_Options o { %s }; if (match_common_number(in[i], o).%s != want[i]) return i; }\nreturn -1; }\nstatic_assert(f() == -1);\n" % (len(texts), opt, field)
    return t, ["in '%s' the listed '%s' is not found as a whole (an earlier entry hides it)" % (x, k) for x, k in zip(texts, keys)]

def check(rep):
    facts = ast_facts()
    tables, enums = {}, {}      # (tu, name, line) -> var
    for tu, d in facts.items():
        for e in d["enums"]:
            enums[e["name"]] = e
        for v in d["vars"]:
            if isinstance(v.get("value"), list):
                tables.setdefault((v["file"], v["line"], v["name"]), v)
    def table(d_tu, name, line):
        c = [v for (f, l, n), v in tables.items() if n == name]
        if len(c) > 1:
            c2 = [v for v in c if v["line"] == line and v["file"] == d_tu] or [v for v in c if v["file"] == d_tu]
            c = c2 or c
        return c[0] if c else None

    # 1. every table handed to a binary search
    seen, searched = set(), 0
    for tu, d in facts.items():
        if tu.endswith("main.cpp"):
            continue
        byname = {}
        for fn in d["functions"]:
            for c in fn["calls"]:
                byname.setdefault(c["to"], []).append((fn, c))
        for fn in d["functions"]:
            for c in fn["calls"]:
                a = c["args"]
                tail = c["to"].rsplit("::", 1)[-1]
                obj = a[0].get("var", "").rsplit("::", 1)[-1] if a else ""
                if obj in SEARCH:
                    rng, comp, proj = a[1], a[3] if len(a) > 3 else {}, a[4] if len(a) > 4 else {}
                elif tail in SEARCH and c["to"].startswith("std::"):
                    rng, comp, proj = a[0], a[3] if len(a) > 3 else {}, {}
                else:
                    continue
                order = None
                ct = comp.get("type", "")
                if not ct or re.search(r"ranges::less\b|std::less<", ct):
                    order = "natural"
                elif re.search(r"ranges::greater\b|std::greater<", ct):
                    order = "reverse"
                elif "lambda" in ct and any(x["op"] == "compare_to_lower" for x in fn["cmps"]):
                    order = "folded"
                ranges = []
                if rng.get("var") and table(fn["file"], rng["var"], rng.get("line")):
                    ranges.append((table(fn["file"], rng["var"], rng.get("line")), "%s:%s" % (os.path.relpath(fn["file"], REPO), c["line"])))
                elif rng.get("var") in [p["name"] for p in fn["params"]]:
                    k = [p["name"] for p in fn["params"]].index(rng["var"])
                    for caller, cc in byname.get(fn["name"], []):
                        if k < len(cc["args"]):
                            v = cc["args"][k]
                            t = v.get("vtype") and table(caller["file"], v.get("var"), None)
                            if t:
                                ranges.append((t, "%s:%s" % (os.path.relpath(caller["file"], REPO), cc["line"])))
                if not ranges:
                    rep.note("%s:%s: the range searched is not a constant table the analysis can see" % (os.path.relpath(fn["file"], REPO), c["line"]))
                for t, where in ranges:
                    if (t["file"], t["line"], where) in seen:
                        continue
                    seen.add((t["file"], t["line"], where))
                    pj = proj.get("memptr", "").rsplit("::", 1)[-1] or None
                    keys = [key_of(r, pj) for r in t["value"]]
                    name = short(t["name"])
                    if not keys or any(k is None for k in keys):
                        rep.note("%s: the keys of %s are not understood" % (where, name)); continue
                    searched += 1
                    rep.sample("%s searches %s (%d entries, %s order)" % (where, name, len(keys), order))
                    if isinstance(keys[0], tuple):
                        for i, (lo, hi) in enumerate(keys):
                            if lo > hi or (i and lo <= keys[i - 1][1]):
                                rep.violate("ranges:" + name, "%s: entry %d (U+%04X..U+%04X) of %s is not above the entry before it, and is not found by the search at %s" % (os.path.relpath(t["file"], REPO), i, lo, hi, name, where))
                        continue
                    if order is None:
                        rep.note("%s: the order of the search in %s is not understood" % (where, name))
                        for k in {k for k in keys if keys.count(k) > 1}:
                            rep.violate("dup:%s:%s" % (name, k), "%s: '%s' is listed twice in %s, searched at %s" % (os.path.relpath(t["file"], REPO), k, name, where))
                        continue
                    g = (lambda k: fold(k).encode()) if order == "folded" else (lambda k: k.encode() if isinstance(k, str) else k)
                    for i in range(1, len(keys)):
                        x, y = g(keys[i - 1]), g(keys[i])
                        if order == "reverse":
                            x, y = y, x
                        if x == y:
                            rep.violate("dup:%s:%s" % (name, keys[i]), "%s: '%s' is listed twice in %s (entries %d and %d), searched at %s" % (os.path.relpath(t["file"], REPO), keys[i], name, i - 1, i, where))
                        elif x > y:
                            rep.violate("order:%s:%s" % (name, keys[i]), "%s: '%s' stands before '%s' in %s, against the order of the search at %s" % (os.path.relpath(t["file"], REPO), keys[i - 1], keys[i], name, where))
    rep.count("binary searches over constant tables", searched, 12)

    # 2. tables in step: token text and token length; enumeration-indexed tables are complete
    steps = 0
    groups = {}
    for v in tables.values():
        groups.setdefault((v["file"], v["name"].rsplit("::", 1)[0]), []).append(v)
    for vs in groups.values():
        for a in vs:
            if not STR.search(a.get("elem") or ""):
                continue
            ka = [key_of(r, None) for r in a["value"]]
            if any(k is None for k in ka):
                continue
            for b in vs:
                if b is a or not re.search(r"unsigned char|unsigned (int|short|long)|^const int|size_t", b.get("elem") or "") or not all(isinstance(x, int) for x in b["value"]):
                    continue
                if abs(len(b["value"]) - len(ka)) > 2:
                    continue
                n = min(len(ka), len(b["value"]))
                if n < 5 or sum(len(ka[i].encode()) == b["value"][i] for i in range(n)) < 0.6 * n and "length" not in b["name"]:
                    continue
                steps += 1
                rep.sample("%s in step with %s" % (short(b["name"]), short(a["name"])))
                if len(b["value"]) != len(ka):
                    rep.violate("extent:" + short(b["name"]), "%s has %d entries and %s has %d" % (short(b["name"]), len(b["value"]), short(a["name"]), len(ka)))
                for i in range(n):
                    if len(ka[i].encode()) != b["value"][i]:
                        rep.violate("length:%s:%s" % (short(b["name"]), ka[i]), "%s: the length recorded for '%s' in %s is %d" % (os.path.relpath(b["file"], REPO), ka[i], short(b["name"]), b["value"][i]))
    rep.count("length tables in step with their texts", steps, 6)
    indexed = 0
    seen = set()
    for tu, d in facts.items():
        for fn in d["functions"]:
            for s in fn["subs"]:
                e = enums.get((s.get("enum") or "").replace("const ", "").replace("enum ", ""))
                m = re.search(r"\[(\d+)\]$|std::array<.*, (\d+)>$", s["base"].get("vtype", ""))
                n = int(m.group(1) or m.group(2)) if m else 0
                if not e or not n or (fn["file"], s["line"]) in seen:
                    continue
                seen.add((fn["file"], s["line"]))
                indexed += 1
                need = max(x[1] for x in e["values"]) + 1
                if n < need:
                    rep.violate("index:%s:%s" % (short(fn["name"]), e["name"]), "%s:%s: %s indexes a table of %d entries by %s, which has the enumerator %s = %d" % (os.path.relpath(fn["file"], REPO), s["line"], short(fn["name"]), n, e["name"], max(e["values"], key=lambda x: x[1])[0], need - 1))
    rep.count("tables indexed by an enumeration", indexed, 4)

    # 3. witnesses
    cx = overlay()
    fl = overlay_flags(cx)
    jobs, what = [], {}
    def tab(tu, name):
        f = os.path.join(REPO, "src/main/cpp/lang/%s.cpp" % tu)
        return next((v for v in tables.values() if v["file"] == f and v["name"].rsplit("::", 1)[-1] == name), None)
    for tu, fn, name, kind in LOOKUPS:
        t = tab(tu, name)
        if not t and name in ("prefixes", "strings", "entries"):
            t = None
        if name == "prefixes":
            f = os.path.join(REPO, "src/main/cpp/lang/%s.cpp" % tu)
            t = next((v for v in tables.values() if v["file"] == f and v["name"].rsplit("::", 1)[-1] == name and "Number_Prefix" not in v["type"]), None)
        if not t:
            rep.note("no table %s in %s.cpp" % (name, tu)); continue
        keys = [key_of(r, None) for r in t["value"]]
        if any(k is None for k in keys):
            rep.note("the keys of %s in %s.cpp are not understood" % (name, tu)); continue
        text, why = lookup_witness(tu, fn, kind, t["value"], keys)
        jobs.append(("c23 " + fn, text, 400_000_000, fl)); what["c23 " + fn] = (fn, why)
    for tu, call, name, pred in MATCHERS:
        t = tab(tu, name)
        if not t:
            rep.note("no table %s in %s.cpp" % (name, tu)); continue
        codes = [key_of(r, None) for r in t["value"]]
        other = {v["name"].rsplit("::", 1)[-1]: v["value"] for v in tables.values() if v["file"] == t["file"]}
        dom = [bool(pred(c, i, other)) for i, c in enumerate(codes)]
        ov = None
        if tu == "cpp":      # [lex.pptoken]: "<::" is "<" unless followed by ':' or '>'
            ov = lambda s, codes=codes: codes.index("<") if s.startswith("<::") and not s.startswith(("<:::", "<::>")) else None
        if tu == "js" and "?" in codes:       # OptionalChainingPunctuator :: ?. [lookahead not DecimalDigit]
            ov = lambda s, codes=codes: codes.index("?") if re.match(r"\?\.[0-9]", s) else None
        if tu == "kotlin" and "!" in codes:   # EXCL_IN, EXCL_IS end where an identifier would
            ov = lambda s, codes=codes: codes.index("!") if re.match(r"!i[ns][A-Za-z0-9_]", s) else None
        text, why = matcher_witness(tu, call, codes, dom, ov)
        jobs.append(("c23 " + call, text, 400_000_000, fl)); what["c23 " + call] = (call, why)
    n = 0
    for (f, line, name), v in sorted(tables.items(), key=lambda x: x[0]):
        kind = None
        if "Number_Prefix[" in v["type"]:
            kind = "prefixes"
        elif "Exponent_Separator[" in v["type"]:
            kind = "exponents"
        elif name.rsplit("::", 1)[-1] == "suffixes" and STR.search(v.get("elem") or ""):
            kind = "suffixes"
        if kind:
            text, why = number_witness(kind, v["value"])
            k = "c23 %s %s %d" % (os.path.basename(f), kind, n); n += 1
            jobs.append((k, text, 400_000_000, fl)); what[k] = ("%s of %s" % (kind, os.path.basename(f)), why)
    held = 0
    for k, r in run_witnesses(jobs).items():
        name, why = what[k]
        if r.status == "ok":
            held += 1
        elif r.status == "fail" and r.counter is not None:
            rep.violate("lookup:%s:%d" % (name, r.counter), "%s: %s" % (name, why[r.counter] if 0 <= r.counter < len(why) else "case %d" % r.counter))
        elif r.status == "fail":
            rep.violate("lookup:" + name, "%s: %s" % (name, r.text))
        else:
            rep.note("%s is not decided by a witness: %s" % (name, r.text[:200]))
    rep.count("lookup functions and matchers decided over their whole tables", held, 10)

main("C23", "every table handed to a binary search is strictly increasing in the order of the search (constant values from the type-checked program); recorded lengths equal the lengths of their texts; tables indexed by an enumeration cover it; lookup functions, operator matchers and number tables find every listed entry and the longest one (compile-time witnesses over whole tables)", check)
