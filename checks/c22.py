"""C22: character classes contain exactly the characters they stand for.
Witness: for every class, a translation unit asserting that the class and an independent reference definition agree,
decided by the compiler's constant evaluator; XID tables are compared with the Unicode character database."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *
from witness import run_witnesses

A = "ulight/impl/ascii_chars.hpp"
U = "ulight/impl/unicode_chars.hpp"
L = "ulight/impl/lang/%s.hpp"
# (header, expression naming the class, reference over code points `c`, reference over code units >= 0x80, also decide values beyond U+10FFFF)
# fmt: off
ITEMS = [
    (A, "ulight::is_ascii", "c <= 0x7f"), (A, "ulight::is_ascii_set", "c <= 0x7f"),
    (A, "ulight::is_ascii_digit", "digit(c)"), (A, "ulight::is_ascii_digit_set", "digit(c)"),
    (A, "ulight::is_ascii_binary_digit", "in(c,'0','1')"), (A, "ulight::is_ascii_binary_digit_set", "in(c,'0','1')"),
    (A, "ulight::is_ascii_octal_digit", "in(c,'0','7')"), (A, "ulight::is_ascii_octal_digit_set", "in(c,'0','7')"),
    (A, "ulight::is_ascii_lower_hex_digit", "digit(c)||in(c,'a','f')"), (A, "ulight::is_ascii_upper_hex_digit", "digit(c)||in(c,'A','F')"),
    (A, "ulight::is_ascii_hex_digit", "digit(c)||in(c,'a','f')||in(c,'A','F')"),
    (A, "ulight::is_ascii_upper_alpha", "upper(c)"), (A, "ulight::is_ascii_upper_alpha_set", "upper(c)"),
    (A, "ulight::is_ascii_lower_alpha", "lower(c)"), (A, "ulight::is_ascii_lower_alpha_set", "lower(c)"),
    (A, "ulight::is_ascii_alpha", "alpha(c)"), (A, "ulight::is_ascii_alphanumeric", "alnum(c)"),
    (A, "ulight::is_ascii_punctuation", "punct(c)"), (A, "ulight::is_ascii_printing", "in(c,0x20,0x7e)"),
    (U, "ulight::is_ascii_xid_start", "alpha(c)"), (U, "ulight::is_ascii_xid_continue", "word(c)"),
    (U, "ulight::is_character_name", "upper(c)||digit(c)||c==' '||c=='-'"),
    (U, "ulight::is_code_point", "c <= 0x10ffff"), (U, "ulight::is_leading_surrogate", "in(c,0xd800,0xdbff)"),
    (U, "ulight::is_trailing_surrogate", "in(c,0xdc00,0xdfff)"), (U, "ulight::is_surrogate", "surrogate(c)"),
    (U, "ulight::is_scalar_value", "c<=0x10ffff&&!surrogate(c)"), (U, "ulight::is_noncharacter", "nonchar(c)"),
    (U, "ulight::is_private_use_area_character", "in(c,0xe000,0xf8ff)||in(c,0xf0000,0xfffff)||in(c,0x100000,0x10ffff)"),
    # bash
    ("bash", "bash::is_bash_whitespace", "c==' '||c==9||c==11||c==10||c==13"), ("bash", "bash::is_bash_blank", "c==' '||c==9"),
    ("bash", "bash::is_bash_metacharacter", "c!=0&&of(c,U\" \\t|&;()<>\")"),
    ("bash", "bash::is_bash_escapable_in_double_quotes", "of(c,U\"'$`\\\"\\\\\\n\")"),
    ("bash", "bash::is_bash_special_parameter", "of(c,U\"*@#?-$!0\")"),
    ("bash", "bash::is_bash_identifier_start", "word(c)&&!digit(c)"), ("bash", "bash::is_bash_identifier", "word(c)"),
    ("bash", "bash::is_bash_parameter_substitution_start", "of(c,U\"({*@#?-$!\")||word(c)"),
    ("bash", "bash::is_bash_unquoted_terminator", "of(c,U\"\\\\'\\\" \\t\\v\\r\\n|&;()<>\")"),
    # cowel
    ("cowel", "cowel::is_cowel_special", "of(c,U\"{}\\\\(),=\")"), ("cowel", "cowel::is_cowel_escapeable", "of(c,U\"{}\\\\\\\"'+\\r\\n\")"),
    ("cowel", "cowel::is_horizontal_whitespace", "c==' '||c==9||c==12"), ("cowel", "cowel::is_cowel_identifier_start", "word(c)&&!digit(c)"),
    ("cowel", "cowel::is_cowel_identifier", "word(c)"),
    # C and C++
    ("cpp", "cpp::is_cpp_ascii_identifier_start", "word(c)&&!digit(c)"), ("cpp", "cpp::is_cpp_ascii_identifier_continue", "word(c)"),
    ("cpp", "cpp::is_cpp_whitespace", "cpp_ws(c)"),
    ("cpp", "cpp::is_cpp_basic", "in(c,0x20,0x7e)||in(c,9,13)"),
    ("cpp", "cpp::is_cpp_d_char", "c<=0x7f&&!cpp_ws(c)&&c!='('&&c!=')'&&c!='\\\\'"),
    # CSS
    ("css", "css::is_css_newline", "c==10||c==13||c==12"), ("css", "css::is_css_whitespace", "html_ws(c)"),
    ("css", "css::is_css_ascii_identifier_start", "word(c)&&!digit(c)"), ("css", "css::is_css_ascii_identifier", "word(c)||c=='-'"),
    ("css", "css::is_css_identifier_start", "c>0x7f||word(c)&&!digit(c)", "false"), ("css", "css::is_css_identifier", "c>0x7f||word(c)||c=='-'", "false"),
    # EBNF
    ("ebnf", "ebnf::is_ebnf_relaxed_meta_identifier", "word(c)||c=='-'"), ("ebnf", "ebnf::is_ebnf_relaxed_meta_identifier_start", "word(c)&&!digit(c)"),
    # HTML
    ("html", "html::is_html_ascii_tag_name_character", "word(c)||c=='-'||c=='.'"), ("html", "html::is_html_ascii_control", "c<=0x1f||c==0x7f"),
    ("html", "html::is_html_control", "control(c)"), ("html", "html::is_html_tag_name_character", "pcen(c)"),
    ("html", "html::is_html_whitespace", "html_ws(c)"),
    ("html", "html::is_html_ascii_attribute_name_character", "in(c,0x21,0x7e)&&!of(c,U\"\\\"'>/=\")"),
    ("html", "html::is_html_attribute_name_character", "c<=0x7f?in(c,0x21,0x7e)&&!of(c,U\"\\\"'>/=\"):!control(c)&&!nonchar(c)"),
    ("html", "html::is_html_unquoted_attribute_value_terminator", "html_ws(c)||of(c,U\"\\\"'=<>`\")"),
    ("html", "html::is_html_ascii_unquoted_attribute_value_character", "c<=0x7f&&!(html_ws(c)||of(c,U\"\\\"'=<>`\"))"),
    ("html", "html::is_html_unquoted_attribute_value_character", "c>0x7f||!(html_ws(c)||of(c,U\"\\\"'=<>`\"))"),
    ("html", "html::is_html_min_raw_passthrough_character", "c!='<'&&c!='&'", "true"),
    # Java, JavaScript, JSON
    ("java", "java::is_java_whitespace", "html_ws(c)"),
    ("js", "js::is_js_whitespace", "js_ws(c)"), ("js", "js::is_js_identifier_start", "js_start(c)"), ("js", "js::is_js_identifier_part", "js_part(c)"),
    ("js", "js::is_jsx_tag_name_part", "js_part(c)||c=='-'||c==':'||c=='.'"),
    ("json", "json::is_json_whitespace", "c==' '||c==9||c==10||c==13"), ("json", "json::is_json_escapable", "of(c,U\"\\\"\\\\/bfnrtu\")"),
    ("json", "json::is_json_escaped", "of(c,U\"\\\"\\\\/\\b\\f\\n\\r\\t\")"),
    # the rest
    ("llvm", "llvm::is_llvm_identifier", "word(c)||of(c,U\"-$.\")"), ("llvm", "llvm::is_llvm_keyword", "word(c)||c=='-'"),
    ("lua", "lua::is_lua_whitespace", "cpp_ws(c)"), ("lua", "lua::is_lua_identifier_start", "word(c)&&!digit(c)"), ("lua", "lua::is_lua_identifier_continue", "word(c)"),
    ("markdown", "md::is_md_whitespace", "c==' '||c==9||c==10||c==13"), ("markdown", "md::is_md_space", "c==' '||c==9"),
    ("markdown", "md::is_md_ascii_punctuation", "punct(c)"),
    ("nasm", "nasm::is_nasm_identifier_start", "alpha(c)||of(c,U\"._?$\")"), ("nasm", "nasm::is_nasm_identifier", "alnum(c)||of(c,U\"_$#@~.?\")"),
    ("python", "python::is_python_whitespace", "html_ws(c)"), ("python", "python::is_python_newline", "c==10||c==13"),
    ("rust", "rust::is_rust_whitespace", "in(c,9,13)||c==32||c==0x85||c==0x200e||c==0x200f||c==0x2028||c==0x2029"),
    ("tex", "tex::is_tex_command_name", "alpha(c)"), ("tex", "tex::is_tex_special", "of(c,U\"~%$\\\\#&^_@\")"),
    ("xml", "xml::is_xml_whitespace", "c==' '||c==9||c==10||c==13"), ("xml", "xml::is_xml_name_start", "xml_start(c)"), ("xml", "xml::is_xml_name", "xml_name(c)&&c!='-'||c=='-'&&ulight::xml::is_xml_name(c)"),
    ("xml", "xml::is_contentspec_non_name_char", "of(c,U\"()|*+?,\")"),
    ("yaml", "yaml::is_yaml_whitespace", "c==' '||c==9"), ("yaml", "yaml::is_yaml_flow_indicator", "of(c,U\",[]{}\")"),
    ("yaml", "yaml::is_yaml_word_char", "alnum(c)||c=='-'"), ("yaml", "yaml::is_yaml_plain_terminator", "of(c,U\"\\r\\n,[]{}#\")"),
    ("yaml", "yaml::is_yaml_word_terminator", "of(c,U\"\\r\\n,[]{}# \\t&*!\")"),
]
# fmt: on
SETS = '''
using ulight::Charset256;
constexpr Charset256 a(u8"acegz09\\x7f\\x80\\xc0\\xff"), b(u8"bceh\\x3f\\x40\\x7f\\xbf\\xc0\\xfe");
constexpr bool ia(unsigned i) { return i=='a'||i=='c'||i=='e'||i=='g'||i=='z'||i=='0'||i=='9'||i==0x7f||i==0x80||i==0xc0||i==0xff; }
constexpr bool ib(unsigned i) { return i=='b'||i=='c'||i=='e'||i=='h'||i==0x3f||i==0x40||i==0x7f||i==0xbf||i==0xc0||i==0xfe; }
'''
ALGEBRA = {
    "union": "(a|b)(char8_t(i)) == (ia(i)||ib(i))",
    "intersection": "(a&b)(char8_t(i)) == (ia(i)&&ib(i))",
    "difference": "(a-b)(char8_t(i)) == (ia(i)&&!ib(i))",
    "complement": "(~a)(char8_t(i)) == !ia(i)",
    "with one more": "(a|char8_t(i))(char8_t(i)) && (a|u8'b')(char8_t(i)) == (ia(i)||i=='b')",
    "without one": "!(a-char8_t(i))(char8_t(i)) && (a-u8'c')(char8_t(i)) == (ia(i)&&i!='c')",
    "compound": "[&]{ auto x=a; x|=b; auto y=a; y&=b; auto z=a; z-=b; return x==(a|b)&&y==(a&b)&&z==(a-b)&&!(x==y); }()",
    "insert and remove": "[&]{ auto x=a; x.insert(char8_t(i)); bool in=x(char8_t(i)); x.remove(char8_t(i)); return in&&!x(char8_t(i))&&(x|char8_t(i))==(a|char8_t(i)); }()",
    "single character": "Charset256(char8_t(i))(char8_t(i)) && !Charset256(char8_t(i))(char8_t(i^1)) && !Charset256(char8_t(i))(char8_t(i^64))",
    "range_until": "[&]{ unsigned lo=i/3, hi=lo+(i*7)%(256-lo); auto r=Charset256::range_until(lo,hi); for(unsigned k=0;k<256;++k) if(r(char8_t(k))!=(k>=lo&&k<=hi)) return false; return true; }()",
    "range_before": "[&]{ unsigned lo=i/2, hi=lo+(i*5)%(257-lo); auto r=Charset256::range_before(lo,hi); for(unsigned k=0;k<256;++k) if(r(char8_t(k))!=(k>=lo&&k<hi)) return false; return true; }()",
    "from_predicate": "Charset256::from_predicate([](char8_t x){return ib(x);})(char8_t(i)) == ib(i)",
}
CASE = {
    "ulight::to_ascii_upper": ("lower(c)?c-32:c", "alpha"), "ulight::to_ascii_lower": ("upper(c)?c+32:c", "alpha"),
}

def body(header, expr, ref, high, lo, hi, step, what):
    if header.endswith(".hpp"):
        inc = header
    else:
        inc = L % header
        expr = "ulight::" + expr
    t = '#include "%s"\n#include "charref.hpp"\nusing namespace vpw;\n' % inc
    t += "constexpr auto ref = [](char32_t c) { return bool(%s); };\n" % ref
    t += "constexpr auto ref8 = [](char32_t c) { return c > 0x7f ? bool(%s) : ref(c); };\n" % high
    if what == "units":
        return t + "static_assert(differs8(%s, ref8) == -1);\nstatic_assert(differs_edges(%s, ref) == -1);\nstatic_assert(differs_beyond(%s, ref) == -1);\n" % (expr, expr, expr)
    return t + "static_assert(differs32(%s, ref, %dU, %dU, %dU) == -1);\n" % (expr, lo, hi, step)

def near(header, cache={}):
    """Code points next to every constant in the reference definitions and in the header itself."""
    if header not in cache:
        out = set()
        for f in (os.path.join(VERIF, "witness/charref.hpp"), os.path.join(REPO, "include", header if header.endswith(".hpp") else L % header), os.path.join(REPO, "include", U)):
            t = open(f).read() if os.path.exists(f) else ""
            for m in re.finditer(r"0x([0-9a-fA-F']{2,8})\b|\\u([0-9a-fA-F]{4})|\\U([0-9a-fA-F]{8})", t):
                out.add(int(next(g for g in m.groups() if g).replace("'", ""), 16))
            import unicodedata
            for m in re.finditer(r"\\N\{([A-Z0-9 -]+)\}", t):
                try: out.add(ord(unicodedata.lookup(m.group(1))))
                except KeyError: pass
        cache[header] = sorted({x + d for x in out if x >= 0x2fe for d in (-2, -1, 0, 1, 2) if 0x300 <= x + d <= 0x10ffff})
    return cache[header]

def xid(rep):
    import unicodedata
    src = os.path.join(REPO, "src/main/cpp/chars.cpp")
    f = ast_facts()[src]
    tab = {v["name"].split("::")[-1]: v for v in f["vars"] if "name" in v}
    def ranges(name):
        v = tab.get(name)
        if not v or not v.get("value"):
            return None
        out = []
        for e in v["value"]:
            e = [int(x) for x in (e.values() if isinstance(e, dict) else e)]
            out.append((min(e), max(e)))
        return out
    start, cont = ranges("XID_Start_Ranges"), ranges("XID_Continue_Minus_XID_Start")
    if start is None or cont is None:
        rep.note("XID tables not found under their names; not compared with the Unicode character database")
        return
    S, C = set(), set()
    for a, b in start: S.update(range(a, b + 1))
    C |= S
    for a, b in cont: C.update(range(a, b + 1))
    n = 0
    for c in range(0x110000):
        ch = chr(c)
        if unicodedata.category(ch) in ("Cn", "Cs"):
            continue
        n += 1
        us, uc = ch.isidentifier() and ch != "_", ("a" + ch).isidentifier()
        for name, have, want in (("is_xid_start", c in S, us), ("is_xid_continue", c in C, uc)):
            # Unicode 15.1 gave these the property; either answer is right, depending on the version of the table.
            if have != want and not (name == "is_xid_continue" and c in (0x200C, 0x200D, 0x30FB, 0xFF65)):
                rep.violate("xid:%s:%04X" % (name, c), "src/main/cpp/chars.cpp: %s is %s for U+%04X %s, but the Unicode character database says %s"
                            % (name, have, c, unicodedata.name(ch, "?"), want))
                return
    rep.count("assigned code points compared with the Unicode character database (XID tables)", n, 100000)

def check(rep):
    jobs, meta = [], {}
    steps = 2_000_000_000
    for it in ITEMS:
        header, expr, ref = it[:3]
        high = it[3] if len(it) > 3 else "ref(c)" if "0x7f" in ref and "c>" in ref else "false"
        n = expr + ":units"
        jobs.append((n, body(header, expr, ref, high, 0, 0, 1, "units"), steps)); meta[n] = it
        if TIER == "quick":
            # A class built from comparisons is constant between the constants it is compared with:
            # dense at the bottom, around every constant of the definitions and of the header, a stride elsewhere.
            parts = [(0, 0x300, 1), (0x300, 0x10000, 61)]
        else:
            parts = [(lo, min(lo + 0x22000, 0x110000), 1) for lo in range(0, 0x110000, 0x22000)]
        if TIER == "quick":
            n = expr + ":points"
            t = body(header, expr, ref, high, *parts[0], "points")
            for lo, hi, st in parts[1:]:
                t += body(header, expr, ref, high, lo, hi, st, "points").splitlines()[-1] + "\n"
            t += "constexpr char32_t near[] {%s};\nstatic_assert(differs_at(%s, ref, near) == -1);\n" % (
                ",".join("%dU" % x for x in near(header)), ("" if header.endswith(".hpp") else "ulight::") + expr)
            jobs.append((n, t, steps)); meta[n] = it
        else:
            for lo, hi, st in parts:
                n = expr + ":points:%x" % lo
                jobs.append((n, body(header, expr, ref, high, lo, hi, st, "points"), steps)); meta[n] = it
    for k, e in ALGEBRA.items():
        n = "Charset256 " + k
        jobs.append((n, '#include "ulight/impl/charset.hpp"\n' + SETS + "consteval long f() { for (unsigned i=0;i<256;++i) { if (!(%s)) return long(i); } return -1; }\nstatic_assert(f() == -1);\n" % e, steps))
        meta[n] = ("ulight/impl/charset.hpp", k, e)
    for k, (ref, _) in CASE.items():
        jobs.append((k, '#include "%s"\n#include "charref.hpp"\nusing namespace vpw;\nconsteval long f() { for (char32_t c=0;c<0x3000;++c) { if (char32_t(%s(c)) != char32_t(%s)) return long(c); if (c<256 && char32_t(%s(char8_t(c))) != char32_t(%s)) return long(c); }\n'
                     'for (char32_t c : {0x10041u,0x10061u,0x80000041u,0xffffff61u}) { if (%s(c) != c) return long(c); } return -1; }\nstatic_assert(f() == -1);\n' % (A, k, ref, k, ref, k), steps)); meta[k] = (A, k, ref)
    k = "xml::is_xml_name(HYPHEN-MINUS)"
    jobs.append((k, '#include "%s"\nstatic_assert(ulight::xml::is_xml_name(U\'-\'));\n' % (L % "xml"), steps)); meta[k] = ("xml", k, "true, see NameChar in XML 1.0")
    k = "ulight::is_ascii_digit_base"
    jobs.append((k, '#include "%s"\n#include "charref.hpp"\nusing namespace vpw;\nconsteval long f() { for (int base=1;base<=36;++base) for (char32_t c=0;c<0x180;++c) { '
                 'const long v = digit(c) ? long(c)-48 : lower(c) ? long(c)-97+10 : upper(c) ? long(c)-65+10 : 99; const bool ref = v < base;'
                 'if (%s(c,base) != ref) return long(c); if (c<256 && %s(char8_t(c),base) != ref) return long(c); } return -1; }\nstatic_assert(f() == -1);\n' % (A, k, k), steps)); meta[k] = (A, k, "digits of every base up to 36")
    # First one translation unit per header; only where that fails, one per class.
    groups = {}
    for n, t, st in jobs:
        groups.setdefault((meta[n][0], n.split(":points")[-1] if TIER != "quick" and ":points" in n else ""), []).append((n, t))
    def merged(parts):
        out, seen = "", set()
        for k, (n, t) in enumerate(parts):
            lines = t.splitlines()
            for l in [l for l in lines if l.startswith("#include")]:
                if l not in seen:
                    seen.add(l); out += l + "\n"
        for k, (n, t) in enumerate(parts):
            out += "namespace group%d {\n" % k + "\n".join(l for l in t.splitlines() if not l.startswith("#include")) + "\n}\n"
        return out
    gjobs = []
    for (h, part), parts in groups.items():
        gjobs.append(("group:%s:%s" % (h, part), merged(parts), steps))
    gres = run_witnesses(gjobs)
    res, again = {}, []
    for ((h, part), parts), gj in zip(groups.items(), gjobs):
        if gres[gj[0]].status == "ok":
            res.update((n, gres[gj[0]]) for n, _ in parts)
        else:
            names = {n for n, _ in parts}
            again += [j for j in jobs if j[0] in names]
    res.update(run_witnesses(again))
    ok = gone = 0
    seen = set()
    for n, t, _ in jobs:
        r = res[n]
        it = meta[n]
        if r.status == "ok":
            ok += 1
        elif r.status == "gone":
            gone += 1
            rep.note("%s: not decided here (%s)" % (n, r.text))
        elif r.status == "broken":
            raise Broken("%s: %s" % (n, r.text))
        elif it[1] not in seen:
            seen.add(it[1])
            cp = "" if r.counter is None else " first difference at U+%04X" % r.counter
            hdr = it[0] if it[0].endswith(".hpp") else L % it[0]
            rep.violate("class:" + it[1], "include/%s: %s does not agree with its definition `%s`:%s %s" % (hdr, it[1], it[2], cp, "" if r.counter is not None else r.text))
    rep.count("witnesses that held", ok, 60)
    rep.count("witnesses not applicable", gone, 0)
    rep.sample([{"class": i[1], "reference": i[2]} for i in ITEMS[:12]])
    xid(rep)

if __name__ == "__main__":
    main("C22", "every character class equals an independent reference definition over all 256 code units, all code points up to U+0300 and next to every constant of the definitions and the headers, a stride through the rest of the BMP "
         "and the edges of each plane (thorough: every code point); Charset operators equal set operations; XID tables equal the Unicode character database; decided by static_assert in the compiler", check)
