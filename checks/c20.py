#!/usr/bin/env python3
"""C20: the JavaScript bindings agree with the compiled interface."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import *
import iface, capi, flow, c11

RULE = ("The JavaScript module is evaluated abstractly (every method with symbolic parameters, calls between methods followed), which yields every use of an "
        "export and every access to the module's memory with its address as a linear form. Each address must be a field of the structure its base points to, "
        "as clang lays the C header out for wasm32, with the field's size and the array's element size; each value stored must suit the field; pointer and "
        "length always come from the same pair of fields; each export used must exist, be kept by the linker, and be called with the number of arguments of "
        "its C declaration.")
RUNTIME = {"memory", "_initialize", "__indirect_function_table"}

def wasm_layout():
    """Records, functions and variables of the C header for wasm32."""
    d = os.path.join(BUILD, "wasm")
    os.makedirs(d, exist_ok=True)
    for n, t in (("stdlib.h", "#include <stddef.h>\n"), ("uchar.h", "typedef unsigned char char8_t;\n")):
        open(os.path.join(d, n), "w").write(t)
    src = os.path.join(d, "w.cpp")
    open(src, "w").write('#include "ulight/ulight.h"\n')
    args = ["--target=wasm32-unknown-unknown", "-std=c++23", "-nostdinc", "-isystem", d, "-isystem", "/usr/lib/llvm-18/lib/clang/18/include", "-I", os.path.join(REPO, "include"), "-w", src]
    r = run([CLANGXX, "-fsyntax-only", "-Xclang", "-ast-dump=json"] + args)
    if r.returncode:
        raise Broken("the C header does not compile for wasm32: " + r.stderr[-1000:])
    fns, vars_, recs = {}, {}, {}
    def walk(n):
        k, nm = n.get("kind"), n.get("name", "")
        if k == "FunctionDecl" and nm.startswith("ulight_"):
            fns[nm] = ([(c.get("name", ""), c["type"]["qualType"]) for c in n.get("inner", []) if c["kind"] == "ParmVarDecl"], n["type"]["qualType"].split("(")[0].strip()); return
        if k == "VarDecl" and nm.startswith("ulight_"):
            vars_[nm] = n["type"]["qualType"]; return
        if k == "CXXRecordDecl" and nm.startswith("ulight_") and n.get("completeDefinition"):
            recs[nm] = [(f["name"], f["type"]["qualType"]) for f in n.get("inner", []) if f["kind"] == "FieldDecl"]
        if k in ("TranslationUnitDecl", "LinkageSpecDecl"):
            for c in n.get("inner", []): walk(c)
    walk(json.loads(r.stdout))
    # offsets, as constants of the compiler
    t = ['#include "ulight/ulight.h"', "#include <stddef.h>"]
    for rn, fs in recs.items():
        t.append("extern const int vp_size_%s = sizeof(%s);" % (rn, rn))
        t.append("extern const int vp_algn_%s = alignof(%s);" % (rn, rn))
        for i, (f, _) in enumerate(fs):
            t.append("extern const int vp_foff_%d_%s = offsetof(%s, %s);" % (i, rn, rn, f))
            t.append("extern const int vp_fsiz_%d_%s = sizeof(((%s*)0)->%s);" % (i, rn, rn, f))
    open(src, "w").write("\n".join(t) + "\n")
    r = run([CLANGXX, "-S", "-emit-llvm", "-o", "-"] + args)
    if r.returncode:
        raise Broken("wasm32 layout: " + r.stderr[-1000:])
    c = {m.group(1): int(m.group(2)) for m in re.finditer(r"@vp_(\w+) = .*?constant i32 (-?\d+)", r.stdout)}
    out = {}
    for rn, fs in recs.items():
        out[rn] = {"size": c["size_" + rn], "align": c["algn_" + rn], "fields": [(f, ty, c["foff_%d_%s" % (i, rn)], c["fsiz_%d_%s" % (i, rn)]) for i, (f, ty) in enumerate(fs)]}
    return fns, vars_, out

def lin(v):
    return v if v and "t" in v else None

def key(v):
    if v is None: return "?"
    if "or" in v: return "{" + "|".join(sorted(set(key(x) for x in v["or"]))) + "}"
    if "t" in v: return " + ".join(sorted("%g*%s" % (c, k) for k, c in v["t"].items()) + (["%g" % v["c"]] if v["c"] or not v["t"] else []))
    return json.dumps(v)

def atom(v):
    """The single symbol a value is, if it is one."""
    if v and "t" in v and len(v["t"]) == 1 and not v["c"]:
        (k, c), = v["t"].items()
        return k if c == 1 else None
    return None

def const(v):
    return v["c"] if v and "t" in v and not v["t"] else None

def partner(rec, f):
    """The length that belongs to a pointer field."""
    names = [x[0] for x in rec["fields"]]
    for c in (f + "_length", "length"):
        if c in names and c != f:
            return c
    return None

def check(rep):
    files = [p for p in sorted(glob.glob(os.path.join(REPO, "www/js/*.js"))) if re.search(r"_exports|\.exports\b", open(p, encoding="utf-8").read())]
    if not files:
        rep.note("no JavaScript module uses the exports"); rep.count("JavaScript modules", 0, 0); return
    fns, vars_, recs = wasm_layout()
    facts = ast_facts()
    enums = iface.merged_enums(facts)
    status = iface.values(enums, "ulight_status")
    ir = ir_facts("O0", O0)
    used = set()
    for g in ir["globals"]:
        if g["name"] in ("llvm.used", "llvm.compiler.used"):
            used |= set(g.get("refs", []))
    if not used:
        other = "".join(open(os.path.join(REPO, f), encoding="utf-8").read() for f in ("CMakeLists.txt", "include/ulight/impl/platform.h") if os.path.exists(os.path.join(REPO, f)))
        if re.search(r"EXPORTED_FUNCTIONS|--export|KEEPALIVE|export_name", other):
            rep.note("exports are kept by other means than [[gnu::used]]")
        else:
            used = {"-"}
    rep.count("structures laid out for wasm32", len(recs), 3)
    nacc = ncall = nexp = 0
    for p in files:
        r = run(["node", os.path.join(VERIF, "engine/jsfacts.cjs"), p])
        if r.returncode:
            raise Broken("jsfacts: " + r.stderr[-800:])
        d = json.loads(r.stdout)
        a, b, c = judge(rep, d["events"], fns, vars_, recs, status, used)
        nacc += a; ncall += b; nexp += c
    rep.count("JavaScript modules", len(files))
    rep.count("memory accesses whose structure is known", nacc, 5)
    rep.count("calls of exports", ncall, 5)
    rep.count("uses of exports", nexp, 5)
    converter(rep)
    # the trampoline that turns a JavaScript function into a table entry
    ty = next((t for f, t, o, z in recs.get("ulight_state", {"fields": []})["fields"] if f == "flush_text"), None)
    w = os.path.join(REPO, "src/main/wasm/f_i32_i32_i32_to_void.wasm")
    if ty and os.path.exists(w):
        n = len(re.search(r"\(\*\)\((.*)\)", ty).group(1).split(","))
        sig = b"\x60" + bytes([n]) + b"\x7f" * n + b"\x00"
        if sig not in open(w, "rb").read():
            rep.violate("trampoline", "src/main/wasm/f_i32_i32_i32_to_void.wasm has no function type of %d i32 parameters, and flush_text is '%s'" % (n, ty))

def converter(rep):
    """The theme converter: short strings (as in C11), and the default tag and attribute of the generated HTML."""
    types = sorted(set(iface.values(iface.merged_enums(ast_facts()), "ulight_highlight_type").values()))
    c11.themes(rep, types)
    a = capi.Api()
    fl = a.run("ulight_init", {})
    dflt = {}
    for s, v, i in fl.returns:
        for n in ("html_tag_name", "html_attr_name"):
            x, l = a.field(s, n), a.field(s, n + "_length")
            if isinstance(x, tuple) and x[0] == "ptr" and x[1][0] == "glob" and isinstance(l, int):
                dflt[n] = a.d["globals"].get(x[1][1], {}).get("str", "")[x[2]:][:l]
    p = os.path.join(REPO, "scripts/theme-to-css.cjs")
    n = 0
    if len(dflt) == 2 and os.path.exists(p):
        for m in re.finditer(r"([\w-]+)\[([\w-]+)[\^|~*]?=[\"']?\$\{(\w+)", open(p, encoding="utf-8").read()):
            if m.group(1).startswith("data-") or m.group(2).startswith("data-ulight"):
                continue
            n += 1
            if (m.group(1), m.group(2)) != (dflt["html_tag_name"], dflt["html_attr_name"]):
                rep.violate("converter:selector", "scripts/theme-to-css.cjs generates selectors '%s[%s=...]', and the library writes <%s %s=...>" % (m.group(1), m.group(2), dflt["html_tag_name"], dflt["html_attr_name"]))
    rep.count("selectors of the theme converter", n, 0)
    t = c11.table(types)
    short = {s for l, s in (t or {}).values() if s}
    k = 0
    for p in sorted(glob.glob(os.path.join(REPO, "www/css/*.css"))):
        for m in re.finditer(r"\[data-h\^?=[\"']?([\w-]+)", open(p, encoding="utf-8").read()):
            k += 1
            if short and m.group(1) not in short:
                rep.violate("css:" + m.group(1), "%s selects '%s', which is no short string of a highlight type" % (os.path.relpath(p, REPO), m.group(1)))
    rep.count("selectors in bundled style sheets", k, 0)

def judge(rep, events, fns, vars_, recs, status, used):
    nacc = ncall = nexp = 0
    bad = lambda k, e, t: rep.violate("%s:%s" % (e.get("method", "").split(".")[-1], k), "%s (%s): %s" % (e["at"], e.get("method"), t))
    # what a symbol points to
    def base(sym, st):
        """(record or scalar type, is array)"""
        m = re.match(r"ret:(\w+)#", sym)
        if m:
            if sym in st["struct"]:
                return st["struct"][sym], False
            f = fns.get(m.group(1))
            if f and f[1].replace("struct ", "").rstrip(" *") in recs and f[1].endswith("*"):
                return f[1].replace("struct ", "").rstrip(" *"), False
        m = re.match(r"export:(\w+)$", sym)
        if m and m.group(1) in vars_:
            t = vars_[m.group(1)].replace("const ", "").replace("struct ", "")
            a = re.match(r"(.*?) *\[.*\]$", t)
            return (a.group(1), True) if a else (t, False)
        return None, False
    def locate(e, st):
        """(record, field, instance) of an access, reporting what fits no field."""
        a = lin(e["addr"])
        if a is None:
            return None
        bs = [(s, c) for s, c in a["t"].items() if base(s, st)[0]]
        if not bs:
            # a constant address, or one out of a number
            return None
        if len(bs) > 1:
            return None
        s, co = bs[0]
        t, arr = base(s, st)
        others = {k: c for k, c in a["t"].items() if k != s}
        nm = re.sub(r"#\d+$", "()", s.replace("ret:", "").replace("export:", ""))
        if co != 1:
            bad("addr:" + nm, e, "the address of %s is scaled by %g" % (nm, co)); return None
        if t not in recs:
            if t in ("size_t", "int", "unsigned int", "unsigned long"):
                if (a["c"] or others) and not arr:
                    bad("addr:" + nm, e, "access at offset %g of %s, which is a %s" % (a["c"], nm, t))
                elif e["size"] != 4:
                    bad("size:" + nm, e, "%d bytes of %s, which has 4" % (e["size"], nm))
                return (None, nm, s)
            return None
        r = recs[t]
        off = a["c"]
        if others:
            if not arr:
                rep.note("%s: computed offset into %s" % (e["at"], t)); return None
            for k, c in others.items():
                if c % r["size"]:
                    bad("stride:" + nm, e, "elements of %s are %d bytes apart, and an element is addressed every %g bytes" % (nm, r["size"], c)); return None
                for s2, kd in st["loaded"].items():
                    if s2 == k and kd[0] and kd[1] != "lang" and "display_names" in nm:
                        bad("index:" + nm, e, "%s is indexed with %s" % (nm, kd[1]))
        if arr:
            off %= r["size"]
        for f, ty, o, z in r["fields"]:
            if o == off:
                if z != e["size"]:
                    bad("size:%s.%s" % (t, f), e, "%d bytes of %s.%s, which has %d" % (e["size"], t, f, z))
                inst = key({"c": a["c"] - off, "t": a["t"]})
                return (t, f, inst)
        bad("offset:%s:%g" % (t, off), e, "offset %g of %s is not the start of a field (for wasm32 the fields start at %s)" % (off, t, ", ".join("%s %d" % (f, o) for f, ty, o, z in r["fields"])))
        return None
    st = None
    def reset():
        return {"struct": {}, "loaded": {}, "alloc": {}, "copied": {}, "stored": {}, "freed": []}
    st = reset()
    for e in events:
        k = e["e"]
        if k == "method":
            st = reset(); continue
        if k == "export":
            nexp += 1
            if e["name"] not in fns and e["name"] not in vars_ and e["name"] not in RUNTIME:
                bad("export:" + e["name"], e, "the module has no export '%s': the C header declares no such function or variable" % e["name"])
            elif e["name"] not in RUNTIME and used and e["name"] not in used:
                bad("export:" + e["name"], e, "%s is not marked as used (ULIGHT_EXPORT), so the linker drops it from the module" % e["name"])
        if k == "call":
            n = e["name"]
            if n not in fns:
                if n in vars_: bad("call:" + n, e, "%s is a variable" % n)
                continue
            ncall += 1
            ps, ret = fns[n]
            sret = ret in recs
            want = len(ps) + (1 if sret else 0)
            args = e["args"]
            if e.get("spread"):
                rep.note("%s: spread arguments" % e["at"]); continue
            if len(args) != want:
                bad("args:" + n, e, "%s takes %d arguments%s and gets %d" % (n, want, " (the first for the result)" if sret else "", len(args))); continue
            if sret and atom(args[0]):
                st["struct"][atom(args[0])] = ret
                al = st["alloc"].get(atom(args[0]))
                if al and const(al[0]) is not None and const(al[0]) < recs[ret]["size"]:
                    bad("result:" + n, e, "%s writes %d bytes into %g" % (n, recs[ret]["size"], const(al[0])))
            if n == "ulight_alloc":
                st["alloc"][e["id"]] = (args[0], args[1])
                c = const(args[1])
                if (c is not None and (c <= 0 or int(c) & (int(c) - 1))) or (c is None and any(x.startswith("len(") for x in (args[1].get("t") or {}))):
                    bad("align", e, "ulight_alloc is given the alignment %s" % key(args[1]))
            elif n == "ulight_free":
                al = st["alloc"].get(atom(args[0]) or "")
                if al:
                    if key(al[0]) != key(args[1]):
                        bad("free:size", e, "memory of %s bytes is freed as %s bytes" % (key(al[0]), key(args[1])))
                    if key(al[1]) != key(args[2]):
                        bad("free:align", e, "memory allocated with alignment %s is freed with %s" % (key(al[1]), key(args[2])))
            else:
                off = 1 if sret else 0
                for i, (pn, pt) in enumerate(ps):
                    v = args[i + off]
                    if pn.endswith("_length") and i and ps[i - 1][0] == pn[:-7]:
                        al = st["alloc"].get(atom(args[i + off - 1]) or "")
                        if al and key(al[0]) != key(v):
                            bad("length:" + n, e, "%s is given a text of %s bytes and the length %s" % (n, key(al[0]), key(v)))
                        elif atom(v) in st["alloc"]:
                            bad("length:" + n, e, "%s is given an address as length" % n)
                    elif pt.replace("const ", "").replace("struct ", "").strip() == "ulight_state *":
                        b = atom(v)
                        if b in st["alloc"] and b not in st["struct"]:
                            bad("state:" + n, e, "%s is given a block that is not a state" % n)
                if n in ("ulight_source_to_html", "ulight_source_to_tokens") and atom(args[0]):
                    done(rep, bad, e, n, st, recs, atom(args[0]), st["alloc"])
        if k in ("load", "store"):
            w = locate(e, st)
            if w is None:
                continue
            nacc += 1
            if k == "load":
                st["loaded"][e["id"]] = w
            elif w[0]:
                st["stored"][(w[2], w[1])] = (e["value"], e)
                value(rep, bad, e, w, st, recs)
        if k == "copy":
            a = lin(e["addr"])
            if a and atom(a) in st["alloc"]:
                st["copied"][atom(a)] = e["data"]
                al = st["alloc"][atom(a)]
        if k == "text":
            b, z = lin(e["begin"]), lin(e["end"])
            s = atom(b) if b else None
            if s in st["loaded"] and st["loaded"][s][0]:
                t, f, inst = st["loaded"][s]
                r = recs[t]
                ln = {x: c for x, c in (z or {"t": {}})["t"].items() if x != s} if z else {}
                pf = partner(r, f)
                ty = next(x[1] for x in r["fields"] if x[0] == f)
                if "*" not in ty:
                    bad("text:%s.%s" % (t, f), e, "%s.%s is used as the address of a text" % (t, f))
                elif z and z["t"].get(s) == 1 and len(ln) == 1 and not z["c"]:
                    (l, co), = ln.items()
                    if l in st["loaded"]:
                        lt, lf, li = st["loaded"][l]
                        if (lt, lf, li) != (t, pf, inst) or co != 1:
                            bad("text:%s.%s" % (t, f), e, "a text at %s.%s is read with %s.%s as its length" % (t, f, lt, lf))
            m = re.match(r"cb(\d+):(\d+)$", s or "")
            if m and z:
                ln = [x for x in z["t"] if x != s]
                ty = next((x[1] for x in recs.get("ulight_state", {"fields": []})["fields"] if x[0] == "flush_text"), "")
                ps = [x.strip() for x in re.search(r"\(\*\)\((.*)\)", ty).group(1).split(",")] if "(*)" in ty else []
                wi = [i for i, x in enumerate(ps) if "char" in x]
                wl = [i for i, x in enumerate(ps) if "*" not in x]
                if wi and wl and (int(m.group(2)) not in wi or any(re.match(r"cb%s:\d+$" % m.group(1), x) and int(x.split(":")[1]) not in wl for x in ln)):
                    bad("callback", e, "the flush callback takes (%s), and the text is taken from other arguments" % ", ".join(ps))
        if k == "compare":
            for x, y in ((e["a"], e["b"]), (e["b"], e["a"])):
                s = atom(x)
                m = re.match(r"ret:(ulight_source_to_\w+)#", s or "")
                if m and const(y) is not None:
                    if const(y) not in status.values():
                        bad("status", e, "the status of %s is compared with %g, which is no status" % (m.group(1), const(y)))
    return nacc, ncall, nexp

def value(rep, bad, e, w, st, recs):
    """A value stored in a field of the state must suit it."""
    t, f, inst = w
    if t != "ulight_state":
        return
    v = e["value"]
    ty = next(x[1] for x in recs[t]["fields"] if x[0] == f)
    s = atom(v)
    isaddr = s in st["alloc"]
    islen = bool(v and "t" in v and any(x.startswith("len(") for x in v["t"])) or bool(v and "or" in v and all(any(y.startswith("len(") for y in (x.get("t") or {})) for x in v["or"]))
    c = const(v)
    if "(*)" in ty:
        if isaddr or islen or (c is not None and c != 0):
            bad("value:" + f, e, "%s, a callback, is set to %s" % (f, "an address" if isaddr else key(v)))
    elif "*" in ty:
        if f.endswith("_data"):
            return
        if islen or (c is not None and c != 0) or (s or "").startswith("ret:ulight_get_lang"):
            bad("value:" + f, e, "%s, a pointer, is set to %s" % (f, key(v)))
        elif (s or "").startswith("this._flush"):
            bad("value:" + f, e, "%s, a pointer, is set to a callback" % f)
    else:
        if isaddr:
            bad("value:" + f, e, "%s is set to the address of a block" % f)
        elif f == "flags" and c is not None and int(c) & ~3:
            bad("value:" + f, e, "flags are set to %g" % c)
        elif f == "lang" and (islen or (c is not None and not 0 <= c < 64)):
            bad("value:" + f, e, "lang is set to %s" % key(v))
        elif f == "lang" and c == 0:
            bad("value:" + f, e, "lang is set to no language")
        elif f == "flags" and (islen or "ret:" in key(v)):
            bad("value:" + f, e, "flags are set to %s" % key(v))

def done(rep, bad, e, n, st, recs, state, alloc):
    """At the call: what the state must hold by then."""
    inst = key({"c": 0, "t": {state: 1}})
    got = {f: v for (i, f), v in st["stored"].items() if i == inst}
    if not got:
        rep.note("%s: the state is set up elsewhere" % e["at"]); return
    need = ["source", "source_length", "lang", "token_buffer", "token_buffer_length"]
    need += ["text_buffer", "text_buffer_length", "flush_text"] if n.endswith("html") else ["flush_tokens"]
    for f in need:
        if f not in got:
            bad("unset:" + f, e, "%s is called, and %s has not been set" % (n, f))
    tok = recs.get("ulight_token", {"size": 12, "align": 4})
    seen = {}
    for f, el in (("source", 1), ("token_buffer", tok["size"]), ("text_buffer", 1)):
        if f not in got or f + "_length" not in got:
            continue
        a = atom(got[f][0])
        if a not in alloc:
            continue
        if a in seen:
            bad("shared:" + f, got[f][1], "%s and %s are set to the same block" % (seen[a], f))
        seen[a] = f
        size, align = alloc[a]
        l = got[f + "_length"][0]
        if el == 1:
            if key(l) != key(size):
                cs, cl = const(size), const(l)
                if cs is None or cl is None or cl > cs:
                    bad("size:" + f, got[f + "_length"][1], "%s has %s bytes, and %s_length is set to %s" % (f, key(size), f, key(l)))
        else:
            cs, cl = const(size), const(l)
            if cs is not None and cl is not None:
                if int(cl) * el > cs:
                    bad("size:" + f, got[f + "_length"][1], "%d tokens of %d bytes do not fit the buffer of %g bytes" % (cl, el, cs))
                elif cl > 0 and abs(cs / cl - round(cs / cl)) < 1e-9 and round(cs / cl) not in (el,) and cs % el:
                    bad("size:" + f, got[f + "_length"][1], "the buffer of %g bytes is taken for %g tokens of %d bytes, and a token has %d" % (cs, cl, round(cs / cl), el))
            else:
                ls, lz = lin(l), lin(size)
                if ls and lz and key({"c": ls["c"] * el, "t": {k: c * el for k, c in ls["t"].items()}}) != key(lz):
                    bad("size:" + f, got[f + "_length"][1], "%s has %s bytes and %s tokens of %d bytes" % (f, key(size), key(l), el))
            ca = const(align)
            if ca is not None and ca % tok["align"]:
                bad("align:" + f, got[f][1], "tokens need alignment %d, and the buffer has %g" % (tok["align"], ca))
        if f == "source" and a not in st["copied"]:
            bad("copy:source", got[f][1], "source is set to a block nothing was copied to")
        if f != "source" and a in st["copied"]:
            bad("copy:" + f, got[f][1], "%s is set to the block that holds %s" % (f, st["copied"][a]))
    if "lang" in got and "source_length" in got and key(got["lang"][0]) == key(got["source_length"][0]):
        bad("value:lang", got["lang"][1], "lang is set to the length of the source")

main("C20", RULE, check)
