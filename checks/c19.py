#!/usr/bin/env python3
"""C19: the public C header compiles in every language mode it promises."""
import os, sys, re, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vp import *
import capi

RULE = ("The C header is type-checked on its own, and twice in a row, by clang and gcc in every C mode from C99 (and gnu89) and every C++ mode from C++98; in "
        "each clang mode the declared functions, variables and structures are read from the syntax tree and compared with those of the mode the library is "
        "built in; negative-size array witnesses check size, field offsets and constants in each mode of both compilers; every declared name must have an "
        "external definition in the linked library.")
CLANG = LLVM + "/clang"
C_MODES = ["gnu89", "c99", "gnu99", "c11", "gnu11", "c17", "gnu17", "c23", "gnu23"]
X_MODES = ["c++98", "gnu++98", "c++11", "gnu++11", "c++14", "c++17", "c++20", "gnu++20", "c++23", "gnu++23"]

def decls(node, out, rec):
    """Functions, variables and record fields named ulight_ in a clang syntax tree."""
    k, n = node.get("kind"), node.get("name", "")
    if k in ("FunctionDecl", "VarDecl") and n.startswith("ulight_"):
        out[n] = (k, node["type"].get("desugaredQualType", node["type"]["qualType"]) if k == "VarDecl" else node["type"]["qualType"])
        return
    if k in ("RecordDecl", "CXXRecordDecl") and n.startswith("ulight_") and node.get("completeDefinition"):
        rec[n] = [(f["name"], f["type"]["qualType"]) for f in node.get("inner", []) if f["kind"] == "FieldDecl"]
        return
    if k in ("TranslationUnitDecl", "LinkageSpecDecl"):
        for c in node.get("inner", []):
            decls(c, out, rec)

def canon(t):
    t = t.replace(" noexcept", "").replace("struct ", "").replace("enum ", "")
    t = re.sub(r"\(void\)", "()", t)
    return re.sub(r"\s+", " ", t).replace("char8_t", "char8_t").strip()

def check(rep):
    td = tempfile.mkdtemp(prefix="c19", dir=BUILD if os.path.isdir(BUILD) else None)
    try:
        return body(rep, td)
    finally:
        shutil.rmtree(td, ignore_errors=True)

def body(rep, td):
    inc = ["-I", os.path.join(REPO, "include")]
    alone, twice = os.path.join(td, "alone.c"), os.path.join(td, "twice.c")
    open(alone, "w").write('#include "ulight/ulight.h"\n')
    open(twice, "w").write('#include "ulight/ulight.h"\n#include "ulight/ulight.h"\nstatic ulight_state* f(void) { return ulight_new(); }\nint g(void);\nint g(void) { return f() == 0; }\n')
    facts = ast_facts()
    # layout and constants as the library itself sees them
    wit = ['#include "ulight/ulight.h"', '#include <stddef.h>']
    nl = 0
    seen = set()
    for d in facts.values():
        for r in d["records"]:
            if r["name"].startswith("ulight_") and r["fields"] and r["name"] not in seen:
                seen.add(r["name"])
                guard = "u8" in r["name"]
                if guard: wit.append("#ifdef ULIGHT_HAS_CHAR8")
                wit.append("typedef char vp_size_%s[sizeof(%s) == %d ? 1 : -1];" % (r["name"], r["name"], r["size"])); nl += 1
                for f in r["fields"]:
                    wit.append("typedef char vp_off_%s_%s[offsetof(%s, %s) == %d ? 1 : -1];" % (r["name"], f["name"], r["name"], f["name"], f["offset"])); nl += 1
                    wit.append("typedef char vp_fsz_%s_%s[sizeof(((%s*)0)->%s) == %d ? 1 : -1];" % (r["name"], f["name"], r["name"], f["name"], f["size"])); nl += 1
                if guard: wit.append("#endif")
    if "ulight_state" not in seen:
        rep.note("no layout of ulight_state")
    for d in facts.values():
        for e in d["enums"]:
            if e["name"].startswith("ulight_") and e["name"] not in seen:
                seen.add(e["name"])
                for n, v in e["values"]:
                    wit.append("typedef char vp_val_%s[%s == %d ? 1 : -1];" % (n, n, v)); nl += 1
    lay = os.path.join(td, "layout.c")
    open(lay, "w").write("\n".join(wit) + "\n")
    jobs = []
    for comp, cpath, xpath in (("clang", CLANG, CLANGXX), ("gcc", "gcc", "g++")):
        for m in C_MODES + X_MODES:
            cxx = "++" in m
            mm = m if comp == "clang" else re.sub("c23$|gnu23$", lambda x: x.group(0).replace("23", "2x"), m)
            for what, src in (("alone", alone), ("twice", twice), ("layout", lay)):
                jobs.append((comp, m, what, [xpath if cxx else cpath, "-x", "c++" if cxx else "c", "-std=" + mm, "-fsyntax-only", "-w", "-ferror-limit=5" if comp == "clang" else "-fmax-errors=5"] + inc + [src]))
            if m[:3] != "gnu" and m != "c++98":
                jobs.append((comp, m, "strict", [xpath if cxx else cpath, "-x", "c++" if cxx else "c", "-std=" + mm, "-fsyntax-only", "-pedantic-errors"] + inc + [alone]))
    sup = {}
    null = os.path.join(td, "null.c"); open(null, "w").write("int x;\n")
    def one(j):
        return j, run(j[3])
    def supported(j):
        r = run(j[3][:-1] + [null])
        return r.returncode == 0
    n = 0
    with ThreadPoolExecutor(8) as ex:
        for j, r in ex.map(one, jobs):
            n += 1
            if r.returncode:
                if not supported(j):
                    rep.note("%s has no mode %s" % (j[0], j[1])); continue
                err = [l for l in r.stderr.splitlines() if "error:" in l][:2]
                rep.violate("%s:%s:%s" % (j[2], j[0], j[1]), "include/ulight/ulight.h (%s) does not compile with %s -std=%s: %s" % (
                    {"alone": "included alone", "twice": "included twice", "strict": "without extensions", "layout": "layout and constants as in the library"}[j[2]], j[0], j[1], "; ".join(err)))
    rep.count("compilations", n, 60)
    rep.count("layout and constant witnesses per mode", nl, 100)
    # the declarations of each mode
    def tree(m):
        cxx = "++" in m
        r = run([CLANGXX if cxx else CLANG, "-x", "c++" if cxx else "c", "-std=" + m, "-w", "-fsyntax-only", "-Xclang", "-ast-dump=json"] + inc + [alone])
        if r.returncode:
            return m, None, None
        o, rec = {}, {}
        decls(json.loads(r.stdout), o, rec)
        return m, o, rec
    with ThreadPoolExecutor(8) as ex:
        got = {m: (o, rec) for m, o, rec in ex.map(tree, C_MODES + X_MODES) if o is not None}
    ref = got.get("c++23")
    if ref is None:
        rep.note("no declarations in C++23")
        return
    rep.count("functions and variables declared", len(ref[0]), 15)
    nd = 0
    for m, (o, rec) in sorted(got.items()):
        c8 = m in ("c23", "gnu23", "c++20", "gnu++20", "c++23", "gnu++23")
        for k, (kind, t) in ref[0].items():
            nd += 1
            if k not in o:
                if c8 or not (k.endswith("_u8") or "char8_t" in t or "u8string" in t):
                    rep.violate("decl:%s:%s" % (m, k), "include/ulight/ulight.h: %s is declared in C++23 but not with -std=%s" % (k, m))
                continue
            if canon(o[k][1]) != canon(t):
                rep.violate("type:%s:%s" % (m, k), "include/ulight/ulight.h: %s is '%s' with -std=%s and '%s' in C++23" % (k, o[k][1], m, t))
            if "++" not in m and m not in ("c23", "gnu23") and kind == "FunctionDecl" and o[k][1].endswith("()"):
                rep.violate("proto:%s" % k, "include/ulight/ulight.h: %s has no prototype in C ('%s')" % (k, o[k][1]))
        for k in o:
            if k not in ref[0]:
                rep.violate("decl:c++23:%s" % k, "include/ulight/ulight.h: %s is declared with -std=%s but not in C++23" % (k, m))
        for k, fs in ref[1].items():
            if k not in rec:
                if c8 or "u8" not in k:
                    rep.violate("record:%s:%s" % (m, k), "include/ulight/ulight.h: struct %s is defined in C++23 but not with -std=%s" % (k, m))
            elif [(a, canon(b)) for a, b in rec[k]] != [(a, canon(b)) for a, b in fs]:
                rep.violate("record:%s:%s" % (m, k), "include/ulight/ulight.h: struct %s differs between -std=%s and C++23" % (k, m))
    rep.count("declarations compared over all modes", nd, 100)
    # definitions
    ir = ir_facts("O0", O0)
    fn = {f["name"]: f for f in ir["functions"]}
    gl = {g["name"]: g for g in ir["globals"]}
    done = 0
    for k, (kind, t) in sorted(ref[0].items()):
        done += 1
        if kind == "FunctionDecl":
            f = fn.get(k)
            if f is None or f.get("decl") or f.get("local"):
                rep.violate("def:" + k, "include/ulight/ulight.h declares %s, and the library does not define it" % k)
        else:
            g = gl.get(k)
            if g is None or g.get("decl") or g.get("local"):
                rep.violate("def:" + k, "include/ulight/ulight.h declares the variable %s, and the library does not define it" % k)
    rep.count("declared names looked up among the definitions", done, 15)
    rep.sample("modes: " + " ".join(C_MODES + X_MODES))

main("C19", RULE, check)
