#!/usr/bin/env python3
"""C18: one allocator, matched release, no unchecked null (who-may-call and argument-forwarding rules over IR)."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, cg, api

PROP = "C18"
RULE = ("Over the whole-program call graph from the C interface and the JSON parser: (1) the only functions that call an allocation or release function of the runtime are "
        "the library's own allocation pair; (2) each of the pair forwards its size and alignment unchanged, and so do the C++ wrappers and the memory resource; "
        "(3) the state constructor and destructor pass the same constant size and alignment, those of the state structure; "
        "(4) the allocation pair is called only by the wrappers, by the memory resource and by the state functions, and the memory resource's raw "
        "allocate is called only from the standard containers, which release what they hold on every exit; "
        "(5) no result of an allocation is used before a null check, and the memory resource never returns null.")

SRC_STD = re.compile(r"/include/c\+\+/|/usr/lib/gcc")

def is_std(x):
    return x["demangled"].lstrip("void ").startswith(("std::", "__gnu_cxx::")) or bool(SRC_STD.search((x.get("file") or "")))

def forwards(rep, x, call, first, want, what):
    """Integer arguments of call from position `first` must be parameters `want` of x unchanged."""
    for k, p in enumerate(want):
        got = (call.get("args") or [])[first + k]
        if got != [p]:
            rep.violate("forward:%s:%d" % (what, k), "%s passes %s instead of its own parameter as argument %d of '%s' at %s" % (
                x["demangled"], got, first + k, call["to"], call["loc"]))

def check(rep):
    g = cg.CG(vp.ir_facts("o0cfi", vp.O0CFI))
    c, j = api.api_roots(g)
    roots = c + j
    r = g.reach(roots)
    # the resource's functions are reached through its vtable by any container, today or tomorrow
    res = [n for n, x in g.f.items() if re.match(r"ulight::\w+::do_(allocate|deallocate)\(", x["demangled"]) and not x["decl"]]
    rep.count("memory resource functions", len(res), 2)
    r |= g.reach(res)
    for n in ("ulight_alloc", "ulight_free", "ulight_new", "ulight_delete"):
        if n not in g.f or g.f[n]["decl"]:
            raise vp.Broken("no definition of " + n)
    sites = 0
    for n in sorted(r):
        x = g.f.get(n)
        if not x or x["decl"]: continue
        if re.search(r"~\w+\(\)$", x["demangled"]) and n.endswith("D0Ev"):
            continue  # deleting destructor of a class with a virtual destructor: emitted always, called only for objects created with new
        for call in x["calls"]:
            t = call["to"]
            if not t: continue
            if t == "_ZNSt3pmr20get_default_resourceEv" or t == "_ZNSt3pmr19new_delete_resourceEv":
                sites += 1
                rep.violate("resource:" + x["demangled"], "%s uses the default memory resource instead of the library's at %s; reached by %s" % (x["demangled"], call["loc"], api.chain(g, roots, n)))
            elif api.is_alloc(t):
                sites += 1
                if n not in ("ulight_alloc", "ulight_free"):
                    rep.violate("alloc:" + x["demangled"], "%s calls '%s' directly at %s; reached by %s" % (x["demangled"], g.f[t]["demangled"] if t in g.f else t, call["loc"], api.chain(g, roots, n)))
                elif n == "ulight_alloc":
                    forwards(rep, x, call, 0, ["p0", "p1"], "ulight_alloc")
                    if "nothrow" not in t:
                        rep.violate("throws:ulight_alloc", "ulight_alloc calls '%s', which reports failure by an exception instead of null" % g.f[t]["demangled"])
                else:
                    forwards(rep, x, call, 1, ["p1", "p2"], "ulight_free")
    rep.count("allocation call sites reached", sites, 2)
    # (2) wrappers
    for n, x in g.f.items():
        d = x["demangled"]
        pair = 0
        for call in x["calls"]:
            t = call["to"]
            if t is None: continue
            td = g.f[t]["demangled"] if t in g.f else t
            if t in ("ulight_alloc", "ulight_free") or td.startswith(("ulight::alloc(", "ulight::free(")):
                pair += 1
                alloc = "alloc" in td
                base = 0 if alloc else 1
                if d.startswith(("ulight::alloc(", "ulight::free(")):
                    forwards(rep, x, call, base, ["p%d" % base, "p%d" % (base + 1)], d.split("(")[0])
                elif re.match(r"ulight::\w+::do_(de)?allocate\(", d):
                    forwards(rep, x, call, base, ["p%d" % (base + 1), "p%d" % (base + 2)], d.split("(")[0])
                elif n in ("ulight_new", "ulight_delete"):
                    pass
                elif n in r:
                    rep.violate("owner:" + d, "%s calls '%s' at %s: memory must be held by an owner that releases it on every exit" % (d, td, call["loc"]))
                if alloc and call.get("unchecked"):
                    for u in call["unchecked"]:
                        rep.violate("null:" + d, "%s uses the result of '%s' without a null check at %s" % (d, td, u))
        if not pair: continue
    for n in r:
        x = g.f.get(n)
        if not x or x["decl"] or is_std(x): continue
        for call in x["calls"]:
            ts = [call["to"]] if call["to"] else sorted(g.targets(call)) if call.get("virtual") else []
            for t in ts:
                if t and t in g.f and re.search(r"memory_resource::(de)?allocate\(|::do_(de)?allocate\(", g.f[t]["demangled"]) and not call["to"] is None:
                    rep.violate("owner:" + x["demangled"], "%s allocates raw memory from the memory resource at %s; memory must be held by an owning container" % (x["demangled"], call["loc"]))
    # (3)
    sizes = {}
    for n, t, base in (("ulight_new", "ulight_alloc", 0), ("ulight_delete", "ulight_free", 1)):
        cs = [k for k in g.f[n]["calls"] if k["to"] and (k["to"] == t or (k["to"] in g.f and g.f[k["to"]]["demangled"].startswith(t.replace("_", "::") + "(")))]
        if len(cs) != 1:
            rep.violate("pair:" + n, "%s does not call %s exactly once (%d calls)" % (n, t, len(cs)))
            continue
        sizes[n] = [a for a in cs[0]["args"][base:base + 2]]
    if len(sizes) == 2 and sizes["ulight_new"] != sizes["ulight_delete"]:
        rep.violate("pair:size", "ulight_new allocates (size, alignment) %s but ulight_delete releases %s" % (sizes["ulight_new"], sizes["ulight_delete"]))
    want = state_layout()
    if sizes.get("ulight_new") and sizes["ulight_new"] != [[want[0]], [want[1]]]:
        rep.violate("pair:state", "ulight_new allocates %s for a structure of size %d and alignment %d" % (sizes["ulight_new"], *want))
    rep.cover["state_allocation"] = {k: v for k, v in sizes.items()}
    # (5) the resource: every return is guarded
    for n in res:
        x = g.f[n]
        if "::do_allocate(" in x["demangled"] and x.get("returns_maybe_null"):
            rep.violate("null:" + x["demangled"], "%s may return null (%s) instead of reporting the failure" % (x["demangled"], x["returns_maybe_null"]))
    rep.cover["reachable_functions"] = len(r)
    rep.assume("The standard containers release their storage with the size and alignment they requested, on every exit (C++ standard).")

def state_layout():
    d = os.path.join(vp.BUILD, "wit"); os.makedirs(d, exist_ok=True)
    src = os.path.join(d, "layout.c")
    open(src, "w").write('#include "ulight/ulight.h"\nunsigned long vp_size = sizeof(ulight_state), vp_align = _Alignof(ulight_state);\n')
    r = vp.run([vp.LLVM + "/clang", "-std=c17", "-I", os.path.join(vp.REPO, "include"), "-S", "-emit-llvm", src, "-o", "-"])
    m = dict(re.findall(r"@vp_(size|align) = .*?global i64 (\d+)", r.stdout))
    if len(m) != 2: raise vp.Broken("layout witness: " + r.stderr[-500:])
    return int(m["size"]), int(m["align"])

if __name__ == "__main__":
    vp.main(PROP, RULE, check)
