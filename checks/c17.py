#!/usr/bin/env python3
"""C17: the JSON parser performs no dynamic allocation and reads only its input (effect rule)."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, cg, api

PROP = "C17"
RULE = ("Over the whole-program call graph from both parse_json entry points (calls of the visitor excluded): no function that allocates "
        "or frees memory, and none that depends on the locale, is reachable at -O0; and after optimisation (-O2, literals folded) none that reads up to a terminator "
        "instead of a given length.")
TERMINATED = re.compile(r"^(strlen|wcslen|str(cpy|cat|cmp|chr|rchr|str|spn|cspn|pbrk|tok|dup)|rawmemchr|strto.*|__isoc\w*|ato[fil]l?|sscanf)$")

def check(rep):
    g = cg.CG(vp.ir_facts("o0cfi", vp.O0CFI))
    _, j = api.api_roots(g)
    r = g.reach(j)
    rep.count("entry points", len(j), 2)
    rep.count("reachable functions", len([n for n in r if n in g.f and not g.f[n]["decl"]]), 80)
    for n in sorted(r):
        if n not in g.f or not g.f[n]["decl"]: continue
        d = g.f[n]["demangled"]
        if api.is_alloc(n) or "memory_resource" in d:
            rep.violate("alloc:" + n, "'%s' is reachable: %s" % (d, api.chain(g, j, n)))
        elif api.impure(n, d):
            rep.violate("locale:" + n, "'%s' depends on the locale or other ambient state: %s" % (d, api.chain(g, j, n)))
    for n in r:
        if n in g.f and g.f[n].get("dynalloca"):
            rep.violate("alloca:" + n, "%s allocates a run-time sized block" % g.f[n]["demangled"])
    for n in ("ulight_alloc", "ulight_free"):
        if n in r:
            rep.violate("alloc:" + n, "'%s' is reachable: %s" % (n, api.chain(g, j, n)))
    g2 = cg.CG(vp.ir_facts("o2", vp.O2))
    _, j2 = api.api_roots(g2)
    # indirect calls cannot be told apart by type here: only direct calls are followed
    edges = {n: {t: c for t, c in e.items() if any(k["to"] for k in c)} for n, e in g2.edges.items()}
    g2.edges = edges
    r2 = g2.reach(j2)
    ext2 = [n for n in r2 if n in g2.f and g2.f[n]["decl"]]
    rep.count("external functions examined", len(ext2) + len([n for n in r if n in g.f and g.f[n]["decl"]]), 4)
    for n in ext2:
        if TERMINATED.match(n):
            rep.violate("terminated:" + n, "'%s' reads up to a terminator: %s" % (n, api.chain(g2, j2, n)))
    rep.cover["externals_O0"] = sorted(g.f[n]["demangled"] for n in r if n in g.f and g.f[n]["decl"])
    rep.assume("std::from_chars reads only its range and allocates nothing (C++ standard); exception objects are created only on contract violations (C04).")

if __name__ == "__main__":
    vp.main(PROP, RULE, check)
