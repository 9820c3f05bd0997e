#!/usr/bin/env python3
"""C06: no shared mutable state, no ambient input (effect rule over the whole-program call graph)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, cg, api

PROP = "C06"
RULE = ("From every function of the C interface and the JSON parser, over the whole-program call graph (LLVM IR, indirect calls by C++ type): "
        "(1) no reachable function uses a variable with static or thread storage that is not constant, other than to load it when "
        "nothing in the library ever writes it; guard variables of lazily initialised statics count as written; "
        "(2) no reachable external function is one whose result depends on clock, environment, locale, randomness, files, threads or "
        "process state; (3) no inline assembly, no volatile or atomic access.")
# The hook through which an embedding program replaces what happens on a failed internal check. The library only reads it.
CALLER_HOOK = "ulight::assertion_handler"

def check(rep):
    g = cg.CG(vp.ir_facts("o0cfi", vp.O0CFI))
    c, j = api.api_roots(g)
    roots = c + j
    r = g.reach(roots)
    rep.count("API roots", len(roots), 16)
    rep.count("reachable functions", len([n for n in r if n in g.f and not g.f[n]["decl"]]), 900)
    mutable = {n for n, x in g.g.items() if not x["const"] and not n.startswith("llvm.")
               and not n.startswith(("_ZTV", "_ZTI", "_ZTS", "_ZSt7nothrow", "__dso_handle"))}
    rep.cover["mutable_globals"] = sorted(g.g[n]["demangled"] for n in mutable)
    written = set()
    for n, x in g.f.items():
        for s in x["stores"]:
            written |= {t[1:] for t in s["to"]}
        written |= {a for a in x["addr"] if a in mutable}
    uses = 0
    for n in sorted(r):
        x = g.f.get(n)
        if not x or x["decl"]:
            continue
        for what, items, field in (("writes", x["stores"], "to"), ("reads", x["loads"], "from")):
            for s in items:
                for t in s[field]:
                    t = t[1:]
                    if t not in mutable: continue
                    uses += 1
                    d = g.g[t]["demangled"]
                    if what == "reads" and (t not in written or d == CALLER_HOOK and g.g[t]["tls"]):
                        continue
                    rep.violate("state:" + d, "%s %s mutable %s '%s' at %s; reached by %s" % (
                        x["demangled"], what, "thread-local" if g.g[t]["tls"] else "static", d, s["loc"], api.chain(g, roots, n)))
        for t in x["addr"]:
            if t in mutable:
                d = g.g[t]["demangled"]
                if d == CALLER_HOOK and t not in {w[1:] for q in g.f.values() for s in q["stores"] for w in s["to"]}:
                    continue
                rep.violate("state:" + d, "%s uses the address of mutable variable '%s'; reached by %s" % (x["demangled"], d, api.chain(g, roots, n)))
        for call in x["calls"]:
            if call["to"] == "<asm>":
                rep.violate("asm:" + n, "%s contains inline assembly at %s" % (x["demangled"], call["loc"]))
        if x.get("volatile"):
            rep.violate("volatile:" + n, "%s makes a volatile or atomic access at %s" % (x["demangled"], x["volatile"]))
        for k in x.get("intrinsics", []):
            if k in ("llvm.readcyclecounter", "llvm.readsteadycounter", "llvm.read_register", "llvm.get.rounding", "llvm.x86.rdtsc"):
                rep.violate("ambient:" + k, "%s reads %s" % (x["demangled"], k))
    rep.count("uses of mutable variables examined", uses, 0)
    ext = sorted(n for n in r if n in g.f and g.f[n]["decl"])
    rep.count("external functions examined", len(ext), 5)
    for n in ext:
        if api.impure(n, g.f[n]["demangled"]):
            rep.violate("ambient:" + n, "external function '%s' depends on ambient state; reached by %s" % (g.f[n]["demangled"], api.chain(g, roots, n)))
    rep.cover["externals"] = [g.f[n]["demangled"] for n in ext]
    rep.assume("External functions not in the checker's table of ambient functions compute from their arguments only.")
    rep.assume("The caller does not share one state object, its buffers or its callbacks' data between threads; the assertion hook is set by the caller, not by the library.")

if __name__ == "__main__":
    vp.main(PROP, RULE, check)
