#!/usr/bin/env python3
"""C05: no unbounded recursion. Decided on the call graph of the whole library (LLVM IR, indirect calls
resolved by C++ type): every cycle is a violation unless it is a listed finding or passes through one of
the delegation edges below."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, cg

PROP = "C05"
RULE = ("Whole-program call graph over -O0 LLVM IR of all library sources; virtual and indirect calls are resolved by "
        "C++ type (cfi type metadata). Every cycle of the graph is a violation, keyed by the function whose re-entry "
        "closes it, unless (a) it is listed as a known finding, (b) it is a method of a wrapper object that calls the same "
        "virtual method of the object it wraps (the chain of wrapped objects can only grow through a cycle containing the "
        "wrapper's construction, and such a cycle is reported by itself), (c) it is the flush of a token buffer that "
        "forwards to an outer buffer (same argument), or (d) it leads through embedded-language dispatch and the relation "
        "'language A embeds language B', computed from the language constants each highlighter can pass, is acyclic.")

def dem(g, n):
    return g.f[n]["demangled"]

def short(d):
    """Function name without parameters and anonymous namespaces: stable under edits of the signature."""
    d = d.replace("(anonymous namespace)::", "")
    depth, out = 0, ""
    for ch in d:
        if ch == "<": depth += 1
        elif ch == ">": depth -= 1
        elif ch == "(" and depth == 0:
            break
        elif depth == 0: out += ch
    return out.split(" ")[-1]

def delegation(g, a, b, calls):
    """a -> b is a forwarding call to a wrapped object."""
    if a == b and all(c.get("virtual") for c in calls):
        return True
    return False

def check(rep):
    facts = vp.ir_facts("o0cfi", vp.O0CFI)
    g = cg.CG(facts)
    defined = [n for n, x in g.f.items() if not x["decl"]]
    rep.count("functions", len(defined), 1000)
    rep.count("call edges", sum(len(v) for v in g.edges.values()), 4000)
    known = vp.load_findings().get(PROP, {})
    # (b)
    cut = 0
    for a in list(g.edges):
        for b in list(g.edges[a]):
            if b in g.f and delegation(g, a, b, g.edges[a][b]):
                del g.edges[a][b]; cut += 1
    # (c) a buffer's flush reaching the forwarding callback of a sub-buffer
    for a in list(g.edges):
        if "Non_Owning_Buffer" in dem(g, a):
            for b in list(g.edges[a]):
                if b in g.f and all(c["to"] is None and not c.get("virtual") for c in g.edges[a][b]) and "Non_Owning_Buffer" not in dem(g, b).split("(")[0]:
                    del g.edges[a][b]; cut += 1
    rep.count("delegation edges cut", cut)
    # (d)
    disp = dispatchers(g)
    rep.count("language dispatchers", len(disp))
    dmap = dispatch_map()
    entry = sorted({c[1:] for cs in dmap.values() for c in cs if c[1:] in g.f})
    rep.count("highlighter entry points", len(entry), 15)
    emb = embedding(g, disp, dmap, entry)
    rep.cover["embedding"] = {short(dem(g, k)): sorted(short(dem(g, x)) for x in v) for k, v in emb.items()}
    if acyclic(emb):
        for d in disp:
            for b in list(g.edges[d]):
                if b in entry:
                    del g.edges[d][b]
        # whatever a highlighter embeds is still followed, at each call site of a dispatcher, below
    # remaining cycles
    n = 0
    removed, renamed = set(), []
    keys = {}
    for x in g.edges:
        keys.setdefault(short(dem(g, x)), []).append(x)
    for k in known:
        name = k.split("->")[0]
        if name not in keys:
            renamed.append(k)
            continue
        for f in keys[name]:
            if f in removed or not on_cycle(g, f):
                continue
            rep.violate(name, "recursion through " + name)
            for a in g.edges:
                if a != f:
                    g.edges[a].pop(f, None)
            # a direct self-call is a recursion of its own, listed separately
            removed.add(f)
    for f in removed:
        if f in g.edges[f]:
            key = short(dem(g, f)) + "->self"
            rep.violate(key, "%s calls itself at %s" % (short(dem(g, f)), g.edges[f][f][0]["loc"]))
            del g.edges[f][f]
    for s in g.sccs():
        n += 1
        head = min(s, key=lambda x: (g.f[x].get("file", ""), g.f[x].get("line", 0)))
        path = cycle_path(g, set(s), head)
        # the function a finding names was renamed: the finding then stands for the cycles of its class
        old = [k for k in renamed if all(short(dem(g, x)).startswith(k.rsplit("::", 1)[0] + "::") for x in s)]
        if old:
            rep.violate(old[0], "recursion in " + old[0].rsplit("::", 1)[0])
            continue
        rep.violate(short(dem(g, head)), "call cycle: " + " -> ".join(
            "%s (%s:%s)" % (short(dem(g, x)), os.path.basename(g.f[x].get("file", "?")), g.f[x].get("line", "?")) for x in path))
    rep.cover["cycles_left"] = n
    rep.assume("Recursion inside the C and C++ runtime (sorting, formatting) is not analysed; callbacks supplied by the caller are outside the property.")
    rep.assume("The frame size of each function is a constant: no variable-length stack allocation (checked: dynamic allocas).")
    for x in g.f.values():
        if x.get("dynalloca"):
            rep.violate("alloca:" + short(x["demangled"]), "%s allocates a run-time sized block on the stack" % short(x["demangled"]))

def on_cycle(g, f):
    return f in g.reach([w for w in g.edges.get(f, ())])

def cycle_path(g, comp, head):
    prev, work = {}, [head]
    for v in work:
        for w in g.edges[v]:
            if w == head:
                path = [head]
                out = []
                while v is not None:
                    out.append(v); v = prev.get(v)
                return out[::-1] + [head]
            if w in comp and w not in prev and w != head:
                prev[w] = v; work.append(w)
    return [head]

def dispatchers(g):
    """The functions that select a highlighter by language: highlight(buffer, source, lang, ...)."""
    return [n for n in g.edges if dem(g, n).startswith("ulight::highlight(")]

WITNESS = """#include "ulight/impl/highlight.hpp"
namespace ulight {
%s
}
"""

def dispatch_map():
    """Language value -> highlighter functions that highlight() can call for it: highlight() is compiled with the
    language fixed to each constant and the calls that remain after constant folding are collected."""
    n = 0
    body = "".join("Status vp_lang_%d(Non_Owning_Buffer<Token>& o, std::u8string_view s, std::pmr::memory_resource* m, "
                   "const Highlight_Options& p) { return highlight(o, s, Lang(%d), m, p); }\n" % (k, k) for k in range(64))
    d = os.path.join(vp.BUILD, "wit")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, "dispatch.cpp")
    open(src, "w").write(WITNESS % body)
    r = vp.run([vp.CLANGXX] + vp.CXXFLAGS + ["-O2", "-S", "-emit-llvm", "-g0", src, "-o", "-"])
    if r.returncode:
        raise vp.Broken("dispatch witness does not compile: " + r.stderr[-1500:])
    out, cur = {}, None
    for line in r.stdout.splitlines():
        m = re.match(r"define .*vp_lang_(\d+)", line)
        if m:
            cur = int(m.group(1)); out[cur] = set(); continue
        if line.startswith("define"):
            cur = None
        if cur is not None:
            for c in re.findall(r"(?:call|invoke) [^@%]*([@%][\w.]+)\(", line):
                if not c.startswith("@llvm."):
                    out[cur].add(c)
    return out

def embedding(g, disp, dmap, entries):
    """Language -> languages it can embed: the constants of type Lang that reach a dispatcher call."""
    out = {}
    for e in entries:
        saved = {d: dict(g.edges[d]) for d in disp}
        for d in disp:
            g.edges[d] = {}
        r = g.reach([e])
        for d in disp:
            g.edges[d] = saved[d]
        if not (r & set(disp)):
            continue
        out[e] = set()
        for d in disp:
            if d in r:
                out[e] |= lang_args(g, d, r, entries, dmap)
    return out

def lang_args(g, d, region, entries, dmap):
    """Highlighters that calls of dispatcher d from the given functions can select."""
    params = re.match(r"\w+ \((.*)\)", g.f[d]["type"]).group(1).split(", ")
    small = [i for i, t in enumerate(params) if t == "i8"]
    if len(small) != 1:
        return set(entries)
    consts = param_values(g, d, small[0], region, set())
    if consts is None:
        return set(entries)
    out = set()
    for v in consts:
        for c in dmap.get(v, {"%"}):
            if c.startswith("%"):
                return set(entries)
            out |= g.reach([c[1:]]) & set(entries)
    return out

def param_values(g, f, k, region, seen):
    """Constants that parameter k of f can have when called from the region; None if unknown."""
    if (f, k) in seen:
        return set()
    seen.add((f, k))
    out = set()
    for a in region:
        for c in g.edges.get(a, {}).get(f, []):
            if c["to"] is None:
                return None
            v = (c.get("args") or [])[k:k + 1]
            if not v or v[0] is None:
                return None
            for w in v[0]:
                if isinstance(w, int):
                    out.add(w)
                else:
                    r = param_values(g, a, int(w[1:]), region, seen)
                    if r is None:
                        return None
                    out |= r
    return out

def acyclic(emb):
    def visit(v, stack):
        if v in stack: return False
        return all(visit(w, stack | {v}) for w in emb.get(v, ()))
    return all(visit(v, frozenset()) for v in emb)

if __name__ == "__main__":
    vp.main(PROP, RULE, check)
