"""Whole-program call graph over the linked IR, with indirect calls resolved by type."""
import vp

class CG:
    def __init__(self, facts):
        self.f = {x["name"]: x for x in facts["functions"]}
        self.g = {x["name"]: x for x in facts["globals"]}
        taken = set()
        for x in self.f.values():
            taken |= {a for a in x["addr"] if a in self.f}
        self.vtable_funcs = set()
        for g in self.g.values():
            refs = [r for r in g.get("refs", []) if r in self.f]
            if g["name"].startswith("_ZTV"):
                self.vtable_funcs |= set(refs)
            taken |= set(refs)
        self.taken = taken
        self.by_type = {}
        for n in taken:
            self.by_type.setdefault(self.f[n]["type"], set()).add(n)
        self.unresolved = []
        self.callees = {}
        self.edges = {}
        for n, x in self.f.items():
            out = {}
            for c in x["calls"]:
                if c["to"] is not None:
                    out.setdefault(c["to"], []).append(c)
                else:
                    tgt = self.targets(c)
                    if not tgt:
                        self.unresolved.append((n, c))
                    for t in tgt:
                        out.setdefault(t, []).append(c)
            self.edges[n] = out

    def targets(self, c):
        if "targets" in c:
            # the C++ type of the pointer is known: only functions of that type whose address is taken
            t = {x for x in c["targets"] if x in self.f}
            return t if c.get("virtual") else t & self.taken
        t = self.by_type.get(c["type"], set())
        for v in c.get("via") or []:
            g = self.g.get(v[1:])
            if g is not None and g["const"] and g.get("refs"):
                return {r for r in g["refs"] if r in self.f} & t or t
        return t

    def sccs(self):
        idx, low, st, on, out, ctr = {}, {}, [], set(), [], [0]
        for root in self.edges:
            if root in idx: continue
            work = [(root, iter(self.edges.get(root, ())))]
            idx[root] = low[root] = ctr[0]; ctr[0] += 1; st.append(root); on.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in self.edges: continue
                    if w not in idx:
                        idx[w] = low[w] = ctr[0]; ctr[0] += 1; st.append(w); on.add(w)
                        work.append((w, iter(self.edges.get(w, ())))); adv = True; break
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                if adv: continue
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop(); on.discard(w); comp.append(w)
                        if w == v: break
                    if len(comp) > 1 or v in self.edges.get(v, ()):
                        out.append(comp)
        return out

    def reach(self, roots, stop=()):
        seen, work = set(), list(roots)
        while work:
            v = work.pop()
            if v in seen or v in stop: continue
            seen.add(v)
            work += [w for w in self.edges.get(v, ())]
        return seen
