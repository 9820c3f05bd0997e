"""Typestate of the highlighters over their IR: for every member function of a highlighter, with what result and after what effects
(input consumed, tokens produced) it can return. Computed bottom up to a fixpoint, so recursion is covered."""
import re
from vp import *
import flow

def base_layout():
    """Offsets and sizes of the fields of the highlighter base."""
    for d in ast_facts().values():
        for r in d["records"]:
            if r["name"] == "ulight::Highlighter_Base" and r["fields"]:
                return {f["name"]: (f["offset"], f["size"]) for f in r["fields"]}
    return {}

OUT = re.compile(r"ulight::Non_Owning_Buffer<ulight_token>::(emplace_back|push_back|append_range|back)\b(?!.*\) const)")
CONS, EMIT = 1, 2

class Effects:
    def __init__(self, ir, fields, scope=r"^ulight::"):
        self.ir, self.fns, self.fields = ir, ir["functions"], fields
        self.watch = [fields[n] for n in ("remainder", "index") if n in fields]
        self.sum, self.inc, self.where = {}, set(), {}
        self.calls, self.dirty = {}, {}
        for f, fn in self.fns.items():
            self.calls[f] = {i["callee"] for b in fn["blocks"] for i in b["insts"] if i["op"] in ("call", "invoke") and i.get("callee")}
        self.methods = {f for f, fn in self.fns.items() if fn["blocks"] and self.ismethod(fn)}
        for f in self.methods:
            self.dirty[f] = self.direct(f)
        ch = True
        while ch:
            ch = False
            for f in self.methods:
                if not self.dirty[f] and any(self.dirty.get(g) for g in self.calls[f]):
                    self.dirty[f] = True; ch = True

    def ismethod(self, fn):
        return bool(re.match(r"ulight::(\w+::)*(\(anonymous namespace\)::)?(\w+::)*(Highlighter|Highlighter_Base|\w*[Hh]ighlight\w*)::", fn["demangled"])) or "highlight_" in fn["demangled"]

    def hits(self, p, size):
        return isinstance(p, tuple) and p[0] == "ptr" and p[1] == ("arg", 0) and any(o < p[2] + size and p[2] < o + z for o, z in self.watch)

    def direct(self, f):
        fn = self.fns[f]
        hit = []
        def on_store(fl, s, i, p, size, v):
            if self.hits(p, size):
                hit.append(i)
        def on_call(fl, s, i, callee, args):
            d = self.fns.get(callee, {}).get("demangled", "")
            if OUT.match(d):
                hit.append(i)
            if args and self.hits(args[0], 16) and "remove_prefix" in d or "remove_suffix" in d:
                hit.append(i)
            return None
        flow.Flow(fn, self.ir["globals"], on_call=on_call, on_store=on_store, sites=True, limit=8, budget=500).run(flow.State())
        return bool(hit)

    def run(self):
        for _ in range(30):
            ch = False
            for f in sorted(x for x in self.methods if self.dirty[x]):
                o = self.outcomes(f)
                if o - self.sum.get(f, set()):
                    self.sum[f] = self.sum.get(f, set()) | o
                    ch = True
            if not ch:
                return
        self.inc |= {f for f in self.methods if self.dirty[f]}

    def outcomes(self, f):
        fn = self.fns[f]
        def on_store(fl, s, i, p, size, v):
            if self.hits(p, size):
                s.trace = ((s.trace or (0,))[0] | CONS,)
        def on_call(fl, s, i, callee, args):
            d = self.fns.get(callee, {}).get("demangled", "")
            e = (s.trace or (0,))[0]
            if OUT.match(d):
                s.trace = (e | EMIT,)
                return None
            if self.dirty.get(callee) is not True:
                if args and self.hits(args[0], 16) and ("remove_prefix" in d or "remove_suffix" in d) and args[1:] != [0]:
                    s.trace = (e | CONS,)
                return None
            if re.match(r"ulight::Highlighter_Base::advance\(", d) and len(args) > 1 and args[1] == 0:
                return [s]
            out = []
            for r, e2 in sorted(self.sum.get(callee, ()), key=repr):
                u = s.copy()
                fl.clobber_call(u, args)
                u.trace = (e | e2,)
                u.env[i["id"]] = r if isinstance(r, int) else ("v", i["id"])
                out.append(u)
            return out
        fl = flow.Flow(fn, self.ir["globals"], on_call=on_call, on_store=on_store, sites=True, limit=256, budget=6000)
        s = flow.State(); s.trace = (0,)
        fl.run(s)
        if fl.incomplete:
            self.inc.add(f)
        out = set()
        for t, v, _ in fl.returns:
            v = fl.known(t, v) if isinstance(v, tuple) else v
            r = v & 1 if isinstance(v, int) and fn["ret"] == "i1" else "?" if fn["ret"] != "void" else None
            out.add((r, (t.trace or (0,))[0]))
        return out

def show(fn):
    return fn["demangled"].replace("(anonymous namespace)::", "").split("(")[0] + " (%s:%s)" % (os.path.relpath(fn.get("file") or "?", REPO), fn.get("line"))
