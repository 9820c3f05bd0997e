"""Typestate of the JSON parser over its IR: for every function reachable from parse_json, with what result, after how many calls of the
error handler and with which constructs left open (or closed) it can return. Computed bottom up to a fixpoint, so recursion is covered."""
import re
from vp import *
import flow, iface

PAIRS = {"push_string": "pop_string", "push_property": "pop_property", "push_object": "pop_object", "push_array": "pop_array"}
TEXT = r'''
#include "ulight/json.hpp"
using namespace ulight;
extern "C" {
%s
void vp_error(JSON_Visitor& v, const Source_Position& p) { v.error(p, JSON_Error::error); }
}
'''

def slots():
    """{offset in the visitor's table: name} of the events followed, as the compiler lays the table out."""
    names = [x for p in PAIRS.items() for x in p]
    d = ir_dump_text("jsonslots", TEXT % "\n".join("void vp_%s(JSON_Visitor& v, const Source_Position& p) { v.%s(p); }" % (n, n) for n in names), O1N)
    out = {}
    for f, fn in d["functions"].items():
        for b in fn["blocks"]:
            for i in b["insts"]:
                if i["op"] == "call" and "target" in i:
                    o = slot(fn, i)
                    if o is not None:
                        out[o] = f[3:]
    return out

def slot(fn, i):
    """Offset in the table of a virtual call."""
    defs = fn.setdefault("_defs", {x["id"]: x for b in fn["blocks"] for x in b["insts"]})
    t = defs.get(i.get("target"))
    if not t or t["op"] != "load":
        return None
    p, off = defs.get(t["ops"][0]), 0
    if p and p["op"] == "getelementptr":
        g = p["gep"]
        if g.get("vars"):
            return None
        off, p = g.get("off", 0), defs.get(g["base"]) if isinstance(g["base"], str) else None
    return off if p and p["op"] == "load" and p["ty"] == "ptr" else None

def reduce(stack, ev):
    if ev in PAIRS:
        return stack + (ev,)
    if stack and PAIRS.get(stack[-1]) == ev:
        return stack[:-1]
    return stack + (ev,)

def merge(stack, other):
    for e in other:
        stack = reduce(stack, e)
    return stack

class Typestate:
    def __init__(self, ir, sl):
        self.ir, self.sl = ir, sl
        self.fns = ir["functions"]
        self.sum, self.inc = {}, set()
        roots = [f for f in self.fns if re.match(r"ulight::parse_json\(", self.fns[f]["demangled"]) and self.fns[f]["blocks"]]
        self.roots = roots
        self.calls, self.dirty = {}, set()
        work, seen = list(roots), set()
        while work:
            f = work.pop()
            if f in seen or f not in self.fns:
                continue
            seen.add(f)
            self.calls[f] = set()
            for b in self.fns[f]["blocks"]:
                for i in b["insts"]:
                    if i["op"] in ("call", "invoke"):
                        if i.get("callee"):
                            self.calls[f].add(i["callee"]); work.append(i["callee"])
                        elif slot(self.fns[f], i) in sl:
                            self.dirty.add(f)
        self.scope = seen
        ch = True
        while ch:
            ch = False
            for f in seen:
                if f not in self.dirty and self.calls[f] & self.dirty:
                    self.dirty.add(f); ch = True

    def run(self):
        for _ in range(40):
            ch = False
            for f in sorted(self.dirty):
                o = self.outcomes(f)
                if o - self.sum.get(f, set()):
                    self.sum[f] = self.sum.get(f, set()) | o
                    ch = True
            if not ch:
                return
        self.inc |= self.dirty

    def outcomes(self, f):
        fn = self.fns[f]
        def on_call(fl, s, i, callee, args):
            if not callee:
                ev = self.sl.get(slot(fn, i))
                fl.clobber_call(s, args); s.env[i["id"]] = ("v", i["id"])
                if ev == "error":
                    e, st = s.trace or (0, ())
                    s.trace = (min(e + 1, 2), st)
                elif ev:
                    e, st = s.trace or (0, ())
                    s.trace = (e, reduce(st, ev)[:6])
                return [s]
            if callee not in self.dirty:
                return None
            out = []
            for r, e2, st2 in sorted(self.sum.get(callee, ()), key=repr):
                u = s.copy()
                fl.clobber_call(u, args)
                e, st = u.trace or (0, ())
                u.trace = (min(e + e2, 2), merge(st, st2)[:6])
                u.env[i["id"]] = r if isinstance(r, int) else ("v", i["id"])
                out.append(u)
            return out
        fl = flow.Flow(fn, self.ir["globals"], on_call=on_call, limit=256, sites=True, budget=4000)
        s = flow.State(); s.trace = (0, ())
        fl.run(s)
        if fl.incomplete:
            self.inc.add(f)
        out = set()
        for t, v, _ in fl.returns:
            v = fl.known(t, v) if isinstance(v, tuple) else v
            v = "?" if v is None and fn["ret"] != "void" else v
            r = v & 1 if isinstance(v, int) else None if v is None else "?"
            e, st = t.trace or (0, ())
            out.add((r, e, st if r != 0 else ()))   # what is left open on failure does not matter
        return out

def typestate():
    t = Typestate(ir_dump("O1N", O1N), slots())
    t.run()
    return t

def show(fn):
    return fn["demangled"].replace("(anonymous namespace)::", "").split("(")[0] + " (%s:%s)" % (os.path.relpath(fn.get("file") or "?", REPO), fn.get("line"))
