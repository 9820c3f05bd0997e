#!/usr/bin/env python3
"""C14: coalescing changes only how tokens are split. Taint analysis (data and control dependence, interprocedural) from the option and from
the state of output buffers to everything but the output; path check of every place that merges tokens; witnesses of the emitter."""
import os, sys, re, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vp import *
import flow, basewit
from witness import run_witnesses

RULE = ("Non-interference by taint: sources are reads of Highlight_Options::coalescing and of anything a token or text buffer knows (fill, capacity, last token); "
        "taint follows data and control dependences through the SSA form of every function, returns, parameters and boolean fields. A write to anything but the output "
        "buffer, a token's content, a call with other effects, or a status that depends on a source is a violation. A token's length may grow in place only on paths on "
        "which the buffer is not empty, the last token has the type emitted and ends where the new one begins. Witnesses: per-unit types of all short emission sequences.")
BUF = "ulight17Non_Owning_BufferI"
GETTER = re.compile(r"^_ZNK?6ulight17Non_Owning_BufferI.*E(?:4size|4full|9available|8capacity|5empty|4back)Ev$")
NOEFFECT = re.compile(r"^llvm\.|^_ZN6ulight11assert_fail|^__clang_call_terminate|^_ZSt9terminatev|^mem(cmp|chr)$|^strlen$|^_ZSt(20)?__throw")
OUTPUT = re.compile(r"^_ZNK?6ulight17Non_Owning_BufferI")

class Fn:
    def __init__(self, name, f):
        self.name, self.f = name, f
        self.args = {a["id"]: k for k, a in enumerate(f["args"])}
        self.blocks = {b["id"]: b for b in f["blocks"]}
        self.defs = {i["id"]: (b["id"], i) for b in f["blocks"] for i in b["insts"]}
        self.succ = {}
        for b, x in self.blocks.items():
            t = x["insts"][-1]
            s = list(t.get("succ") or []) + [d for _, d in t.get("cases", [])] + ([t["default"]] if "default" in t else [])
            if t["op"] == "invoke":
                s = s[:1]
            self.succ[b] = list(dict.fromkeys(s))
        # only what can reach a return is control flow; the rest ends in a failed check
        pred = collections.defaultdict(set)
        for b in self.succ:
            for s in self.succ[b]:
                pred[s].add(b)
        live = {b for b, x in self.blocks.items() if x["insts"][-1]["op"] == "ret"}
        work = list(live)
        while work:
            for p in pred[work.pop()]:
                if p not in live:
                    live.add(p); work.append(p)
        self.live = live
        self.succ = {b: [s for s in self.succ[b] if s in live] for b in live}
        self.pdom = self._pdom()
        self.users = collections.defaultdict(list)
        for b in f["blocks"]:
            for i in b["insts"]:
                for o in self.operands(i):
                    self.users[o].append((b["id"], i))
        self.taint, self.ptaint, self.flag = set(), set(), set()
        self.rettaint = False
        self.why = {}

    def operands(self, i):
        out = []
        def add(v):
            if isinstance(v, str) and v.startswith("%"):
                out.append(v)
            elif isinstance(v, dict):
                for x in v.get("ops", []) + v.get("agg", []) + ([v["base"]] if "base" in v else []):
                    add(x)
        for v in i.get("ops", []):
            add(v)
        for v, _ in i.get("phi", []):
            add(v)
        if "gep" in i:
            add(i["gep"]["base"])
            for v, _ in i["gep"].get("vars", []):
                add(v)
        if "target" in i:
            add(i["target"])
        return out

    def _pdom(self):
        full = set(self.live)
        pd = {b: ({b} if not self.succ[b] else set(full)) for b in self.live}
        ch = True
        order = list(self.live)
        while ch:
            ch = False
            for b in order:
                if self.succ[b]:
                    n = set.intersection(*(pd[s] for s in self.succ[b])) | {b}
                    if n != pd[b]:
                        pd[b] = n; ch = True
        return pd

    def region(self, b):
        """Blocks control-dependent on the branch that ends b."""
        out, seen = set(), set()
        stop = self.pdom[b] - {b}
        work = [s for s in self.succ[b] if s not in stop]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            work += [s for s in self.succ[x] if s not in stop]
        return seen

    def root(self, v, depth=0):
        """What a pointer points into: ('alloca', id), ('arg', k), ('out',), ('glob',), ('?',)"""
        if not isinstance(v, str):
            if isinstance(v, dict) and "base" in v:
                return self.root(v["base"], depth + 1)
            return ("glob",)
        if v.startswith("@"):
            return ("glob",)
        if v in self.args:
            return ("arg", self.args[v])
        if v not in self.defs or depth > 12:
            return ("?",)
        i = self.defs[v][1]
        if i["op"] == "alloca":
            return ("alloca", v)
        if i["op"] == "getelementptr":
            return self.root(i["gep"]["base"], depth + 1)
        if i["op"] in ("call", "invoke"):
            return ("out",) if OUTPUT.match(i.get("callee") or "") else ("?",)
        if i["op"] == "load":
            return ("?",)
        if i["op"] in ("phi", "select"):
            rs = {self.root(x, depth + 1) for x in ([a for a, _ in i["phi"]] if i["op"] == "phi" else i["ops"][1:])}
            return rs.pop() if len(rs) == 1 else ("?",)
        return ("?",)

def tbkey(i):
    t = i.get("tb") or []
    s = [x for x in t if x.startswith("_ZTS") and not re.match(r"_ZTSN?6?ulight\d+\w+E?@0$", x) or "@" in x and x.startswith("_ZTS")]
    return s[-1] if s else None

class Taint:
    def __init__(self, d):
        self.F = {n: Fn(n, f) for n, f in d["functions"].items() if not f["decl"]}
        self.fields = set()
        self.found = {}
        self.sources = 0
        self.callers = collections.defaultdict(list)
        for n, f in self.F.items():
            for b in f.blocks.values():
                for i in b["insts"]:
                    if i["op"] in ("call", "invoke") and i.get("callee") in self.F:
                        self.callers[i["callee"]].append(n)
        self.effects()

    def effects(self):
        """Effects of each function besides output: 'w' or ('p', k) for writes through a parameter."""
        self.eff = {n: set() for n in self.F}
        ch = True
        while ch:
            ch = False
            for n, f in self.F.items():
                if OUTPUT.match(n):
                    continue
                e = set()
                for b in f.live:
                    for i in f.blocks[b]["insts"]:
                        e |= self.effect_of(f, i)
                if e != self.eff[n]:
                    self.eff[n] = e; ch = True

    def effect_of(self, f, i):
        def via(p):
            r = f.root(p)
            return {("p", r[1])} if r[0] == "arg" else set() if r[0] in ("alloca", "out") else {"w"}
        if i["op"] == "store":
            return via(i["ops"][1])
        if i["op"] in ("call", "invoke"):
            c = i.get("callee") or ""
            if c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                return via(i["ops"][0])
            if NOEFFECT.match(c) or OUTPUT.match(c) or i.get("readnone") or i.get("noreturn"):
                return set()
            if c in self.F:
                out = set()
                for e in self.eff[c]:
                    if e == "w":
                        out.add("w")
                    elif e[1] < len(i.get("ops", [])):
                        out |= via(i["ops"][e[1]])
                return out
            return {"w"}
        return set()

    def mark(self, f, v, why):
        if v not in f.taint:
            f.taint.add(v); f.why[v] = why
            return True
        return False

    def run(self):
        work = collections.deque()
        for n, f in self.F.items():
            if not OUTPUT.match(n):
                work.append(n)
        queued = set(work)
        n = 0
        while work and n < 40000:
            x = work.popleft(); queued.discard(x); n += 1
            for y in self.visit(self.F[x]):
                if y not in queued and not OUTPUT.match(y):
                    queued.add(y); work.append(y)
        return self

    def is_t(self, f, v):
        if isinstance(v, str):
            return v in f.taint or (v in f.args and f.args[v] in f.ptaint)
        if isinstance(v, dict):
            return any(self.is_t(f, x) for x in v.get("ops", []) + v.get("agg", []) + ([v["base"]] if "base" in v else []))
        return False

    def visit(self, f):
        again = set()
        changed = True
        while changed:
            changed = False
            for bid in f.blocks:
                if bid not in f.live:
                    continue
                for i in f.blocks[bid]["insts"]:
                    op, v = i["op"], i["id"]
                    t = any(self.is_t(f, o) for o in i.get("ops", [])) or any(self.is_t(f, o) for o, _ in i.get("phi", [])) \
                        or ("gep" in i and (self.is_t(f, i["gep"]["base"]) or any(self.is_t(f, o) for o, _ in i["gep"].get("vars", []))))
                    if op == "load":
                        src = any(x == "_ZTSN6ulight17Highlight_OptionsE@0" for x in i.get("tb", [])) and i.get("size") == 1
                        k = tbkey(i)
                        r = f.root(i["ops"][0])
                        if src or (k and k in self.fields) or t or (r[0] == "alloca" and r[1] in f.taint) or (r[0] == "alloca" and ("*", r[1]) in f.taint):
                            if src and v not in f.taint:
                                self.sources += 1
                            changed |= self.mark(f, v, i)
                    elif op == "store":
                        data = self.is_t(f, i["ops"][0])
                        ctl = bid in f.flag
                        if data or ctl:
                            changed |= self.write(f, i, i["ops"][1], data, ctl, again)
                    elif op == "phi":
                        ctl = any(src in f.flag or self.branch_tainted(f, src) for _, src in i["phi"]) and len({repr(x) for x, _ in i["phi"]}) > 1
                        if t or ctl:
                            changed |= self.mark(f, v, i)
                    elif op in ("call", "invoke"):
                        c = i.get("callee") or ""
                        if GETTER.match(c):
                            if v not in f.taint:
                                self.sources += 1
                            changed |= self.mark(f, v, i); continue
                        if OUTPUT.match(c):
                            if re.search(r"E(?:12emplace_back|9push_back|6append|12append_range)", c):
                                for a in i["ops"][1:]:
                                    r = f.root(a)
                                    if self.is_t(f, a) or (r[0] == "alloca" and ("*", r[1]) in f.taint):
                                        self.report(f, i, "the content of a token depends on the coalescing option or on the output buffer")
                            continue
                        if c.startswith(("llvm.memcpy", "llvm.memmove")):
                            r = f.root(i["ops"][1])
                            if t or bid in f.flag or (r[0] == "alloca" and ("*", r[1]) in f.taint):
                                changed |= self.write(f, i, i["ops"][0], t or (r[0] == "alloca" and ("*", r[1]) in f.taint), bid in f.flag, again)
                            continue
                        if c in self.F:
                            g = self.F[c]
                            for k, a in enumerate(i.get("ops", [])):
                                r = f.root(a)
                                if k < len(g.args) and k not in g.ptaint and (self.is_t(f, a) or (r[0] == "alloca" and ("*", r[1]) in f.taint)):
                                    g.ptaint.add(k); again.add(c)
                            if g.rettaint:
                                changed |= self.mark(f, v, i)
                        elif t and not NOEFFECT.match(c):
                            changed |= self.mark(f, v, i)
                        elif t:
                            changed |= self.mark(f, v, i)
                        if bid in f.flag:
                            e = self.effect_of(f, i)
                            if e:
                                self.report(f, i, "what it does next depends on the coalescing option or on the output buffer: the call of %s" % short(c))
                    elif op == "ret":
                        if i.get("ops") and (t or bid in f.flag) and not f.rettaint:
                            f.rettaint = True
                            again |= set(self.callers[f.name])
                            if re.match(r"^_ZN6ulight\d+highlight(_\w+?)?ERNS_17Non_Owning", f.name):
                                self.report(f, i, "the result of highlighting depends on the coalescing option or on the output buffer")
                    elif op in ("br", "switch"):
                        if t:
                            reg = f.region(bid)
                            if not reg <= f.flag:
                                f.flag |= reg; changed = True
                        if t and bid not in f.taint:
                            f.taint.add(bid); changed = True
                    elif op in ("alloca", "unreachable", "resume", "landingpad"):
                        pass
                    elif t:
                        changed |= self.mark(f, v, i)
        return again

    def branch_tainted(self, f, b):
        return b in f.taint

    def write(self, f, i, p, data, ctl, again):
        r = f.root(p)
        if r[0] == "out":
            return False
        if r[0] == "alloca":
            if not data and all(b in f.flag or x["op"] == "alloca" for b, x in f.users[r[1]] if not (x.get("callee") or "").startswith("llvm.lifetime")):
                return False
            return self.mark(f, ("*", r[1]), i)
        k = tbkey(i)
        if data and not ctl and k and i.get("size") == 1:
            if k not in self.fields:
                self.fields.add(k); again |= set(self.F)
            return False
        if r[0] == "arg" and OUTPUT.match(f.name):
            return False
        # the last token of the buffer, reached through a parameter or a local reference to it
        if i["op"] == "store" and any("ulight_token" in x for x in i.get("tb", [])):
            return False
        self.report(f, i, "what is remembered depends on the coalescing option or on the output buffer")
        return False

    def report(self, f, i, what):
        self.found.setdefault((f.name, what), i)

def short(c):
    m = re.findall(r"\d+([A-Za-z_]\w*?)(?=\d|E|$|C|I)", c)
    return c if not c.startswith("_Z") else demangle(c)

def demangle(c):
    import subprocess
    r = subprocess.run(["c++filt", "-p", c], stdout=subprocess.PIPE, text=True)
    return r.stdout.strip()[-80:]

def merges(rep, d):
    """Every place that changes a token already in the buffer."""
    n = 0
    for name, f in sorted(d["functions"].items()):
        if f["decl"] or OUTPUT.match(name) or not any(i["op"] in ("call", "invoke") and re.search(BUF + r"12ulight_tokenE4backEv$", i.get("callee") or "") for b in f["blocks"] for i in b["insts"]):
            continue
        hits = []
        BACK = ("ptr", ("back",), 0)
        def on_call(fl, s, i, c, a):
            if re.search(BUF + r"12ulight_tokenE4backEv$", c):
                s.env[i["id"]] = BACK; return [s]
            if re.search(BUF + r"12ulight_tokenE(5empty|4size|4full|9available)Ev$", c):
                s.env[i["id"]] = ("buf", re.search(r"E\d+(\w+)Ev$", c).group(1)[0:5]); return [s]
            return None
        def on_store(fl, s, i, p, z, v):
            if p[0] == "ptr" and p[1] == ("back",):
                hits.append((s.copy(), i, p[2], v))
        fl = flow.Flow(f, d["globals"], on_call=on_call, on_store=on_store)
        fl.run()
        if not hits:
            continue
        n += 1
        L = lambda o, z: ("init", ("back",), o, z)
        for s, i, off, v in hits:
            at = "%s (%s:%s)" % (demangle(name), os.path.relpath(i.get("file") or f.get("file") or "?", REPO), i.get("line"))
            facts = [(flat(e), t) for e, t in s.facts.items()]
            asked = [x["callee"] for b in f["blocks"] for x in b["insts"] if x["op"] in ("call", "invoke") and not OUTPUT.match(x.get("callee") or "") and any(flow.mentions(e, ("v", x["id"])) for e, t in facts)]
            if asked:
                rep.note("%s: whether to extend the last token is decided by %s" % (at, demangle(asked[0]))); continue
            if off != 8:
                rep.violate("merge:%s:%d" % (name, off), "%s: the %s of a token that is already in the buffer is changed" % (at, {0: "begin", 16: "type"}.get(off, "content")))
                continue
            if not any(flow.mentions(e, ("buf", "empty")) or flow.mentions(e, ("buf", "size")) for e, t in facts):
                rep.violate("merge-empty:" + name, "%s: the last token is extended without a check that there is one" % at)
            ty = [(e, t) for e, t in facts if flow.mentions(e, L(16, 1))]
            if not ty:
                rep.violate("merge-type:" + name, "%s: the last token is extended without comparing its type with the type emitted" % at)
            elif not any(e[0] == "icmp" and e[1] == "eq" and t for e, t in ty if isinstance(e, tuple)):
                rep.violate("merge-type:" + name, "%s: the last token is extended although its type need not be the type emitted" % at)
            adj = [(e, t) for e, t in facts if flow.mentions(e, L(0, 8)) or flow.mentions(e, L(8, 8))]
            good = [e for e, t in adj if e[0] == "icmp" and e[1] == "eq" and t and flow.mentions(e, L(0, 8)) and flow.mentions(e, L(8, 8))]
            if not good:
                rep.violate("merge-adjacent:" + name, "%s: the last token is extended although it need not end where the new one begins" % at)
        rep.sample("merge site %s" % name[:80])
    return n

def flat(e):
    while isinstance(e, tuple) and e and e[0] == "cast" and e[1] in ("zext", "trunc"):
        e = e[3]
    return tuple(flat(x) for x in e) if isinstance(e, tuple) else e

def check(rep):
    res = run_witnesses(basewit.emit_jobs("c14"))
    rep.count("witnesses of the emitters decided", basewit.judge(rep, res, (3, 4, 6)), 0)
    d = ssa_dump("ulight|^std::|__gnu|main")
    t = Taint(d).run()
    rep.count("functions analysed", len(t.F), 100)
    rep.count("source reads", t.sources, 0)
    rep.count("functions some value of which depends on a source", sum(1 for f in t.F.values() if f.taint), 0)
    for (n, what), i in sorted(t.found.items()):
        f = t.F[n].f
        rep.violate("%s:%s" % (n, what[:40]), "%s (%s:%s): %s" % (demangle(n), os.path.relpath(i.get("file") or f.get("file") or "?", REPO), i.get("line"), what))
    rep.count("places that extend a token", merges(rep, ir_dump("O1N", O1N, "ulight")), 0)

main("C14", RULE, check)
