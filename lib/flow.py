"""Path-sensitive dataflow over the IR of one function (irdump), in the style of property simulation: along every path the
values of the tracked memory and the branch conditions taken are kept; states that agree on the property are merged where paths
meet, so loops reach a fixpoint. No solver, and nothing is run: conditions are only compared with conditions already taken."""
import re
import vp

MASK = {1: 1, 8: 0xff, 16: 0xffff, 32: 0xffffffff, 64: (1 << 64) - 1}

def width(ty):
    m = re.match(r"i(\d+)$", ty or "")
    return int(m.group(1)) if m else 64

def norm(v, w):
    return v & ((1 << w) - 1) if isinstance(v, int) else v

def signed(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v

def mentions(e, what):
    if e == what:
        return True
    return isinstance(e, tuple) and any(mentions(x, what) for x in e)

def depth(e):
    return 1 + max([depth(x) for x in e if isinstance(x, tuple)], default=0) if isinstance(e, tuple) else 0

class State:
    __slots__ = ("env", "mem", "epoch", "facts", "bind", "trace")
    def __init__(self):
        self.env, self.mem, self.epoch, self.facts, self.bind, self.trace = {}, {}, {}, {}, {}, ()
    def copy(self):
        s = State()
        s.env, s.epoch, s.facts, s.bind = dict(self.env), dict(self.epoch), dict(self.facts), dict(self.bind)
        s.mem = {k: list(v) for k, v in self.mem.items()}
        s.trace = self.trace
        return s

class Flow:
    def __init__(self, fn, globs, key=None, on_call=None, on_load=None, on_store=None, limit=96, budget=60000, sites=False):
        self.sites, self.site = sites, 0     # versions of memory named by the place that changes it, so that loops converge
        self.fn, self.globs = fn, globs
        self.key = key or (lambda s: ())
        self.on_call, self.on_load, self.on_store = on_call, on_load, on_store
        self.blocks = {b["id"]: b for b in fn["blocks"]}
        self.order = [b["id"] for b in fn["blocks"]]
        self.defs = {i["id"]: i for b in fn["blocks"] for i in b["insts"]}
        self.argno = {a["id"]: k for k, a in enumerate(fn["args"])}
        self.limit, self.budget = limit, budget
        self.returns = []      # (state, value, inst)
        self.ends = []         # (state, inst): unreachable, resume
        self.incomplete = False
        self.collapsed = set()
        self.escaped = set()
        # phis and selects the returned value is made of: paths are kept apart by their value
        self.retphi = set()
        work = [o for b in fn["blocks"] for i in b["insts"] if i["op"] == "ret" for o in i.get("ops", [])]
        self.retphi |= {o for o in work if isinstance(o, str) and o.startswith("%") and self.defs.get(o, {}).get("op") not in ("phi", "select", "zext", "trunc", "sext", "insertvalue", "extractvalue", "freeze", None)}
        while work:
            v = work.pop()
            i = self.defs.get(v) if isinstance(v, str) else None
            if not i or v in self.retphi:
                continue
            if i["op"] in ("phi", "select", "zext", "trunc", "sext", "insertvalue", "extractvalue", "freeze"):
                self.retphi.add(v)
                work += [x for x, _ in i.get("phi", [])] + [x for x in i.get("ops", []) if isinstance(x, str)]
        # phis a later branch is decided by
        for b in fn["blocks"]:
            t = b["insts"][-1] if b["insts"] else None
            if sites and t and t["op"] in ("br", "switch") and t.get("ops"):
                work, seen = [t["ops"][0]], set()
                while work:
                    v = work.pop()
                    d = self.defs.get(v) if isinstance(v, str) else None
                    if not d or v in seen:
                        continue
                    seen.add(v)
                    if d["op"] == "phi" and any(isinstance(x, int) for x, _ in d["phi"]):
                        self.retphi.add(v)
                    if d["op"] in ("phi", "select", "zext", "trunc", "freeze", "and", "or", "xor") or (d["op"] == "icmp" and any(isinstance(x, int) for x in d["ops"])):
                        work += [x for x, _ in d.get("phi", [])] + [x for x in d.get("ops", []) if isinstance(x, str)]
        # fields stored from phis likewise
        for b in fn["blocks"]:
            for i in b["insts"]:
                if i["op"] == "store":
                    work = [i["ops"][0]]
                    while work:
                        v = work.pop()
                        d = self.defs.get(v) if isinstance(v, str) else None
                        if d and d["op"] in ("phi", "select") and v not in self.retphi:
                            self.retphi.add(v)
                            work += [x for x, _ in d.get("phi", [])] + [x for x in d.get("ops", []) if isinstance(x, str)]

    # values
    def val(self, s, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if v == "null":
            return 0
        if v == "undef":
            return ("undef",)
        if isinstance(v, str) and v.startswith("@"):
            return ("ptr", ("glob", v[1:]), 0)
        if isinstance(v, str):
            if v in self.argno:
                e = ("ptr", ("arg", self.argno[v]), 0) if self.fn["args"][self.argno[v]]["ty"] == "ptr" else ("arg", self.argno[v])
            else:
                e = s.env.get(v, ("v", v))
            return self.res(s, e)
        if isinstance(v, dict):
            if v.get("cop") == "gep":
                b = self.val(s, v["base"])
                if isinstance(b, tuple) and b[0] == "ptr" and "off" in v and not v.get("vars"):
                    return ("ptr", b[1], b[2] + v["off"])
            if v.get("cop") == "inttoptr":
                return self.val(s, v["ops"][0])
            if "agg" in v:
                return ("agg",) + tuple(self.val(s, x) for x in v["agg"])
            if "zero" in v:
                return ("zeroagg",)
            return ("const", repr(v))
        return ("const", repr(v))

    def res(self, s, e):
        for _ in range(4):
            if isinstance(e, tuple) and e in s.bind:
                e = s.bind[e]
            else:
                break
        return e

    def aptr(self, p):
        """(root, offset) of an address"""
        if isinstance(p, tuple) and p[0] == "ptr":
            return p[1], p[2]
        return ("obj", p), 0

    # memory
    def load(self, s, p, size):
        r, o = self.aptr(p)
        if r[0] == "glob":
            g = self.globs.get(r[1])
            if g and g.get("const"):
                v = self.gload(g, o, size)
                if v is not None:
                    return v
                return ("gload", r[1], o, size)
        for (a, n, v) in s.mem.get(r, ()):
            if a == o and n == size:
                return self.res(s, v)
            if a < o + size and o < a + n:
                if v == 0 and a <= o and o + size <= a + n:
                    return 0
                return ("mix", r, o, size, s.epoch.get(r, 0), a, n)
        ep = s.epoch.get(r, 0)
        e = ("init", r, o, size) if ep == 0 else ("load", r, o, size, ep)
        return self.res(s, e)

    def gload(self, g, o, size):
        if "str" in g and size == 1 and 0 <= o < len(g["str"]):
            return ord(g["str"][o]) & 0xff
        return None

    def store(self, s, p, size, v):
        r, o = self.aptr(p)
        if r[0] == "dyn":
            self.clobber(s, r[1]); return
        m = [x for x in s.mem.get(r, ()) if not (x[0] < o + size and o < x[0] + x[1])]
        cut = [x for x in s.mem.get(r, ()) if x[0] < o + size and o < x[0] + x[1]]
        for (a, n, w) in cut:       # what is left of a range that is partly overwritten
            if a < o:
                m.append((a, o - a, 0 if w == 0 else ("part", w, 0)))
            if a + n > o + size:
                m.append((o + size, a + n - o - size, 0 if w == 0 else ("part", w, o + size - a)))
        m.append((o, size, v))
        s.mem[r] = sorted(m, key=lambda x: x[0])
        d = [r]
        while d[-1][0] == "dynof":
            d.append(d[-1][1])

    def clobber(self, s, r):
        old = s.mem.pop(r, None)
        if self.sites:
            self.version(s, r, self.site + 1)
        else:
            s.epoch[r] = s.epoch.get(r, 0) + 1
        if old and r[0] == "alloca":      # a parameter kept in memory: what a callee does to it is visible as a store elsewhere
            keep = [x for x in old if isinstance(x[2], tuple) and x[2][0] == "ptr" and x[2][1][0] == "arg" and x[2][2] == 0]
            if keep:
                s.mem[r] = keep

    def version(self, s, r, ep):
        """Names the memory behind r anew; what is known of the last memory of that name is forgotten."""
        def old(e):
            return isinstance(e, tuple) and ((len(e) == 5 and e[0] == "load" and e[1] == r and e[4] == ep) or any(old(x) for x in e))
        for d in (s.facts, s.bind):
            for k in [k for k, v in d.items() if old(k) or old(v)]:
                del d[k]
        for k, v in s.env.items():
            if old(v):
                s.env[k] = ("v", k)
        for q in [q for q in s.mem if old(q)]:
            del s.mem[q]
        for q, m in s.mem.items():
            s.mem[q] = [x for x in m if not old(x[2])]
        for q in [q for q in s.epoch if old(q)]:
            del s.epoch[q]
        s.epoch[r] = ep

    def clobber_call(self, s, args):
        roots = set()
        for a in args:
            if isinstance(a, tuple):
                if a[0] == "ptr":
                    roots.add(a[1])
                elif a[0] not in ("const", "undef", "arg"):
                    roots.add(("obj", a))
        seen = set()
        work = list(roots)
        while work:
            r = work.pop()
            if r in seen or r[0] == "glob":
                continue
            seen.add(r)
            if r[0] == "dyn":
                work.append(r[1])
            for (_, _, v) in s.mem.get(r, ()):
                if isinstance(v, tuple) and v[0] == "ptr":
                    work.append(v[1])
        for r in seen | {x for x in self.escaped if x in s.mem or x in s.epoch}:
            self.clobber(s, r)

    # expressions
    def compute(self, s, i):
        op, ops = i["op"], [self.val(s, x) for x in i.get("ops", [])]
        w = width(i.get("ty"))
        if op == "icmp":
            return self.icmp(s, i["pred"], ops[0], ops[1], width(i.get("opty")))
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            a, b = ops
            if isinstance(a, int) and isinstance(b, int):
                a, b = norm(a, w), norm(b, w)
                try:
                    r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b,
                         "xor": lambda: a ^ b, "shl": lambda: a << min(b, w), "lshr": lambda: a >> min(b, w), "ashr": lambda: signed(a, w) >> min(b, w),
                         "udiv": lambda: a // b, "urem": lambda: a % b, "sdiv": lambda: int(signed(a, w) / signed(b, w)), "srem": lambda: signed(a, w) - signed(b, w) * int(signed(a, w) / signed(b, w))}[op]()
                except ZeroDivisionError:
                    return ("undef",)
                return norm(r, w)
            if op == "and" and (a == 0 or b == 0):
                return 0
            if op in ("add", "or", "xor", "sub", "shl", "lshr") and b == 0:
                return a
            if op in ("add", "or", "xor") and a == 0:
                return b
            if op == "xor" and w == 1 and (a == -1 or a == 1):
                a, b = b, a
            if op == "xor" and w == 1 and b in (-1, 1):
                return self.negate(s, a)
            if op == "and" and w == 1:
                if a in (1, -1): return b
                if b in (1, -1): return a
            if op == "or" and w == 1 and (a in (1, -1) or b in (1, -1)):
                return 1
            if op in ("add", "mul", "and", "or", "xor") and repr(b) < repr(a):
                a, b = b, a
            return ("op", op, w, a, b)
        if op in ("zext", "trunc", "sext", "freeze", "bitcast", "ptrtoint", "inttoptr"):
            a = ops[0]
            if isinstance(a, int):
                f = width(i.get("from"))
                if op == "sext":
                    a = signed(norm(a, f), f)
                elif op == "zext":
                    a = norm(a, f)
                return norm(a, w)
            if op in ("freeze", "bitcast", "ptrtoint", "inttoptr"):
                return a
            return ("cast", op, w, a)
        if op == "getelementptr":
            g = i["gep"]
            b = self.val(s, g["base"])
            if "off" not in g:
                return ("v", i["id"])
            if not (isinstance(b, tuple) and b[0] == "ptr"):
                b = ("ptr", ("obj", b), 0)
            off, dyn = g["off"], []
            for v, k in g.get("vars", []):
                v = self.val(s, v)
                if isinstance(v, int):
                    off += signed(norm(v, 64), 64) * k
                else:
                    dyn.append((v, k))
            if dyn:
                return ("ptr", ("dyn", b[1], b[2] + off, tuple(dyn)), 0)
            return ("ptr", b[1], b[2] + off)
        if op == "select":
            c, a, b = ops
            if isinstance(c, int):
                return a if c & 1 else b
            if a == b:
                return a
            return ("sel", c, a, b)
        if op == "extractvalue":
            a = ops[0]
            for k in i.get("idx", []):
                if isinstance(a, tuple) and a[0] == "agg" and k + 1 < len(a):
                    a = a[k + 1]
                elif isinstance(a, tuple) and a[0] == "zeroagg":
                    a = 0
                else:
                    a = ("ext", a, k)
            return self.res(s, a)
        if op == "insertvalue":
            a, b = ops
            idx = i.get("idx", [])
            if len(idx) == 1:
                cur = list(a[1:]) if isinstance(a, tuple) and a[0] == "agg" else []
                while len(cur) <= idx[0]:
                    cur.append(("undef",))
                cur[idx[0]] = b
                return ("agg",) + tuple(cur)
            return ("v", i["id"])
        return ("v", i["id"])

    SWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ule": "uge", "ugt": "ult", "uge": "ule", "slt": "sgt", "sle": "sge", "sgt": "slt", "sge": "sle"}
    NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}

    def nonnull(self, p):
        return isinstance(p, tuple) and p[0] == "ptr" and p[1][0] in ("alloca", "glob", "valid")

    def icmp(self, s, pred, a, b, w):
        if isinstance(a, int) and not isinstance(b, int):
            a, b, pred = b, a, self.SWAP[pred]
        if isinstance(a, int) and isinstance(b, int):
            a, b = norm(a, w), norm(b, w)
            x, y = signed(a, w), signed(b, w)
            return int({"eq": a == b, "ne": a != b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y}[pred])
        if isinstance(b, int):
            b = norm(b, w)
        if a == b:
            return int(pred in ("eq", "ule", "uge", "sle", "sge"))
        if pred in ("eq", "ne") and b == 0 and self.nonnull(a):
            return int(pred == "ne")
        if pred == "ult" and b == 0:
            return 0
        if pred == "uge" and b == 0:
            return 1
        if pred == "ugt" and b == 0:
            pred = "ne"
        if pred == "ult" and b == 1:
            pred, b = "eq", 0
        if pred in ("eq", "ne") and isinstance(a, tuple) and a[0] == "cast" and a[1] == "zext" and isinstance(b, int):
            a = a[3]
        if pred in ("eq", "ne") and isinstance(a, tuple) and a[0] in ("icmp",) and isinstance(b, int):
            return a if (b == 1) == (pred == "eq") else self.negate(s, a)
        if pred in ("ne", "uge", "ugt", "sge", "sgt"):
            r = self.truth(s, ("icmp", self.NEG[pred], a, b))
            return r if isinstance(r, int) and False else (1 - r if isinstance(r, int) else ("not", r))
        return self.truth(s, ("icmp", pred, a, b))

    def truth(self, s, e):
        if e in s.facts:
            return s.facts[e]
        return e

    def known(self, s, v):
        """The constant a value is known to be on this path, if any."""
        v, flip = self.res(s, v), False
        while isinstance(v, tuple) and v[0] == "not":
            v, flip = self.res(s, v[1]), not flip
        if isinstance(v, tuple) and v in s.facts:
            v = s.facts[v]
        return (v ^ 1 if flip else v) if isinstance(v, int) else None

    def negate(self, s, c):
        if isinstance(c, int):
            return 1 - (c & 1)
        if isinstance(c, tuple) and c[0] == "not":
            return c[1]
        return ("not", c)

    def assume(self, s, c, truth):
        """Adds a condition taken; False if it contradicts the path."""
        while isinstance(c, tuple) and c[0] == "not":
            c, truth = c[1], not truth
        if isinstance(c, int):
            return bool(c & 1) == truth
        if c in s.facts and bool(s.facts[c]) != truth:
            return False
        s.facts[c] = int(truth)
        s.bind[c] = int(truth)
        if c[0] == "icmp" and c[1] == "eq" and truth:
            if isinstance(c[3], int) and isinstance(c[2], tuple):
                if c[2][0] == "ptr" and c[2][2] == 0 and c[2][1][0] == "obj":
                    s.bind[c[2]] = c[3]
                elif c[2][0] != "ptr":
                    s.bind[c[2]] = c[3]
        if c[0] == "icmp" and c[1] == "eq" and not truth and isinstance(c[3], int) and isinstance(c[2], tuple) and c[2] and c[2][0] == "cast" and c[2][1] == "zext":
            pass
        if c[0] == "op" and c[2] == 1 and c[1] == "and" and truth:
            return self.assume(s, c[3], True) and self.assume(s, c[4], True)
        if c[0] == "op" and c[2] == 1 and c[1] == "or" and not truth:
            return self.assume(s, c[3], False) and self.assume(s, c[4], False)
        if c[0] == "sel":     # one arm cannot give what was seen, so the other one did
            if c[2] in (1, -1) and not truth or c[2] == 0 and truth:
                return self.assume(s, c[1], False) and self.assume(s, c[3], truth)
            if c[3] in (1, -1) and not truth or c[3] == 0 and truth:
                return self.assume(s, c[1], True) and self.assume(s, c[2], truth)
        return True

    def forget(self, s, sym):
        for d in (s.facts, s.bind):
            for k in [k for k in d if mentions(k, sym)]:
                del d[k]

    # engine
    def run(self, init=None):
        s = init or State()
        self.instates = {}          # block -> {key: state}
        self.work = []
        self.rets, self.endsd = {}, {}
        # blocks in reverse postorder, so that paths meet before what follows is looked at
        succ = {}
        for b, x in self.blocks.items():
            t = x["insts"][-1]
            succ[b] = (t.get("succ") or []) + [d for _, d in t.get("cases", [])] + ([t["default"]] if "default" in t else [])
        post, seen, stack = [], {self.order[0]}, [(self.order[0], iter(succ[self.order[0]]))]
        while stack:
            b, it = stack[-1]
            for w in it:
                if w not in seen:
                    seen.add(w); stack.append((w, iter(succ[w]))); break
            else:
                post.append(b); stack.pop()
        self.rpo = {b: k for k, b in enumerate(reversed(post))}
        self.flow_to(s, None, self.order[0])
        n = 0
        while self.work:
            j = min(range(len(self.work)), key=lambda q: self.rpo[self.work[q][0]])
            b, k = self.work.pop(j)
            self.cur = (b, k)
            self.rets[b, k] = []
            self.endsd[b, k] = []
            st = self.instates[b].get(k)
            if st is None:
                continue
            n += 1
            if n > self.budget:
                self.incomplete = True; break
            self.block(b, st.copy())
        self.returns = [x for v in self.rets.values() for x in v]
        self.ends = [x for v in self.endsd.values() for x in v]
        return self

    def flow_to(self, s, frm, b):
        newv = {}
        for i in self.blocks[b]["insts"]:
            if i["op"] != "phi":
                break
            for v, src in i["phi"]:
                if src == frm:
                    newv[i["id"]] = self.val(s, v)
        for k, v in newv.items():
            self.forget(s, ("v", k)) if v != ("v", k) else None
            s.env[k] = v
        for p in self.retphi:
            if p in s.env and not isinstance(s.env[p], int):
                v = self.known(s, s.env[p])
                if isinstance(v, int):
                    s.env[p] = v
        k = (b in self.collapsed and ()) or (self.key(s), s.trace, tuple((p, self.res(s, s.env[p])) for p in sorted(self.retphi) if p in s.env and self.simple(self.res(s, s.env[p]))))
        tab = self.instates.setdefault(b, {})
        if k not in tab and len(tab) >= self.limit:
            self.collapsed.add(b)
            self.incomplete = True
            return
        old = tab.get(k)
        if old is None:
            tab[k] = s
            self.work.append((b, k)); return
        j, changed = self.join(b, old, s)
        if changed:
            tab[k] = j
            if (b, k) not in self.work:
                self.work.append((b, k))

    def simple(self, e):
        return isinstance(e, int) or (isinstance(e, tuple) and e[0] == "ptr" and e[1][0] == "glob")

    def join(self, b, x, y):
        out, ch = State(), False
        self.stale = []
        for k in x.env:
            if k in y.env and x.env[k] == y.env[k]:
                out.env[k] = x.env[k]
            else:
                out.env[k] = ("v", k)
                if x.env[k] != ("v", k):
                    ch = True
                    for d in (x, y):
                        pass
        changed_syms = [("v", k) for k in out.env if out.env[k] == ("v", k) and x.env[k] != ("v", k)]
        for k in x.facts:
            if y.facts.get(k) == x.facts[k] and not any(mentions(k, c) for c in changed_syms):
                out.facts[k] = x.facts[k]
            else:
                ch = True
        for k in x.bind:
            if y.bind.get(k) == x.bind[k] and not any(mentions(k, c) for c in changed_syms):
                out.bind[k] = x.bind[k]
            else:
                ch = True
        roots = set(x.mem) | set(y.mem) | set(x.epoch) | set(y.epoch)
        for r in roots:
            ex, ey = x.epoch.get(r, 0), y.epoch.get(r, 0)
            mx, my = x.mem.get(r, []), y.mem.get(r, [])
            if ex == ey and mx == my:
                if mx: out.mem[r] = list(mx)
                if ex: out.epoch[r] = ex
                continue
            out.epoch[r] = max(ex, ey) if ex != ey else max(ex, 0)
            if self.sites and ex != ey:
                out.epoch[r] = 1000000 + self.order.index(b)
                self.stale.append((r, out.epoch[r]))
            keep, kx, ky = [], {(a, n): v for a, n, v in mx}, {(a, n): v for a, n, v in my}
            for st, ep in ((x, ex), (y, ey)):
                for e in st.bind:
                    if isinstance(e, tuple) and e[0] in ("load", "init") and e[1] == r and (e[0] == "init") == (ep == 0) and (ep == 0 or e[4] == ep):
                        (kx if st is x else ky).setdefault((e[2], e[3]), e)
            for key in sorted(set(kx) | set(ky)):
                vx, vy = self.peek(x, r, key), self.peek(y, r, key)
                if vx == vy:
                    keep.append((key[0], key[1], vx))
                elif (key in {(a, n) for a, n, _ in mx}) or (key in {(a, n) for a, n, _ in my}):
                    keep.append((key[0], key[1], ("m", b, r, key)))
            # overlapping leftovers are dropped
            clean = []
            for e in keep:
                if not clean or clean[-1][0] + clean[-1][1] <= e[0]:
                    clean.append(e)
            out.mem[r] = clean
            if not out.epoch[r]:
                del out.epoch[r]
            if clean != mx or out.epoch.get(r, 0) != ex:
                ch = True
        out.trace = x.trace
        if self.sites:
            for r, ep in self.stale:
                self.version(out, r, ep)
            ch = any(getattr(out, k) != getattr(x, k) for k in ("env", "facts", "bind", "mem", "epoch"))
        return out, ch

    def peek(self, s, r, key):
        for a, n, v in s.mem.get(r, ()):
            if (a, n) == key:
                return self.res(s, v)
            if a < key[0] + key[1] and key[0] < a + n:
                return 0 if v == 0 and a <= key[0] and key[0] + key[1] <= a + n else ("mix",)
        ep = s.epoch.get(r, 0)
        return self.res(s, ("init", r) + key if ep == 0 else ("load", r) + key + (ep,))

    def block(self, b, s):
        states = [s]
        for i in self.blocks[b]["insts"]:
            op = i["op"]
            if op == "phi":
                continue
            nxt = []
            for s in states:
                nxt += self.step(b, s, i)
            states = nxt
            if not states:
                return
            if len(states) > 64:
                self.incomplete = True
                states = states[:64]

    def step(self, b, s, i):
        op = i["op"]
        self.site = int(i["id"][1:])
        if op == "alloca":
            s.env[i["id"]] = ("ptr", ("alloca", i["id"]), 0)
        elif op == "load":
            p = self.val(s, i["ops"][0])
            v = self.on_load(self, s, i, p) if self.on_load else None
            s.env[i["id"]] = v if v is not None else self.load(s, p, i.get("size", 8))
        elif op == "store":
            v, p = self.val(s, i["ops"][0]), self.val(s, i["ops"][1])
            if isinstance(v, int):
                v = norm(v, 8 * i.get("size", 8))
            if isinstance(v, tuple) and v[0] == "ptr" and v[1][0] == "alloca":
                r, _ = self.aptr(p)
                if r[0] != "alloca":
                    self.escaped.add(v[1])
            if isinstance(v, tuple) and v[0] == "agg":
                v = ("v", i["id"])
            if self.on_store:
                self.on_store(self, s, i, p, i.get("size", 8), v)
            self.store(s, p, i.get("size", 8), v)
        elif op in ("call", "invoke"):
            return self.call(b, s, i)
        elif op == "br":
            if len(i["succ"]) == 1:
                self.flow_to(s, b, i["succ"][0]); return []
            c = self.val(s, i["ops"][0])
            for t, dst in ((True, i["succ"][0]), (False, i["succ"][1])):
                u = s.copy()
                if self.assume(u, c, t):
                    self.flow_to(u, b, dst)
            return []
        elif op == "switch":
            c = self.val(s, i["ops"][0])
            if isinstance(c, int):
                d = next((x for v, x in i["cases"] if norm(v, 64) == norm(c, 64) or norm(v, 32) == norm(c, 32)), i["default"])
                self.flow_to(s, b, d); return []
            u = s.copy(); ok = True
            for v, _ in i["cases"]:
                ok = ok and self.assume(u, self.icmp(u, "eq", c, v, 64), False)
            if ok:
                self.flow_to(u, b, i["default"])
            for v, dst in i["cases"]:
                u = s.copy()
                if self.assume(u, self.icmp(u, "eq", c, v, 64), True):
                    self.flow_to(u, b, dst)
            return []
        elif op == "ret":
            self.rets[self.cur].append((s, self.val(s, i["ops"][0]) if i.get("ops") else None, i))
            return []
        elif op in ("unreachable", "resume"):
            self.endsd[self.cur].append((s, i)); return []
        elif op == "landingpad":
            s.env[i["id"]] = ("v", i["id"])
            self.forget(s, ("v", i["id"]))
        elif op == "select":
            c = self.val(s, i["ops"][0])
            if not isinstance(c, int) and i["id"] in self.retphi:
                out = []
                for t in (True, False):
                    u = s.copy()
                    if self.assume(u, c, t):
                        u.env[i["id"]] = self.val(u, i["ops"][1 if t else 2])
                        out.append(u)
                return out
            s.env[i["id"]] = self.compute(s, i)
        else:
            e = self.compute(s, i)
            if depth(e) > 7 or e == ("v", i["id"]):
                e = ("v", i["id"])
                self.forget(s, e)
            s.env[i["id"]] = e
        return [s]

    def call(self, b, s, i):
        callee = i.get("callee") or ""
        args = [self.val(s, a) for a in i.get("ops", [])]
        me = ("v", i["id"])
        self.forget(s, me)
        if callee.startswith("llvm.eh.typeid.for"):
            s.env[i["id"]] = ("typeid", args[0]); return [s]
        if callee.startswith("llvm.threadlocal.address"):
            s.env[i["id"]] = args[0]; return [s]
        if callee.startswith("llvm.memset") and isinstance(args[2], int) and args[1] == 0:
            self.store(s, args[0], args[2], 0); return [s]
        if callee.startswith(("llvm.memcpy", "llvm.memmove")):
            n = args[2]
            r, o = self.aptr(args[1])
            moved = None
            if isinstance(n, int):
                moved = [(a - o, k, v) for a, k, v in s.mem.get(r, ()) if a >= o and a + k <= o + n]
                d, q = self.aptr(args[0])
                self.store(s, args[0], n, me)
                s.mem[d] = [x for x in s.mem[d] if not (x[0] == q and x[1] == n)]
                for a, k, v in moved:
                    self.store(s, ("ptr", d, q + a), k, v)
                if not moved and s.epoch.get(r, 0) == 0 and s.mem.get(r) is None:
                    s.mem.setdefault(d, []).append((q, n, ("copy", r, o, n)))
                    s.mem[d].sort(key=lambda x: x[0])
            else:
                self.clobber_call(s, args[:1])
            return [s]
        if callee.startswith(("llvm.assume", "llvm.dbg", "llvm.lifetime", "llvm.experimental.noalias")):
            return [s]
        if callee.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")) and len(args) == 2:
            w = width(i["ty"])
            if all(isinstance(a, int) for a in args):
                k = (lambda v: norm(v, w)) if callee[5] == "u" else (lambda v: signed(norm(v, w), w))
                s.env[i["id"]] = (min if "min" in callee else max)(args, key=k)
            else:
                s.env[i["id"]] = ("minmax", callee[5:9]) + tuple(args)
            return [s]
        outs = None
        if self.on_call:
            outs = self.on_call(self, s, i, callee, args)
        if outs is None:
            if callee.startswith("llvm."):
                s.env[i["id"]] = me
            else:
                for a in args:
                    if isinstance(a, tuple) and a[0] == "ptr" and a[1][0] == "alloca":
                        pass
                self.clobber_call(s, args)
                s.env[i["id"]] = me
            outs = [s]
        if i["op"] == "invoke":
            for o in outs:
                u = o.copy()
                self.flow_to(u, b, i["succ"][1])
            for o in outs:
                self.flow_to(o, b, i["succ"][0])
            return []
        if i.get("noreturn"):
            return []
        return outs
