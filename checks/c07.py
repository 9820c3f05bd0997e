#!/usr/bin/env python3
"""C07: no exception or termination crosses the C interface. Exception-flow analysis over the optimised IR."""
import os, sys, re, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vp import *
import flow

RULE = ("Every operation that may throw (operator new, library throw statements, assertion handler, memory resource, flush callbacks) is followed "
        "backwards through the call graph to the place where the exception stops. It may stop only in a handler: an unwind edge from it that ends in "
        "std::terminate, in the function that unwinds or in one of its callers, is a violation; so is an exported function that is not nounwind, and a "
        "call to a terminating function reachable from the C interface.")
ENDERS = re.compile(r"^(abort|exit|_exit|_Exit|quick_exit|_ZSt9terminatev|_ZSt10unexpectedv|__cxa_pure_virtual|__assert_fail|raise|kill|longjmp|pthread_exit|"
                    r"__cxa_deleted_virtual|_ZSt17__verbose_terminate.*|__glibcxx_assert_fail|_ZSt21__glibcxx_assert_failPKciS0_S0_)$")
SKIP = re.compile(r"^(__cxa_begin_catch|__cxa_end_catch|__clang_call_terminate|__cxa_allocate_exception|__cxa_free_exception|llvm\..*)$")

def unwind_ends(f, blocks, b):
    """Where an exception arriving at landing block b goes if no clause matches, and the clauses on the way."""
    clauses, ends, seen, work = [], set(), set(), [b]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        stop = False
        for i in blocks[x]["insts"]:
            if i["op"] == "landingpad":
                clauses += i.get("clauses", [])
            c = i.get("callee")
            if c == "__cxa_begin_catch":
                stop = True; break
            if c in ("__clang_call_terminate", "_ZSt9terminatev"):
                ends.add(("terminate", i.get("fn") or "", bool(i.get("inl")))); stop = True; break
            if i["op"] == "resume":
                ends.add(("resume",)); stop = True; break
        if stop:
            continue
        t = blocks[x]["insts"][-1]
        nxt = list(t.get("succ", []))
        if t["op"] == "invoke":
            nxt = nxt[:1]
        if t["op"] == "switch":
            nxt = [t["default"]] + [c[1] for c in t["cases"]]
        work += nxt
    return clauses, ends

def clause_names(cl):
    """None if everything is caught by name, else the set of typeinfo names."""
    out = set()
    for c in cl:
        s = c if isinstance(c, str) else (c.get("glob") if isinstance(c, dict) else None)
        if s is None or c == 0 or c == "null":
            out.add("*"); continue
        out.add(s.lstrip("@"))
    return out

def main_(rep):
    d = ir_dump("O2S", O2S, ".*")
    F = d["functions"]
    api = [n for n, f in F.items() if n.startswith("ulight_") and not f["decl"]]
    rep.count("exported functions", len(api), 15)
    blocks = {n: {b["id"]: b for b in f["blocks"]} for n, f in F.items() if not f["decl"]}
    defs = {n: {i["id"]: i for b in f["blocks"] for i in b["insts"]} for n, f in F.items() if not f["decl"]}

    def callee_target(n, i):
        """Kind of an indirect call."""
        t = i.get("target")
        dd = defs[n].get(t) if isinstance(t, str) else None
        if dd is not None and dd["op"] == "load":
            p = dd["ops"][0]
            pi = defs[n].get(p) if isinstance(p, str) else None
            if (pi is not None and "threadlocal.address" in (pi.get("callee") or "")) or "assertion_handler" in str(p):
                return "assertion"
        if i.get("ty") == "ptr":
            return "memory resource"
        if len(i.get("ops", [])) == 3:
            return "callback"
        return "indirect call"

    throws_ty = {}
    def thrown(n, i):
        if i.get("nounwind"):
            return set()
        c = i.get("callee")
        if c is None:
            return {("assertion", "_ZTIN6ulight15Assertion_ErrorE")} if callee_target(n, i) == "assertion" else {(callee_target(n, i), "?")}
        if SKIP.match(c):
            return set()
        if c == "__cxa_throw":
            ti = i["ops"][1]
            ti = ti.lstrip("@") if isinstance(ti, str) else (ti.get("glob", "?").lstrip("@") if isinstance(ti, dict) else "?")
            return {("assertion" if "Assertion_Error" in ti else "throw", ti)}
        if c in ("__cxa_rethrow", "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"):
            return {("rethrow", "?")}
        if re.match(r"_Zn[wa]", c):
            return {("operator new", "_ZTISt9bad_alloc")}
        if re.match(r"_ZSt\d+__throw_out_of_range", c):
            return {("range", "_ZTISt12out_of_range")}
        if re.match(r"_ZSt\d+__throw_", c):
            m = re.match(r"_ZSt\d+__throw_(\w+?)(PK|v$)", c)
            return {("throw", "std::" + (m.group(1) if m else c))}
        g = F.get(c)
        if g is None or g["decl"]:
            return set() if g is not None and g["nounwind"] else {("external " + c, "?")}
        if g["nounwind"]:
            return set()
        return None

    esc = {n: {} for n in blocks}       # function -> {kind: (line info)}
    calls = collections.defaultdict(list)
    info = {}
    for n, bs in blocks.items():
        for b in bs.values():
            for i in b["insts"]:
                if i["op"] in ("call", "invoke"):
                    cl, ends = ([], {("resume",)}) if i["op"] == "call" else unwind_ends(F[n], bs, i["succ"][1])
                    calls[n].append((i, clause_names(cl), ends))
    def caught(ti, names):
        if ti == "?":
            return False
        if ti in names:
            return True
        # derived classes of the standard exceptions
        base = {"_ZTISt20bad_array_new_length": ["_ZTISt9bad_alloc", "_ZTISt9exception"], "_ZTISt9bad_alloc": ["_ZTISt9exception"],
                "_ZTISt12out_of_range": ["_ZTISt11logic_error", "_ZTISt9exception"], "std::bad_alloc": ["_ZTISt9bad_alloc", "_ZTISt9exception"],
                "std::length_error": ["_ZTISt12length_error", "_ZTISt11logic_error", "_ZTISt9exception"]}
        return any(b in names for b in base.get(ti, []))
    changed = True
    while changed:
        changed = False
        for n in blocks:
            if F[n]["nounwind"]:
                continue
            for i, names, ends in calls[n]:
                k = thrown(n, i)
                if k is None:
                    k = set(esc.get(i["callee"], {}))
                for kk in k:
                    if ("resume",) in ends and not caught(kk[1], names) and kk not in esc[n]:
                        esc[n][kk] = "%s:%s" % (i.get("file"), i.get("line")); changed = True
    # reachability from the C interface by direct calls and by address taken anywhere (indirect calls)
    def refs(v, out):
        if isinstance(v, str):
            if v.startswith("@"): out.add(v[1:])
        elif isinstance(v, dict):
            for x in v.values(): refs(x, out)
        elif isinstance(v, list):
            for x in v: refs(x, out)
    vt = {}
    for g, o in d["globals"].items():
        s = set(); refs(o.get("init"), s); vt[g] = s
    seen, work = set(), list(api)
    while work:
        n = work.pop()
        if n in seen or n not in blocks:
            continue
        seen.add(n)
        for b in blocks[n].values():
            for i in b["insts"]:
                s = set()
                if i.get("callee"): s.add(i["callee"])
                refs(i.get("ops"), s); refs(i.get("phi"), s); refs(i.get("gep"), s)
                for x in list(s):
                    if x in vt:
                        s |= vt[x]
                work += [x for x in s if x in blocks]
    rep.count("functions reachable from the C interface", len(seen), 50)
    # (1)
    for n in api:
        if not F[n]["nounwind"]:
            what = sorted(set(k[0] for k in esc[n]))
            for k in what or ["unknown"]:
                kk = [x for x in esc[n] if x[0] == k]
                at = esc[n][kk[0]] if kk else "?"
                hard = k in ("operator new", "memory resource", "callback", "assertion", "throw", "rethrow", "range")
                txt = "%s (%s:%s) may let an exception escape to its C caller: %s at %s" % (n, F[n].get("file"), F[n].get("line"), k, at)
                if hard: rep.violate("escape:%s:%s" % (n, k), txt)
                else: rep.note(txt)
    # (2)
    nterm = nthrow = 0
    for n in sorted(seen):
        for i, names, ends in calls[n]:
            k = thrown(n, i)
            if k is None:
                k = set(esc.get(i["callee"], {}))
            if not k:
                continue
            nthrow += 1
            t = [e for e in ends if e[0] == "terminate"]
            if i["op"] == "call" and not k:
                continue
            if not t:
                continue
            nterm += 1
            for kk in sorted(k):
                if caught(kk[1], names):
                    continue
                dn = re.sub(r"\(.*", "", F[n]["demangled"])
                at = "%s:%s" % (i.get("file"), i.get("line"))
                txt = "%s at %s (in %s) may throw where no handler catches it before std::terminate" % (kk[0], at, dn)
                outer = n.startswith("ulight_") and not all(e[2] for e in t)
                if kk[0] in ("operator new", "memory resource", "callback", "throw", "rethrow") or (kk[0] in ("assertion", "range") and outer):
                    rep.violate("terminate:%s:%s" % (dn, kk[0]), txt)
                else:
                    rep.note(txt + " (an internal check: whether it can fail is decided elsewhere)")
    rep.count("call sites that may throw, reachable from the C interface", nthrow, 20)
    rep.count("of these, call sites that unwind into terminate without a handler", nterm, 0)
    # (3)
    ntrap = 0
    for n in sorted(seen):
        for b in blocks[n].values():
            for k, i in enumerate(b["insts"]):
                c = i.get("callee")
                if not c: continue
                if ENDERS.match(c):
                    if n == "__clang_call_terminate": continue
                    rep.violate("ends:%s:%s" % (n, c), "%s calls %s at %s:%s: the program ends instead of returning" % (F[n]["demangled"], c, i.get("file"), i.get("line")))
                if c == "llvm.trap":
                    ntrap += 1
                    prev = [p for p in b["insts"][:k] if p["op"] == "call"]
                    pred = [p for q in blocks[n].values() for p in q["insts"][-1:] if b["id"] in p.get("succ", []) and p["op"] == "invoke"]
                    ok = any(p.get("callee") is None and callee_target(n, p) == "assertion" for p in prev + pred) or "assert" in (i.get("fn") or "")
                    if not ok:
                        rep.violate("ends:%s:trap" % n, "%s traps at %s:%s outside an assertion" % (F[n]["demangled"], i.get("file"), i.get("line")))
    rep.count("traps examined", ntrap, 0)
    rep.assume("failing assertions and range checks inside a function declared noexcept other than an entry point are the subject of C04")
    rep.assume("callbacks may throw; indirect calls that return nothing and take three arguments are callbacks")
    for n in api[:40]:
        rep.sample("%s nounwind=%s" % (n, F[n]["nounwind"]))

main("C07", RULE, main_)
