#!/usr/bin/env python3
"""C16: the JSON parser reports an error for every rejected input, and rejects garbage."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vp import *
from witness import run_witnesses
import jsonwit, jsonflow

RULE = ("Typestate over the IR: for every function reachable from parse_json, how often the error handler has been called when it returns true and when it returns "
        "false, over every path, as summaries computed to a fixpoint over recursion; parse_json returns true only after no call and false only after exactly one. "
        "Compile-fail witnesses: on every sequence of fragments up to the depth of the tier the parser accepts exactly what an independent parser accepts, the "
        "error's position lies in the source with consistent line and column, and a disallowed comment is reported as such at its position.")

def check(rep):
    ts = jsonflow.typestate()
    exact = not ts.inc and all(r != "?" for o in ts.sum.values() for r, _, _ in o)
    if not ts.roots:
        rep.note("no definition of parse_json")
    bad = lambda r, e: (r == 1 and e > 0) or (r == 0 and e != 1)
    for f in ts.roots:
        for r, e, _ in sorted(ts.sum.get(f, ()), key=repr):
            if not bad(r, e):
                continue
            text = "%s after %s of the error handler" % ("succeed" if r else "fail", ["no call", "a call", "more than one call"][e])
            if not exact:
                rep.note("%s may %s; the analysis is not exact here" % (jsonflow.show(ts.fns[f]), text)); continue
            blame = next((g for g in sorted(ts.dirty) if g not in ts.roots and any((r, e) == x[:2] for x in ts.sum.get(g, ()))
                          and not any((r, e) == x[:2] for h in ts.calls[g] if h != g for x in ts.sum.get(h, ()))), f)
            rep.violate("errors:%s:%d" % (r, e), "%s can %s" % (jsonflow.show(ts.fns[blame]), text))
    rep.count("functions whose error calls are summarised", len(ts.dirty), 0)
    for f in sorted(ts.dirty):
        rep.sample("%s: %s" % (jsonflow.show(ts.fns[f]), ", ".join(sorted({"%s after %d errors" % ({1: "true", 0: "false", None: "void"}.get(r, r), e) for r, e, _ in ts.sum.get(f, ())}))))
    res = run_witnesses(jsonwit.jobs())
    rep.count("witnesses decided", jsonwit.judge(rep, res, jsonwit.ERRORS), 0)

if __name__ == "__main__":
    main("C16", RULE, check)
