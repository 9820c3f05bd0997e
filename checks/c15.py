#!/usr/bin/env python3
"""C15: JSON parser events carry exact positions and text, and nest properly."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vp import *
from witness import run_witnesses
import jsonwit, jsonflow

RULE = ("Typestate over the IR: in every function reachable from parse_json, on every path on which it returns true, the push and pop events of it and of all it "
        "calls cancel out as properly nested pairs (summaries computed to a fixpoint over recursion; events recognised by their slot in the visitor's table). "
        "Compile-fail witnesses: the whole stream of events, with positions, texts, code points and encodings, equals that of an independent parser on every "
        "sequence of fragments up to the depth of the tier; on rejected text the events are those of the text before the error.")

def check(rep):
    ts = jsonflow.typestate()
    exact = not ts.inc and all(r != "?" for o in ts.sum.values() for r, _, _ in o)
    if not ts.roots:
        rep.note("no definition of parse_json")
    for f in sorted(ts.dirty, key=lambda f: ts.fns[f]["demangled"]):
        for r, e, st in sorted(ts.sum.get(f, ()), key=repr):
            if f in ts.roots and r == 1 and st:
                if exact:
                    blame = next((g for g in sorted(ts.dirty) if g not in ts.roots and (1, 0, st) in ts.sum.get(g, ()) and not any((1, 0, st) in ts.sum.get(h, ()) for h in ts.calls[g] if h != g)), f)
                    rep.violate("nesting:" + "/".join(st), "%s can succeed after events that do not nest: left over are %s" % (jsonflow.show(ts.fns[blame]), ", ".join(st)))
                else:
                    rep.note("%s may succeed with %s left over; the analysis is not exact here" % (jsonflow.show(ts.fns[f]), ", ".join(st)))
    rep.count("functions whose event nesting is summarised", len(ts.dirty), 0)
    res = run_witnesses(jsonwit.jobs())
    rep.count("witnesses decided", jsonwit.judge(rep, res, jsonwit.EVENTS | {0}), 0)
    rep.assume("the conversion of numbers to double, which the constant evaluator cannot run, is left to C17")

if __name__ == "__main__":
    main("C15", RULE, check)
