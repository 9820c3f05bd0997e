#!/usr/bin/env python3
"""C30: the scanners shared by all highlighters report exact spans (compile-fail witnesses against independent definitions)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vp import *
import scanwit
from witness import run_witnesses

RULE = ("Compile-fail witnesses: static_asserts that compare the library's own scanners with independent definitions, for every text up to a length over an alphabet that holds a "
        "representative of every class they tell apart (numbers: every sequence of fragments, five sets of options), each text in an allocation of its own, so that reading beyond it is ill-formed.")

def check(rep):
    js = scanwit.jobs(TIER != "quick")
    rep.count("witnesses", len(js))
    for name, r in sorted(run_witnesses(js).items()):
        rep.sample({"witness": name, "result": r.status})
        if r.status == "ok":
            continue
        if r.status != "fail":
            rep.note("%s is not evaluated: %s" % (name, r.text)); continue
        if r.counter is not None:
            f, t = scanwit.explain(name, r.counter)
            rep.violate("%s:%s" % (name, f), "%s: wrong for the text %r" % (f, t))
        else:
            rep.violate(name, r.text)
    rep.assume("texts longer than the bound only repeat what the scanners do on shorter ones, which keep no state but a position and a previous character")

main("C30", RULE, check)
