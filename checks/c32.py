#!/usr/bin/env python3
"""C32: the library's stand-ins for standard algorithms compute what the standard ones do, when evaluated by the compiler and at run time."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vp import *
import algwit
from witness import run_witnesses
RULE = ("Compile-fail witnesses: copying between every pair of representative element types, for every small length, in allocations of exactly that size, with the branches taken in constant "
        "evaluation and with those taken at run time (memory functions replaced by element-wise ones that refuse types of different representation); minimum, maximum, all_of and contains on every small input.")
def check(rep):
    js = algwit.jobs()
    rep.count("witnesses", len(js))
    for name, r in sorted(run_witnesses(js).items()):
        rep.sample({"witness": name, "result": r.status})
        if r.status == "fail":
            rep.violate(name, "%s: %s" % (name, algwit.WHAT.get(r.counter, "wrong for %s elements" % r.counter) if r.counter is not None else r.text))
        elif r.status != "ok":
            rep.note("%s is not evaluated: %s" % (name, r.text))
    rep.assume("what holds for the representative element types holds for types of the same kind")
main("C32", RULE, check)
