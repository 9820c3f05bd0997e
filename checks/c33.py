#!/usr/bin/env python3
"""C33: the line diff is a shortest edit script, and its printed form leads from the first text to the second."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vp import *
import diffwit
from witness import run_witnesses
RULE = ("Compile-fail witnesses over string_diff.hpp (functions made constexpr, the output stream replaced by a string): for every pair of sequences of lines up to a length, the script keeps only equal lines, covers "
        "both sequences, changes as few lines as possible and deletes before it inserts; the printed hunks are parsed by an independent reader and applied to the first text.")
def check(rep):
    got = diffwit.jobs(TIER != "quick")
    if not got:
        rep.note("include/ulight/impl/string_diff.hpp is gone"); return
    js, p = got
    rep.count("witnesses", len(js))
    try:
        res = run_witnesses(js)
    finally:
        os.unlink(p)
    for name, r in sorted(res.items()):
        rep.sample({"witness": name, "result": r.status})
        what = diffwit.WHAT_SCRIPT if name.startswith("script") else diffwit.WHAT_PRINT
        if r.status == "fail":
            rep.violate("%s:%s" % (name.split()[0], r.counter), "%s: %s" % (name, what.get(r.counter, r.text)))
        elif r.status != "ok":
            rep.note("%s is not evaluated: %s" % (name, r.text))
    rep.assume("longer texts repeat what the algorithm does on short ones")
main("C33", RULE, check)
