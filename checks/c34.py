#!/usr/bin/env python3
"""C34: the matchers of each language find exactly the span the language's grammar gives (compile-fail witnesses against tables)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vp import *
import lexwit
from witness import run_witnesses

RULE = ("Compile-fail witnesses: static_asserts that each language's matchers of comments, white space, names, numbers, strings, escapes and marks return, for every sequence of fragments up to a depth, "
        "what a table computed from the language's grammar (regular expressions kept in the check) gives, each text in an allocation of its own, so that reading beyond it is ill-formed.")

def check(rep):
    js, n = lexwit.jobs(TIER != "quick")
    rep.count("witnesses", len(js)); rep.count("texts", n)
    for name, r in sorted(run_witnesses(js).items()):
        rep.sample({"witness": name, "result": r.status})
        name = name[4:]
        if r.status == "ok":
            continue
        if r.status != "fail" or r.counter == -2:
            rep.note("%s is not evaluated: %s" % (name, r.text)); continue
        if r.counter is not None:
            i, got = divmod(r.counter, 256)
            t = lexwit.text_at(name, i)
            rep.violate("%s" % name, "%s: wrong for the text %r: %s, where the grammar gives %s" % (name, t, lexwit.show(got), lexwit.show(lexwit.CASES[name][3](t))))
        else:
            rep.violate(name, r.text)
    rep.assume("texts longer than the bound only repeat what the matchers do on shorter ones")

main("C34", RULE, check)
