#!/usr/bin/env python3
"""C24: a construct that is tried and rejected leaves no trace (compile-fail witnesses of whole highlighters whose attempts report at every return)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vp import *
import hlwit

RULE = ("Over the type-checked syntax tree, every return of every recognising method of a highlighter (expect_*, try_*: failure is a result that is false; match_*, peek_*, starts_with*: any "
        "result) is made to compare position, remaining text, number of tokens and length of the last token with those on entry; the whole highlighter is then evaluated by the "
        "compiler's constant evaluator on the set of inputs (as for C02 to C04). A failed attempt that changed one of them is ill-formed, and reported with the function and input.")

def check(rep):
    fns, files = {}, set()
    for d in ast_facts().values():
        for x in d.get("exits", []):
            fns[x["fn"]] = fns.get(x["fn"], set()) | {(x["file"], x["off"])}
            files.add(x["file"])
    rep.count("recognising methods", len(fns))
    rep.count("returns that report", sum((len(v) - 1) // 2 for v in fns.values()))
    for n in sorted(fns):
        rep.sample({"method": n})
    if not fns:
        rep.note("no recognising methods are found"); return
    hlwit.check(rep, "C24", "attempt leaves a trace", True)

main("C24", RULE, check)
