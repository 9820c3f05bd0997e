#!/usr/bin/env python3
"""C27: the command-line tool reports every failure, and file loading is complete or fails (compile-fail witnesses over a model of stdio)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vp import *
import iowit
from witness import run_witnesses

RULE = ("Compile-fail witnesses: io.hpp, io.cpp and main.cpp as they are, compiled against a constant-evaluable model of <cstdio> whose files are absent, break off at a given "
        "read, are not UTF-8, or cannot be written or flushed. static_asserts require: load_utf8_file and load_utf32le_file succeed exactly on complete, valid content and "
        "return it whole, for all sizes around multiples of the block size; paths too long or with a null character are never opened cut off; every file is closed on every path "
        "(an unclosed file is an allocation that outlives the evaluation, which is ill-formed); main returns success exactly if the file was read, is valid, was highlighted with "
        "status ok and all output reached the file; every failing run says so on the error stream.")

def check(rep):
    js = iowit.jobs()
    if not js:
        rep.note("io.hpp, io.cpp or main.cpp is gone"); return
    rep.count("witnesses", len(js))
    rep.count("histories of loading", 5 * 15 * 5 * 2 * 2 + 34 * 23 + 120)
    rep.count("histories of file ownership", 10)
    rep.count("histories of the program", 3 * iowit.MAIN.count('{ "') + 3)
    for name, r in run_witnesses(js).items():
        rep.sample({"witness": name, "result": r.status})
        if r.status == "ok":
            continue
        if r.status == "gone" and name == "io_main" and "cast from" in r.text and "because" not in r.text and iowit.unopened(next(j for j in js if j[0] == name)):
            rep.violate(name, "main: goes on with an output file that could not be opened"); continue
        if r.status != "fail":
            rep.note("%s is not evaluated: %s" % (name, r.text)); continue
        n, text = r.counter, r.text
        if name == "io_load" and n is not None:
            text = "load_utf8_file: %s (history %d)" % (iowit.WHY.get(n % 8, "?"), n // 8)
        elif name == "io_paths" and n is not None:
            text = "load_utf8_file: a path of length %d is %s" % (n // 2, "rejected although it fits" if n % 2 else "opened cut off")
        elif name == "io_words" and n is not None:
            text = "load_utf32le_file: wrong result for a file of %d bytes" % (n // 4)
        elif name == "io_owner" and n is not None:
            text = "Unique_File: history %d of moving, swapping, closing and releasing ends with the wrong owner" % n
        elif name.startswith("io_main") and n is not None:
            text = iowit.history(n, name)
        rep.violate(name, text)
    rep.assume("the model of <cstdio> fails in every way the real one does that matters: absent files, reads and writes that fail at any call, failing flushes")
    rep.assume("State::source_to_html is replaced by a model with scripted status and output; what it really returns is the subject of C06 to C10")

main("C27", RULE, check)
