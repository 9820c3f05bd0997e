#!/usr/bin/env python3
"""C03: highlighting and JSON parsing terminate, on whole highlighters (compile-fail witnesses)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vp import *
import hlwit

RULE = ("Compile-fail witnesses: for each input a static_assert over the library's own highlighter or JSON parser, which the compiler's constant evaluator has to finish within a budget hundreds of times what the costliest input takes. Inputs: every pair of fragments of the language (the literals of its source, line ends, non-ASCII and malformed UTF-8), every prefix, suffix and "
        "one-byte deletion of constructs of the language, every prefix followed by a fragment, and pairs of constructs; with varying options and buffer sizes.")

def check(rep):
    hlwit.check(rep, "C03", "repetition does not end")

main("C03", RULE, check)
