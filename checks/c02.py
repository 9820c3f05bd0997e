#!/usr/bin/env python3
"""C02: tokens are non-empty, in range, ordered and non-overlapping, on whole highlighters (compile-fail witnesses)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vp import *
import hlwit

RULE = ("Compile-fail witnesses: for each input a static_assert over the library's own highlighter, decided by the compiler's constant evaluator, that each token given to the callback has a nonzero length, lies in the text and starts no earlier than the token before it ended. Inputs: every pair of fragments of the language (the literals of its source, line ends, non-ASCII and malformed UTF-8), every prefix, suffix and "
        "one-byte deletion of constructs of the language, every prefix followed by a fragment, and pairs of constructs; with varying options and buffer sizes.")

def check(rep):
    hlwit.check(rep, "C02", "token given to the callback is wrong")

main("C02", RULE, check)
