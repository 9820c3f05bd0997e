#!/usr/bin/env python3
"""C04: no input trips an internal check or reads outside the source, on whole highlighters (compile-fail witnesses)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vp import *
import hlwit

RULE = ("Compile-fail witnesses: for each input, alone in an allocation of its own, a static_assert over the library's own highlighter or JSON parser, which is ill-formed if the evaluation fails a check, throws, indexes or slices outside a view, dereferences an empty optional, or is undefined in any other way. Inputs: every pair of fragments of the language (the literals of its source, line ends, non-ASCII and malformed UTF-8), every prefix, suffix and "
        "one-byte deletion of constructs of the language, every prefix followed by a fragment, and pairs of constructs; with varying options and buffer sizes.")

def check(rep):
    hlwit.check(rep, "C04", "evaluation is undefined or fails a check")

main("C04", RULE, check)
