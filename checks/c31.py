#!/usr/bin/env python3
"""C31: a callback reference calls exactly the callable it was made from."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vp import *
import fnref
RULE = ("For every kind of callable, a function that makes a reference and invokes it is compiled next to one that calls the callable directly; in the optimised intermediate "
        "representation both must make the same calls with the same arguments in the same order and return the same value. Conversions that must or must not exist are static_asserts.")
main("C31", RULE, fnref.check)
