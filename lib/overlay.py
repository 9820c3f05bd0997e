"""A copy of the library's sources in which every function is declared constexpr, so that the compiler's constant
evaluator can decide assertions about functions the library does not mark constexpr. Only the keyword is inserted."""
import os, re, shutil, fcntl
from vp import *

def overlay():
    """-> directory mirroring /repo with include/ and src/main/cpp/ (cached by content of the tree)."""
    facts = ast_facts()
    pts = {}
    for d in facts.values():
        for x in d.get("cx", []):
            pts.setdefault(x["file"], set()).add(x["off"])
    key = tree_hash(["overlay", os.path.getmtime(tool("astfacts"))] + lib_sources())
    base = os.path.join(BUILD, "cx")
    os.makedirs(base, exist_ok=True)
    d = os.path.join(base, key)
    with open(os.path.join(base, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, "done")):
            for old in os.listdir(base):
                if old not in ("lock",):
                    shutil.rmtree(os.path.join(base, old), ignore_errors=True)
            for sub in ("include", "src/main/cpp"):
                for dp, dn, fs in os.walk(os.path.join(REPO, sub)):
                    for f in fs:
                        if not f.endswith((".h", ".hpp", ".cpp", ".inc", ".ipp")):
                            continue
                        p = os.path.join(dp, f)
                        raw = open(p, "rb").read()
                        for off in sorted(pts.get(p, ()), reverse=True):
                            raw = raw[:off] + b"constexpr " + raw[off:]
                        q = os.path.join(d, os.path.relpath(p, REPO))
                        os.makedirs(os.path.dirname(q), exist_ok=True)
                        open(q, "wb").write(raw)
            open(os.path.join(d, "done"), "w").close()
    return d

def full(d, attempts=False):
    """The overlay with two constructs the constant evaluator does not know rewritten into equivalent ones: `goto` (into a lambda that
    returns, or a copy of the labelled tail), and a virtual base class shared by two bases (into a chain). With `attempts`, every return of a recognising method reports to vp_left or vp_pure (witness/hl.hpp)."""
    facts = ast_facts()
    ed, seen = {}, set()
    for f in facts.values():
        for x in f.get("cx", []) + f.get("cxv", []):
            ed.setdefault(x["file"], {})[(x["off"], 0, "constexpr ")] = 1
        for x in f.get("edits", []):
            ed.setdefault(x["file"], {})[(x["off"], x["len"], x["text"])] = 1
        for x in f.get("exits", []) if attempts else []:
            ed.setdefault(x["file"], {})[(x["off"], x["len"], x["text"])] = 1
    r = d + ("-hlx" if attempts else "-hl")
    with open(os.path.join(os.path.dirname(d), "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(r, "done")):
            for sub in ("include", "src/main/cpp"):
                for dp, dn, fs in os.walk(os.path.join(REPO, sub)):
                    for f in fs:
                        if not f.endswith((".h", ".hpp", ".cpp", ".inc", ".ipp")):
                            continue
                        p = os.path.join(dp, f)
                        raw, end = open(p, "rb").read(), None
                        for off, n, text in sorted(ed.get(p, ()), key=lambda e: (e[0], e[1] != 0, e[2]), reverse=True):
                            if end is not None and off + n > end:
                                continue
                            raw, end = raw[:off] + text.encode() + raw[off + n:], off
                        q = os.path.join(r, os.path.relpath(p, REPO))
                        os.makedirs(os.path.dirname(q), exist_ok=True)
                        open(q, "wb").write(raw)
            open(os.path.join(r, "done"), "w").close()
    return r

def runtime(d):
    """The overlay with the branches that are taken at run time: `if !consteval` holds, and the memory functions of the C library are
    replaced by constexpr equivalents (witness/rt.hpp)."""
    r = d + "-rt"
    with open(os.path.join(os.path.dirname(d), "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(r, "done")):
            for dp, dn, fs in os.walk(d):
                for f in fs:
                    if f == "done":
                        continue
                    t = open(os.path.join(dp, f), encoding="utf-8", errors="surrogateescape").read()
                    if True:
                        t = re.sub(r"\bif\s*(?:!|not\b)\s*consteval\b", "if (true)", t)
                        t = re.sub(r"\bif\s+consteval\b", "if (false)", t)
                        t = re.sub(r"\bif\s*\(\s*!\s*(std::is_constant_evaluated|__builtin_is_constant_evaluated)\s*\(\s*\)\s*\)", "if (true)", t)
                        t = re.sub(r"\b(std::is_constant_evaluated|__builtin_is_constant_evaluated)\s*\(\s*\)", "false", t)
                        t = re.sub(r"(?<![\w:])(?:::)?(?:std::|__builtin_)?(memmove|memcpy)\s*\(", r"::vp_rt::\1(", t)
                    q = os.path.join(r, os.path.relpath(os.path.join(dp, f), d))
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    open(q, "w", encoding="utf-8", errors="surrogateescape").write(t)
            open(os.path.join(r, "done"), "w").close()
    return r

def overlay_flags(d):
    pre = "rt.hpp" if d.endswith("-rt") else "hl.hpp" if d.endswith(("-hl", "-hlx")) else None
    return (["-include", os.path.join(VERIF, "witness", pre)] if pre else []) + ["-I", os.path.join(d, "include"), "-I", os.path.join(d, "src/main/cpp"), "-Wno-invalid-constexpr"]
