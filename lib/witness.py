"""Compile-fail witnesses: small translation units made of static_assert, decided by the compiler's
constant evaluator over the library's own headers. Nothing is run."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from vp import *

WIT = os.path.join(BUILD, "wit")

class Res:
    def __init__(self, status, text="", counter=None):
        self.status, self.text, self.counter = status, text, counter

CHECKFN = re.compile(r"assert|throw|terminate|abort|unreachable|__builtin_trap", re.I)

# what the constant evaluator refuses although the running program may do it
UNKNOWN = re.compile(r"(?!.*assertion_handler).*(?:reinterpret_cast|cast from|cast that performs|dynamic_cast|non-literal type|goto|inline asm|typeid|read of non-const|non-constexpr variable|thread_local|static variable)")

def compile_one(job):
    name, text, steps = job[:3]
    extra = list(job[3]) if len(job) > 3 else []
    p = os.path.join(WIT, re.sub(r"[^A-Za-z0-9_]", "_", name) + ".cpp")
    with open(p, "w") as f:
        f.write(text)
    try:
        r = subprocess.run([CLANGXX] + [x for x in extra if not x.startswith("-std=")] + CXXFLAGS + [x for x in extra if x.startswith("-std=")] + ["-DULIGHT_VP_WITNESS", "-I", os.path.join(VERIF, "witness"), "-fsyntax-only",
                            "-fconstexpr-steps=%d" % steps, "-fconstexpr-depth=4096", "-ferror-limit=5",
                            "-fno-caret-diagnostics", "-fconstexpr-backtrace-limit=6", p],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
    except subprocess.TimeoutExpired:
        return name, Res("broken", "the constant evaluator did not finish within 800 s")
    if r.returncode == 0:
        return name, Res("ok")
    err = [l for l in r.stderr.splitlines() if "error:" in l]
    notes = r.stderr
    m = re.search(r"expression evaluates to '(-?\d+) == -1'", notes)
    if m:
        return name, Res("fail", "counterexample", int(m.group(1)))
    if "step limit" in notes or "constexpr evaluation exceeded" in notes:
        return name, Res("broken", notes[-600:])
    own = [e for e in err if not re.search(r"static assertion failed|not an integral constant expression|must be initialized by a constant expression|is not a constant expression", e)]
    if own:
        return name, Res("gone", own[0][-200:])
    if any("static assertion failed" in e for e in err):
        return name, Res("fail", err[0][-300:])
    if err:
        m = re.search(r"note: non-constexpr (?:function|constructor) '([^']*)' cannot be used", notes) \
            or re.search(r"note: undefined function '([^']*)' cannot be used", notes)
        if m and not CHECKFN.search(m.group(1)):
            return name, Res("gone", "no longer constant: " + m.group(1))
        why = [w for w in re.findall(r"note: (.*)", notes) if not w.startswith("in instantiation of")]
        if why and UNKNOWN.match(why[0]):
            return name, Res("gone", "no longer constant: " + why[0])
        return name, Res("fail", "the evaluation itself is undefined or trips a check: " + "; ".join(why[:3])[:300])
    return name, Res("broken", "\n".join(err)[-800:] or notes[-800:])

def run_witnesses(jobs):
    """jobs: [(name, text, steps[, flags])] -> {name: Res}"""
    os.makedirs(WIT, exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        return dict(ex.map(compile_one, jobs))
