#!/usr/bin/env python3
"""tools/mut.py FILE [NAME]: tries small edits (bugs and refactorings) on a scratch copy of /repo and shows what the checks say.
FILE is a Python file defining M = [(name, "C08 C26", expect_alarm, path, old, new), ...]."""
import os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("MUT_REPO", "/tmp/mutrepo")
B = os.environ.get("MUT_BUILD", "/tmp/mutbuild")
def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    only = sys.argv[2:]
    os.makedirs(B, exist_ok=True)
    for t in ("irfacts", "astfacts", "irdump"):
        shutil.copy2(os.path.join(V, "build", t), os.path.join(B, t))
    for m in g["M"]:
        name, props, expect = m[:3]
        if only and name not in only:
            continue
        subprocess.run(["rsync", "-a", "--delete", "--exclude", "_build", "--exclude", ".git", "--exclude", "build*", "/repo/", S + "/"], check=False) if shutil.which("rsync") else (shutil.rmtree(S, ignore_errors=True), shutil.copytree("/repo", S, ignore=shutil.ignore_patterns("_build", ".git", "build*"), symlinks=True))
        edits = [m[3:6]] if len(m) == 6 else m[3]
        bad = False
        for path, old, new in edits:
            p = os.path.join(S, path)
            t = open(p).read()
            if t.count(old) < 1:
                print("%-40s NO MATCH in %s" % (name, path)); bad = True; break
            open(p, "w").write(t.replace(old, new, 1))
        if bad:
            continue
        env = dict(os.environ, VP_REPO=S, VP_BUILD=B)
        def one(pr):
            r = subprocess.run([sys.executable, os.path.join(V, "checks", pr.lower() + ".py")], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return pr, r.returncode, r.stdout
        for pr in props.split():
            pr, rc, out = one(pr)
            ok = (rc == 1) == expect and rc in (0, 1)
            lines = [l for l in out.splitlines() if l.startswith("  [")]
            print("%-8s %-40s %s rc=%d %s" % ("ok" if ok else "WRONG", name, pr, rc, (lines[0][:150] if lines else "" if rc in (0, 1) else out[-300:])))
            sys.stdout.flush()
main()
