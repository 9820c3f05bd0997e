"""Facts about the C interface shared by the checks: enumerations, constants, documented names."""
import os, re
from vp import *

def merged_enums(facts):
    out = {}
    for d in facts.values():
        for e in d["enums"]:
            out.setdefault(e["name"], e)
    return out

def values(enums, name):
    e = enums.get(name)
    if e is None:
        raise Broken("no enumeration " + name)
    return dict((a, b) for a, b in e["values"])

def pair_enums(rep, enums, c_name, prefix, cxx_name, escape=()):
    """The C constants PREFIX_X and the C++ enumerators x correspond one to one, name and value."""
    c = values(enums, c_name); x = values(enums, cxx_name)
    want = {}
    for k, v in c.items():
        if not k.startswith(prefix):
            rep.note("%s is not named after %s" % (k, c_name)); continue
        want[k[len(prefix):].lower()] = v
    have = {k.rstrip("_") if k.rstrip("_") in want else k: v for k, v in x.items()}
    for k, v in sorted(want.items()):
        if k not in have:
            rep.violate("enum:%s:%s" % (cxx_name, k), "%s%s = %d has no enumerator in %s" % (prefix, k.upper(), v, cxx_name))
        elif have[k] & 0xff != v & 0xff or (have[k] != v and have[k] >= 0):
            rep.violate("enum:%s:%s" % (cxx_name, k), "%s%s is %d and %s::%s is %d" % (prefix, k.upper(), v, cxx_name, k, have[k]))
    for k, v in sorted(have.items()):
        if k not in want:
            rep.violate("enum:%s:%s" % (cxx_name, k), "%s::%s = %d has no constant in %s" % (cxx_name, k, v, c_name))
    for n, m in ((c_name, c), (cxx_name, x)):
        seen = {}
        for k, v in m.items():
            if v in seen:
                rep.violate("dup:%s:%d" % (n, v), "%s: %s and %s both have the value %d" % (n, seen[v], k, v))
            seen[v] = k
    return c

def readme_names():
    """[(short name, constant)] of the table of languages in the documentation."""
    out = []
    p = os.path.join(REPO, "README.md")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"\|([^|]*)\|([^|]*)\| *`(ULIGHT_LANG_\w+)` *\|", line)
            if m:
                out += [(n, m.group(3)) for n in re.findall(r"`([^`]+)`", m.group(2))]
    return out

def cstr(s):
    return '"' + "".join(chr(c) if 32 <= c < 127 and chr(c) not in '"\\?' else "\\%03o" % c for c in s.encode("utf-8")) + '"'

def judge(rep, results, what):
    """what: {job: (text, why function or list)}; -> number held."""
    held = 0
    for k, r in results.items():
        name, why = what[k]
        if r.status == "ok":
            held += 1
        elif r.status == "fail" and r.counter is not None:
            w = why(r.counter) if callable(why) else why[r.counter] if 0 <= r.counter < len(why) else "case %d" % r.counter
            rep.violate("%s:%d" % (name, r.counter), "%s: %s" % (name, w))
        elif r.status == "fail":
            rep.violate(name, "%s: %s" % (name, r.text))
        else:
            rep.note("%s is not decided by a witness: %s" % (name, r.text[:200]))
    return held
