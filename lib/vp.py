"""Shared plumbing of the checks: building IR from /repo's working tree, evidence, findings, verdicts."""
import hashlib, json, os, re, subprocess, sys, time, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin"
CLANGXX = LLVM + "/clang++"
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
os.makedirs(os.path.join(BUILD, "wit"), exist_ok=True)

# The flags of the real build (C++23), plus what clang 18 needs to accept libstdc++ 13's <expected>.
CXXFLAGS = ["-std=c++23", "-fsized-deallocation", "-D__cpp_concepts=202002L",
            "-Wno-builtin-macro-redefined", "-Wno-everything", "-I", os.path.join(REPO, "include")]

class Broken(Exception):
    """The analysis itself cannot give an answer (missing anchor, zero instances, source does not parse)."""

def lib_sources():
    s = sorted(glob.glob(os.path.join(REPO, "src/main/cpp/*.cpp")) + glob.glob(os.path.join(REPO, "src/main/cpp/lang/*.cpp")))
    s = [f for f in s if os.path.basename(f) not in ("wasm.cpp", "main.cpp")]
    if len(s) < 20:
        raise Broken("only %d library sources found" % len(s))
    return s

def main_source():
    return os.path.join(REPO, "src/main/cpp/main.cpp")

def tree_hash(extra=()):
    h = hashlib.sha256()
    files = []
    for root in ("include", "src/main"):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(os.path.relpath(f, REPO).encode()); h.update(b"\0")
        h.update(open(f, "rb").read()); h.update(b"\0")
    for e in extra:
        h.update(str(e).encode())
    return h.hexdigest()[:20]

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def _compile(args):
    src, out, flags = args
    r = run([CLANGXX] + CXXFLAGS + flags + ["-c", "-emit-llvm", src, "-o", out])
    return src, r.returncode, r.stderr

def build_bitcode(tag, flags, sources=None):
    """Compiles every library source to bitcode and links it; cached by content of the tree and flags."""
    sources = sources or lib_sources()
    key = tree_hash([tag] + flags + sources + CXXFLAGS)
    d = os.path.join(BUILD, "bc", tag + "-" + key)
    out = os.path.join(d, "all.bc")
    os.makedirs(os.path.join(BUILD, "bc"), exist_ok=True)
    with open(os.path.join(BUILD, "bc", tag + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out, d
        for old in glob.glob(os.path.join(BUILD, "bc", tag + "-*")):
            subprocess.run(["rm", "-rf", old])
        os.makedirs(d)
        jobs = [(s, os.path.join(d, re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(s, REPO)) + ".bc"), flags) for s in sources]
        with ThreadPoolExecutor(8) as ex:
            for src, rc, err in ex.map(_compile, jobs):
                if rc:
                    raise Broken("clang cannot compile %s:\n%s" % (src, err[-2000:]))
        r = run([LLVM + "/llvm-link"] + [j[1] for j in jobs] + ["-o", out])
        if r.returncode:
            raise Broken("llvm-link failed: " + r.stderr[-2000:])
    return out, d

def tool(name):
    p = os.path.join(BUILD, name)
    if not os.path.exists(p) or os.path.getmtime(p) < os.path.getmtime(os.path.join(VERIF, "engine", name + ".cpp")):
        r = run(["bash", os.path.join(VERIF, "setup.sh"), name])
        if r.returncode or not os.path.exists(p):
            raise Broken("cannot build %s: %s" % (name, r.stderr[-2000:]))
    return p

def ir_facts(tag, flags, sources=None):
    bc, d = build_bitcode(tag, flags, sources)
    j = os.path.join(d, "facts.json")
    t = tool("irfacts")
    if not os.path.exists(j) or os.path.getmtime(j) < os.path.getmtime(t):
        r = subprocess.run([t, bc], stdout=open(j + ".tmp", "w"), stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise Broken("irfacts: " + r.stderr[-2000:])
        os.rename(j + ".tmp", j)
    return json.load(open(j))

def ir_dump(tag, flags, regex=".*", sources=None):
    """Instructions of the functions whose demangled name matches, and the constant globals."""
    bc, d = build_bitcode(tag, flags, sources)
    t = tool("irdump")
    j = os.path.join(d, "dump-%s.json" % hashlib.sha256((regex + str(os.path.getmtime(t))).encode()).hexdigest()[:12])
    if not os.path.exists(j):
        tmp = j + ".%d" % os.getpid()
        r = subprocess.run([t, bc, regex], stdout=open(tmp, "w"), stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise Broken("irdump: " + r.stderr[-2000:])
        os.rename(tmp, j)
    return json.load(open(j))

O1X = ["-O1", "-g", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names"]

def ssa_dump(regex=".*", passes="function(sroa,instsimplify)", tag="O1X"):
    """The unoptimised IR with type-based alias tags, local variables in SSA form (and nothing else done to it)."""
    bc, d = build_bitcode(tag, O1X)
    h = hashlib.sha256((passes + regex + str(os.path.getmtime(tool("irdump")))).encode()).hexdigest()[:12]
    j = os.path.join(d, "ssa-%s.json" % h)
    if not os.path.exists(j):
        o = os.path.join(d, "ssa-%s.bc" % h)
        r = run([LLVM + "/opt", "-passes=" + passes, bc, "-o", o + ".%d" % os.getpid()])
        if r.returncode:
            raise Broken("opt: " + r.stderr[-1000:])
        os.rename(o + ".%d" % os.getpid(), o)
        tmp = j + ".%d" % os.getpid()
        r = subprocess.run([tool("irdump"), o, regex], stdout=open(tmp, "w"), stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise Broken("irdump: " + r.stderr[-2000:])
        os.rename(tmp, j)
    return json.load(open(j))

def ir_dump_text(tag, text, flags, regex="^vp_"):
    """As ir_dump, for one translation unit of our own that includes the repository's headers."""
    t = tool("irdump")
    key = tree_hash([tag, text, regex, os.path.getmtime(t)] + flags + CXXFLAGS)
    d = os.path.join(BUILD, "bc", tag + "-" + key)
    os.makedirs(os.path.join(BUILD, "bc"), exist_ok=True)
    j = os.path.join(d, "dump.json")
    with open(os.path.join(BUILD, "bc", tag + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(j):
            for old in glob.glob(os.path.join(BUILD, "bc", tag + "-*")):
                subprocess.run(["rm", "-rf", old])
            os.makedirs(d)
            src = os.path.join(d, "w.cpp")
            open(src, "w").write(text)
            r = run([CLANGXX] + CXXFLAGS + flags + ["-c", "-emit-llvm", src, "-o", os.path.join(d, "w.bc")])
            if r.returncode:
                raise Broken("clang cannot compile the wrappers of %s:\n%s" % (tag, r.stderr[-2000:]))
            r = subprocess.run([t, os.path.join(d, "w.bc"), regex], stdout=open(j + ".tmp", "w"), stderr=subprocess.PIPE, text=True)
            if r.returncode:
                raise Broken("irdump: " + r.stderr[-2000:])
            os.rename(j + ".tmp", j)
    return json.load(open(j))

RESOURCE = ["-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]

def _ast(args):
    src, out, flags = args
    r = subprocess.run([tool("astfacts"), REPO + "/", src, "--"] + flags + RESOURCE, stdout=open(out, "w"), stderr=subprocess.PIPE, text=True)
    return src, r.returncode, r.stderr

def ast_facts(sources=None, flags=None, tag="ast"):
    """Type-checked AST facts of each source: {source: facts}; cached by content of the tree."""
    sources = sources or lib_sources() + [main_source()]
    flags = CXXFLAGS if flags is None else flags
    t = tool("astfacts")
    key = tree_hash([tag, os.path.getmtime(t)] + flags + sources)
    d = os.path.join(BUILD, "bc", tag + "-" + key)
    os.makedirs(os.path.join(BUILD, "bc"), exist_ok=True)
    with open(os.path.join(BUILD, "bc", tag + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        names = {s: os.path.join(d, re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(s, REPO)) + ".json") for s in sources}
        if not os.path.exists(os.path.join(d, "done")):
            for old in glob.glob(os.path.join(BUILD, "bc", tag + "-*")):
                subprocess.run(["rm", "-rf", old])
            os.makedirs(d)
            with ThreadPoolExecutor(8) as ex:
                for src, rc, err in ex.map(_ast, [(s, names[s], flags) for s in sources]):
                    if rc:
                        raise Broken("clang cannot parse %s:\n%s" % (src, err[-2000:]))
            open(os.path.join(d, "done"), "w").close()
        return {s: json.load(open(names[s])) for s in sources}

# As O0, with the C++ type of every function pointer and vtable kept as metadata.
O0CFI = ["-O0", "-g", "-Xclang", "-disable-O0-optnone", "-flto", "-fvisibility=hidden",
         "-fsanitize=cfi-icall,cfi-vcall"]
O2 = ["-O2", "-g", "-fno-optimize-sibling-calls"]
# without vector code, so that fields are read and written one by one
O2S = O2 + ["-fno-slp-vectorize", "-fno-vectorize"]
O1N = ["-O1", "-g", "-fno-inline", "-fno-optimize-sibling-calls", "-fno-slp-vectorize", "-fno-vectorize"]
O0 = ["-O0", "-g", "-Xclang", "-disable-O0-optnone"]

class Report:
    """Collects what was analysed and what was violated, and turns it into the verdict."""
    def __init__(self, prop, rule):
        self.prop, self.rule = prop, rule
        self.t0 = time.time()
        self.cover = {}
        self.violations = []   # (key, text)
        self.instances = {}
        self.assumptions = []
        self.samples = []
        self.notes = []

    def note(self, text):
        """Something not decided, or decided differently than usual; never an alarm."""
        self.notes.append(text)

    def count(self, name, n, at_least=1):
        self.instances[name] = n
        if n < at_least:
            raise Broken("%s: only %d instances of '%s' found (expected at least %d)" % (self.prop, n, name, at_least))

    def violate(self, key, text):
        self.violations.append((key, text))

    def assume(self, text):
        self.assumptions.append(text)

    def sample(self, s):
        if len(self.samples) < 40:
            self.samples.append(s)

def load_findings():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("known: "):
                continue
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out

def main(prop, rule, fn, level="other", level_extra=None):
    """Runs one check. fn(report) adds violations; Broken means no answer."""
    rep = Report(prop, rule)
    try:
        fn(rep)
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        sys.exit(3)
    known = load_findings().get(prop, {})
    new, seen = [], set()
    for key, text in rep.violations:
        if key in known:
            if key not in seen:
                print("KNOWN-FINDING: property=%s %s [%s]" % (prop, known[key], key))
            seen.add(key)
        else:
            new.append((key, text))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level,
          "coverage": {"explanation": rule, "instances": rep.instances, **rep.cover},
          "wall_s": round(time.time() - rep.t0, 3),
          "assumptions": rep.assumptions,
          "violations": len(new)}
    if rep.samples:
        ev["coverage"]["samples"] = rep.samples
    if rep.notes:
        ev["coverage"]["not_decided"] = rep.notes[:60]
    if seen:
        ev["coverage"]["known_findings"] = sorted(seen)
    if level_extra:
        ev["coverage"].update(level_extra(rep))
    replay = os.path.join(VERIF, "evidence", prop + ".replay.txt")
    if new:
        with open(replay, "w") as f:
            for key, text in new:
                f.write("[%s] %s\n" % (key, text))
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k, n in rep.instances.items():
        print("analysed %s: %s" % (k, n))
    if new:
        for key, text in new[:40]:
            print("  [%s] %s" % (key, text))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        sys.exit(1)
    print("OK property=%s (%.1fs)" % (prop, time.time() - rep.t0))
    sys.exit(0)
