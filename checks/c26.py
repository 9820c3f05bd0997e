"""C26: a state keeps its settings and can be reused after every call.
Path-sensitive dataflow over the IR of the functions that take a state: at every return each field is compared with its value on entry."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *
import capi, flow

FREE = {"error", "error_length"}
HTML_FREE = FREE | {"flush_tokens", "flush_tokens_data"}

def hook(a):
    def on_call(fl, s, i, callee, args):
        if callee == "ulight_source_to_tokens" and args and args[0] == ("ptr", ("arg", 0), 0):
            for n in FREE:
                fl.store(s, ("ptr", ("arg", 0), a.fields[n][0]), 8, ("callee", n))
            s.env[i["id"]] = ("v", i["id"])
            return [s]
        if callee.startswith("ulight_") or callee.startswith(("llvm.", "_Z", "__")) and ("ptr", ("arg", 0), 0) in args:
            return None
        if ("ptr", ("arg", 0), 0) not in args:      # the state is not handed to this function
            keep = {("arg", 0): (list(s.mem.get(("arg", 0), [])), s.epoch.get(("arg", 0), 0))}
            fl.clobber_call(s, args)
            for r, (m, e) in keep.items():
                s.mem[r] = m
                s.epoch[r] = e
                if not e:
                    del s.epoch[r]
            s.env[i["id"]] = ("v", i["id"])
            return [s]
        return None
    return on_call

def changed(a, s, free):
    """Fields that at this point hold something else than on entry: {field: value}."""
    out = {}
    for n, (o, z) in a.fields.items():
        if n in free:
            continue
        v = a.field(s, n)
        if v == ("init", ("arg", 0), o, z):
            continue
        if isinstance(v, tuple) and v[0] in ("load", "mix", "v", "part", "copy"):
            continue        # unknown: not a definite change
        if s.bind.get(("init", ("arg", 0), o, z)) == v:
            continue        # known to be that value on this path
        out[n] = v
    return out

def temporary(v):
    return isinstance(v, tuple) and v[0] == "ptr" and (v[1][0] == "alloca" or (v[1][0] == "dyn" and v[1][1][0] == "alloca"))

def check(rep):
    a = capi.Api()
    n = 0
    for fn, free in (("ulight_source_to_tokens", FREE), ("ulight_source_to_html", HTML_FREE)):
        f = capi.fn(a.d, fn)
        for p in ({}, a.valid()):
            fl = a.run(fn, p, hook(a))
            if fl.incomplete:
                rep.note("%s: not all paths followed" % fn)
            for s, v, i in fl.returns + [(s, None, i) for s, i in fl.ends if i["op"] == "resume"]:
                n += 1
                for k, w in changed(a, s, free).items():
                    if p and p.get(k) == w:
                        continue
                    rep.violate("changed:%s:%s" % (fn, k), "%s: %s can return with the caller's %s changed" % (capi.where(f, f), fn, k))
                for k in a.fields:
                    if temporary(a.field(s, k)):
                        rep.violate("temporary:%s:%s" % (fn, k), "%s: %s can return with %s pointing to its own local storage" % (capi.where(f, f), fn, k))
    rep.count("returns of highlighting functions where every field is compared with its value on entry", n, 0)
    # initialisation
    done = 0
    for fn in ("ulight_init", "ulight_new"):
        f = capi.fn(a.d, fn)
        fl = flow.Flow(f, a.d["globals"]).run()
        for s, v, i in fl.returns:
            if v == 0 and fn == "ulight_new":
                continue
            root = v[1] if isinstance(v, tuple) and v[0] == "ptr" else ("obj", v)
            if fn == "ulight_init":
                if v != ("ptr", ("arg", 0), 0) and (isinstance(v, int) or (isinstance(v, tuple) and v[0] == "ptr")):
                    rep.violate("init:return", "%s: ulight_init does not return the state it was given" % capi.where(f, f))
                root = ("arg", 0)
            if s.epoch.get(root):
                rep.note("%s hands the state to another function" % fn); continue
            if fn == "ulight_new" and not s.mem.get(root):
                root = next((r for r in s.mem if r[0] == "obj"), root)
            vals = {}
            for k, (o, z) in a.fields.items():
                vals[k] = x = capi.flow_load(s, o, z, root)
                if isinstance(x, tuple) and x[0] == "init":
                    rep.violate("init:%s:%s" % (fn, k), "%s: %s leaves %s unset" % (capi.where(f, f), fn, k))
                if temporary(x):
                    rep.violate("init:%s:%s" % (fn, k), "%s: %s sets %s to its own local storage" % (capi.where(f, f), fn, k))
                done += 1
            for k in ("html_tag_name", "html_attr_name"):
                p, l = vals.get(k), vals.get(k + "_length")
                if isinstance(p, tuple) and p[0] == "ptr" and p[1][0] == "glob" and isinstance(l, int):
                    g = a.d["globals"].get(p[1][1], {})
                    if "str" in g and l != len(g["str"][p[2]:].rstrip("\0")):
                        rep.violate("init:%s:%s" % (fn, k), "%s: %s sets %s_length to %d, and the text is '%s'" % (capi.where(f, f), fn, k, l, g["str"].rstrip("\0")))
                elif isinstance(p, int) != isinstance(l, int) or (p == 0) != (l == 0):
                    rep.violate("init:%s:%s" % (fn, k), "%s: %s sets %s and its length inconsistently" % (capi.where(f, f), fn, k))
            for k in ("source", "token_buffer", "text_buffer", "error"):
                if isinstance(vals.get(k), int) and isinstance(vals.get(k + "_length"), int) and vals[k] == 0 and vals[k + "_length"] != 0:
                    rep.violate("init:%s:%s" % (fn, k), "%s: %s sets %s to null with the length %d" % (capi.where(f, f), fn, k, vals[k + "_length"]))
            # documented defaults
            for k, w in (("lang", 0), ("flags", 0), ("flush_tokens", 0), ("flush_text", 0), ("source_length", 0), ("token_buffer_length", 0), ("text_buffer_length", 0), ("error_length", 0)):
                if isinstance(vals.get(k), (int, tuple)) and vals[k] != w and not (isinstance(vals[k], tuple) and vals[k][0] in ("init", "load", "v")):
                    rep.violate("init:%s:%s" % (fn, k), "%s: %s does not clear %s" % (capi.where(f, f), fn, k))
    rep.count("fields followed through initialisation", done, 0)
    rep.assume("flush callbacks and highlighters, which are not handed the state, do not write to it")

if __name__ == "__main__":
    main("C26", "path-sensitive dataflow over the optimised IR of ulight_source_to_tokens, ulight_source_to_html, ulight_init and ulight_new: at every return, exceptional paths included, each field of the caller's state is compared with its value on entry and with the addresses of local storage", check)
