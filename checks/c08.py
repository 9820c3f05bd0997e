"""C08: every failed call says why.
Path-sensitive dataflow over the IR of the two highlighting functions: the fields of the caller's state are preset to each invalid
setting, or left unknown, and every path is followed to its return; the status returned is compared with what was stored in the error
fields, with the kind of failure, and with what is still in the local output buffers."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *
import capi, flow

FNS = ("ulight_source_to_tokens", "ulight_source_to_html")
# (function, fields set, documented status, the field at fault)
BAD = [("ulight_source_to_tokens", {"source": 0, "source_length": 1}, "BAD_STATE", "source"),
       ("ulight_source_to_tokens", {"source": 0, "source_length": 1 << 40}, "BAD_STATE", "source"),
       ("ulight_source_to_tokens", {"token_buffer": 0}, "BAD_BUFFER", "token_buffer"),
       ("ulight_source_to_tokens", {"token_buffer_length": 0}, "BAD_BUFFER", "token_buffer"),
       ("ulight_source_to_tokens", {"token_buffer": 0, "token_buffer_length": 0}, "BAD_BUFFER", "token_buffer"),
       ("ulight_source_to_tokens", {"flush_tokens": 0}, "BAD_BUFFER", "flush_tokens"),
       ("ulight_source_to_tokens", {"lang": 0}, "BAD_LANG", "lang"),
       ("ulight_source_to_html", {"token_buffer": 0}, "BAD_BUFFER", "token_buffer"),
       ("ulight_source_to_html", {"text_buffer": 0}, "BAD_BUFFER", "text_buffer"),
       ("ulight_source_to_html", {"text_buffer_length": 0}, "BAD_BUFFER", "text_buffer"),
       ("ulight_source_to_html", {"text_buffer": 0, "text_buffer_length": 0}, "BAD_BUFFER", "text_buffer"),
       ("ulight_source_to_html", {"flush_text": 0}, "BAD_BUFFER", "flush_text"),
       ("ulight_source_to_html", {"html_tag_name": 0}, "BAD_STATE", "html_tag_name"),
       ("ulight_source_to_html", {"html_tag_name_length": 0}, "BAD_STATE", "html_tag_name"),
       ("ulight_source_to_html", {"html_attr_name": 0}, "BAD_STATE", "html_attr_name"),
       ("ulight_source_to_html", {"html_attr_name_length": 0}, "BAD_STATE", "html_attr_name")]
TYPE_STATUS = {"_ZTIN6ulight4utf813Unicode_ErrorE": "BAD_TEXT", "_ZTISt9bad_alloc": "BAD_ALLOC"}
BASES = {"_ZTISt9bad_alloc": {"_ZTISt9exception"}, "_ZTIN6ulight4utf813Unicode_ErrorE": {"_ZTISt9exception", "_ZTISt13runtime_error", "_ZTISt11logic_error"}}

def text_of(a, s):
    """('set', text or None) when an error text is stored, ('unset', why) when it is definitely not, ('?', '') otherwise."""
    p, n = a.field(s, "error"), a.field(s, "error_length")
    if isinstance(p, tuple) and p[0] == "callee":
        return "callee", None
    init = lambda v: isinstance(v, tuple) and v[0] == "init"
    if p == 0 or n == 0 or init(p) or init(n):
        return "unset", "error is %s and error_length is %s" % ("not set" if init(p) else "null" if p == 0 else "set", "not set" if init(n) else "0" if n == 0 else "set")
    if isinstance(p, tuple) and p[0] == "ptr" and p[1][0] == "glob":
        g = a.d["globals"].get(p[1][1], {})
        if "str" in g:
            t = g["str"][p[2]:].rstrip("\0")
            if isinstance(n, int):
                if n > len(t):
                    return "unset", "error_length is %d and the text has %d code units" % (n, len(t))
                return "set", t[:n]
            return "set", t
        return "set", None
    return "?", ""

def hook(a, events=None):
    f = None
    def on_call(fl, s, i, callee, args):
        if callee == "ulight_source_to_tokens":
            # its own behaviour is decided separately: it stores an error exactly if it fails
            keep, ep = list(s.mem.get(("arg", 0), [])), s.epoch.get(("arg", 0))
            fl.clobber_call(s, [a.field(s, n) for n in ("flush_tokens_data",)])
            s.mem[("arg", 0)] = keep
            s.epoch.pop(("arg", 0), None)
            if ep:
                s.epoch[("arg", 0)] = ep
            dirty(fl, s)
            ok, bad = s.copy(), s
            ok.env[i["id"]] = 0
            o, z = a.fields["error"]; bad.mem.setdefault(("arg", 0), [])
            for n in ("error", "error_length"):
                fl.store(bad, ("ptr", ("arg", 0), a.fields[n][0]), 8, ("callee", n))
            bad.env[i["id"]] = ("v", i["id"])
            fl.assume(bad, ("icmp", "eq", ("v", i["id"]), 0), False)
            return [ok, bad]
        if re.search(r"__cxa_|_Unwind|^llvm\.", callee):
            return None
        if capi.indirect(i) and len(args) == 3:        # a flush callback: what it may not change is kept
            if events is not None:
                events.append(("callback", i))
            s.env[i["id"]] = ("v", i["id"])
            # the count handed over is the one in the buffer: those elements are delivered (resetting it may be a dead store)
            d = fl.defs.get(i["ops"][2]) if isinstance(i["ops"][2], str) else None
            if d and d["op"] == "load":
                p = fl.val(s, d["ops"][0])
                if isinstance(p, tuple) and p[0] == "ptr" and p[1][0] == "alloca":
                    fl.store(s, p, 8, 0)
            return [s]
        if events is not None:
            events.append(("call", i))
        if re.search(r"5flush|flush", callee):
            fl.clobber_call(s, args)
            s.env[i["id"]] = ("v", i["id"])
            s.trace = ()
            return [s]
        dirty(fl, s)
        return None
    return on_call

def dirty(fl, s):
    for b in fl.fn["blocks"]:
        for i in b["insts"]:
            if i["op"] == "alloca" and "Non_Owning_Buffer" in (i.get("aty") or "") and i["id"] in s.env:
                if any(True for _ in s.mem.get(("alloca", i["id"]), ())) or ("alloca", i["id"]) in s.epoch:
                    s.trace = tuple(sorted(set(s.trace) | {i["id"]}))

def empty(fl, s, al, size):
    """Some field of the buffer is known to be zero: the number of elements in it."""
    r = ("alloca", al)
    for a, n, v in s.mem.get(r, ()):
        if n == 8 and fl.res(s, v) == 0:
            return True
    ep = s.epoch.get(r, 0)
    for o in range(0, size, 8):
        if s.bind.get(("load", r, o, 8, ep)) == 0 or s.bind.get(("init", r, o, 8)) == 0:
            return True
    return any(v == 0 and flow.mentions(k, r) for k, v in s.bind.items())

def check(rep):
    a = capi.Api()
    OK = a.status["ULIGHT_STATUS_OK"]
    nm = lambda v: a.by_status.get(v, str(v)).replace("ULIGHT_STATUS_", "")
    n_bad = n_ret = n_exc = n_flush = 0
    # 1. every invalid setting is rejected with its status, before any work
    for fn, setting, want, field in BAD:
        f = capi.fn(a.d, fn)
        p = a.valid(); p.update(setting)
        events = []
        fl = a.run(fn, p, hook(a, events))
        desc = ", ".join("%s = %s" % (k, {0: "null" if not k.endswith("length") and k != "lang" else "0"}.get(v, v)) for k, v in setting.items())
        if fl.incomplete or not fl.returns:
            rep.note("%s with %s: not all paths followed" % (fn, desc)); continue
        for s, v, i in fl.returns:
            if isinstance(v, int) and v != a.status["ULIGHT_STATUS_" + want]:
                rep.violate("reject:%s:%s" % (fn, desc), "%s: %s with %s returns %s, not %s" % (capi.where(f, f), fn, desc, nm(v), want))
            k, t = text_of(a, s)
            if isinstance(v, int) and v != OK and k == "unset":
                rep.violate("text:%s:%s" % (fn, desc), "%s: %s with %s returns %s without an error text (%s)" % (capi.where(f, f), fn, desc, nm(v), t))
            if k == "set" and t is not None:
                named = [x for x in a.fields if re.search(r"\b%s\b" % x, t)]
                if named and not any(x.startswith(field) or field.startswith(x) for x in named):
                    rep.violate("matching:%s:%s" % (fn, desc), "%s: %s with %s reports '%s'" % (capi.where(f, f), fn, desc, t))
        if events and all(isinstance(v, int) for _, v, _ in fl.returns):
            e = events[0][1]
            rep.violate("work:%s:%s" % (fn, desc), "%s: %s with %s does work (a call) before it is rejected" % (capi.where(f, e), fn, desc))
        n_bad += 1
    rep.count("invalid settings followed to their status", n_bad, 0)
    # 2. every return of every path
    for fn in FNS:
        f = capi.fn(a.d, fn)
        for label, p in (("any state", {}), ("a valid state", a.valid())):
            fl = a.run(fn, p, hook(a))
            if fl.incomplete:
                rep.note("%s from %s: not all paths followed" % (fn, label))
            for s, v, i in fl.returns:
                n_ret += 1
                k, t = text_of(a, s)
                if isinstance(v, int) and v != OK and k == "unset":
                    rep.violate("return:%s:%s" % (fn, nm(v)), "%s: %s can return %s without an error text (%s)" % (capi.where(f, f), fn, nm(v), t))
                if isinstance(v, int) and v not in a.by_status:
                    rep.violate("status:%s:%s" % (fn, v), "%s: %s can return %s, which is no status" % (capi.where(f, f), fn, v))
                if not isinstance(v, int) and k == "unset" and s.facts.get(("icmp", "eq", v, 0)) == 0:
                    rep.violate("return:%s:?" % fn, "%s: %s can return a failing status without an error text (%s)" % (capi.where(f, f), fn, t))
                if v == OK and k == "callee" and False:
                    pass
                # output left behind
                if v == OK and not fl.incomplete:
                    n_flush += 1
                    for al in s.trace:
                        size = next(x["size"] for b in f["blocks"] for x in b["insts"] if x["id"] == al)
                        if not empty(fl, s, al, size):
                            rep.violate("flush:" + fn, "%s: %s can return OK while elements written to its output buffer were not handed to the flush callback" % (capi.where(f, f), fn))
                # exceptions
                th = {}
                for q, tv in s.facts.items():
                    if q[0] == "icmp" and q[1] == "eq":
                        for x in (q[2], q[3]):
                            if isinstance(x, tuple) and x[0] == "typeid" and isinstance(x[1], tuple):
                                th[x[1][1][1]] = tv
                caught = any(d["op"] == "landingpad" and d["id"] in s.env for b in f["blocks"] for d in b["insts"])
                if fn == FNS[0] and caught and isinstance(v, int):
                    n_exc += 1
                    for ti, want in TYPE_STATUS.items():
                        if th.get(ti) == 1 and v != a.status["ULIGHT_STATUS_" + want]:
                            rep.violate("exception:" + want, "%s: %s returns %s when %s is thrown, not %s" % (capi.where(f, f), fn, nm(v), ti, want))
                        elif ti not in th and v != a.status["ULIGHT_STATUS_" + want] and (all(x == 0 for x in th.values()) or any(th.get(b) == 1 for b in BASES[ti])):
                            rep.violate("exception:" + want, "%s: %s returns %s when %s is thrown, not %s" % (capi.where(f, f), fn, nm(v), ti, want))
                    if all(x == 0 for x in th.values()) and v != a.status["ULIGHT_STATUS_INTERNAL_ERROR"] and set(TYPE_STATUS) <= set(th):
                        rep.violate("exception:other", "%s: %s returns %s for an unexpected exception, not INTERNAL_ERROR" % (capi.where(f, f), fn, nm(v)))
                    if v == OK:
                        rep.violate("exception:ok", "%s: %s returns OK after an exception" % (capi.where(f, f), fn))
        if not any(True for _ in ()):
            pass
    rep.count("returns whose status is compared with the error text", n_ret, 0)
    rep.count("returns of OK checked for output left in a buffer", n_flush, 0)
    rep.count("returns after an exception compared with its type", n_exc, 0)
    rep.assume("a flush callback does not change the state it is called for")

if __name__ == "__main__":
    main("C08", "path-sensitive dataflow over the optimised IR of ulight_source_to_tokens and ulight_source_to_html from every invalid setting, from a valid state and from an unknown state: each return's status is compared with the error fields stored on that path, the kind of failure, the exception type caught, and the fill of the output buffers", check)
