"""The C entry points as dataflow problems: the caller's state is the memory behind the first argument, its fields preset to
chosen values, and every path of the function is followed."""
import re
from vp import *
import flow, iface

def layout(facts=None):
    """Fields of ulight_state: {name: (offset, size)}."""
    facts = facts or ast_facts()
    for d in facts.values():
        for r in d["records"]:
            if r["name"] == "ulight_state" and r["fields"]:
                return {f["name"]: (f["offset"], f["size"]) for f in r["fields"]}, r["size"]
    raise Broken("no layout of ulight_state")

def dump():
    return ir_dump("O2S", O2S, "^ulight_|__clang_call_terminate")

def fn(d, name):
    f = d["functions"].get(name)
    if f is None or f["decl"]:
        raise Broken("no definition of " + name)
    return f

VALID = ("ptr", ("valid", "p"), 0)

class Api:
    def __init__(self):
        self.d = dump()
        self.facts = ast_facts()
        self.fields, self.size = layout(self.facts)
        self.enums = iface.merged_enums(self.facts)
        self.status = iface.values(self.enums, "ulight_status")
        self.by_status = {v: k for k, v in self.status.items()}

    def valid(self):
        """Field values of a state every precondition of which holds."""
        v = {}
        for n in self.fields:
            if n in ("lang",):
                v[n] = 2
            elif n.endswith("_length"):
                v[n] = 16
            elif n in ("source", "token_buffer", "text_buffer", "html_tag_name", "html_attr_name", "flush_tokens", "flush_text"):
                v[n] = ("ptr", ("valid", n), 0)
        return v

    def state(self, preset):
        s = flow.State()
        for n, v in preset.items():
            if n not in self.fields:
                continue
            o, z = self.fields[n]
            s.mem.setdefault(("arg", 0), []).append((o, z, v))
        s.mem.get(("arg", 0), []).sort(key=lambda x: x[0])
        return s

    def field(self, s, n):
        o, z = self.fields[n]
        return flow_load(s, o, z)

    def run(self, name, preset, on_call=None, key=None):
        f = fn(self.d, name)
        track = [self.fields[n] for n in ("error", "error_length", "flush_tokens", "flush_tokens_data") if n in self.fields]
        k = lambda s: tuple(flow_load(s, o, z) for o, z in track) + ((key(s),) if key else ())
        fl = flow.Flow(f, self.d["globals"], key=k, on_call=on_call)
        fl.api = self
        fl.run(self.state(preset))
        return fl

def flow_load(s, o, z, root=("arg", 0)):
    for a, n, v in s.mem.get(root, ()):
        if a == o and n == z:
            return v
        if a < o + z and o < a + n:
            return 0 if v == 0 and a <= o and o + z <= a + n else ("mix", a, n)
    return ("init", root, o, z) if s.epoch.get(root, 0) == 0 else ("load", root, o, z, s.epoch[root])

def indirect(i):
    return i["op"] in ("call", "invoke") and not i.get("callee")

def where(f, i):
    return "%s:%s" % (os.path.relpath(i.get("file") or f.get("file") or "?", REPO), i.get("line", f.get("line")))
