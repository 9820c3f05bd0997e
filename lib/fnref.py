"""C31: a reference to a callable is compiled next to a direct call of it; after optimisation both must make the same calls with the same
arguments and return the same. Only the compiler's intermediate representation is looked at."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from vp import *

HEAD = r'''
#include <utility>
#include "ulight/ulight.hpp"
#include "ulight/impl/buffer.hpp"
using namespace ulight;
struct Vp_Move { long v; Vp_Move(Vp_Move&&) noexcept; Vp_Move(const Vp_Move&); ~Vp_Move(); };
extern "C" {
long vp_f(int, const char*); long vp_g(int, const char*) noexcept; int vp_i(int, const char*); void vp_v(int, const char*);
long vp_o(const void*, int, const char*); int vp_oi(const void*, int, const char*) noexcept;
void vp_tok(const void*, Token*, std::size_t); void vp_txt(const void*, char*, std::size_t);
void vp_free_tok(Token*, std::size_t); void vp_free_txt(char*, std::size_t);
int& vp_r(int&); long vp_two(int, int); long vp_mv(Vp_Move*);
}
using FR = Function_Ref<long(int, const char*)>;
using FRC = Function_Ref<long(int, const char*) const>;
using FRN = Function_Ref<long(int, const char*) noexcept>;
using FRCN = Function_Ref<long(int, const char*) const noexcept>;
using FV = Function_Ref<void(int, const char*)>;
struct Mut { long operator()(int a, const char* b) { return vp_o(this, a, b); } long operator()(int, const char*, int); };
struct Con { int pad; long operator()(int a, const char* b) const { return vp_o(this, a, b); } };
struct Both { long operator()(int a, const char* b) { return vp_o(this, a, b); } long operator()(int a, const char* b) const { return vp_f(a, b); } };
struct Nox { int operator()(int a, const char* b) const noexcept { return vp_oi(this, a, b); } };
struct Amp { long operator()(int a, const char* b) const { return vp_o(this, a, b); } void operator&() const = delete; };
struct Qual { long operator()(int a, const char* b) & { return vp_o(this, a, b); } long operator()(int a, const char* b) && { return vp_f(a, b); } long operator()(int a, const char* b) const& { return vp_i(a, b); } };
struct Conv { using P = long (*)(int, const char*); operator P() const noexcept { return vp_f; } };
#define P2 int a, const char* b
'''
# name: (what is called, signature of the function, body through the library, body with the direct call)
CASES = {
 "function": ("long", "P2", "FR r = vp_f; return r(a, b);", "return vp_f(a, b);"),
 "function_const": ("long", "P2", "FRC r = vp_f; return r(a, b);", "return vp_f(a, b);"),
 "function_noexcept": ("long", "P2", "FRN r = vp_g; return r(a, b);", "return vp_g(a, b);"),
 "function_const_noexcept": ("long", "P2", "FRCN r = vp_g; return r(a, b);", "return vp_g(a, b);"),
 "noexcept_function_for_throwing": ("long", "P2", "FR r = vp_g; return r(a, b);", "return vp_g(a, b);"),
 "function_other_result": ("long", "P2", "FR r = vp_i; return r(a, b);", "return vp_i(a, b);"),
 "function_pointer": ("long", "P2, long (*p)(int, const char*)", "FR r = p; return r(a, b);", "return p(a, b);"),
 "function_pointer_rvalue": ("long", "P2", "FR r = &vp_f; return r(a, b);", "return vp_f(a, b);"),
 "function_pointer_const": ("long", "P2, long (*const p)(int, const char*)", "FR r = p; return r(a, b);", "return p(a, b);"),
 "function_pointer_for_const": ("long", "P2, long (*p)(int, const char*)", "FRC r = p; return r(a, b);", "return p(a, b);"),
 "function_pointer_other_result": ("long", "P2, int (*p)(int, const char*)", "FR r = p; return r(a, b);", "return p(a, b);"),
 "function_pointer_noexcept": ("long", "P2, long (*p)(int, const char*) noexcept", "FRN r = p; return r(a, b);", "return p(a, b);"),
 "pointer_changed_later": ("long", "P2, long (*p)(int, const char*)", "FR r = p; p = vp_f; return r(a, b);", "return p(a, b);"),
 "lambda": ("long", "P2", "FR r = [](int x, const char* y) { return vp_f(x, y); }; return r(a, b);", "return vp_f(a, b);"),
 "lambda_lvalue": ("long", "P2", "auto l = [](int x, const char* y) { return vp_f(x, y); }; FR r = l; return r(a, b);", "return vp_f(a, b);"),
 "lambda_const_lvalue": ("long", "P2", "const auto l = [](int x, const char* y) { return vp_f(x, y); }; FRC r = l; return r(a, b);", "return vp_f(a, b);"),
 "lambda_other_result": ("long", "P2", "FR r = [](int x, const char* y) { return vp_i(x, y); }; return r(a, b);", "return vp_i(a, b);"),
 "lambda_other_parameters": ("long", "P2", "FR r = [](long x, const void* y) { return vp_f(int(x) , static_cast<const char*>(y)); }; return r(a, b);", "return vp_f(a, b);"),
 "lambda_noexcept": ("long", "P2", "FRN r = [](int x, const char* y) noexcept { return vp_g(x, y); }; return r(a, b);", "return vp_g(a, b);"),
 "lambda_generic": ("long", "P2", "auto l = [](auto x, auto y) { return vp_i(x, y); }; FR r = l; return r(a, b);", "return vp_i(a, b);"),
 "lambda_capturing": ("long", "P2, void* o", "auto l = [o](int x, const char* y) { return vp_o(o, x, y); }; FR r = l; return r(a, b);", "return vp_o(o, a, b);"),
 "lambda_capturing_const": ("long", "P2, void* o", "const auto l = [&](int x, const char* y) { return vp_o(o, x, y); }; FRC r = l; return r(a, b);", "return vp_o(o, a, b);"),
 "lambda_mutable": ("long", "P2, int n", "auto l = [n](int x, const char* y) mutable { ++n; return vp_f(x + n, y); }; FR r = l; r(a, b); return r(a, b);", "vp_f(a + n + 1, b); return vp_f(a + n + 2, b);"),
 "object": ("long", "P2, Mut& m", "FR r = m; return r(a, b);", "return m(a, b);"),
 "const_object": ("long", "P2, const Con& m", "FR r = m; return r(a, b);", "return m(a, b);"),
 "const_object_for_const": ("long", "P2, const Con& m", "FRC r = m; return r(a, b);", "return m(a, b);"),
 "object_for_const": ("long", "P2, Con& m", "FRC r = m; return r(a, b);", "return m(a, b);"),
 "object_overloaded_on_const": ("long", "P2, Both& m", "FR r = m; return r(a, b);", "return vp_o(&m, a, b);"),
 "object_overloaded_on_const_for_const": ("long", "P2, Both& m", "FRC r = m; return r(a, b);", "return vp_f(a, b);"),
 "object_noexcept": ("long", "P2, const Nox& m", "FRCN r = m; return r(a, b);", "return m(a, b);"),
 "object_with_address_of": ("long", "P2, Amp& m", "FR r = m; return r(a, b);", "return m(a, b);"),
 "const_object_with_address_of": ("long", "P2, const Amp& m", "FRC r = m; return r(a, b);", "return m(a, b);"),
 "object_qualified": ("long", "P2, Qual& m", "FR r = m; return r(a, b);", "return m(a, b);"),
 "object_qualified_for_const": ("long", "P2, Qual& m", "FRC r = m; return r(a, b);", "return vp_i(a, b);"),
 "object_convertible": ("long", "P2", "Conv c; FR r = c; return r(a, b);", "return vp_f(a, b);"),
 "constant_function": ("long", "P2", "FR r = Constant<vp_f> {}; return r(a, b);", "return vp_f(a, b);"),
 "constant_lambda": ("long", "P2", "FR r = Constant<[](int x, const char* y) { return vp_i(x, y); }> {}; return r(a, b);", "return vp_i(a, b);"),
 "constant_noexcept": ("long", "P2", "FRN r = Constant<vp_g> {}; return r(a, b);", "return vp_g(a, b);"),
 "constant_with_object": ("long", "P2, Con* p", "FR r = { Constant<[](Con* q, int x, const char* y) { return vp_o(q, x, y); }> {}, p }; return r(a, b);", "return vp_o(p, a, b);"),
 "constant_with_const_object": ("long", "P2, const Con* p", "FR r = { Constant<[](const Con* q, int x, const char* y) { return vp_o(q, x, y); }> {}, p }; return r(a, b);", "return vp_o(p, a, b);"),
 "constant_with_object_other_result": ("long", "P2, Con* p", "FR r = { Constant<[](Con* q, int x, const char* y) { return vp_oi(q, x, y); }> {}, p }; return r(a, b);", "return vp_oi(p, a, b);"),
 "constant_with_object_noexcept": ("long", "P2, Con* p", "FRN r = { Constant<[](Con* q, int x, const char* y) noexcept { return long(vp_oi(q, x, y)); }> {}, p }; return r(a, b);", "return vp_oi(p, a, b);"),
 "piecewise": ("long", "P2, void* p", "FR r { [](const void* q, int x, const char* y) -> long { return vp_o(q, x, y); }, p }; return r(a, b);", "return vp_o(p, a, b);"),
 "is_default": ("bool", "P2", "FR r; return r.has_value();", "return false;"),
 "bool_default": ("bool", "P2", "FR r; return static_cast<bool>(r);", "return false;"),
 "is_default_noexcept": ("bool", "P2", "FRN r; return r.has_value();", "return false;"),
 "bool_default_noexcept": ("bool", "P2", "FRN r; return static_cast<bool>(r);", "return false;"),
 "is_function": ("bool", "P2", "FR r = vp_f; return r.has_value();", "return true;"),
 "bool_function": ("bool", "P2", "FR r = vp_f; return static_cast<bool>(r);", "return true;"),
 "is_constant": ("bool", "P2", "FR r = Constant<vp_f> {}; return r.has_value();", "return true;"),
 "bool_constant": ("bool", "P2", "FR r = Constant<vp_f> {}; return static_cast<bool>(r);", "return true;"),
 "is_constant_object": ("bool", "P2, Con* p", "FR r = { Constant<[](Con* q, int x, const char* y) { return vp_o(q, x, y); }> {}, p }; return r.has_value();", "return true;"),
 "bool_constant_object": ("bool", "P2, Con* p", "FR r = { Constant<[](Con* q, int x, const char* y) { return vp_o(q, x, y); }> {}, p }; return static_cast<bool>(r);", "return true;"),
 "is_object": ("bool", "P2, Mut& m", "FR r = m; return r.has_value();", "return true;"),
 "bool_object": ("bool", "P2, Mut& m", "FR r = m; return static_cast<bool>(r);", "return true;"),
 "is_const_object": ("bool", "P2, const Con& m", "FRC r = m; return r.has_value();", "return true;"),
 "bool_const_object": ("bool", "P2, const Con& m", "FRC r = m; return static_cast<bool>(r);", "return true;"),
 "is_lambda": ("bool", "P2", "FR r = [](int x, const char* y) { return vp_i(x, y); }; return r.has_value();", "return true;"),
 "bool_lambda": ("bool", "P2", "FR r = [](int x, const char* y) { return vp_i(x, y); }; return static_cast<bool>(r);", "return true;"),
 "is_pointer": ("bool", "P2, long (*p)(int, const char*)", "FR r = p; return r.has_value();", "return true;"),
 "bool_pointer": ("bool", "P2, long (*p)(int, const char*)", "FR r = p; return static_cast<bool>(r);", "return true;"),
 "is_convertible": ("bool", "P2", "Conv c; FR r = c; return r.has_value();", "return true;"),
 "bool_convertible": ("bool", "P2", "Conv c; FR r = c; return static_cast<bool>(r);", "return true;"),
 "is_piecewise": ("bool", "P2", "FR r { [](const void* q, int x, const char* y) -> long { return vp_o(q, x, y); }, nullptr }; return r.has_value();", "return true;"),
 "bool_piecewise": ("bool", "P2", "FR r { [](const void* q, int x, const char* y) -> long { return vp_o(q, x, y); }, nullptr }; return static_cast<bool>(r);", "return true;"),
 "no_result": ("void", "P2", "FV r = vp_v; r(a, b);", "vp_v(a, b);"),
 "copy": ("long", "P2", "FR r = vp_f; FR q = r; return q(a, b);", "return vp_f(a, b);"),
 "copy_of_const": ("long", "P2, void* o", "auto l = [o](int x, const char* y) { return vp_o(o, x, y); }; const FR r = l; FR q = r; return q(a, b);", "return vp_o(o, a, b);"),
 "assignment": ("long", "P2", "FR r = vp_f; FR q = vp_g; q = r; r = vp_g; return q(a, b);", "return vp_f(a, b);"),
 "same_type_argument": ("long", "int a, int b", "Function_Ref<long(int, int)> r = vp_two; return r(a, b);", "return vp_two(a, b);"),
 "reference_argument_and_result": ("int*", "int& a", "Function_Ref<int&(int&)> r = vp_r; return &r(a);", "return &vp_r(a);"),
 "twice": ("long", "P2", "FR r = vp_f; r(a, b); return r(a + 1, b);", "vp_f(a, b); return vp_f(a + 1, b);"),
 "parts": ("long", "P2, Mut& m", "FR r = m; return r.get_invoker()(r.get_entity(), a, b);", "return m(a, b);"),
 "state_tokens": ("void", "State& s, void* o, Token* t, std::size_t n", "auto l = [o](Token* x, std::size_t y) { vp_tok(o, x, y); }; s.on_flush_tokens(l); s.impl.flush_tokens(s.impl.flush_tokens_data, t, n);", "vp_tok(o, t, n);"),
 "state_tokens_function": ("void", "State& s, Token* t, std::size_t n", "s.on_flush_tokens(vp_free_tok); s.impl.flush_tokens(s.impl.flush_tokens_data, t, n);", "vp_free_tok(t, n);"),
 "state_tokens_constant": ("void", "State& s, void* o, Token* t, std::size_t n", "s.on_flush_tokens({ Constant<[](void* q, Token* x, std::size_t y) { vp_tok(q, x, y); }> {}, o }); s.impl.flush_tokens(s.impl.flush_tokens_data, t, n);", "vp_tok(o, t, n);"),
 "state_text": ("void", "State& s, void* o, char* t, std::size_t n", "auto l = [o](char* x, std::size_t y) { vp_txt(o, x, y); }; s.on_flush_text(l); s.impl.flush_text(s.impl.flush_text_data, t, n);", "vp_txt(o, t, n);"),
 "state_text_function": ("void", "State& s, char* t, std::size_t n", "s.on_flush_text(vp_free_txt); s.impl.flush_text(s.impl.flush_text_data, t, n);", "vp_free_txt(t, n);"),
 "state_text_lambda": ("void", "State& s, char* t, std::size_t n", "s.on_flush_text([](const char* x, std::size_t y) { vp_free_txt(const_cast<char*>(x), y); }); s.impl.flush_text(s.impl.flush_text_data, t, n);", "vp_free_txt(t, n);"),
 "state_text_pair": ("void", "State& s, void* o, char* t, std::size_t n", "s.on_flush_text(o, vp_txt); s.impl.flush_text(s.impl.flush_text_data, t, n);", "vp_txt(o, t, n);"),
 "state_both": ("void", "State& s, void* o, char* c, Token* t, std::size_t n", "auto l = [o](char* x, std::size_t y) { vp_txt(o, x, y); }; auto k = [o](Token* x, std::size_t y) { vp_tok(o, x, y); }; s.on_flush_text(l); s.on_flush_tokens(k);"
   " s.impl.flush_text(s.impl.flush_text_data, c, n); s.impl.flush_tokens(s.impl.flush_tokens_data, t, n);", "vp_txt(o, c, n); vp_tok(o, t, n);"),
}
# conversions that have to exist, and ones that must not
CAN = {
 "a default reference has no target": "!Function_Ref<void()> {}.has_value() && !Function_Ref<void()> {} && Function_Ref<void()> {}.get_entity() == nullptr && Function_Ref<void()> {}.get_invoker() == nullptr",
 "a reference is cheap to copy": "std::is_trivially_copyable_v<FR> && sizeof(FR) == 2 * sizeof(void*)",
 "a const-callable object for a const reference": "std::is_convertible_v<Con&, FRC> && std::is_convertible_v<const Con&, FRC>",
 "a mutable object for a reference": "std::is_convertible_v<Mut&, FR>",
 "no mutable object for a const reference": "!std::is_constructible_v<FRC, Mut&> && !std::is_constructible_v<FR, const Mut&>",
 "nothing that may throw for a noexcept reference": "!std::is_constructible_v<FRN, long (&)(int, const char*)> && !std::is_constructible_v<FRN, Con&> && !std::is_constructible_v<FRN, long (*)(int, const char*)> && !std::is_constructible_v<FRCN, Con&> && !std::is_constructible_v<FRN, Constant<vp_f>>",
 "nothing with other parameters or results": "!std::is_constructible_v<FR, long (&)(const char*, int)> && !std::is_constructible_v<FR, void (&)(int, const char*)> && !std::is_constructible_v<FR, int&> && !std::is_constructible_v<FR, long (*)(int)>",
 "types are made const as told": "std::is_same_v<follow_ref_const_if_t<int&, true>, const int&> && std::is_same_v<follow_ref_const_if_t<int&&, true>, const int&&> && std::is_same_v<follow_ref_const_if_t<int, true>, const int> && std::is_same_v<follow_ref_const_if_t<int&, false>, int&> && std::is_same_v<follow_ref_const_if_t<const int&, false>, const int&> && std::is_same_v<const_like_t<int, const char>, const int> && std::is_same_v<const_like_t<int, char>, int> && const_v<3>.value == 3",
 "no null for a function": "!std::is_constructible_v<FR, int> && !std::is_constructible_v<FR, void*>",
}

def source(cases):
    t = HEAD
    for k, (ret, sig, lib, direct) in cases.items():
        t += 'extern "C" %s vpl_%s(%s) { %s }\nextern "C" %s vpd_%s(%s) { %s }\n' % (ret, k, sig, lib, ret, k, sig, direct)
    return t

def compile_ir(text, name):
    d = os.path.join(BUILD, "fnref"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s_%d.cpp" % (name, os.getpid()))
    open(p, "w").write(text)
    try:
        r = subprocess.run([CLANGXX] + CXXFLAGS + ["-O2", "-w", "-S", "-emit-llvm", "-o", "-", p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    finally:
        os.unlink(p)
    return r.stdout if r.returncode == 0 else None, r.stderr

def bodies(ir):
    return {m.group(1): m.group(2).splitlines() for m in re.finditer(r'^define [^\n]*?@"?([\w$.]+)"?\([^\n]*\{\n(.*?)^\}', ir, re.S | re.M)}

ATTR = re.compile(r"\b(?:noundef|nonnull|nocapture|readonly|readnone|writeonly|immarg|nofree|dereferenceable(?:_or_null)?\(\d+\)|align \d+|signext|zeroext|returned|noalias|inreg)\s*")
DROP = re.compile(r"^\s*(?:;.*|)$|@llvm\.(?:lifetime|dbg|assume|experimental)|^\s*\d+:|^[\w.]+:\s*(?:;.*)?$")
def effects(lines):
    """-> ([calls with their arguments, in order], what is returned), or None if the body is not a plain sequence."""
    val, calls, ret, mem = {}, [], None, {}
    def v(x):
        x = x.strip()
        return val.get(x, x)
    for l in lines:
        l = re.sub(r",? ?![\w.]+ !\d+", "", l).strip()
        if DROP.search(l):
            continue
        m = re.match(r"(?:(%[\w.]+) = )?(?:(?:tail|musttail|notail) )?(?:call|invoke) (?:fastcc )?(.*)", l)
        if m:
            rest = ATTR.sub("", m.group(2))
            c = re.match(r"(?:[\w*{}, %.]+?(?:\([^()]*\))?) (@\"?[\w$.]+\"?|%[\w.]+)\((.*)\)", rest)
            if not c or "invoke " in l:
                return None
            args = []
            for a in filter(None, re.split(r",(?![^(]*\))", c.group(2))):
                args.append(v(a.split()[-1]))
            if c.group(1).startswith("@llvm.mem"):
                continue
            calls.append((v(c.group(1)), tuple(args)))
            if m.group(1):
                val[m.group(1)] = "call%d" % len(calls)
            continue
        m = re.match(r"(%[\w.]+) = (\w+)(.*)", l)
        if m:
            op, rest = m.group(2), m.group(3)
            if op in ("phi", "select", "load") and op == "phi":
                return None
            if op == "alloca":
                val[m.group(1)] = "local%d" % len([x for x in val.values() if str(x).startswith("local")]); continue
            ops = re.findall(r"[%@][\w.$\"]+|(?<![\w%.])-?\d+(?![\w.])", re.sub(r"\b(?:nsw|nuw|inbounds|exact|disjoint|nneg)\b|, align \d+", "", rest))
            val[m.group(1)] = "%s(%s)" % (op, ",".join(v(o) for o in ops if not o.startswith("%struct") and not o.startswith("%class")))
            continue
        if l.startswith("ret "):
            ret = "void" if l == "ret void" else v(l.split()[-1])
            continue
        if l.startswith(("store ", "fence")):
            continue
        return None
    return calls, ret

def check(rep):
    cases = dict(CASES)
    ir, err = compile_ir(source(cases), "all")
    gone = {}
    if ir is None:
        # look at each alone
        ok = {}
        with ThreadPoolExecutor(8) as ex:
            for k, (r, e) in zip(cases, ex.map(lambda k: compile_ir(source({k: cases[k]}), "one_" + k), cases)):
                if r is None:
                    gone[k] = e
                else:
                    ok[k] = cases[k]
        if not ok:
            rep.note("nothing compiles: " + err[-300:]); return
        ir, err = compile_ir(source(ok), "all")
        cases = ok
    for k, e in gone.items():
        m = next((l for l in e.splitlines() if "error:" in l), e[-200:])
        # a conversion that is not accepted, or does not compile inside of the header, although the reference exists
        if re.search(r"function_ref\.hpp:\d+:\d+: (?:fatal )?error|no viable conversion|no matching (?:constructor|function)", m) and "function" in cases and not k.startswith("state_"):
            rep.violate("kind:" + k, "a callable of this kind is not accepted (%s): %s" % (k, m.split("error:")[-1].strip()[:200]))
        else:
            rep.note("%s is not compiled: %s" % (k, m[-200:]))
    b = bodies(ir)
    rep.count("kinds of callables", len(cases))
    for k in cases:
        l, d = b.get("vpl_" + k), b.get("vpd_" + k)
        l, d = l and effects(l), d and effects(d)
        rep.sample({"kind": k, "calls": None if l is None else [c[0] for c in l[0]]})
        if l is None or d is None:
            rep.note("%s: the optimised call is no plain sequence" % k)
        elif l[0] != d[0]:
            # calls of the callables themselves decide; a call of anything else is not understood
            known = lambda cs: all(c[0].startswith("@vp_") or c[0].startswith("%") for c in cs)
            if known(l[0]):
                rep.violate("call:" + k, "%s: calls %s instead of %s" % (k, l[0], d[0]))
            else:
                rep.note("%s: calls %s" % (k, [c[0] for c in l[0]]))
        elif l[1] != d[1]:
            rep.violate("result:" + k, "%s: returns %s instead of %s" % (k, l[1], d[1]))
    rep.count("conversions", len(CAN))
    with ThreadPoolExecutor(8) as ex:
        can = ex.map(lambda w: compile_ir(HEAD + 'static_assert(%s, "VPFALSE");\n' % CAN[w], "can%d" % list(CAN).index(w)), CAN)
    for what, (r, e2) in zip(CAN, can):
        if r is None:
            if "VPFALSE" in e2 and e2.count("error:") == 1:
                rep.violate("conversion:" + what, "does not hold: " + what)
            else:
                rep.note("%s: not decided: %s" % (what, e2[-200:]))
    rep.assume("what holds for one signature holds for others: the reference is a template that does not look at its parameter types")
