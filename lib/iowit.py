"""Witnesses of file loading and of the command-line program: their own source, evaluated by the compiler's constant evaluator over a model of
<cstdio> (witness/io.hpp) in which files are absent, break while they are read, are not UTF-8, or cannot be written."""
import os, re
from vp import *
from witness import run_witnesses
from overlay import overlay, overlay_flags

LOAD = r'''
using namespace ulight;
constexpr bool vp_valid(char kind, unsigned size) { return kind == 'v' || kind == 'u' || (kind == 'e' && size == 0) || (kind == 'm' && size <= 20) || (kind == 'f' && size == 0); }
constexpr int vp_load()
{
    constexpr std::string_view kinds = "vuemf", fails = "-0123";
    constexpr unsigned sizes[] = { 0, 1, 2, 7, 15, 16, 17, 20, 21, 31, 32, 33, 47, 48, 49 };
    int id = 0;
    for (char kind : kinds) { for (unsigned size : sizes) { for (char fail : fails) { for (int open = 0; open < 2; ++open) { for (int pre = 0; pre < 2; ++pre, ++id) {
        const char path[] = { 'L', open ? 'O' : 'N', char('0' + size), fail, kind };
        std::vector<char8_t> v;
        if (pre) { v.push_back(char8_t(0xff)); v.push_back(u8'y'); }
        const auto r = load_utf8_file(v, std::string_view { path, 5 });
        const bool good = open && fail == '-' && vp_valid(kind, size);
        if (good && !r) { return id * 8 + 1; }
        if (!good && r && (!open || !vp_valid(kind, size))) { return id * 8 + 2; }
        if (r) {
            const std::size_t off = pre ? 2 : 0;
            if (v.size() != off + size) { return id * 8 + 3; }
            for (unsigned i = 0; i < size; ++i) { if (v[off + i] != vp_io::content(kind, size, i)) { return id * 8 + 4; } }
            if (pre && (v[0] != char8_t(0xff) || v[1] != u8'y')) { return id * 8 + 5; }
        }
        const auto w = load_utf8_file(std::string_view { path, 5 });
        if (bool(w) != bool(r)) { return id * 8 + 6; }
        if (w && w->size() != size) { return id * 8 + 7; }
    } } } } }
    return -1;
}
constexpr int vp_paths()
{
    for (std::size_t n = 6; n < 40; ++n) {
        char path[40] {}; const char head[] = { 'L', 'O', '5', '-', 'v' };
        for (std::size_t i = 0; i < n; ++i) { path[i] = i < 5 ? head[i] : i + 1 == n ? 'Z' : 'p'; }
        std::vector<char8_t> v;
        const auto r = load_utf8_file(v, std::string_view { path, n });
        if (r && v.size() != 5) { return int(n) * 2; }
        if (n < 16 && !r) { return int(n) * 2 + 1; }
        for (std::size_t z = 1; z < n; ++z) {
            char cut[40] {};
            for (std::size_t i = 0; i < n; ++i) { cut[i] = i == z ? '\0' : path[i]; }
            std::vector<char8_t> u;
            if (load_utf8_file(u, std::string_view { cut, n })) { return int(n) * 2; }
        }
    }
    return -1;
}
constexpr int vp_words()
{
    for (unsigned size = 0; size < 40; ++size) { for (char fail : std::string_view { "-01" }) {
        const char path[] = { 'L', 'O', char('0' + size), fail, 'v' };
        const auto r = load_utf32le_file(std::string_view { path, 5 });
        if (r && (size % 4 != 0 || r->size() * 4 != size)) { return int(size) * 4 + 1; }
        if (!r && size % 4 == 0 && fail == '-') { return int(size) * 4 + 2; }
        if (r) { for (unsigned i = 0; i < size; ++i) { if (char8_t((*r)[i / 4] >> (i % 4 * 8)) != vp_io::content('v', size, i)) { return int(size) * 4 + 3; } } }
    } }
    return -1;
}
'''
FILE_ = r'''
using namespace ulight;
constexpr vp_io::FILE* vp_open() { return vp_io::fopen("LO9-v", "r"); }
// an owner that forgets a file leaves an allocation behind; one that closes a file twice, or uses it afterwards, touches what is deleted
constexpr int vp_owner()
{
    { Unique_File a { vp_open() }; if (!a || !a.get()) { return 1; } }
    { Unique_File a { vp_open() }; a.close(); if (a || a.get()) { return 2; } a.close(); }
    { Unique_File a { vp_open() }; Unique_File b { std::move(a) }; if (a || !b) { return 3; } }
    { Unique_File a { vp_open() }; Unique_File b { vp_open() }; auto* const p = b.get(); a = std::move(b); if (a.get() != p) { return 4; } }
    { Unique_File a {}; Unique_File b { vp_open() }; a = std::move(b); if (!a || b) { return 5; } }
    { Unique_File a { vp_open() }; Unique_File b {}; a = std::move(b); if (a) { return 6; } }
    { Unique_File a { vp_open() }; vp_io::FILE* const f = a.release(); if (a || !f) { return 7; } vp_io::fclose(f); }
    { Unique_File a { vp_open() }; Unique_File b { vp_open() }; auto* const p = a.get(); auto* const q = b.get(); swap(a, b); if (a.get() != q || b.get() != p) { return 8; } }
    { Unique_File a = fopen_unique("LN9-v", "r"); if (a) { return 9; } }
    { Unique_File a = fopen_unique("LO9-v", "r"); if (!a) { return 10; } a = Unique_File {}; if (a) { return 11; } }
    return -1;
}
'''
MAIN = r'''
struct Vp_S { const char* in; const char* out; bool ok; const char* what; };
#ifdef VP_STDOUT_FAILS
#define STDOUT_OK false
#else
#define STDOUT_OK true
#endif
constexpr Vp_S vp_s[] = {
    { nullptr, nullptr, false, "no arguments" },
    { "LO9-v", nullptr, STDOUT_OK, "standard output" }, { "LO9-u", nullptr, STDOUT_OK, "standard output" }, { "LOA-v", nullptr, STDOUT_OK, "standard output" },
    { "XO9-v", nullptr, false, "an unknown language" }, { "LN9-v", nullptr, false, "an input file that cannot be opened" }, { "LO90v", nullptr, false, "an input file that cannot be read" },
    { "LOB1v", nullptr, false, "an input file that breaks off" }, { "LOO1v", nullptr, false, "an input file that breaks off" }, { "LO9-e", nullptr, false, "an input file that is not UTF-8" }, { "LO9-f", nullptr, false, "an input file that is not UTF-8" },
    { "LO9-1", nullptr, false, "status 1" }, { "LO9-2", nullptr, false, "status 2" }, { "LO9-3", nullptr, false, "status 3" }, { "LO9-4", nullptr, false, "status 4" }, { "LO9-5", nullptr, false, "status 5" }, { "LO9-6", nullptr, false, "status 6" }, { "LO9-7", nullptr, false, "status 7" },
    { "LO9-0", nullptr, STDOUT_OK, "standard output" },
    { "LO9-v", "LO-9", true, "an output file" }, { "LOA-v", "LO-A", true, "an output file" }, { "LO`-v", "LO-`", true, "an output file" }, { "LO0-v", "LO-0", true, "an empty input" },
    { "LO9-v", "LN-9", false, "an output file that cannot be opened" }, { "LO9-v", "LOw9", false, "an output file that cannot be written" }, { "LO9-v", "LOf9", false, "an output file on a full disk" }, { "LO1-v", "LOf1", false, "an output file on a full disk" },
    { "LO9-7", "LO?9", false, "status 7" }, { "LO9-5", "LO?9", false, "status 5" }, { "LO9-1", "LO?9", false, "status 1" }, { "XO9-v", "LO?0", false, "an unknown language" }, { "LO9-e", "LO?0", false, "an input file that is not UTF-8" },
};
constexpr int vp_run(int i)
{
    const char* args[] = { "ulight", vp_s[i].in, vp_s[i].out, nullptr };
    return ::vp_main(vp_s[i].in == nullptr ? 1 : vp_s[i].out == nullptr ? 2 : 3, args);
}
constexpr int vp_n = int(std::size(vp_s));
constexpr int vp_all()
{
    for (int i = 0; i < vp_n; ++i) { if ((vp_run(i) == 0) != vp_s[i].ok) { return i; } }
    return -1;
}
template <int I> concept Vp_Quiet = requires { typename std::integral_constant<int, vp_run(I)>; };
template <int... I> constexpr int vp_said(std::integer_sequence<int, I...>)
{
    int r = -1;
    ((r = r < 0 && !vp_s[I].ok && Vp_Quiet<I> ? I : r), ...);
    return r;
}
'''
WHY = {1: "a readable, valid file is rejected", 2: "a file that is absent or not UTF-8 is accepted", 3: "the content has the wrong length", 4: "the content is wrong", 5: "what the vector held before is changed",
       6: "the overloads disagree", 7: "the overloads disagree"}

def rewrite(t, main):
    t = re.sub(r"\bstd::byte\b", "char", t)
    t = re.sub(r"(?<![\w:])(?:std::|::)?(FILE|fopen|fread|fwrite|fputc|putc|fflush|fclose|ferror|feof|clearerr|memcpy|memmove|fprintf|fputs|perror)\b(?=\s*[(*&>])", r"::vp_io::\1", t)
    t = re.sub(r"\bstd::(cerr|endl)\b", r"::vp_io::\1", t)
    t = re.sub(r"(?<![\w:])(?:std::|::)?stdout\b", "::vp_io::out()", t)
    t = re.sub(r"(?<![\w:])(?:std::|::)?stderr\b", "::vp_io::err()", t)
    t = re.sub(r"\breinterpret_cast<", "static_cast<", t)
    if main:
        t = re.sub(r"(?<![\w:])(?:ulight::)?State\b", "::vp_io::State", t)
        t = re.sub(r"(?<![\w:])(?:ulight::)?lang_from_path\s*\(", "::vp_io::lang_from_path(", t)
        t = re.sub(r"\bmain\b(?=\s*\()", "vp_main", t)
        t = re.sub(r"^(?:extern \"C\" )?int vp_main", "constexpr int vp_main", t, flags=re.M)
    return t

def jobs():
    d = overlay()
    o = os.path.join(BUILD, "wit", "io")
    os.makedirs(os.path.join(o, "ulight", "impl"), exist_ok=True)
    for src, dst in (("include/ulight/impl/io.hpp", "ulight/impl/io.hpp"), ("src/main/cpp/io.cpp", "vp_io.cpp"), ("src/main/cpp/main.cpp", "vp_main.cpp")):
        p = os.path.join(d, src)
        if not os.path.exists(p):
            return {}
        open(os.path.join(o, dst), "w", encoding="utf-8", errors="surrogateescape").write(rewrite(open(p, encoding="utf-8", errors="surrogateescape").read(), dst == "vp_main.cpp"))
    fl = ["-include", os.path.join(VERIF, "witness", "io.hpp"), "-I", o] + overlay_flags(d) + ["-std=c++2c", "-fno-access-control"]
    io = '#include "vp_io.cpp"\n' + LOAD
    mn = io + '#include "vp_main.cpp"\n' + MAIN
    def wrap(e):
        return "template <class T> void vp_check() { static_assert(%s + int(sizeof(T)) - 1 == -1); }\nvoid vp_use() { vp_check<char>(); }\n" % e
    out = [("io_load", io + wrap("vp_load()")), ("io_paths", io + wrap("vp_paths()")), ("io_words", io + wrap("vp_words()")), ("io_owner", '#include "vp_io.cpp"\n' + FILE_ + wrap("vp_owner()")),
           ("io_main", mn + wrap("vp_all()")), ("io_main_stdout", "#define VP_STDOUT_FAILS\n" + mn + wrap("vp_all()")),
           ("io_main_message", "#define VP_MESSAGE_IS_FATAL\n" + mn + wrap("vp_said(std::make_integer_sequence<int, vp_n>())"))]
    return [(n, t, 400000000, fl + (["-DVP_STDOUT_FAILS"] if n == "io_main_stdout" else ["-DVP_MESSAGE_IS_FATAL"] if n == "io_main_message" else [])) for n, t in out]

def unopened(j):
    """io_main is not constant: do exactly the histories fail in which the output file could not be opened?"""
    name, text, steps, fl = j
    n, bad = len(scenarios()), []
    one = lambda i: (name + "_%d" % i, text.replace("vp_check() { static_assert(vp_all()", "vp_check() { static_assert(((vp_run(%d) == 0) == vp_s[%d].ok ? -1 : %d)" % (i, i, i)), steps, fl)
    r = run_witnesses([one(i) for i in range(n)])
    bad = [i for i in range(n) if r[name + "_%d" % i].status == "gone"]
    return bool(bad) and all((scenarios()[i][1] or "").startswith("LN") for i in bad) and sum(x.status == "ok" for x in r.values()) >= n - 2

def scenarios():
    return re.findall(r'\{ (?:nullptr|"([^"]*)"), (?:nullptr|"([^"]*)"), (\w+), "([^"]*)" \}', MAIN)

def history(i, name):
    inp, out, ok, what = scenarios()[i]
    where = "main: %s (input %r, output %r)" % (what, inp, out or ("standard output" + (", which cannot be written" if name == "io_main_stdout" else "")))
    return where + (" ends without a message" if name == "io_main_message" else " must end with failure" if ok == "false" or name == "io_main_stdout" else " must end with success")
