#!/usr/bin/env python3
"""Writes lib/hlcorpus.json: short pieces of code of each language (lines of the repository's fixtures as of the pinned commit, and the
hand-written pieces below), from which lib/hlinputs.py derives inputs. Only run by hand: the checks read the committed file."""
import json, os, re
REPO, OUT = "/repo/test/highlight", os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "hlcorpus.json")
EXTRA = {
 "bash": ["for ((i=0; i<10; i++)); do echo \"${a[$i]}\" >&2; done", "cat <<-'EOF' | tr a-z A-Z\n\t$x\nEOF\n", "[[ -f $1 && ! -d \"$2\" ]] || exit 1", "a=(1 \"2\" $'\\n') b+=3; local c=${d%%.*}",
          "while read -r l; do printf '%s\\n' \"$l\"; done < <(ls)", "let x=1; ((y = x ** 2)); echo `date` $? $$ $!", "f() { return 0; } # c\nf 1>&2 2>/dev/null &", "case \"$1\" in -h|--help) h;; *) ;; esac", "echo ${a:-b} ${c//d/e} ${#f} ${!g}", "if ! a -x --long=1; then :; elif b; fi"],
 "c": ["typedef struct a { unsigned b : 3; } a_t;", "#define MAX(a, b) ((a) > (b) ? (a) : (b))", "#if defined(A) && !B /* c */\n#elif 1\n#endif // d", "const char* s = \"%d\\t\\\"\" u8\"\\377\" L\"x\";", "for (int i = 0; i < 10; ++i) { a[i] ^= ~b << 2; }", "static _Bool x = 0x1.8p+3f != 1e-5L;", "case 'a': goto end; default: break;", "#pragma once\n#include \"a.h\"\n#line 3 \"b\"\n", "_Generic(x, int: 1, default: 0)", "[[deprecated(\"a\")]] int f(void);"],
 "cpp": ["template <typename T> requires A<T> auto f(T&&... t) -> decltype(g(t)) { return (t + ...); }", "export module a.b:c;\nimport <x>;\n", "auto s = u8R\"-(a)\"-)-\"sv + \"b\"_x + U'\\U0001F600';", "constexpr int x = 0b1'01 | 0x1Fu | 017'7ull;", "class A final : public virtual B { friend class C; ~A() = default; };", "#define A(x, ...) x ## __VA_ARGS__ \\\n  #x\n", "co_return a <=> b and not c xor d;", "namespace a::inline b { using enum C; }", "[[nodiscard, gnu::pure]] bool operator==(const A&) const noexcept;", "x = a ? b->*c : d.*e; static_assert(sizeof...(T));", "#ifdef A // b\n#else /* c\n*/\n#endif\n", "try { throw 1; } catch (...) { }", "int a<::b> = <:1:> %: x; 1.0e+3f16 0x.8p1"],
 "css": ["@media screen and (min-width: 10px) { a:hover > b::before { color: #fFf !important; } }", "a[href^='x' i], .b + #c ~ d * { margin: -1px auto .5em 1e3% }", "@font-face { src: url( \"a.woff\" ) format('b'), url(c\\)d); }", "--x: { a: 1 }; b: var(--x, 2) calc(1px + 2 * 3em);", "/* a */ @charset \"u\"; @import url(b) c;", "a { b: u+0-7f; c: \\26 d; e: '\\\n' }", "<!-- a --> .\\31 a { }", "@supports not (a: b) { c { d: rgb(1 2 3 / 4) } }", "a { background: url(data:x;y,z) }", "x{y:z;;}}} )]"],
 "diff": ["diff --git a/x b/x\nindex 1..2 100644\n--- a/x\n+++ b/x\n@@ -1,2 +3,4 @@ f\n a\n-b\n+c\n", "1,2c3,4\n< a\n---\n> b\n", "*** a\n--- b\n***************\n*** 1 ****\n! c\n--- 1 ----\n! d\n", "\\ No newline at end of file", "+++ a\n---\n+\n-\n @@", "# a\n! b\n> c\n"],
 "ebnf": ["a = \"b\" , { c - 'd' } | [ ? e ? ] , 3 * ( f ) ;", "<a> ::= <b> | \"c\" \"d\"* /* e */", "x := y+ z? #x41 [a-zA-Z] /r\\/x/ .", "(* a (* b *) c *) d = e ; (* f", "a-b = (/ c /), (: d :) ! \"e\" $ ;", "rule ::= [^#x0-#x20] | ~a"],
 "html": ["<!DOCTYPE html PUBLIC \"a\" 'b'>", "<a href='x?y=1&amp;z=2' b=c\"d e= f=>g</a\n>", "<script type=\"module\">let a = `</b>`; // </scrip\n</script >x", "<style media='x'>a > b { c: \"</d>\" }</STYLE>", "<!--> <!---> <!-- a --!> <!-- b --", "<svg><![CDATA[ a ]] ]]></svg>", "<title>a &lt; b</title><textarea>\n<c></textarea>", "&amp; &#65; &#x1f; &x &; &#; &#x; &a1;", "<br/><img src=a/><p / b>", "<?php a ?> <! a> </> < a> <1>", "<input disabled value=\"a&quot;b\" c>", "<a\tb\n=\n'c'\r/>", "<script>a</script ><style>b</style/><xmp><c></xmp>"],
 "java": ["@Override public <T extends A & B> void f(final int... x) throws C { }", "String s = \"\"\"\n  a \\\"\"\" b\\\n  \"\"\" + 'c' + '\\u0041';", "record A(int b) implements C { static { } }", "int x = 0x1_F + 0b1L + 017 + 1_0.5e-3f + .5D + 1.;", "switch (a) { case B b when c -> yield 1; default -> { } }", "module a.b { requires transitive c; exports d to e; }", "sealed interface A permits B {} /** d */ // e\n", "x = a >>>= b ? c::new : d -> e;", "@interface A { int b() default 1; } @a.B(c = {1, 2})", "'\\777' '' 'ab' '\\' \"\\q\\"],
 "javascript": ["const f = async ({ a, ...b }, [c = 1]) => await `x${`y${z}`}` ?? null;", "if (a) /b[/\\]]/gu.test(c); x = d / e / f; y = (g) / h", "class A extends B { static #c = 1; get d() { return super.d; } async *e() { yield* f } }", "<A b={c} d=\"e\" {...f}>g {h} {/* i */} <j.k l:m/></A>", "x = a ? <b/> : <></>; y = <c>{d && <e f='g'/>}</c>;", "for (const a of b) label: { continue label; } // c\n", "0x1F_n 0b1 0o7 017 1_000n .5e+3 1e 0x 1n2", "'a\\x41\\u0041\\u{1F600}\\\n\\0' \"b\\\r\nc\" `\\`${", "import a, { b as c } from \"d\" with { type: 'json' };", "#!/usr/bin/env node\n<!-- a\n--> b", "export default function* a() { debugger; new.target; import.meta }", "a?.[b]?.(c) ||= d ** e >>>= f; typeof -x", "<a b=<c/> d>&amp;{'e'}<!-- f --></a>", "return /a/\n/b/; x++ /c/ 1; ) /d/ e"],
 "typescript": ["function f<T extends keyof U = never>(this: A, x?: T): asserts x is B { }", "abstract class A<T> implements B { private readonly c!: D | undefined; constructor(public e = 1) { super() } }", "type A = { readonly [K in keyof T]-?: `x${K}` } & B[];", "declare global { namespace a.b { export = c; } }", "let x = y as unknown as const satisfies Z; <T,>(a: T) => a!", "@a.b(c) export enum D { E = 1 << 2, F = 'g' }", "import type { A } from './b'; /// <reference path=\"c\" />\n", "let r = /a/ as RegExp, n = 1_0n; a<b>(c)"],
 "json": ["{\"a\\u00e9\\n\": [1, -0.5E-3, true], \"b\": {}, \"c\": null}", "[ , ] { : } \"\\ud83d\\ude00\" 00 -", "{\"a\":\"b\",\n\t\"c\" : [[], {}] , }", "[1e5, 1.0, -1, 1E+2, .5, 1.e2, 0x1]", "\"\\/\\b\\f\\q\\u12\" tru falsey nullx"],
 "jsonc": ["// a\n{ /* b */ \"c\": 1, // d\n \"e\": [2, /* f\n */ 3] }", "/* a */ [1 /* b */, 2 // c\n]", "{\"a\": / 1, # 2\n}", "/*/ [ /**/ 1 ] /***/"],
 "kotlin": ["@file:[A B(1)] @[C, D] val x: Int? by lazy { 1 }", "fun <T : A> T.f(vararg a: T, b: (C) -> D = { it }): E where T : F = TODO()", "\"a $b ${c.d { \"$e\" }} \\$ \\u0041 \\q\" + '''\"\"\"", "\"\"\"a $b ${\"\"\"c\"\"\"} \"d\" $ \"\"\"\"\"", "val a = 0xFFu + 0b1_0L + 1e-3f + 1_0.5 + 08 + 1__0", "when (x) { is A, !in 1..2 -> return@f; else -> break@g }", "object : A by b, C<out D, in E>() { init { } companion object }", "@get:A @param:[B] suspend inline fun `a b`() = c!!.d?.e ?: f::class", "a@ for (i in 0 until 10 step 2) continue@a /* b /* c */ */ // d\n", "#!/a\npackage b; import c.*; typealias D = E<*>", "'\\u12' '\\' '' 'ab 'c\n"],
 "latex": ["\\documentclass[a=b]{c} % d\n\\begin{e}\\item $f_{g}^h$ \\\\ \\[i\\]\\end{e}", "\\newcommand{\\a}[1]{b #1 ##2} \\verb|c|", "a & b ~ c \\% \\_ { } $$ d $$", "\\makeatletter \\a@b \\ \\, \\@ %", "\\def\\x#1{y} \\catcode`\\@=11", "\\section*{a}\\label{b:c} \\cite[d]{e}"],
 "tex": ["\\def\\a#1#2{b #1 ##2} % c\n\\bye", "$a_b^c$ $$d$$ \\hbox to 1pt{e} & ~", "\\ \\\\ \\% \\{ \\} \\@a \\1", "\\input x.tex \\let\\a=\\b \\catcode`\\%=12", "#1 ## # { % }\n}"],
 "llvm": ["define dso_local i32 @f(ptr noundef %0, ...) local_unnamed_addr #0 !dbg !1 {", "%1 = getelementptr inbounds [2 x i8], ptr @a, i64 0, i64 -1, align 8", "@s = private unnamed_addr constant [3 x i8] c\"a\\0A\\00\", section \"b\"", "br i1 %c, label %x, label %y ; d\nx:\n  ret void\n}", "!1 = distinct !DILocation(line: 1, scope: !2) !{!\"a\", i32 1}", "%t = type { i32, <4 x float>, ptr addrspace(1) } $c = comdat any", "call void @llvm.x(metadata !{}, float 0x7FF0000000000000, half 0xH1, x86_fp80 0xK1) #1", "switch i32 %a, label %b [ i32 1, label %\"c d\" ]", "attributes #0 = { nounwind \"a\"=\"b\" } \"x\": 1e+5 s0x1F u0x2 0x", "target datalayout = \"e-m:e\" ; c\n^0 = module: (a)"],
 "lua": ["local function f(a, ...) local b <close>, c <const> = ... return #a .. 'd\\z\n e' end", "x = [==[a]]b]=]c]==] .. [[d]] --[[e]] --[=[f]=] g", "for i, v in ipairs(t) do goto z ::z:: end", "a = 0x1.8p-3 + 1e+5 + 3. + .5 // 2 ~ 1 << 3 ~= 4", "\"\\065\\x41\\u{1F600}\\q\" '\\\n' \"a", "t = { [1] = 2, a = 'b'; c.d:e{ f } }", "if not a and b or nil then elseif x then else repeat until true end", "--a\n---[[b\n--[c\n--[=d\n[=e [[f"],
 "markdown": ["- [ ] a *b* **c** ***d*** _e_ __f__ ~~g~~ `h` ``i`j``", "1. a\n   - b\n\n     c\n2) d\n* * *\n", "> > a\n> - b\n>\n>     c\nd\n", "[a](<b> 'c') ![d](e \"f\") [g][h] [i] <j:k> <l@m>", "[a]: <b> 'c\nd'\n[e]: f (g)\n", "```c {a=\"b\"}\n```` \n``` x\n```\n~~~~ d`e\n~~~\n~~~~\n", "Setext *a*\n===\nb\n---\n# c #\n####### d\n#e\n## f ## g\n", "a  \nb\\\nc &amp; &#35; \\* \\a <b c='d'>e</b> <!-- f -->\n", "<div>\n*a*\n</div>\n\n<script>\nb\n\n</script>\n<?c?>\n<![CDATA[d]]>\n<!E>\n", "\ta\n    b\n\n\tc\n  - d\n+ e\n", "*a **b* c** *d_e*f_ `` ` `g", "| a | b |\n|---|:-:|\n| c | d |\n", "***a\n**b* c\n_ d_ e*f*", "- \n-\n1.\n- a\n\n\n  b\n10) c\n- - - d\n"],
 "nasm": ["section .data align=16\nmsg: db 'a', \"b\", `\\n\\x41\\u0041`, 0", "mov eax, dword [rel ebx+ecx*4-0x10] ; a\nlock rep movsb", "%macro a 1-2 b\n%%c: jmp %%c, %1, %{2}\n%endmacro", "%define A(x) ((x) << 2)\n%ifdef B\n%elif 1 == 2\n%else\n%endif", ".a: dq 1.5e+3, 0x1Fh, 0b1_0, 17o, 0q7, 1010b, $1F, 0d9", "[bits 64] [org 7C00h]\nglobal _start:function", "times 512-($-$$) db 0 \\\n dw 0xAA55", "struc a\n.b: resb 1\nendstruc istruc", "vaddps zmm1{k1}{z}, zmm2, [rax]{1to16}", "a equ 1 // 2 %% 3 ^^ 4 <> 5 b? c: d ..@e $f", "%include \"a\" %strlen x 'y' %[z] %+ %? %!"],
 "python": ["@a.b(c=1)\nasync def f(x: int = 1, /, *, y: 'T', **k) -> None: yield from await z", "f'{a!r:>{b}.2f} {{c}} {d[\"e\"]=}' rf\"\\{f}\" f'''{\ng}'''", "class A(B, metaclass=C):\n    '''d\n    \"e\"'''\n    x: list[int] = [i for i in j if not k]", "match a:\n  case B(c=1) | [*_, d] if e: pass\n", "0xF_F 0b1 0o7 1_0.5e-3j 1__0 0_ 00 01 1e .5 5.", "lambda x: x if y is not z else w @ v // u ** t := s", "b'\\x41\\777' u'\\u0041\\U0001F600\\N{A B}' r'\\' rb\"\\\"\" '\\q\\\n'", "with a as b, c: # d\n    global e; del f; assert g, h", "try: raise A from b\nexcept* (C, D) as e: ...\nfinally: pass", "from . import a as b, (c)\nimport d.e \\\n  as f", "'''a\\''' b''' \"\"\" c\"d\"\" \"\"\" 'e\n\"f"],
 "rust": ["pub(crate) async unsafe fn f<'a, T: ?Sized + 'static>(&'a mut self, x: [u8; 3]) -> impl A<B = C> where T: D {", "#![allow(a, b = \"c\")] #[derive(D)] #[cfg(e)] struct F<'g>(&'g str);", "match x { 1..=2 | A::B { c, .. } if d => 'e', _ => b'\\'', }", "let s = r##\"a\"#b\"## + b\"\\x41\\\n\" + c\"d\" + '\\u{1F600}' + \"\\u{}\" ;", "/* a /* b */ c */ /// d\n//! e\n/** f */ /*! g */ // h\n", "'a: loop { break 'a; } macro_rules! b { ($c:expr, $($d:tt)*) => { $crate::e!($c) } }", "1_000u8 0xFFi128 0b1_ 0o7usize 1.5e-3f64 1. 1..2 1e 0x 2.f()", "a?.b::<C>() as *const D; |x| -> y { &&z } ..= ->", "extern \"C\" { static mut A: u8; } union B { } dyn C", "'a 'ab' 'a' '' '\\' b'a br\"c\" r#d r\"e r#\"f\"", "println!(\"{0:>1$} {{x}}\", a);"],
 "xml": ["<?xml version=\"1.0\" encoding='U'?><!DOCTYPE a SYSTEM \"b\" [<!ENTITY % c PUBLIC 'd' \"e\"> %c;]>", "<a:b xmlns:a=\"c\" d = 'e &lt; &#x41; &#65;'>f<g/></a:b >", "<!ELEMENT a (#PCDATA | b)*> <!ELEMENT c (d, e?, (f | g)+)> <!ELEMENT h EMPTY>", "<!ATTLIST a b (c|d) \"e\" f ID #REQUIRED g NOTATION (h) #FIXED 'i'>", "<!-- a -- b --> <!-- c - d --><![CDATA[ e ]] f ]]> ]]>", "<!NOTATION a PUBLIC \"b\"> <?c d?e??> <![INCLUDE[ f ]]>", "<a b=c d='e f=\"<\" g>&h & &; &#; &#x;</ a><1/>", "</a\n><b\tc\n=\n'd'\r/><e f='g'h=\"i\"/>"],
 "yaml": ["%TAG ! a\n--- # b\n- &c !!str \"d\\n\\x41\\u0041\\U0001F600\\q\": 'e''f' # g\n- *c : {h: i, ? j, \"k\":l, }\n...\n", "a: |+2 # b\n   c\n  d\n\ne: >-\n f\n g\n", "? [a, b]\n: - c\n  - - d\n    - e: f\n      g:\n", "{a: 1, b: 0x1F, c: 0o7, d: 1.5e-3, e: .inf, f: .NaN, g: ~, h: yes}", "a: b: c\n- d\n: e\n? f\n# g\n #h\n", "- a\n-b\n- - c\n -\td\n", "\"a\n b\\\n c\": 'd\n e'\nf: g\n  h # i\n", "a: !!map { b: !c d, e: &f }\nx: <<: *y\n", "2001-12-14t21:59:43.10-05:00: 12:30:45\n", "[a, [b, {c: d}], ] ]\n}: {", "a:\n- b\n-\n  c: d\n\n  e:\n    f: |\n      g\n     h\n"],
 "cowel": ["\\section[id=a, class = \"b\\\"c\"]{d \\b{e} \\\\ \\{ \\}}", "\\a(b = 1 + 2 * -c, d(e), \"f\\n\" == g){h}", "\\if(x && !y || z){a}\\else{b} \\: c\n\\* d *\\", "\\let x = 0xFF; \\' 'A B' \\+1F600' \\U'E9'", "\\a\n{b}\\c [d]{e} \\f(...g, h = {i}){", "\\cowel_macro(\"a\"){\\cowel_put{0} \\cowel_put} # // c", "\\a(1.5e-3, 0b1, 1_0, true, null, unit, infinity) \\ b"],
 "txt": ["a b\tc\r\n\u00e9 \x00"],
}
EXTRA["jsonc"] += EXTRA["json"]
NAMES = {"js": "javascript"}

def pieces(text):
    """The lines of a text and short runs of lines, without repetitions."""
    ls = text.split("\n")
    for i, l in enumerate(ls):
        if len(l) <= 72:
            yield l
        else:
            yield from (x for x in re.findall(r".{1,64}(?:\s|$)", l))
        run = "\n".join(ls[i:i + 3])
        if i % 3 == 0 and len(run) <= 80:
            yield run + "\n"
out = {}
for d in sorted(os.listdir(REPO)):
    lang, ls = NAMES.get(d, d), {}
    for root, _, fs in sorted(os.walk(os.path.join(REPO, d))):
        for f in sorted(fs):
            if f.endswith(".html.html") or f.endswith(".html") and d != "html":
                continue
            for p in pieces(open(os.path.join(root, f), encoding="utf-8", errors="surrogateescape", newline="").read()):
                if len(p.strip()) > 2 and p.encode("utf-8", "surrogateescape").decode("latin1").strip():
                    ls.setdefault(p.encode("utf-8", "surrogateescape").decode("latin1"))
    out[lang] = list(ls)
for l, x in EXTRA.items():
    out[l] = list(dict.fromkeys([s.encode().decode("latin1") for s in x] + out.get(l, [])))
json.dump(out, open(OUT, "w"), indent=0, sort_keys=True)
for l in out: print(l, len(out[l]), sum(map(len, out[l])))
