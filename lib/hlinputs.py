"""Constructs of each language, from which the inputs of the highlighter witnesses are built (see hlwit.py): every prefix of each, every
insertion, replacement and removal in them, and pairs of them. A language without an entry is covered by its own literals alone."""

CORE = ["a", "1", " ", "\n", "\r", "\t", "\xe9", "\u2028", "\0", "_"]
BAD = [b"\x80", b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\xc0\x80"]

C_LIKE = ['"a\\n\\x1g"', "'\\''", "/* a\n*/", "// a\\\nb\n", "0x1F.8p-3f", "1'0.e+5L", "a->b", "{[(<>)]}", "%:%:", "a\\\nb"]
SNIPPETS = {
 "bash": ["echo -n 'a b' \"c $d ${e} \\$ $(f g) $((1 + 2)) h\" &", "#!/bin/sh\n# c\n", "if [ $# -gt 0 ]; then (a); fi", "a() { b | c && d || e; }", "x=$1 y=\\\n<<EOF", "for i in $*; do\tf \\' $@; done", "${a:-$b} $ a#b", "\"${a\"}\" $(b \"c\")", "case $? in a) ;; esac", "((1)) >&2 2>>f <(g)", "! (a) * + - : = ? @ [[ b ]] [ c ] } ~", "${a[0]}${#b}${c%%d}${e//f/g}"],
 "c": C_LIKE + ["#include <a.h>\n#define A(x) \\\n x##1\n", "#if 0 /*a\n*/ b // c\n", "int a = sizeof(u8\"b\");", "L'\\u00e9' U\"\\U0001F600\"", "#include \"b\" //", "__VA_OPT__ a:b?c", "0b10u 07 08.5 1e 0x"],
 "cpp": C_LIKE + ["R\"x(a)\"b)x\"_s", "u8R\"(\n)\"", "#include <a.h>\n#define A(x) \\\n x##1\n", "operator\"\"_a <=> b", "import <a>; # pragma x\n", "0b1'0u 1.f 0x 1e+ 1_a", "\"\\N{LATIN} \\o{7} \\x{1f} \\u{1}\"s", "auto a = [=]() -> int { co_await b; };", "'ab\\0' '' ' \"", "#\n#a\n# // b\n??=", "R\"abcdefghijklmnopq(", "alignas(1) ...->*.*::", "~a | b |= c || d < : <: <<= <=>", "\"a\\\nb\" 1'2e+1'0 0x1'fp1"],
 "cowel": ["\\a(b = 1, \"c\"=\"d\\'\"){x \\b{y}}", "\\: c\n\\* d *\\ e", "\\(fun f {a} -infinity) b", "\\ let x = 1 + unit\nc", "\\+1F600, \\'SPACE' \\{ \\\\", "\\x{\\y(}) z", "\\a(..., 0x1F, -1.5e+3, 1.2.3, true)", "\\'A B' \\' C'\n\\'", "\\a (b(c), {d}, e{f})", "\\\r\n\\\n\\?\\\xe9\\ \n", "\\a(b\\:c\n=\\*d*\\1)", "\\(a ) b } \\(\"c\"", "\\a(+ * == != < > <= /)", "\\null \\(null false infinity)", "\\a(\"b\\: c\nd\\* e *\\f\")", "\\a(0XfF 0b1 0o7 1E5)"],
 "css": ["a:b > .c #d[e=\"f\"] { g: 1px 2.5e-3% #fff; }", "@media (a) and (b: 1) { }", "/* a */ <!-- b -->", "\"a\\A \\\nb\" 'c'\n", "url(a) url( 'b' ) f(1)", "--a: \\31 \\e9 b;", "@import \"a\"; .5 +1 -.5e+3", "a { b: c !important } }", "u+1f-2?, ::after *|*", "\\\n \\", "-- - -a -1 -\\a", "{ ( [ ; ] ) }", "a { b { c: d } e: f }"],
 "diff": ["--- a\n+++ b\n@@ -1 +1 @@ c\n-d\n+e\n f\n", "diff --git a b\nindex 1\n", "*** a\n---\n***\n! b\n> c\n< d\n", "# a\r\n@@@\r\n\n@@ x", "Only in a: b\n1,2c3\n+\n-"],
 "ebnf": ["a = b, { c }, [ d ] | ( e ) - f ;", "(* a (* b *) *) \"c\" 'd'", "? special ? 3 * x .", "a::=b* +? <c> := /d/", "(/ a /) (: b :) a!e$", "\"a\n'b\n?c", "#xA [a-z] a ::= ^"],
 "html": ["<!DOCTYPE html>\n<html a=b c='d' e=\"f &amp; g\" h>", "<p>a &lt; &#x1F; & b</p>", "<!-- a -- b --> <![CDATA[ c ]]>", "<script>if (a < b) {}</script>", "<style>a { b: c }</style>", "<textarea>a &amp; </b></textarea >", "<br/><a b = c/>", "<title>&lt;</title><svg a:b=\"\"/>", "< a <1 </ b></a", "<a b=&amp;c d='&lt;' e=\"&\">", "<!a> <!> <?b?> </>", "<script></scripty</script>", "<a\tb\n=\nc>&a;&b", "\ufeff<a>"],
 "java": C_LIKE[:3] + ["\"\"\"\n a \\\" b\"\"\"", "@A(b = 1) class C<T> { int x; }", "0x1.8p3 1_000L 0b1_0 1e-3f 0_7", "'\\u0041' '\\uuu00e9' '\\7'", "// a\n/** b */ x -> y::z", "non-sealed a >>>= b;", "\"a\\s\\\nb\n'c", "1__0 0x_1 1. .5d 1e", "var x = a ? b : c;", "\"\"\"a\"\" \\", "import a.*; #", "\"\"\"\r\n a\"\"\"", "\"\"\"\r", "@a.b. @c. d"],
 "javascript": ["#!/a\nlet x = `a${b}c\\n${`d`}`;", "a = /b[/]\\/c/gi.test(d) / e;", "<div a=\"b\" c={d} {...e}>f {g} <h.i /> &amp;</div>", "<></>; <a:b></a:b>", "// a\n/* b */ x?.y ?? z", "\"\\u{1F} \\x41 \\\n\" '\\0'", "0x1Fn 0b1 0o7 1_0.5e+3 .5", "class A { #b = 1; static { } }", "a => { return /}/ }", "`a\\\nb${{c: 1}}`", "<a b='c' /* d */ e // f\n>g</a >", "<a>{/* b */}{`}`}</a>", "a\\u0041 $b _c @d", "x = a ** b >>>= c !== d", "<A<B>> (c)", "if (a) /b/.c; else <d/>", "let a = 08.5, b = 1__0n;", "<a b={ {c: \"}\"} }/>", "<a>}>b{</a>", "await yield /x/u", "<a b-c-d/>", "</a/><a-b.c-d e-f=1>"],
 "typescript": ["let a: A<B> = <C>d as E;", "enum A { b = \"c\" }\n", "// a\n/* b */ type X = `y${z}`;", "@a abstract class B<T extends C> { }", "\"\\u{1F}\" /a/g 1n", "a!.b?: c;", "declare module 'x' { }"],
 "json": ["{\"a\": [1, -2.5e+3, true, null], \"b\\u0041\\n\": \"c\"}", "// a\n/* b */ false", "[\"\\x\", 01, 1., +1, nul]", "{\"a\" 1} ]", "\"a\nb\" 'c'", "{\"a\":{\"b\":[{}]}}"],
 "jsonc": ["{\"a\": [1, -2.5e+3, true, null], \"b\\u0041\\n\": \"c\"}", "// a\n/* b */ false", "/* a", "[\"\\x\", 01, 1., +1, nul]", "{\"a\" 1} ]", "[1, // a\n2 /* b */]"],
 "kotlin": ["val a = \"b $c ${d + \"e\"} \\n \\u0041 \\$\"", "\"\"\"a $b ${c} \"d\" \"\"\"\"", "/* a /* b */ */ // c\n", "`a b` 'c' '\\u0041' ''", "0x1F_u 1_0L 0b1 1.5e-3f 1e 0_", "@file:A class B<out T>(val c: Int?)", "#!/a\nfun f() = a?.b ?: c!!", "label@ for (i in 0..<1) return@label", "\"${a{b}}\" ${ } }", "a as? B !is C !in d === e", "'\\q' 'ab' \"\\", "`a\n\"b\n'c\n", "\"$\" \"$1\" \"$`a`\"", "@[A b.c 1]\n@d:[E f] @g:H.i", "@["],
 "latex": ["\\a{b}[c] % d\n", "$x^2_1$ \\[ y \\] & ~", "\\begin{a} \\verb|b| \\end{a}", "\\@a \\# {\\b}"],
 "llvm": ["define i32 @a(ptr %b) #0 {\nentry:\n  ret i32 %1\n}\n", "; a\n@\"b c\" = global [2 x i8] c\"d\\0A\\00\"", "%a = add nsw i32 -1, s0x1F ; b", "!0 = !{!1, !\"a\"} !dbg !2", "br label %a\n0: \"b\":\n", "float 1.5e+3, 0xK1F, 0xH1, true", "$a = comdat any /* b */ /*", "attributes #0 = { \"a\"=\"b\" }", "%\"a\\22b\" @0 %1. -a$b:", "\"a\nb c\"\\q", "u0x s0 u1 sx", "c\"\\q\\4\\4g\" i32* %a"],
 "lua": ["local a <const> = [[b]] .. [=[c]]d]=]", "--[[ a ]] --[==[ b ]==] -- c\n", "\"a\\n\\x41\\065\\u{1F}\\z \" 'b\\\nc'", "0x1F.8p-3 1.5e+3 3. .5 0x", "function f(...) return a // b ~= c end", "goto a ::a:: x:y()", "--[ a\n--[=a\n--[==[b]=]", "[=[a [==b [[\n]]", "\"a\nb' \\", "<const><close> # ~ >> ^"],
 "markdown": ["  ``` a`b\n", "# a\n\nb *c* **d** _e_ `f` ``g`h``\n", "- a\n  - b\n1. c\n> d\n", "```cpp\na\n```\n~~~\nb\n~~~\n", "[a](b \"c\") ![d](<e>) <http://f> [g][h]\n", "[a]: b 'c'\n\n---\n***\na\n===\n", "    a\n\tb\n\\* &amp; <b c=\"d\">e</b>\n", "<!-- a\nb --> c <!-->\n", "| a | b |\n|---|:-:|\n| c | d |\n", "a  \nb\\\nc ~~d~~ ***e***\n", "- [x] a\n- [ ] b\n+ c\n10) d\n", "`` a `\n*b _c* d_\n**e", "<a@b.c> <https://d>&#x1F; &a;\n", "####### a\n## b ##\n#\n", "```\n    ```\n  ~~~~ a\n  b", ">> a\n> - b\n>\n", "- a\n\n      b\n\n```x", "[a\\[b](c\\)d) [e](<f\\>g>)", "[a\\]: b\n"],
 "nasm": ["section .text\nglobal _a\na: mov eax, [ebx+4*ecx] ; b\n", "%define A(x) x\n%%a: %1 %{b}", "db 'a', \"b\\n\", `c\\x41\\u1F`, 0", "0x1F 1Fh $1F 0b1 1b 0q7 7o 1d 1_0", "1.5e+3 0x1.8p3 .5 1e", "%if a == b\n%endif\n[bits 64]", "times 5 nop\nresb 1\\\n", "$a $$ ..@b .c: ?d", "__?float32?__(1.5) a!b", "`\\` `a\n'b\n\"c", "0xg 1h2 $ 0d 0h 0b2y %", "`\\U0001F600` 1||2 %% $% << >>", "add eh, 0ah bx ah dbh ch", "mov ax, seg a wrt b\nlea byte [$c], $d\ncall near e"],
 "python": ["@a\nclass B(c):\n  def d(self, *e): return f'{g!r:>{h}}'\n", "r\"\\a\" b'\\x41' u'\\u0041' '\\N{DASH}'", "'''a\n'b''' \"\"\"c\\\"\"\"\"", "0x1F 0b1_0 0o7 1.5e-3j 1__0 0_1 1e", "if a := b: # c\n  pass", "f\"{a}{{b}} {c['d']}\" rb'''\\'''", "x = a @ b // c ** d -> e ... !=", "'a\\\nb' 'c\n\"d\\", "lambda *a, **b: ~c", "'\\777 \\8 \\xg \\U0001F600 \\", "match a:\n case _: b\n", "F'''{a\n} ''' Rb\"", "\xe9 = 1; ? $", "'a\\\\b' \"\\\n", "f'\\\\{{ {a:\\n}'"],
 "rust": ["fn a<'b>(c: &'b str) -> D { e!(\"f {}\", g) }", "r#\"a\"b\"# br##\"c\"#\"## c\"d\"", "'a' '\\n' b'\\x41' '\\u{1F}' 'b: loop {}", "/* a /* b */ */ // c\n/// d\n//! e\n", "0x1F_u8 0b1 0o7 1.5e-3f64 1_000 1e 0xg", "#[a(b = \"c\")] #![d] r#fn '#ra", "a..=b => c?; d::<e>", "\"a\\\n  b\\q \\x4 \\u{}\" '\\q'", "r\"a\" r###\" br' b'a c'a' '''", "'ab' 'a1' 'a\n'\xe9' '", "$a:ty macro_rules! b { () => {} }", "r#a r# r#\"b", "r#a! r#b r#self r#fn_c", "r#macro!(r#crate)"],
 "tex": ["\\a{b}[c] % d\n$x^2_1$ & ~", "\\@a \\# {\\b} \\\\ \\ \\\n", "\\verb|a| % b", "#1 ^^M $$a$$ } {"],
 "xml": ["<?xml version=\"1.0\" a='b'?>\n<a:b c=\"d &amp; e\"/>", "<!DOCTYPE a [<!ELEMENT b (c|d)*> <!ENTITY e \"f\">]>", "<!-- a - b --> <![CDATA[ c ]] > ]]>", "<a>&lt;&#x1F;& b</a >", "<!ATTLIST a b CDATA #IMPLIED> %c;", "< a <1 </ b></a", "<?a b?> <? ?> <?xml?", "<a b = 'c' d=\"e\" f>", "<!a> <!> </> ]]> <a b=c>", "<a b=\"&lt;&x", "<!-- a -- b ---> <!", "<!DOCTYPE a SYSTEM \"b\" [ <?c?> <!-- d --> ]>", "<\xe9 \xe9=''>&\xe9;</\xe9>", "<!DOCTYPE a PUBLIC \"b\" \"c\" [ <!ELEMENT d EMPTY> <!ELEMENT e ANY> ]>", "<!DOCTYPE a [\n<!ATTLIST b c CDATA #REQUIRED d (e|f) 'g'>\n<!ENTITY % h SYSTEM \"i\" NDATA j>\n<!ELEMENT k (#PCDATA,l)*>\n%m;]>", "<!DOCTYPE a b \"c\" 'd' [<!ENTITY e PUBLIC 'f' \"g\" %h; ? >]>", "<?XML a?><!DOCTYPE a [<!ELEMENT b (c"],
 "yaml": ["a: b\nc:\n  - d\n  - e: f\n    g: |\n      h\n", "--- # a\n%YAML 1.2\n---\n\"b\\n\\x41\": 'c''d'\n...\n", "a: [b, {c: d, \"e\": 'f', ? g : h}, ~]\n", "&a !!b c: *d\n!<e> f: !g!h i\n", "? a\n: b\n? - c\n: d\n", "a: >-\n  b\n\n  c\nd: |2+\n    e\n", "k: 0x1F\nl: 1.5e+3\nm: .inf\nn: 2001-12-14\n", "- - a\n  - b\n- c: d\n  e: f\n-\n- |\n g\n", "\"a\\\n  b\" 'c\n d'\ne # f\n", "a: true\nb: null\nc: yes # d\ne:\tf\n", "[a\n b, c: d] }\n{e, f}]\n", "a:\r\n  b\r\n- c\r\n", "a\n b\n  c\n: d\n-e ?f :g\n", "? \n?\n- - - a\n  : b\n", "a: - b\n  c: ? d\n|\n e\n> f\n g\n", "%a\n%b c\n--- |\n d\n---\n... e\n", "\"\\u0041\\U00000041\\q\\\\\" 1:20:30 1:2\n", "[a,\r\n# b\n c]\n{d:\r\n# e\n f}\n", "'a''b': c\n\"d\\e\": f\n\"g\\", "|2-\n\n\n  a\n # b\nc: >+ # d\n e\n", "a: # b\n# c\n\n - d\n", "\"a\\\"b\": c\n'd''e': f\n"],
 "txt": ["a b\n"],
}
# repetitions that no literal alone reaches
LONG = {
 "yaml": ["a:\n" * 70, "- " * 70, "".join(" " * i + "a:\n" for i in range(70)), "- a\n" * 70, "[" * 70 + "a" + "]" * 70, "{a: " * 30],
 "markdown": ["> " * 70, "- " * 70, "".join("  " * i + "- a\n" for i in range(30)), "*a_" * 40],
 "html": ["<a>" * 70, "<a " * 40, "&a;" * 40], "xml": ["<a>" * 70, "&a;" * 40],
 "javascript": ["`${" * 40, "<a>" * 40, "<a b={" * 20], "typescript": ["`${" * 40, "<a>" * 40],
 "kotlin": ["\"${" * 40, "/*" * 70], "python": ["f'{" * 40, "f\"{a:{" * 20], "bash": ["$(" * 70, "\"$(" * 40, "${a:-" * 40, "`" * 70], "rust": ["/*" * 70], "cowel": ["\\a{" * 40, "\\a(" * 40],
 "cpp": ["#if a\n" * 40, "R\"(" * 40], "json": ["[" * 70, "{\"a\":" * 40], "jsonc": ["[" * 70], "css": ["a{" * 70, "url(" * 40], "ebnf": ["(*" * 70],
}
