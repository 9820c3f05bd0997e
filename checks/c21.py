"""C21: UTF-8 encoding and decoding are exact.
Witnesses: static_asserts comparing every function of unicode.hpp with a reference written from Table 3-7 of the Unicode Standard."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *
from witness import run_witnesses

H = '#include "utf8ref.hpp"\nusing namespace vpw;\n'
def W(fn):
    return H + "consteval long f() {\n" + fn + "\nreturn -1; }\nstatic_assert(f() == -1);\n"

ITEMS = {
 "sequence_length": W("for (B b=0;b<256;++b) { if (utf8::sequence_length(char8_t(b)) != lead(b)) return b; if (utf8::sequence_length(char8_t(b), 7) != (lead(b) ? lead(b) : 7)) return b; }"),
 "unchecked_sequence_length": W("for (B b=0;b<256;++b) { const int want = b<0x80?1:b<0xc0?0:b<0xe0?2:b<0xf0?3:b<0xf8?4:0; if (utf8::unchecked_sequence_length(char8_t(b)) != want) return b; if (utf8::unchecked_sequence_length(char8_t(b), 9) != (want ? want : 9)) return b; }"),
 "is_valid(string)": W('''
struct { std::u8string_view s; int err; } t[] { {u8"",-1},{u8"abc",-1},{u8"\\u00e4\\u20ac\\U0001F600z",-1},{u8"a\\x80",2},{u8"\\xe2\\x82",1},{u8"ab\\xc0\\x80",2},{u8"ab\\xed\\xa0\\x80",2},{u8"\\xf4\\x90\\x80\\x80",2},{u8"\\xf0\\x8f\\xbf\\xbf",2},{u8"\\xe0\\x9f\\xbf",2},{u8"\\xf0\\x9f\\x98",1},{u8"\\U0010FFFF\\uFFFF\\uD7FF\\uE000",-1},{u8"\\xff",2},{u8"abcd\\xc3",1} };
for (auto& x : t) { const auto v = utf8::is_valid(x.s); if (v.has_value() != (x.err == -1) || (!v && code(v.error()) != x.err)) return &x - t; }'''),
 "code_points_unchecked": W('''if (utf8::code_points_unchecked(u8"") != 0 || utf8::code_points_unchecked(u8"a\\u00e4\\u20ac\\U0001F600z") != 5) return 1;'''),
 "Code_Point_View": W('''
const char32_t want[] { U'a', 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, U'z' }; std::size_t i = 0;
for (char32_t c : utf8::Code_Point_View { u8"a\\u07ff\\u0800\\uffff\\U00010000\\U0010ffffz" }) { if (i >= 7 || want[i] != c) return long(i); ++i; } if (i != 7) return 99;
for (char32_t c : utf8::Code_Point_View { u8"" }) { (void)c; return 98; }
utf8::Code_Point_Iterator it { std::u8string_view(u8"\\u20acb\\xe2\\x82") }; if (*it != 0x20ac || it++ == it) return 97; if (*it != U'b') return 96; ++it; if (it.next().has_value() || it == utf8::Code_Point_Iterator_Sentinel{}) return 95;'''),
 "first_n": W('''
const std::u8string_view s = u8"abcdef";
for (std::size_t n = 0; n <= 6; ++n) { const auto p = utf8::first_n_padded<4>(s.substr(0, n)); for (std::size_t i = 0; i < 4; ++i) if (p[i] != (i < n ? s[i] : 0)) return long(n); }
const auto q = utf8::first_n_unchecked<4>(s), r = utf8::first_n_unchecked<4>(s.data()); for (std::size_t i = 0; i < 4; ++i) if (q[i] != s[i] || r[i] != s[i]) return 90;'''),
 "huge sources": W('''
constexpr char8_t a[] = u8"\\u00e4\\U0001F600\\u20ac";
for (std::size_t n : { std::size_t(1) << 31, std::size_t(1) << 32, (std::size_t(1) << 32) + 1, (std::size_t(1) << 33) - 1, std::size_t(-1) / 2 }) {
  const utf8::Code_Point_And_Length x = utf8::decode_and_length_or_replacement(std::u8string_view(a, n)); if (x.code_point != 0xe4 || x.length != 2) return long(n);
  const utf8::Code_Point_And_Length y = utf8::decode_and_length_or_replacement(std::u8string_view(a + 2, n)); if (y.code_point != 0x1f600 || y.length != 4) return long(n);
  const auto z = utf8::decode_and_length(std::u8string_view(a + 6, n)); if (!z || z->code_point != 0x20ac || z->length != 3) return long(n); }'''),
}
# find_if and its relatives: strings of every length up to 9 from pieces of 1 to 4 units and ill-formed ones, a hit in every place.
ALG = '''
constexpr std::u8string_view pieces[] { u8"a", u8"\\u00e4", u8"\\u20ac", u8"\\U0001F600", u8"\\xff", u8"\\xe2\\x82", u8"X", u8"\\u00d7" };
char8_t buf[24]; 
for (int i = 0; i < 8*8*8*8; ++i) {
  std::size_t n = 0, hit = std::size_t(-1), miss = std::size_t(-1); int k = i; 
  for (int j = 0; j < 4; ++j, k /= 8) { const auto p = pieces[k % 8]; for (char8_t c : p) buf[n++] = c; }
  const std::u8string_view s { buf, n };
  const auto want = [](char32_t c) { return c == U'X' || c == 0xd7 || c == 0x1f600; };
  for (std::size_t at = 0; at < n;) { const Ref r = ref_decode(buf + at, n - at); if (want(r.cp)) { if (hit == std::size_t(-1)) hit = at; } else if (miss == std::size_t(-1)) miss = at; at += std::size_t(r.subpart); }
  if (utf8::find_if(s, want) != hit || utf8::find_if_not(s, want) != miss) return i;
  if (utf8::length_if_not(s, want) != (hit == std::size_t(-1) ? n : hit) || utf8::length_if(s, want) != (miss == std::size_t(-1) ? n : miss)) return i;
  if (utf8::any_of(s, want) != (hit != std::size_t(-1)) || utf8::none_of(s, want) != (hit == std::size_t(-1))) return i;
  if (utf8::all_of(s, want) != (miss == std::size_t(-1)) || utf8::any_not_of(s, want) != (miss != std::size_t(-1))) return i;
}'''
ITEMS["find_if and relatives"] = W(ALG)
for k in range(8):
    ITEMS["find_if and relatives, short and long, part %d" % k] = W(ALG.replace("8*8*8*8", "8*8*8").replace("j < 4", "j < %d" % (k % 4)) if k < 4 else
        ALG.replace("8*8*8*8", "8*8*8").replace("for (int j = 0; j < 4; ++j, k /= 8)", "for (int z = 0; z < %d; ++z) buf[n++] = u8'a'; for (int j = 0; j < 3; ++j, k /= 8)" % (k - 3)))

def jobs():
    out = [(k, v, 2_000_000_000) for k, v in ITEMS.items()]
    others = "{0x00,0x41,0x7f,0x80,0x8f,0x90,0x9f,0xa0,0xbf,0xc0,0xc2,0xe0,0xff}"
    few = "{0x00,0x7f,0x80,0xbf,0xc0,0xff}"
    # Every pair of lead and second unit, representatives of every class after it, every number of units available.
    Q = TIER == "quick"
    for lo in list(range(0, 0xe0, 32)) + list(range(0xe0, 256, 4)):
        hi = lo + (32 if lo < 0xe0 else 4)
        astep = 3 if Q and lo < 0xc0 else 1
        skip = "if (a < 0xe0 && b % 3 && b < 0x70) continue; if (a >= 0xe0 && a!=0xe0&&a!=0xe1&&a!=0xed&&a!=0xef&&a!=0xf0&&a!=0xf1&&a!=0xf3&&a!=0xf4 && b % 5) continue;" if Q else ""
        cd = "for (B c : %s) for (B d : %s) { if ((lead(a)<3||!second(a,b)) && (c!=0x80||d!=0x80)) continue; if (lead(a)<4 && d!=0x80) continue;" % (few, few)
        out.append(("decoders, lead %02x-%02x" % (lo, hi - 1), W(
            "for (B a=%d;a<%d;a+=%d) for (B b=0;b<256;++b) { %s %s"
            "for (std::size_t n=0;n<=4;++n) if (!agree({char8_t(a),char8_t(b),char8_t(c),char8_t(d)}, n)) return long(a)<<24|b<<16|c<<8|d; } }" % (lo, hi, astep, skip, cd)), 2_000_000_000))
        out.append(("given lengths, lead %02x-%02x" % (lo, hi - 1), W(
            "for (B a=%d;a<%d;a+=%d) for (B b=0;b<256;++b) { %s %s"
            "for (int n=1;n<=4;++n) if (!agree_len({char8_t(a),char8_t(b),char8_t(c),char8_t(d)}, n)) return long(a)<<24|b<<16|c<<8|d; } }" % (lo, hi, astep, skip, cd)), 2_000_000_000))
    # Third and fourth units, every value.
    out.append(("decoders, third and fourth unit", W(
        "for (B x=0;x<256;++x) for (B a : {0xe0,0xe1,0xed,0xef,0xf0,0xf1,0xf3,0xf4}) { const B b = a==0xe0||a==0xf0?0xa5:0x85; for (std::size_t n=2;n<=4;++n) { if (!agree({char8_t(a),char8_t(b),char8_t(x),0x81}, n)) return long(a)<<8|x;"
        "if (!agree({char8_t(a),char8_t(b),0x81,char8_t(x)}, n)) return long(a)<<8|x; } for (int n=3;n<=4;++n) if (!agree_len({char8_t(a),char8_t(b),char8_t(x),0x81}, n) || !agree_len({char8_t(a),char8_t(b),0x81,char8_t(x)}, n)) return long(a)<<8|x; }"), 2_000_000_000))
    # Scalar values, there and back.
    rt = ("for (char32_t c=%d;c<%d;c+=%d) { if (sur(c)) continue; char8_t o[4]{}; const int n = ref_encode(c, o); const auto e = utf8::encode8_unchecked(c);"
          "if (e.length != n || e.as_string() != std::u8string_view(o, std::size_t(n)) || e.end() - e.begin() != n) return c;"
          "if (utf8::decode_unchecked(e.code_units, n) != c || utf8::decode_unchecked(o) != c) return c; const auto d = utf8::decode_and_length_unchecked(o); if (d.code_point != c || d.length != n) return c;"
          "const auto v = utf8::decode_and_length(e.as_string()); if (!v || v->code_point != c || v->length != n) return c; }")
    if TIER == "quick":
        chunks = [(lo, lo + 0x400, 1) for lo in (0, 0x400, 0x800)] + [(0xc00 + i * 0x1e80, 0xc00 + (i + 1) * 0x1e80, 13) for i in range(8)] \
               + [(0xd700, 0xe100, 3), (0xfff0, 0x10020, 1), (0x10ff80, 0x110000, 1)] + [(0x10000 + i * 0x40000, 0x10000 + (i + 1) * 0x40000, 251) for i in range(4)]
    else:
        chunks = [(lo, lo + 0x8800, 1) for lo in range(0, 0x110000, 0x8800)]
    for lo, hi, st in chunks:
        out.append(("scalar values %x-%x" % (lo, hi - 1), W(rt % (lo, hi, st)), 2_000_000_000))
    return out

def check(rep):
    js = jobs()
    res = run_witnesses(js)
    held = 0
    for n, _, _ in js:
        r = res[n]
        if r.status == "ok":
            held += 1
        elif r.status == "gone":
            rep.note("%s: not decided here (%s)" % (n, r.text))
        elif r.status == "broken":
            raise Broken("%s: %s" % (n, r.text))
        else:
            rep.violate("utf8:" + n.split(",")[0].split(" values")[0], "include/ulight/impl/unicode.hpp or unicode_algorithm.hpp: %s differ from the Unicode Standard%s %s"
                        % (n, "" if r.counter is None else ", first at 0x%X" % r.counter, "" if r.counter is not None else r.text))
    rep.count("witnesses that held", held, 10)
    rep.sample([n for n, _, _ in js][:40])
    rep.assume("the bit-extraction fast path compiled in only with BMI2 or SVE2 is not decided: it is disabled in constant evaluation and in the default build")

if __name__ == "__main__":
    main("C21", "every UTF-8 function agrees with a reference written from Table 3-7 of the Unicode Standard: all lead and second units with representatives of every class of later units and every "
         "number of available units; encoding and decoding of scalar values (thorough: all of them); searches at every position around the four-unit fast path; decided by static_assert in the compiler", check)
