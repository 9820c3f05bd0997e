"""Witnesses of the matchers of each language: comments, literals, names, escapes and marks, for every sequence of fragments up to a depth, against
tables computed here from the languages' grammars (as regular expressions). The compiler evaluates the library's matcher on every text."""
import itertools, os, re
from multiprocessing import Pool
from vp import *
from overlay import overlay, overlay_flags, full
import scanwit

DC, ERR = -1, 88          # anything goes; no match or an erroneous one

def rx(pattern, flags=0):
    r = re.compile(pattern, re.S | flags)
    def f(t):
        m = r.match(t)
        return m.end() if m else 0
    return f
def closed(pattern, start, bad=None):
    """length, + 18 if closed; not closed: all of the text"""
    r, s = re.compile(pattern, re.S), re.compile(start, re.S)
    def f(t):
        m = r.match(t)
        return m.end() + 18 if m else len(t) if s.match(t) else 0
    return f
def valid(pattern, stop=rb"(?=[ ;]|$)", bad=None, none=None):
    """a valid literal that ends the text or is followed by a separator has its length; what is surely bad is erroneous or not matched"""
    r, b, n = re.compile(rb"(?:" + pattern + rb")" + stop, re.S), re.compile(bad, re.S) if bad else None, re.compile(none, re.S) if none else None
    def f(t):
        m = r.match(t)
        return m.end() if m else ERR if b and b.match(t) else 0 if n and n.match(t) else DC
    return f
def escape(pattern, some=rb"\\."):
    """complete escapes have their length, every other one is erroneous or not matched"""
    r = re.compile(pattern, re.S)
    def f(t):
        m = r.match(t)
        return m.end() if m else ERR
    return f
def first(*fs):
    def f(t):
        for g in fs:
            v = g(t)
            if v != DC: return v
        return DC
    return f
def unless(pattern, f):
    r = re.compile(pattern, re.S)
    return lambda t: DC if r.search(t) else f(t)
def yes(pattern):
    r = re.compile(pattern, re.S)
    return lambda t: 1 if r.match(t) else 0

LEN = "return int(%s(s));"
CLOSED = "const auto r = %s(s); return int(r.length) + (r.length && r.is_terminated ? 18 : 0);"
CLOSED2 = "const auto r = %s(s); return int(r.length) + (r.length && r.terminated ? 18 : 0);"
ESC = "const auto r = %s(s); return r.length == 0 || r.erroneous ? 88 : int(r.length);"
NUM = "const auto r = %s(s); return r.erroneous ? 88 : int(r.length);"
BOOL = "return int(%s(s));"

def cpp_escape(t):
    for k, p in ((0, rb"\\['\"?\\abfnrtv]"), (1, rb"\\(?:[0-7]{1,3}|o\{[0-7]+\})"), (2, rb"\\x(?:[0-9a-f]+|\{[0-9a-f]+\})"), (4, rb"\\(?:u[0-9a-f]{4}|u\{[0-9a-f]+\}|U[0-9a-f]{8}|N\{[^}\n]+\})"), (5, rb"\\[ \t\v\f\r]*\n"), (3, rb"\\[q8{}]")):
        m = re.match(p, t, re.S)
        if m: return m.end() + 13 * k
    return 88
def cpp_int(t):
    m = re.match(rb"0[bB]([01]*)|0[xX]([0-9a-fA-F]*)|(0[0-7]+)|0|([1-9][0-9]*)", t)
    if not m: return 0
    if m.group(1) is not None: return m.end() if m.group(1) else ERR
    if m.group(2) is not None: return m.end() + 54 if m.group(2) else ERR
    return m.end() + 18 if m.group(3) else m.end() + 36 if m.group(4) else DC
def css_like(t):
    n = CSS_IDENT(t)
    return n + (36 if t[:n].lower() == b"url" else 18) if t[n:n + 1] == b"(" else n
CSS_IDENT = rx(rb"(?:[-a-zA-Z0-9_\x80-\xff]|\\(?:[0-9a-fA-F]{1,6}[ \t\n\f]?|\xc3\xa9|[^\n\f\r0-9a-fA-F\xc3]))*")
def js_string(t):
    m = re.match(rb"(['\"])(?:\\(?:\r\n|.)|(?!\1|\n|\r|\\).)*(\\(?=$))?(\1)?", t, re.S)
    return 0 if not m else m.end() + (18 if m.group(3) else 0)
def lua_string(t):
    m = re.match(rb"\[(=*)\[.*?\]\1\]", t, re.S)
    if m: return m.end() + 36
    if re.match(rb"\[=*\[", t): return len(t) + 18
    m = re.match(rb"(['\"])(?:\\.|(?!\1|\n|\\).)*(\\(?=$))?(\1)?", t, re.S)
    return 0 if not m else m.end() + (54 if m.group(3) else 0)
def html_comment(t):
    if b"<!-->" in t[4:] or t.endswith(b"<!-") and len(t) > 4: return DC
    m = re.match(rb"<!--(?!>|->)(?:(?!<!--|-->|--!>).)*(-->)?", t, re.S)
    if not m: return 0
    return m.end() + 18 if m.group(1) else len(t) if m.end() == len(t) else 0
def html_piece(t):
    m = re.search(rb"(&(?:#[xX][0-9a-fA-F]+|#[0-9]+|[A-Za-z0-9]+);)|</(?i:ab)[ />]", t)
    if not m: return len(t)
    r = len(m.group(1) or b"")
    return DC if r > 4 else m.start() + 18 * r
def html_end(t):
    m = re.match(rb"</([^ \t\n\f\r>]+)[^>]*>", t, re.S)
    return m.end() + 18 * min(len(m.group(1)), 3) if m else 0
def xml_comment(t):
    m = re.match(rb"<!--(?:(?!--).)*(-->)?", t, re.S)
    return 0 if not m else m.end() + (18 if m.group(1) else 0)
def jsx_braced(t):
    if t[:1] != b"{": return 0
    i, level = 0, 0
    while i < len(t):
        m = re.match(rb"//[^\n]*|/\*.*?\*/", t[i:], re.S)
        if m: i += m.end(); continue
        if t.startswith(b"/*", i): return len(t)
        if t[i:i + 1] in b"\"'": i += js_string(t[i:]) % 18; continue
        level += {b"{": 1, b"}": -1}.get(t[i:i + 1], 0); i += 1
        if level == 0: return i + 18
    return len(t)
def cowel_escape(t):
    if t[:1] != b"\\": return 0
    if len(t) == 1: return 19
    m = re.match(rb"\\(?:\r\n|[{}\\\"\r\n]|\+(?:[0-9A-F]{8}|[0-9a-f]{8}|[0-9A-F]{4}|[0-9a-f]{4})|'(?! )[-A-Z0-9 ]+(?<! )')", t)
    if m: return m.end()
    if t[1:2] == b"'":
        m = re.match(rb"\\'[^'\r\n]*'", t)
        return 18 + (m.end() if m else 2)
    m = re.match(rb"\\(?:\xc3\xa9|[^A-Za-z_:*( ])", t)
    return m.end() + 18 if m else 0
def cowel_quoted(t):
    if t[:1] != b'"': return 0
    i = 1
    while i < len(t):
        if t[i:i + 1] == b'"': return i + 1
        if t[i:i + 1] == b"\\":
            n = cowel_escape(t[i:]) % 18
            if not n:
                m = re.match(rb"\\:[^\r\n]*|\\\*.*?(?:\*\\|$(?!\n))", t[i:], re.S)
                if not m: return 0
                n = m.end()
            i += n
        else: i += 1
    return 0
def json_number(t):
    m = re.match(rb"-?[0-9]*(?:\.[0-9]*)?(?:[eE][+-]?[0-9]*)?", t)
    return m.end() + (18 if m.end() and not re.fullmatch(rb"-?(?:0|[1-9][0-9]*)(?:\.[0-9]+)?(?:[eE][+-]?[0-9]+)?", m.group()) else 0)
def jsx_space(t): return re.match(rb"(?:\s|//[^\n\r]*|/\*.*?(?:\*/|$(?!\n)))*", t, re.S).end()
J = {"opening": 0, "closing": 1, "self_closing": 2, "fragment_opening": 3, "fragment_closing": 4}
def jsx_tag(t):
    """-> length + 18 * type (fragment opening, fragment closing, opening, self-closing, closing)"""
    if t[:1] != b"<": return 0
    i = 1 + jsx_space(t[1:]); closing = False
    if t[i:i + 1] == b">": return i + 1 + 18 * J["fragment_opening"]
    if t[i:i + 1] == b"/":
        closing = True; i += 1; i += jsx_space(t[i:])
        if t[i:i + 1] == b">": return i + 1 + 18 * J["fragment_closing"]
    i += re.match(rb"(?:[A-Za-z_$][-:.A-Za-z0-9_$]*)?", t[i:]).end()
    while i < len(t):
        i += jsx_space(t[i:])
        if t[i:i + 1] == b">": return i + 1 + 18 * J["closing" if closing else "opening"]
        if t[i:i + 2] == b"/>": return 0 if closing else i + 2 + 18 * J["self_closing"]
        if t[i:i + 1] == b"{":
            b = jsx_braced(t[i:])
            if b < 18: return 0
            i += b - 18; continue
        m = re.match(rb"[A-Za-z_$][-:A-Za-z0-9_$]*", t[i:])
        if not m: return 0
        i += m.end(); i += jsx_space(t[i:])
        if t[i:i + 1] != b"=": continue
        i += 1; i += jsx_space(t[i:])
        if t[i:i + 1] in (b"'", b'"'): i += js_string(t[i:]) % 18; continue
        if t[i:i + 1] == b"{":
            b = jsx_braced(t[i:])
            if b < 18: return 0
            i += b - 18; continue
        return 0
    return 0
def yaml_word(t):
    for w in (b"FALSE", b"False", b"NO", b"NULL", b"No", b"Null", b"OFF", b"ON", b"Off", b"On", b"TRUE", b"True", b"YES", b"Yes", b"false", b"no", b"null", b"off", b"on", b"true", b"yes"):
        if t.startswith(w): return len(w) + 18 * (0 if w.lower() == b"null" else 1 if w.lower() in (b"on", b"true", b"yes") else 2)
    return 0

JSNL = rb"\n|\r|\xe2\x80\xa8|\xe2\x80\xa9"
LS = b"\xe2\x80\xa8"
EXP = rb"(?:[eE][+-]?[0-9](?:_?[0-9])*)"
D = rb"[0-9](?:_?[0-9])*"
H = rb"[0-9a-fA-F](?:_?[0-9a-fA-F])*"
NUMS = [b"0", b"17", b".", b"e", b"+", b"_", b" "]
def words(s): return [bytes([c]) for c in s]
def ops(words, dc=None, special=None):
    """the longest of the language's operators and punctuators that the text begins with"""
    w = sorted((x.encode() for x in words.split()), key=len, reverse=True)
    d = re.compile(dc, re.S) if dc else None
    def f(t):
        if d and d.match(t): return DC
        if special:
            v = special(t)
            if v is not None: return v
        return next((len(x) for x in w if t.startswith(x)), 0)
    return f
OP = "const auto r = %s(s); return r ? int(%s(*r)) : 0;"
PUNCT = [(b"", words(b"!#$%&()*+,-./:;<=>?@[\\]^{|}~a0"), 3), (b"", words(b"<>=:.%&"), 5), (b"", words(b"?|^*/+-=!0"), 4)]
# name: (file, namespace, body, [(prefix, fragments, depth)], oracle)
CASES = {
 "cpp_whitespace": ("cpp", LEN % "match_whitespace", [(b"", words(b" \t\n\v\f\r\0a"), 4)], rx(rb"[ \t\n\v\f\r]*")),
 "cpp_non_whitespace": ("cpp", LEN % "match_non_whitespace", [(b"", words(b" \t\n\v\f\r\0a\xff"), 4)], rx(rb"[^ \t\n\v\f\r]*")),
 "cpp_line_comment": ("cpp", LEN % "match_line_comment", [(b"//", words(b"/\\\n\r *"), 5), (b"", words(b"/\\\n* a"), 4)], rx(rb"//(?:\\[ \t\v\f\r]*\n|(?!\r?\n).)*")),
 "cpp_block_comment": ("cpp", CLOSED % "match_block_comment", [(b"/*", words(b"/*\n\\a"), 5), (b"", words(b"/*\na"), 5)], closed(rb"/\*.*?\*/", rb"/\*")),
 "cpp_directive": ("cpp", "return int(match_preprocessing_directive(s, Lang::cpp));", [(b"#", words(b"#\\\n\r /*a"), 5), (b"", [b"%:", b"%", b":", b"#", b"a", b"\n"], 5)], rx(rb"(?:#(?!#)|%:(?!%:))(?:\\[ \t\v\f\r]*\n|(?!\r?\n|//|/\*).)*")),
 "cpp_integer": ("cpp", "const auto r = match_integer_literal(s); return r.status == Literal_Match_Status::no_digits_following_prefix ? 88 : int(r.length) + 18 * (r.length == 0 ? 0 : int(r.type));", [(b"", words(b"012789abBxXf "), 4)], cpp_int),
 "cpp_pp_number": ("cpp", LEN % "match_pp_number", [(b"", words(b"1.'eP+-_x "), 4), (b"1", [b"e", b"+", b"'", b"\xc3\xa9", b"\xc2\xb7", b"\xc3", b".", b"-"], 4)], rx(rb"\.?[0-9](?:'[0-9a-zA-Z_]|[eEpP][+-]|[0-9a-zA-Z_]|\xc3\xa9|\xc2\xb7|\.)*")),
 "cpp_identifier": ("cpp", LEN % "match_identifier", [(b"", [b"a", b"Z", b"_", b"1", b"\xc3\xa9", b"\xc2\xb7", b"\xff", b"-", b"\xf0\x90\x90\x80"], 4)], rx(rb"(?:[A-Za-z_]|\xc3\xa9|\xf0\x90\x90\x80)(?:[A-Za-z_0-9]|\xc3\xa9|\xc2\xb7|\xf0\x90\x90\x80)*")),
 "cpp_escape": ("cpp", "const auto r = match_escape_sequence(s); return r.length == 0 || r.erroneous ? 88 : int(r.length) + 13 * int(r.type);", [(b"\\", [b"\\", b"n", b"0", b"7", b"8", b"a", b"x", b"u", b"o", b"q", b"{", b"}", b"N", b"\n", b" "], 4), (b"\\u", [b"0", b"f", b"{", b"}", b"g"], 5), (b"\\U", [b"12", b"a", b"{", b" "], 6), (b"\\", [b" ", b"\t", b"\v", b"\f", b"\r", b"\n", b"a"], 4), (b"", words(b"\\n?'\""), 3)], cpp_escape),
 "css_starts_number": ("css", BOOL % "starts_with_number", [(b"", words(b"+-.1e"), 4)], yes(rb"[+-]?(?:[0-9]|\.[0-9])")),
 "css_starts_escape": ("css", BOOL % "starts_with_valid_escape", [(b"", words(b"\\\na -\f"), 3)], yes(rb"\\[^\n\f\r]")),
 "css_starts_ident": ("css", BOOL % "starts_with_ident_sequence", [(b"", words(b"\\\na -1_\xc3\xa9"), 3)], yes(rb"-(?:[-a-zA-Z_\x80-\xff]|\\[^\n\f\r])|[a-zA-Z_\x80-\xff]|\\[^\n\f\r]")),
 "css_number": ("css", LEN % "match_number", [(b"", words(b"+-.1eE"), 5)], lambda t: (lambda m: m.end() if m else DC)(re.match(rb"[+-]?(?:[0-9]+(?:\.[0-9]+)?|\.[0-9]+)(?:[eE][+-]?[0-9]+)?", t))),
 "css_escaped": ("css", LEN % "match_escaped_code_point", [(b"", [b"1", b"ab", b"f", b"g", b" ", b"\n", b"\t", b"\xc3\xa9"], 5)], rx(rb"[0-9a-fA-F]{1,6}[ \t\n\f]?|\xc3\xa9|.")),
 "css_ident": ("css", LEN % "match_ident_sequence", [(b"", [b"a", b"-", b"1", b"_", b"\\", b"\n", b" ", b"\xc3\xa9", b"g"], 4)], CSS_IDENT),
 "css_ident_like": ("css", "const auto r = match_ident_like_token(s); return r.length == 0 ? 0 : int(r.length) + 18 * (r.type == Ident_Type::url ? 2 : r.type == Ident_Type::function ? 1 : 0);", [(b"", [b"u", b"r", b"l", b"url", b"URL", b"(", b"uRl", b" "], 3)], lambda t: css_like(t) if CSS_IDENT(t) else DC),
 "js_line_comment": ("js", LEN % "match_line_comment", [(b"//", [b"/", b"\n", b"\r", LS, b"\xe2\x80\xa9", b"\xe2\x80", b"a", b"\xa8"], 4), (b"", words(b"/\n*a"), 4)], rx(rb"//(?:(?!" + JSNL + rb").)*")),
 "js_hashbang": ("js", LEN % "match_hashbang_comment", [(b"#!", [b"/", b"\n", b"\r", LS, b"\xe2\x80", b"a"], 4), (b"", words(b"#! a\n"), 3)], rx(rb"#!(?:(?!" + JSNL + rb").)*")),
 "js_block_comment": ("js", CLOSED % "match_block_comment", [(b"/*", words(b"/*\n\\a"), 5), (b"", words(b"/*\na"), 5)], closed(rb"/\*.*?\*/", rb"/\*")),
 "js_terminator": ("js", LEN % "match_line_terminator_sequence", [(b"", [b"\n", b"\r", LS, b"\xe2\x80\xa9", b"\xe2\x80", b"a"], 3)], rx(rb"\r\n|" + JSNL)),
 "js_starts_terminator": ("js", BOOL % "starts_with_line_terminator", [(b"", [b"\n", b"\r", LS, b"\xe2\x80\xa9", b"\xe2\x80", b"a"], 3)], yes(JSNL)),
 "js_whitespace": ("js", LEN % "match_whitespace", [(b"", [b"\n", b"\r", LS, b"\xe2\x80\xa9", b" ", b"\t", b"\v", b"\f", b"\xc2\xa0", b"\xef\xbb\xbf", b"\xe3\x80\x80", b"a", b"\0"], 3)], rx(rb"(?:[ \t\v\f\n\r]|\xc2\xa0|\xef\xbb\xbf|\xe3\x80\x80|" + LS + rb"|\xe2\x80\xa9)*")),
 "js_escape": ("js", ESC % "match_escape_sequence", [(b"\\", [b"0", b"3", b"4", b"7", b"8", b"x", b"u", b"a", b"{", b"}", b"\\", b"'", b"n"], 4), (b"\\u", [b"0", b"f", b"{", b"}", b"g"], 5), (b"", words(b"\\n"), 2)], escape(rb"\\(?:x[0-9a-f]{2}|u[0-9a-f]{4}|u\{[0-9a-f]+\}|[0-3][0-7]{0,2}|[4-7][0-7]?|[^xu0-7])")),
 "js_string": ("js", CLOSED2 % "match_string_literal", [(b"'", words(b"'\"\\\n\ra"), 5), (b"\"", words(b"'\"\\\n\ra"), 4), (b"", words(b"'\"\\`a"), 3)], js_string),
 "js_digits": ("js", "const auto r = match_digits(s, 10); return r.length == 0 ? 0 : int(r.length) + (r.erroneous ? 18 : 0);", [(b"", words(b"019_an"), 5)], lambda t: (lambda m: (m.end() + (0 if re.fullmatch(rb"[0-9](_?[0-9])*", m.group()) else 18)) if m.end() else 0)(re.match(rb"[0-9_]*", t))),
 "js_number": ("js", NUM % "match_numeric_literal", [(b"", NUMS + [b"n", b"0x", b"0b", b"f"], 4)], valid(rb"0[xX]" + H + rb"n?|0[bB][01](?:_?[01])*n?|0n?|0[0-7]+|[1-9](?:_?[0-9])*n?|(?:0|[1-9](?:_?[0-9])*)\.(?:" + D + rb")?" + EXP + rb"?|\." + D + EXP + rb"?|(?:0|[1-9](?:_?[0-9])*)" + EXP, bad=rb"0[xb](?=[ ;]|$)|1_(?=[ ;]|$)", none=rb"[ne+ ]|$|\.(?![0-9_])")),
 "js_identifier": ("js", LEN % "match_identifier", [(b"", [b"a", b"$", b"_", b"1", b"\xc3\xa9", b"-", b":", b"#"], 4)], rx(rb"(?:[A-Za-z_$]|\xc3\xa9)(?:[A-Za-z_$0-9]|\xc3\xa9)*")),
 "js_private": ("js", LEN % "match_private_identifier", [(b"", [b"a", b"$", b"_", b"1", b"\xc3\xa9", b"#"], 4)], rx(rb"#(?:[A-Za-z_$]|\xc3\xa9)(?:[A-Za-z_$0-9]|\xc3\xa9)*")),
 "jsx_identifier": ("js", LEN % "match_jsx_identifier", [(b"", [b"a", b"$", b"1", b"\xc3\xa9", b"-", b":", b"."], 4)], rx(rb"(?:[A-Za-z_$]|\xc3\xa9)(?:[-A-Za-z_$0-9]|\xc3\xa9)*")),
 "jsx_element": ("js", LEN % "match_jsx_element_name", [(b"", [b"a", b"$", b"1", b"\xc3\xa9", b"-", b":", b"."], 4)], rx(rb"(?:[A-Za-z_$]|\xc3\xa9)(?:[-:.A-Za-z_$0-9]|\xc3\xa9)*")),
 "jsx_attribute": ("js", LEN % "match_jsx_attribute_name", [(b"", [b"a", b"$", b"1", b"\xc3\xa9", b"-", b":", b"."], 4)], rx(rb"(?:[A-Za-z_$]|\xc3\xa9)(?:[-:A-Za-z_$0-9]|\xc3\xa9)*")),
 "lua_line_comment": ("lua", LEN % "match_line_comment", [(b"--", words(b"-[=]\na"), 5), (b"", words(b"-[a"), 3)], rx(rb"--(?!\[=*\[)[^\n]*")),
 "lua_block_comment": ("lua", CLOSED % "match_block_comment", [(b"--[", words(b"[=]\na-"), 5), (b"--[[", words(b"[=]\n"), 5), (b"--[=[", words(b"[=]\n"), 6), (b"--[==[", [b"]", b"=", b"]==]", b"a"], 5), (b"", words(b"-[a"), 4)], lambda t: (lambda m: m.end() + 18 if m else len(t) if re.match(rb"--\[=*\[", t) else 0)(re.match(rb"--\[(=*)\[.*?\]\1\]", t, re.S))),
 "lua_string": ("lua", "const auto r = match_string_literal(s); return int(r.length) + (r.length == 0 ? 0 : 18 * (r.is_long_string ? r.terminated ? 2 : 1 : r.terminated ? 3 : 0));", [(b"'", words(b"'\"\\\na]"), 5), (b"\"", words(b"'\"\\\na"), 4), (b"[", words(b"[=]\na'"), 5), (b"[=[", words(b"[=]\n"), 6), (b"[==[", [b"]", b"=", b"]==]", b"a"], 5), (b"", words(b"'\"[=a"), 3)], lua_string),
 "lua_number": ("lua", LEN % "match_number", [(b"", [b"0", b"17", b".", b"e", b"+", b"x", b"0x", b"f", b"p", b"X", b"-", b" "], 4)], valid(rb"0[xX](?:[0-9a-fA-F]+(?:\.[0-9a-fA-F]*)?|\.[0-9a-fA-F]+)(?:[pP][+-]?[0-9]+)?|(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:[eE][+-]?[0-9]+)?", none=rb"[^0-9.]|$|\.(?![0-9])")),
 "lua_identifier": ("lua", LEN % "match_identifier", [(b"", [b"a", b"Z", b"_", b"1", b"-", b"$"], 4)], rx(rb"[A-Za-z_][A-Za-z_0-9]*")),
 "html_whitespace": ("html", LEN % "match_whitespace", [(b"", words(b" \t\n\v\f\ra\0"), 4)], rx(rb"[ \t\n\f\r]*")),
 "html_reference": ("html", LEN % "match_character_reference", [(b"&", words(b"#xX1agG;& "), 4), (b"", words(b"&;a"), 4)], rx(rb"&(?:#[xX][0-9a-fA-F]+|#[0-9]+|[A-Za-z0-9]+);")),
 "html_tag_name": ("html", LEN % "match_tag_name", [(b"a", [b"a", b"Z", b"1", b"-", b"\xc3\xa9", b">", b" ", b"/", b"<"], 4)], rx(rb"(?:[-A-Za-z0-9]|\xc3\xa9)*")),
 "html_attribute_name": ("html", LEN % "match_attribute_name", [(b"", [b"a", b"1", b"-", b":", b"@", b"\xc3\xa9", b">", b" ", b"/", b"=", b"'", b"\""], 4)], rx(rb"(?:[-A-Za-z0-9:@]|\xc3\xa9)*")),
 "html_raw_text": ("html", 'return int(match_raw_text(s, u8"ab"));', [(b"", [b"<", b"/", b"</", b"ab", b"Ab", b"a", b">", b" ", b"\n"], 5)], lambda t: (lambda m: m.start() if m else len(t))(re.search(rb"</(?i:ab)[ \t\n\f\r/>]", t))),
 "html_raw_piece": ("html", 'const auto r = match_escapable_raw_text_piece(s, u8"ab"); return int(r.raw_length) + 18 * int(r.ref_length);', [(b"", [b"<", b"/", b"</ab", b"ab", b"Ab", b">", b" ", b"&", b";", b"&a;"], 4)], html_piece),
 "html_comment": ("html", CLOSED2 % "match_comment", [(b"<!--", words(b"<!->a\n"), 5), (b"", [b"<!", b"--", b"-", b"<", b">", b"a"], 4)], html_comment),
 "html_doctype": ("html", CLOSED2 % "match_doctype_permissive", [(b"<!DOCTYPE", words(b"<> a\n-"), 4), (b"<!DocTyp", words(b"eE> "), 4), (b"", words(b"<!dD"), 4)], closed(rb"(?i:<!DOCTYPE)[^>]*>", rb"(?i:<!DOCTYPE)")),
 "html_cdata": ("html", CLOSED2 % "match_cdata", [(b"<![CDATA[", words(b"<>]a["), 5), (b"<![cdata[", words(b"]>"), 3), (b"", [b"<![", b"CDATA", b"[", b"]]", b">"], 4)], closed(rb"<!\[CDATA\[.*?\]\]>", rb"<!\[CDATA\[")),
 "html_end_tag": ("html", "const auto r = match_end_tag_permissive(s); return int(r.length) + 18 * int(r.name_length > 3 ? 3 : r.name_length);", [(b"</", words(b"ab> \n</"), 5), (b"", words(b"<a>/"), 4)], html_end),
 "xml_whitespace": ("xml", LEN % "match_whitespace", [(b"", words(b" \t\n\v\f\ra\0"), 4)], rx(rb"[ \t\n\r]*")),
 "xml_comment": ("xml", CLOSED2 % "match_comment", [(b"<!--", words(b"<!->a\n"), 5), (b"", [b"<!", b"--", b"-", b"<", b">", b"a"], 4)], xml_comment),
 "xml_text": ("xml", LEN % "match_text", [(b"", words(b"<&a>;\n"), 4)], rx(rb"[^<&]*")),
 "xml_name": ("xml", LEN % "match_name", [(b"", [b"a", b":", b"_", b"\xc3\xa9", b" ", b">", b"="], 4)], rx(rb"(?:[a:_]|\xc3\xa9)*")),
 "xml_att_type": ("xml", LEN % "match_att_type", [(b"", [b"CDATA", b"ID", b"IDREF", b"REF", b"S", b"ENTIT", b"Y", b"IES", b"NMTOKEN", b"NOTATION", b" ", b">", b"a"], 3)], rx(rb"(?:CDATA|IDREFS?|ID|ENTITY|ENTITIES|NMTOKENS?|NOTATION)(?=[ >]|$)")),
 "xml_default": ("xml", LEN % "match_default_decl_type", [(b"", [b"#", b"REQUIRED", b"IMPLIED", b"FIXED", b" ", b"#FIXE", b"D"], 3)], rx(rb"#(?:REQUIRED|IMPLIED|FIXED)")),
 "xml_external": ("xml", LEN % "match_external_id_type", [(b"", [b"PUBLI", b"C", b"SYSTEM", b" ", b"PUBLIC", b"SYSTE", b"M"], 3)], rx(rb"PUBLIC|SYSTEM")),
 "xml_content": ("xml", LEN % "match_content_spec_type", [(b"", [b"EMPT", b"Y", b"AN", b" ", b"ANY", b"EMPTY"], 3)], rx(rb"EMPTY|ANY")),
 "xml_ndata": ("xml", LEN % "match_ndata_decl", [(b"", [b"NDAT", b"A", b"NDATA", b" "], 3)], rx(rb"NDATA")),
 "xml_pcdata": ("xml", LEN % "match_pcdata_decl", [(b"", [b"#PCDAT", b"A", b"#", b"PCDATA", b" "], 3)], rx(rb"#PCDATA")),
 "bash_single_quoted": ("bash", CLOSED2 % "match_single_quoted_string", [(b"'", words(b"'\\\n\"a"), 5), (b"", words(b"'\"a"), 3)], closed(rb"'[^']*'", rb"'")),
 "bash_comment": ("bash", LEN % "match_comment", [(b"", words(b"#\n\\ a"), 5)], rx(rb"#[^\n]*")),
 "bash_blank": ("bash", LEN % "match_blank", [(b"", words(b" \t\n\va"), 4)], rx(rb"[ \t]*")),
 "bash_identifier": ("bash", LEN % "match_identifier", [(b"", words(b"aZ_1-$"), 4)], rx(rb"[A-Za-z_][A-Za-z_0-9]*")),
 "java_escape": ("java", ESC % "match_escape_sequence", [(b"\\", words(b"0347bsq\\'\r\nu8"), 4), (b"\\u", words(b"0fG"), 5), (b"", words(b"\\n\""), 2)], escape(rb"\\(?:[bstnfr\"'\\]|[0-3][0-7]{0,2}|[4-7][0-7]?|u[0-9a-fA-F]{4}|\r\n|\r|\n)")),
 "java_number": ("java", NUM % "match_number", [(b"", NUMS + [b"L", b"f", b"0x", b"p", b"0b"], 4)], unless(rb"__|\.(?:$|[ ;eLfp+_])|^0[xb]\.|^0x[0-9a-f_]*\.[ ;pL]", valid(rb"0[xX]" + H + rb"[lL]?|0[bB][01](?:_?[01])*[lL]?|0(?:_?[0-7])*[lL]?|[1-9](?:_?[0-9])*[lL]?|" + D + rb"\." + D + EXP + rb"?[fFdD]?|\." + D + EXP + rb"?[fFdD]?|" + D + EXP + rb"[fFdD]?|" + D + rb"[fFdD]|0[xX](?:" + H + rb"|(?:" + H + rb")?\." + H + rb")[pP][+-]?" + D + rb"[fFdD]?", bad=rb"0[xb](?=[ ;]|$)|1_(?=[ ;]|$)|17e\+?(?=[ ;]|$)"))),
 "kotlin_escape": ("kotlin", ESC % "match_escape_sequence", [(b"\\", words(b"tbrn'\"\\$u0fq"), 3), (b"\\u", words(b"0fG"), 5), (b"", words(b"\\n\""), 2)], escape(rb"\\(?:[tbrn'\"\\$]|u[0-9a-fA-F]{4})")),
 "kotlin_number": ("kotlin", NUM % "match_number", [(b"", NUMS + [b"L", b"f", b"0x", b"u", b"0b"], 4)], unless(rb"__", valid(rb"0[xX]" + H + rb"(?:[uU]?L|[uU])?|0[bB][01](?:_?[01])*(?:[uU]?L|[uU])?|(?:0|[1-9](?:_?[0-9])*)(?:[uU]?L|[uU])?|(?:" + D + rb")?\." + D + EXP + rb"?[fF]?|" + D + EXP + rb"[fF]?|" + D + rb"[fF]|(?:0|[1-9](?:_?[0-9])*)(?=\.\.)", stop=rb"(?=[ ;]|\.\.|$)", bad=rb"0[xb](?=[ ;]|$)|1_(?=[ ;]|$)|17e\+?(?=[ ;]|$)"))),
 "rust_escape": ("rust", "const auto r = match_escape_sequence(s, String_Type::string); return r.length == 0 || r.erroneous ? 88 : int(r.length);", [(b"\\", words(b"nrt\\0'\"xufq{}"), 4), (b"", words(b"\\n\""), 2)], escape(rb"\\(?:[nrt\\0'\"]|x[0-9a-fA-F]{2}|u\{[^}]+\})")),
 "rust_number": ("rust", NUM % "match_number", [(b"", [b"0", b"17", b".", b"e", b"+", b"_", b" ", b"u8", b"f", b"0x", b"0b", b"0o"], 4)], unless(rb"__|_[ ;.eu]|_$|[0-9]_|\.(?:$|[ ;_.])|^0[xbo]_|^0b[0-9]|f|e_", valid(rb"0x[0-9a-fA-F]+(?:u8)?|[0-9]+(?:u8)?|[0-9]+\.[0-9]+" + EXP + rb"?|[0-9]+" + EXP, bad=rb"0[xbo](?=[ ;]|$)"))),
 "python_escape": ("python", "const auto r = match_escape_sequence(s, String_Prefix {}); return r.length == 0 || r.erroneous ? 88 : int(r.length);", [(b"\\", words(b"0378nrt\\'\"xuNfq{}\r\n"), 4), (b"\\u", words(b"0fG"), 5), (b"\\U", [b"12", b"a", b" "], 6), (b"", words(b"\\n\""), 2)], escape(rb"\\(?:[\\'\"abfnrtv]|[0-7]{1,3}|x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}|N\{[^}]+\}|\r\n|\r|\n)")),
 "python_number": ("python", NUM % "match_number", [(b"", NUMS + [b"j", b"f", b"0x", b"0b", b"J"], 4)], unless(rb"^0[xb]_", valid(rb"0[xX]" + H + rb"|0[bB][01](?:_?[01])*|0|[1-9](?:_?[0-9])*|(?:(?:[1-9](?:_?[0-9])*|0)?\." + D + rb"|(?:[1-9](?:_?[0-9])*|0)\.)" + EXP + rb"?[jJ]?|(?:[1-9](?:_?[0-9])*|0)" + EXP + rb"[jJ]?|(?:[1-9](?:_?[0-9])*|0)[jJ]", bad=rb"0[xb](?=[ ;]|$)|1_(?=[ ;]|$)|17e\+?(?=[ ;]|$)"))),
 "nasm_escape": ("nasm", ESC % "match_escape_sequence", [(b"\\", words(b"0378anrt\\'\"`xue?fq"), 4), (b"\\u", words(b"0fG"), 5), (b"\\U", [b"12", b"a", b" "], 6), (b"", words(b"\\n\""), 2)], escape(rb"\\(?:['\"`\\?abtnvfre]|[0-7]{1,3}|x[0-9a-fA-F]{1,2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8})")),
 "llvm_identifier": ("llvm", LEN % "match_identifier", [(b"", words(b"%@a1.$-_ \""), 4)], lambda t: DC if t[1:2] in (b"", b" ", b"%", b"@", b"\"") else (lambda m: m.end() if m else 0)(re.match(rb"[%@][-a-zA-Z$._0-9]*", t))),
 "llvm_block_comment": ("llvm", CLOSED % "match_block_comment", [(b"/*", words(b"/*\n\\a"), 5), (b"", words(b"/*\na"), 5)], closed(rb"/\*.*?\*/", rb"/\*")),
 "yaml_break": ("yaml", LEN % "match_line_break", [(b"", words(b"\r\na"), 4)], rx(rb"\r\n|\r|\n")),
 "yaml_escape": ("yaml", ESC % "match_escape_sequence", [(b"\\", words(b"0abefnrtv\"/\\_NLP \txuq\r\n"), 3), (b"\\u", words(b"0fG"), 5), (b"\\U", [b"12", b"a", b" "], 6), (b"", words(b"\\n\""), 2)], escape(rb"\\(?:[0abefnrtv\"/\\_NLP \t]|x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}|\r\n|\r|\n)")),
 "yaml_word": ("yaml", "const auto r = match_plain_identifier(s); return r.length == 0 ? 0 : int(r.length) + 18 * (r.type == Plain_Identifier_Type::null ? 0 : r.type == Plain_Identifier_Type::bool_true ? 1 : 2);", [(b"", [b"n", b"N", b"ull", b"ULL", b"o", b"O", b"ff", b"FF", b"N", b"T", b"rue", b"RUE", b"t", b"f", b"F", b"alse", b"ALSE", b"y", b"Y", b"es", b"ES", b"z", b" "], 3)], yaml_word),
 "yaml_marker": ("yaml", LEN % "match_document_marker", [(b"", words(b"-. a"), 4)], rx(rb"---|\.\.\.")),
 "yaml_anchor": ("yaml", LEN % "match_anchor", [(b"", words(b"&*a1-_, ]{\n#:"), 3)], rx(rb"&[^\r\n,\[\]{}# \t&*!]+")),
 "yaml_alias": ("yaml", LEN % "match_alias", [(b"", words(b"&*a1-_, ]{\n#:"), 3)], rx(rb"\*[^\r\n,\[\]{}# \t&*!]+")),
 "cowel_identifier": ("cowel", LEN % "match_identifier", [(b"", words(b"aZ_1.$ "), 4)], rx(rb"[A-Za-z_][A-Za-z_0-9]*")),
 "cowel_ellipsis": ("cowel", LEN % "match_ellipsis", [(b"", words(b". a"), 4)], rx(rb"\.\.\.")),
 "cowel_whitespace": ("cowel", LEN % "match_whitespace", [(b"", words(b" \t\n\v\f\ra"), 4)], rx(rb"[ \t\n\f\r]*")),
 "cowel_line_comment": ("cowel", LEN % "match_line_comment", [(b"", words(b"\\:\n\ra*"), 5)], rx(rb"\\:[^\r\n]*")),
 "cowel_block_comment": ("cowel", CLOSED % "match_block_comment", [(b"\\*", words(b"\\*\na"), 5), (b"", words(b"\\*a:"), 4)], closed(rb"\\\*.*?\*\\", rb"\\\*")),
 "cowel_blank": ("cowel", LEN % "match_blank", [(b"", [b"\\:", b"\\*", b"*\\", b" ", b"\n", b"a", b"\\"], 5)], rx(rb"(?:[ \t\n\f\r]+|\\:[^\r\n]*|\\\*.*?\*\\|\\\*.*)*")),
 "cowel_number": ("cowel", NUM % "match_number", [(b"", NUMS[:5] + [b" ", b"0x", b"0b", b"0o", b"-", b"f"], 4)], unless(rb"^-?(?:0[xbo])[0-9a-f.+-]*[.+-]|^-?0[xbo].*e", valid(rb"-?(?:0x[0-9a-fA-F]+|0b[01]+|0o[0-7]+|[0-9]+(?:\.[0-9]+)?(?:[eE][+-]?[0-9]+)?)", bad=rb"-?0[xbo](?=[ ;]|$)|-?17e\+?(?=[ ;]|$)"))),
 "cowel_escape": ("cowel", "const auto r = match_escape(s); return int(r.length) + (r.is_reserved ? 18 : 0);", [(b"\\", words(b"{}\\\"'+\r\n:*( a_1;\x7f") + [b"\xc3\xa9", b"\xff"], 2), (b"\\'", words(b"' -A1a\n\r_"), 4), (b"\\+", [b"0", b"A", b"f", b"0A1B", b"g", b"0a", b"{"], 5), (b"", words(b"\\{a"), 3)], cowel_escape),
 "cowel_quoted": ("cowel", LEN % "match_quoted_member_name", [(b"\"", words(b"\"\\:*a\n{ "), 5), (b"", words(b"\"\\a"), 4)], cowel_quoted),
 "cpp_newline_escape": ("cpp", LEN % "match_newline_escape", [(b"", words(b"\\ \t\v\r\n/a"), 4)], rx(rb"\\[ \t\v\f\r]*\n")),
 "cpp_d_chars": ("cpp", LEN % "match_d_char_sequence", [(b"", words(b"()\\ \t\n\va\"_1\x00\x80"), 3)], rx(rb"[^()\\ \t\v\f\r\n\x80-\xff]*")),
 "js_continuation": ("js", LEN % "match_line_continuation", [(b"", [b"\\", b"\n", b"\r", LS, b"\xe2\x80", b"a", b" "], 4)], rx(rb"\\(?:\r\n|" + JSNL + rb")")),
 "js_regex_flags": ("js", LEN % "match_regex_flags", [(b"", [b"g", b"$", b"_", b"1", b"\xc3\xa9", b"-", b"/", b" "], 4)], rx(rb"(?:[A-Za-z_$0-9]|\xc3\xa9)*")),
 "js_space_comments": ("js", LEN % "match_whitespace_comment_sequence", [(b"", [b"/*", b"*/", b"//", b"/", b"*", b" ", b"\n", LS, b"a"], 5)], rx(rb"(?:\s|" + LS + rb"|/\*.*?(?:\*/|$(?![\n]))|//(?:(?!" + JSNL + rb").)*)*")),
 "jsx_braced": ("js", CLOSED % "match_jsx_braced", [(b"{", words(b"{}'/*\n a\\"), 5)], jsx_braced),
 "jsx_tag": ("js", "const auto r = match_jsx_tag(s); return r ? int(r.length) + 18 * (r.type == JSX_Type::closing ? 1 : r.type == JSX_Type::self_closing ? 2 : r.type == JSX_Type::fragment_opening ? 3 : r.type == JSX_Type::fragment_closing ? 4 : 0) : 0;", [(b"<", [b"a", b">", b"/", b" ", b"=", b"'", b"{", b"}", b"-", b"/**/"], 4), (b"<a b", [b"=", b"'a'", b"\"", b"{", b"}", b"/>", b">", b" ", b"c"], 4), (b"", words(b"<a>/"), 4)], jsx_tag),
 "json_number": ("json", "const auto r = match_number(s); return int(r.length) + (r.erroneous ? 18 : r.length != r.integer + r.fraction + r.exponent ? 36 : 0);", [(b"", [b"0", b"17", b".", b"e", b"+", b"-", b"E", b" "], 5)], json_number),
 "json_word": ("json", "const auto r = match_identifier(s); return int(r.length) + 18 * (r.type == Identifier_Type::null ? 1 : r.type == Identifier_Type::true_ ? 2 : r.type == Identifier_Type::false_ ? 3 : 0);", [(b"", [b"null", b"true", b"false", b"N", b"1", b" ", b"_"], 3)], lambda t: (lambda m: 0 if not m else m.end() + 18 * {b"null": 1, b"true": 2, b"false": 3}.get(m.group(), 0) )(re.match(rb"[A-Za-z][A-Za-z0-9]*", t))),
 "json_whitespace": ("json", LEN % "match_whitespace", [(b"", words(b" \t\n\v\f\ra\0"), 4)], rx(rb"[ \t\n\r]*")),
 "json_digits": ("json", LEN % "match_digits", [(b"", words(b"019a_."), 4)], rx(rb"[0-9]*")),
 "lua_whitespace": ("lua", LEN % "match_whitespace", [(b"", words(b" \t\n\v\f\ra\0"), 4)], rx(rb"[ \t\n\v\f\r]*")),
 "lua_non_whitespace": ("lua", LEN % "match_non_whitespace", [(b"", words(b" \t\n\v\f\ra\0"), 4)], rx(rb"[^ \t\n\v\f\r]*")),
 "markdown_autolink": ("markdown", "const auto r = md::match_autolink(s); return r.length == 0 ? 0 : r.content_start != 1 || r.content_length + 2 != r.length ? 60 : int(r.length);", [(b"<", words(b"<>:@a\n \r\t"), 4), (b"", words(b"<a:>"), 4)], rx(rb"<(?=[^>]*[:@])[^<> \t\r\n]+>")),
 "markdown_reference": ("markdown", LEN % "md::match_character_reference", [(b"&", words(b"#xX1agG;& "), 4), (b"", words(b"&;a"), 4)], rx(rb"&(?:#[xX][0-9a-fA-F]+|#[0-9]+|[A-Za-z0-9]+);")),
 "markdown_code_span": ("markdown", "const auto r = md::match_code_span(s); return r.length == 0 ? 0 : r.content_start * 2 + r.content_length != r.length ? 80 : int(r.length) + 18 * (r.content_start > 3 ? 3 : int(r.content_start));", [(b"", words(b"`a\n\\"), 7)], lambda t: (lambda m: 0 if not m else m.end() + 18 * min(len(m.group(1)), 3))(re.match(rb"(`+)(?!`).*?(?<!`)\1(?!`)", t, re.S))),
 "markdown_lead": ("markdown", LEN % "md::match_lead_spaces", [(b"", words(b" \ta\n"), 5)], rx(rb" {0,3}")),
 "yaml_number": ("yaml", NUM % "match_number", [(b"", [b"0", b"17", b".", b"e", b"+", b":", b" ", b"0x", b"0o", b"0B", b"f", b".inf", b".NaN"], 4)], valid(rb"[+-]?\.(?:inf|Inf|INF)|\.(?:nan|NaN|NAN)|0[xX][0-9a-fA-F]+|0[oO][0-7]+|0[bB][01]+|[0-9]+:[0-9]+(?::[0-9]*)?|[+-]?[0-9]+(?:\.[0-9]*)?(?:[eE][+-]?[0-9]+)?|[+-]?\.[0-9]+(?:[eE][+-]?[0-9]+)?", bad=rb"0[xoB](?=[ ;]|$)|17e\+?(?=[ ;]|$)", none=rb"[f: ]|e")),
 "bash_substitution": ("bash", BOOL % "starts_with_substitution", [(b"", words(b"$({a_1?#@*!-\"' %"), 3)], yes(rb"\$[({a-zA-Z_0-9?#@*!$-]")),
 "nasm_identifier": ("nasm", LEN % "match_identifier", [(b"", words(b"aZ_1.?$#@~-+ "), 3)], rx(rb"[A-Za-z._?$][A-Za-z0-9_$#@~.?]*")),
 "xml_pe": ("xml", LEN % "match_pe_reference", [(b"", words(b"&%a;:_ "), 4)], rx(rb"%[a:_]+;")),
 "cpp_operator": ("cpp", "const auto r = match_preprocessing_op_or_punc(s, Lang::cpp); return r ? int(cpp_token_type_length(*r)) : 0;", PUNCT, ops("{ } [ ] ( ) <: :> <% %> ; : ... ? :: . .* -> ->* ~ ! + - * / % ^ & | = += -= *= /= %= ^= &= |= == != < > <= >= <=> && || << >> <<= >>= ++ -- , # ## %: %:%: ^^", dc=rb"[$@\\]", special=lambda t: 1 if re.match(rb"<::(?![:>])", t) else None)),
 "c_operator": ("cpp", "const auto r = match_preprocessing_op_or_punc(s, Lang::c); return r ? int(cpp_token_type_length(*r)) : 0;", PUNCT, ops("{ } [ ] ( ) <: :> <% %> ; : ... ? . -> ~ ! + - * / % ^ & | = += -= *= /= %= ^= &= |= == != < > <= >= && || << >> <<= >>= ++ -- , # ## %: %:%:", dc=rb"[$@\\]|::|<::")),
 "js_operator": ("js", OP % ("match_operator_or_punctuation", "token_type_length"), PUNCT, ops("{ } ( ) [ ] . ... ; , < > <= >= == != === !== + - * / % ** ++ -- << >> >>> & | ^ ! ~ && || ?? ? ?. : = += -= *= /= %= **= <<= >>= >>>= &= |= ^= &&= ||= ??= => @", dc=rb"[#$\\]", special=lambda t: 1 if re.match(rb"\?\.[0-9]", t) else None)),
 "lua_operator": ("lua", OP % ("match_operator_or_punctuation", "lua_token_type_length"), PUNCT, ops("+ - * / % ^ # & ~ | << >> // == ~= <= >= < > = ( ) { } [ ] :: ; : , . .. ...", dc=rb"[@$\\!?]")),
 "rust_operator": ("rust", OP % ("match_punctuation", "token_type_length"), PUNCT, ops("= < <= == != >= > && || ! + - * / % ^ & | << >> += -= *= /= %= ^= &= |= <<= >>= @ . .. ... ..= , ; : :: -> <- => ? { } [ ] ( )", dc=rb"[~#$\\]")),
 "python_operator": ("python", OP % ("match_symbol", "token_type_length"), PUNCT, ops("+ - * ** / // % @ << >> & | ^ ~ := < > <= >= == != ( ) [ ] { } , : . ; = -> += -= *= /= //= %= @= &= |= ^= >>= <<= **= ...", dc=rb"[#$\\]|!(?!=)|>>>")),
 "java_operator": ("java", OP % ("match_symbol", "token_type_length"), PUNCT, ops("( ) { } [ ] ; , . ... @ :: = > < ! ~ ? : -> == >= <= != && || ++ -- + - * / & | ^ % << >> >>> += -= *= /= &= |= ^= %= <<= >>= >>>=", dc=rb"[#$\\]")),
 "kotlin_operator": ("kotlin", OP % ("match_symbol", "token_type_length"), PUNCT + [(b"!", [b"in", b"is", b"i", b"s", b"_", b"1", b" ", b"(", b"E", b"\xc3\xa9"], 3), (b"", [b"as", b"?", b"a", b"return", b"@", b"this", b"super", b"break", b"continue", b" "], 3)], ops("... ( ) [ ] { } , . .. : :: ; ;; -> => = += -= *= /= %= && || ! ++ -- + - * / % == === != ? ?. ?: < > <= >= @ # as? return@ this@ super@ break@ continue@", dc=rb"[$\\^~]|!==|\.\.<|[&|](?![&|])|&\||\|&|!!", special=lambda t: (lambda m: m.end() if m else None)(re.match(rb"!i[ns](?![A-Za-z_0-9]|\xc3)", t)))),
 "nasm_operator": ("nasm", LEN % "match_operator", PUNCT, ops("? : || ^^ && != < <= > >= <=> | ^ & << >> <<< >>> + - / // % %% ~ !", dc=rb"[=*$#@.,()\[\]{}\\;]|<>")),
}
JSONCASES = {}

def texts(sets):
    for prefix, frags, depth in sets:
        for n in range(depth + 1):
            for t in itertools.product(frags, repeat=n):
                yield prefix + b"".join(t[::-1])
def enc(v):
    return "!" if v == DC else chr(v + 35 + (1 if v + 35 >= 92 else 0))
def table(name):
    _, _, sets, f = CASES[name]
    return "".join(enc(f(t)) for t in texts(sets))
def text_at(name, index):
    return next(itertools.islice(texts(CASES[name][2]), index, None))

def lit(b):
    return 'u8"' + "".join('\\%03o' % c for c in b) + '"' 

CODE = r'''
#include "parse_utils.cpp"
#include "chars.cpp"
#include "lang/cpp.cpp"
#include "lang/@FILE@.cpp"
#include <string_view>
namespace ulight::@NS@ {
using vp_str = std::u8string_view;
constexpr int vp_code(vp_str s) { @BODY@ }
inline constexpr char vp_want[] = @WANT@;
struct Vp_Frag { char d[10]; int n; };
struct Vp_Set { Vp_Frag prefix; Vp_Frag frag[40]; int frags, depth; };
inline constexpr Vp_Set vp_sets[] = { @SETS@ };
constexpr int vp_run()
{
    int index = 0;
    for (const Vp_Set& set : vp_sets) {
        for (int n = 0; n <= set.depth; ++n) {
            int at[8] {};
            while (true) {
                int size = set.prefix.n;
                for (int i = 0; i < n; ++i) { size += set.frag[at[i]].n; }
                // in an allocation of its own, so that nothing around it can be read
                if (vp_want[index] != '!') {
                    char8_t* const t = size ? new char8_t[size] : nullptr;
                    int k = 0;
                    for (int i = 0; i < set.prefix.n; ++i) { t[k++] = char8_t(set.prefix.d[i]); }
                    for (int i = 0; i < n; ++i) { const Vp_Frag& f = set.frag[at[i]]; for (int j = 0; j < f.n; ++j) { t[k++] = char8_t(f.d[j]); } }
                    const int got = vp_code(vp_str { t, std::size_t(size) });
                    delete[] t;
                    const int c = got + 35 + (got + 35 >= 92);
                    if (c != vp_want[index]) { return index * 256 + (got & 255); }
                }
                ++index;
                int i = 0;
                while (i < n && ++at[i] == set.frags) { at[i++] = 0; }
                if (i == n) { break; }
            }
        }
    }
    return index + 1 == int(sizeof(vp_want)) ? -1 : -2;
}
template <class T> void vp_check() { static_assert(vp_run() + int(sizeof(T)) - 1 == -1); }
}
void vp_use() { ulight::@NS@::vp_check<char>(); }
'''
def frag(b): return '{ "%s", %d }' % ("".join('\\%03o' % c for c in b), len(b))

def jobs(deep):
    d = overlay()
    names = [n for n in CASES]
    if deep:
        for n in names:
            f, b, s, o = CASES[n]
            CASES[n] = (f, b, [(p, fr, k + 1 if len(fr) ** (k + 1) < 3000000 and k < 7 else k) for p, fr, k in s], o)
    with Pool(8) as p:
        tabs = dict(zip(names, p.map(table, names, 1)))
    fl, fj = LEXFLAGS(d), LEXFLAGS(full(d))     # the JSX consumers share a virtual base class
    out = []
    for n in names:
        f, body, sets, _ = CASES[n]
        w = tabs[n]
        want = "\n".join('"%s"' % w[i:i + 2000].replace('"', '\\"').replace("?", "\\?") for i in range(0, len(w), 2000))
        ss = ", ".join("{ %s, { %s }, %d, %d }" % (frag(p), ", ".join(frag(x) for x in fr), len(fr), k) for p, fr, k in sets)
        t = CODE.replace("@FILE@", f).replace("@NS@", f).replace("@BODY@", body).replace("@WANT@", want).replace("@SETS@", ss)
        if f == "cpp": t = t.replace('#include "lang/cpp.cpp"\n', "", 1)
        out.append(("lex_" + n, t, 2000000000, fj if f == "js" else fl))
    return out, sum(len(x) - x.count("!") for x in tabs.values())

def LEXFLAGS(d):
    return ["-include", os.path.join(VERIF, "witness", "rtchars.hpp"), "-I", scanwit.prepare(d)] + overlay_flags(d) + ["-I", os.path.join(d, "src/main/cpp"), "-std=c++2c", "-fno-access-control"]

def show(v):
    return "erroneous or none" if v == ERR else "length %d, mark %d" % (v % 18, v // 18)
