import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
UL="src/main/cpp/ulight.cpp"; H="include/ulight/ulight.h"; HPP="include/ulight/ulight.hpp"
HL="include/ulight/impl/highlighter.hpp"; BUF="include/ulight/impl/buffer.hpp"; HI="include/ulight/impl/highlight.hpp"
LANG="src/main/cpp/lang/*.cpp"
p("C01","HTML output is the escaped source in order, nothing lost or injected",
 "For every source text, language, tag name, attribute name and pair of buffers, a successful conversion to HTML writes every byte of the source exactly once and in order, each through the HTML escaper, and writes nothing else but one balanced opening and closing tag around each token. No source byte can reach the output unescaped, and the escaper replaces every HTML-special character by the entity for that character and passes all others through unchanged.",
 ["inputs","configurations"],"all sources, languages, flags, names and buffer sizes",
 "Tests compare a few dozen fixture outputs; a lost or unescaped byte that appears only for an unusual gap between tokens, at end of input, or for one special character is not among them.",
 [UL,"include/ulight/impl/escapes.hpp",BUF],[("flush_text lambda, tail append","ulight_source_to_html"),("append_html_escaped","include/ulight/impl/escapes.hpp or highlight code")],
 obs=["flush_text callback"])
p("C02","Tokens are non-empty, in range, ordered and non-overlapping",
 "For every source and every supported language, each token handed to the token callback has a nonzero length and lies within the source, and starts at or after the end of the token before it. This holds across flushes and inside code embedded from another language.",
 ["inputs","configurations"],"all sources x all languages x both flags",
 "Fixtures sample one file per feature; boundary inputs (construct cut off by end of input, empty content between delimiters) are where a zero-length, overlapping or out-of-range token appears.",
 [HL,LANG],[("emit/advance/emit_and_advance","Highlighter_Base"),("check_flush_validity","ulight.cpp, debug builds only")],
 state=[("index/remainder","position in the source; index plus remaining length is the source length","Highlighter_Base")],obs=["flush_tokens callback"])
p("C03","Highlighting and JSON parsing terminate for every input",
 "For every byte sequence and every language, highlighting returns: each repetition in the highlighters, matchers and the JSON parser consumes at least one code unit of the finite input, or advances a counter towards a fixed bound. No input makes the library spin forever.",
 ["inputs"],"all sources x all languages",
 "A test can only show that particular files terminate; a hang needs the one input on which some construct is neither consumed nor rejected.",
 [LANG,"src/main/cpp/parse_utils.cpp",HL],[("while (!eof()) loops, match_* loops",LANG)])
p("C04","No input trips an internal check or reads outside the source",
 "For every byte sequence and every language, highlighting indexes, slices and advances only within the text it was given: no view is indexed at or past its end, no slice starts past its end, no empty optional is read, and no internal consistency check fails. A valid call therefore never ends in an internal error and never reads out of bounds in a release build.",
 ["inputs"],"all sources x all languages",
 "Assertion failures and one-past-the-end reads appear only on inputs that end in the middle of a construct; the fixtures are complete files.",
 [LANG,HL,"src/main/cpp/parse_utils.cpp"],[("ULIGHT_ASSERT / remove_prefix / substr / operator[] guards",LANG)])
p("C05","Stack use does not grow with the nesting of the input",
 "No sequence of nested constructs in the source can make the highlighters or the JSON parser recurse to a depth that grows with the input, so that no input exhausts the call stack. Any recursion is bounded by a constant independent of the source.",
 ["inputs"],"all sources x all languages",
 "Fixtures nest a handful of levels; overflow needs tens of thousands.",
 [LANG],[("call graph of the highlighters and the parser",LANG)])
p("C06","Results depend only on the arguments; concurrent calls do not interact",
 "Highlighting, name lookup and JSON parsing read and write no mutable state shared between calls, and consult no clock, environment variable, locale, random source or file. The same arguments therefore always give the same tokens, text and status, and calls on distinct states from any number of threads cannot affect each other.",
 ["inputs","schedules","histories"],"all call histories and all interleavings of calls on distinct states",
 "The tests are single-threaded, run in the C locale and call each function a few times; a cache, a static buffer or a locale-dependent conversion is invisible to them.",
 [UL,LANG,"include/ulight/impl/assert.hpp"],[("no mutable globals; only const tables","all library sources")])
p("C07","No exception or termination crosses the C interface",
 "Whatever the source, the options or an allocation failure, a call through the C interface returns to its caller normally: no exception propagates out and none ends in program termination. Every operation that may throw during highlighting runs where a handler turns the exception into a status.",
 ["inputs","fault_sequences"],"all inputs and every allocation failure",
 "Tests never make an allocation fail and never throw from inside the conversion after the tokens were produced.",
 [UL],[("try/catch around highlight and tail append","ulight_source_to_tokens, ulight_source_to_html")])
p("C08","Every failed call says why: non-OK status implies a matching error text",
 "Every call to the highlighting functions that returns a status other than OK has stored a non-empty error text in the state, and each kind of failure gives its documented status: invalid state, buffer or language settings are rejected before any work, undecodable text, allocation failure and internal errors each map to their own status. OK is returned only when all output was handed to the flush callback.",
 ["inputs","configurations","fault_sequences"],"all states, inputs and failures",
 "Tests check the status of a few bad configurations; the error text on rarer failure paths is never inspected.",
 [UL,HI],[("error()","ulight.cpp"),("Highlight_Fn result to Status","highlight.hpp")],obs=["ulight_state::error, return value"])
p("C09","Every declared language is dispatchable, named and reachable by name",
 "Each language constant other than none has exactly one highlighter, one non-empty display name and at least one lookup name; the C and C++ constants agree in name and value. Any language value outside the declared range is rejected with the bad-language status or an empty result and never used as an index.",
 ["inputs","configurations","programs"],"all language values, including invalid ones, and all future table edits",
 "Tests touch a few languages; a table slot shifted or left null for one language only shows when that language is requested.",
 [H,HPP,HI,UL],[("highlight_functions","highlight.hpp"),("ulight_lang_list, ulight_lang_display_names","ulight.cpp")])
p("C10","Language lookup finds every registered name, and char8_t twins agree",
 "Looking up any registered name gives the language registered for it and any other string gives none; looking up a path uses the text after its last dot, and a path without a dot gives none. Each function with a char8_t counterpart gives the same answer as the counterpart for the same bytes.",
 ["inputs"],"all names and paths",
 "Tests look up some names and never call the char8_t variants on paths.",
 [UL,HPP,H],[("ulight_get_lang, ulight_lang_from_path","ulight.cpp"),("sorted name table","ulight.cpp")])
p("C11","Highlight types have unique, complete, markup-safe names everywhere",
 "Every highlight type declared in the C header exists in the C++ header under the same name and value, and has one long and one short string; the long string is the constant's name in lower case with dashes, the strings are non-empty except for the none type, and no two types share one. Short strings contain only ASCII letters, digits and underscores, so that they are valid unquoted attribute values, and every style key in the bundled themes and in the theme converter names an existing type with the right short string.",
 ["programs","configurations"],"all highlight types and all bundled themes",
 "No test enumerates the types; a duplicate or misspelt name yields wrong colours, not a failing test.",
 [H,HPP,"themes","scripts/theme-to-css.cjs"],[("ULIGHT_HIGHLIGHT_TYPE_ENUM_DATA","ulight.hpp")])
p("C12","The C++ state wrapper reads and writes exactly the matching C fields",
 "Each setter of the C++ state wrapper stores its argument into exactly the C fields it is named after, data and length together, and touches no other; each getter returns exactly those fields; each operation forwards the wrapped state and returns its status unchanged. Enumerations wrapped for C++ agree with the C ones in every value.",
 ["programs","histories"],"all sequences of wrapper calls",
 "Tests use a few setters with default values elsewhere, so a setter that writes a sibling field goes unnoticed.",
 [HPP,H],[("struct State","ulight.hpp")])
p("C13","Caller-provided buffers are never overrun and are flushed completely",
 "Whatever their capacity, the library writes only within the token and text buffers given by the caller: it calls the flush callback when a buffer is full, with the buffer's own start, the number of elements written and the caller's data pointer, and reuses the buffer from the start only after that. Every element written before a successful return has been handed to the callback exactly once and in order, and the callback is never called with zero elements.",
 ["inputs","configurations"],"all buffer capacities >= 1 and all outputs",
 "Tests use a few fixed capacities.",
 [BUF,UL],[("Non_Owning_Buffer","buffer.hpp")],obs=["flush_tokens, flush_text callbacks"])
p("C14","Coalescing changes only how tokens are split",
 "Turning the coalescing option on or off changes nothing but the splitting of adjacent tokens of equal type: the type assigned to every code unit and the status are the same. No parsing decision depends on that option, or on how full or large an output buffer is.",
 ["inputs","configurations"],"all sources x all languages x option values x buffer sizes",
 "Tests run each fixture with one option setting and one buffer size.",
 [HL,LANG,BUF],[("options.coalescing read in emit","highlighter.hpp and lua/diff highlighters")])
p("C15","JSON parser events carry exact positions and text, and nest properly",
 "For every source, each event of the JSON parser is reported with the position of the construct's first character and exactly the text of the construct, before the parser moves past it; code unit, line and column advance consistently with the text passed over. Push and pop events are properly nested, with every push matched by a pop on success.",
 ["inputs","configurations"],"all sources x all parser options",
 "Tests check event text on a few documents and never positions after comments.",
 ["include/ulight/json.hpp","src/main/cpp/lang/json.cpp"],[("json::Parser","json.cpp")],obs=["JSON_Visitor"])
p("C16","JSON parser reports an error for every rejected input, and rejects garbage",
 "Whenever the JSON parser returns failure it has called the error handler exactly once, with a position inside the source; whenever it returns success it has called it never. Success means the whole source was consumed; a comment where comments are disallowed is reported as such.",
 ["inputs","configurations"],"all sources x all parser options",
 "Tests check a few malformed documents and never the failure paths without an error call.",
 ["include/ulight/json.hpp","src/main/cpp/lang/json.cpp"],[("error()","json.cpp")],obs=["JSON_Visitor::error, return value"])
p("C17","The JSON parser allocates nothing and reads only its input",
 "Parsing JSON performs no dynamic allocation and reads no byte outside the given source, which need not be null-terminated, whatever the options. Number conversion therefore works on exactly the matched digits and does not depend on the locale.",
 ["inputs","configurations"],"all sources x all parser options",
 "Tests parse string literals, which happen to be null-terminated, in the C locale.",
 ["src/main/cpp/lang/json.cpp"],[("consume_number","json.cpp")])
p("C18","All memory goes through the library's allocator and is given back",
 "All dynamic memory used by highlighting comes from the library's own allocation functions through one memory resource, is released with the size and alignment it was requested with, and is held only by owners that release it on every exit, including exceptional ones. Failure to allocate is reported as a null result or an allocation status, never dereferenced.",
 ["inputs","fault_sequences"],"all inputs and every allocation failure",
 "Tests do not fail allocations and do not pair sizes.",
 [UL,"include/ulight/impl/memory.hpp",LANG],[("Global_Memory_Resource","memory.hpp"),("ulight_alloc/ulight_free/ulight_new","ulight.cpp")])
p("C19","The public C header compiles in every language mode it promises",
 "The public C header can be included on its own from C (C99 and later, GNU or strict) and from C++ (C++98 and later), and declares the same functions and structure layout in each. Every function it declares is defined by the library.",
 ["configurations","programs"],"all language modes of the installed compilers",
 "The tests include the header only from C++23.",
 [H,"include/ulight/impl/platform.h","README.md"],[("feature macros","ulight.h")])
p("C20","The JavaScript bindings agree with the compiled interface",
 "Every structure offset, element size, constant and exported function name that the JavaScript module and the theme converter hard-code agrees with the C declarations as laid out for 32-bit WebAssembly. Every exported function they call exists in the C interface with the number of arguments passed.",
 ["programs"],"all fields and functions used by the bindings",
 "No test runs the JavaScript; a field inserted in the C structure silently shifts every offset.",
 ["www/js/ulight.js",H],[("state word offsets","www/js/ulight.js")])
p("C21","UTF-8 encoding and decoding are exact",
 "Decoding accepts exactly the well-formed UTF-8 sequences of Unicode: overlong forms, surrogates, values above U+10FFFF, stray continuation bytes and truncated sequences are rejected, and every scalar value encodes to its unique shortest form and decodes back. Reported sequence lengths always agree with what was decoded.",
 ["inputs"],"all code points and all byte sequences of up to four bytes",
 "Tests sample a few code points of each length.",
 ["include/ulight/impl/unicode.hpp","include/ulight/impl/unicode_algorithm.hpp"],[("utf8::encode8_unchecked, decode, sequence_length","unicode.hpp")])
p("C22","Character classes contain exactly the characters they stand for",
 "Each basic ASCII character predicate (digit, letter, hexadecimal digit, whitespace, blank and so on) is true for exactly the characters of its name over all code units and code points, and its code-unit and code-point versions agree. Constant character sets agree with the predicates built on them.",
 ["inputs"],"all 256 code units and all code points",
 "Tests sample a few characters.",
 ["include/ulight/impl/ascii_chars.hpp","include/ulight/impl/charset.hpp","src/main/cpp/chars.cpp"],[("is_ascii_* predicates, Charset256","ascii_chars.hpp, charset.hpp")])
p("C23","Every keyword table is searchable: sorted, unique and in step",
 "Every lookup table searched by binary search is sorted by the order the search uses and has no duplicates, so that every listed keyword, tag, entity or operator is found and nothing else is. In tables tried in turn no entry hides a longer one, and operator matchers recognise the longest listed operator. The tables indexed by the same enumeration have an entry for each enumerator, and the recorded length of a token is the length of its text.",
 ["inputs","programs"],"all table entries and all lookups",
 "Fixtures use a fraction of the keywords; an entry placed out of order is silently unreachable along with its neighbours.",
 [LANG,"include/ulight/impl/lang"],[("token_type_codes and similar tables","lang/*.cpp")])
p("C24","A construct that is tried and rejected leaves no trace",
 "While highlighting, an attempt to recognise a construct that reports failure has consumed no input and produced no tokens, so that the alternatives tried next see the same text. Matching functions only inspect the text and change nothing.",
 ["inputs"],"all inputs and all recognition attempts",
 "A failed attempt that consumed something shows only when the alternative tried next would have recognised the consumed text.",
 [LANG,"CONTRIBUTING.md"],[("expect_*/match_* convention","CONTRIBUTING.md; lang/*.cpp")])
p("C25","Embedded languages are highlighted in place and completely",
 "Code embedded in another language (scripts and styles in HTML) is highlighted as its own language over exactly its span, with token positions shifted to the outer source, and all its tokens delivered before any token that follows. The text after it is highlighted as usual whatever the embedded code contains.",
 ["inputs"],"all embedded spans",
 "Fixtures embed a few snippets shorter than the intermediate buffer.",
 [HL,"src/main/cpp/lang/html.cpp","src/main/cpp/lang/markdown.cpp"],[("consume_nested_language, sub_buffer","highlighter.hpp")])
p("C26","A state keeps its settings and can be reused after every call",
 "Highlighting calls change nothing in the caller's state but the error fields, apart from the token callback that conversion to HTML documents it sets; initialisation sets every field. No pointer to the library's own temporary storage is left in the state after a call returns.",
 ["histories"],"all sequences of calls on one state",
 "Tests create a fresh state per call.",
 [UL,H],[("ulight_init, ulight_source_to_html","ulight.cpp")])
p("C27","The command-line tool reports every failure",
 "The command-line program exits with success only if the file was read completely as valid UTF-8, highlighted with OK status and all output was written; any other outcome exits with failure and a message. File loading reads any file size in full, closes the file on every path, and rejects paths it cannot represent rather than truncating them.",
 ["inputs","fault_sequences"],"all files, paths and I/O failures",
 "No test runs the program, fails a write, or uses a long path.",
 ["src/main/cpp/main.cpp","src/main/cpp/io.cpp","include/ulight/impl/io.hpp"],[("main","main.cpp"),("file_to_bytes_chunked","io.cpp")])
p("C28","The highlight type chosen for each construct follows the language standard",
 "For every program in a supported language each token gets the highlight type its language's grammar and this project's conventions assign to it.",
 ["programs"],"all programs in all languages",
 "The fixtures cover a sample of each language.",
 [LANG],[("highlighters",LANG)])
p("C29","Highlighting time is proportional to the size of the input",
 "For every input, the work done by highlighting grows at most linearly with its length, so that no input of moderate size stalls a caller.",
 ["inputs"],"all sources x all languages",
 "Fixtures are small files.",
 [LANG],[("scanning loops",LANG)])
p("C30","Shared scanners report exact spans and errors",
 "The scanners that all highlighters share return exactly the span they document, for every text. Digit runs extend over all digits and separators, and are erroneous just if separators lead, trail or repeat. The parts of a number add up to its length; a prefix without digits or an exponent without digits is erroneous. An escape is valid just if it is complete and has the digits its kind demands, and closed if braced. Searches, prefix comparisons, line ends, blank lines and enclosed spans are found at their first position, and nothing outside the text is read.",
 ["inputs"],"all texts and all options of the scanners",
 "Tests call each scanner on a few complete texts; a trailing separator before a letter, an escape cut off by the end of the text or a run of blank lines at the end are not among them, and the fixtures show only what some language makes of them.",
 ["src/main/cpp/parse_utils.cpp","include/ulight/impl/numbers.hpp","include/ulight/impl/escapes.hpp","include/ulight/impl/ascii_algorithm.hpp","include/ulight/impl/unicode_algorithm.hpp"],
 [("match_common_number, match_separated_digits, match_suffix_number","parse_utils.cpp"),("match_common_escape","escapes.hpp"),("match_enclosed, match_crlf_line, find_blank_line_sequence","parse_utils"),("length_if, find_if, starts_with_ignore_case","ascii_algorithm.hpp, unicode_algorithm.hpp")])
p("C31","A callback reference calls exactly the callable it was made from",
 "A reference to a callable, which carries every flush and text callback, calls the very function, object or member it was made from, with the caller's arguments in order, and returns its result converted to the declared type. A reference to a function stays valid when the pointer it was made from changes; a reference to an object refers to that object, not to a copy, and keeps its constness. It accepts just the callables whose parameters, result, constness and noexcept fit. A default reference is empty, every other is not.",
 ["inputs"],"all kinds of callables and signatures",
 "The tests pass lambdas of exactly the declared type; callables with other results, overloads, constness or a bound object are not among them.",
 ["include/ulight/function_ref.hpp"],[("Function_Ref","function_ref.hpp")])
p("C32","Stand-ins for standard algorithms compute what the standard ones compute",
 "The library's own copy, min, max, all_of, contains and is_all_ascii, used in place of the standard headers, compute what the standard algorithms of that name compute, for all element types they accept, and the branch taken at run time agrees with the branch taken in constant evaluation.",
 ["inputs"],"all ranges and element types",
 "Tests reach one branch only and use one element type.",
 ["include/ulight/impl/algorithm","include/ulight/impl/ascii_algorithm.hpp"],[("copy","algorithm/copy.hpp"),("min, max","algorithm/min_max.hpp"),("all_of","algorithm/all_of.hpp")])
p("C33","The line diff is a correct, shortest edit script",
 "For any two texts, the edit script computed between their lines turns the first into the second, contains as few insertions and deletions as possible, deletes before it inserts within one change, and is printed so that the lines kept and removed are the first text and the lines kept and added the second, each line marked by its kind.",
 ["inputs"],"all pairs of texts",
 "The tests compare a handful of pairs.",
 ["include/ulight/impl/string_diff.hpp"],[("string_diff","string_diff.hpp")])
p("C34","The matchers of each language find exactly the span its grammar defines",
 "The functions with which the highlighters of C/C++, CSS, JavaScript/JSX, Lua, HTML, XML, Bash, Java, Kotlin, Rust, Python, NASM, LLVM IR, YAML, COWEL, JSON and Markdown recognise the lexical elements of their language return, for every text, the length the language's grammar gives the element at the start of the text, and zero where none starts there: line and block comments and whether they are closed, white space and line terminators, identifiers and names, numbers (including which are erroneous), string literals that are matched as a whole, escape sequences (including which are erroneous), preprocessing directives, markup references, tags, declarations, raw text and CDATA, JSX tags, document markers, anchors, autolinks, code spans. Nothing outside the text is read.",
 ["inputs"],"all texts",
 "Fixtures contain well-formed programs; a comment that ends at a continuation, an escape of two digits before a third that does not fit, a line separator in UTF-8 or an unclosed string are not among them.",
 [LANG],[("match_*, starts_with_*",LANG)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
