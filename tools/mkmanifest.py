#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
 "C02": ("compile-fail witnesses: static_assert over whole highlighters, decided by the compiler's constant evaluator, for a systematic set of texts of every language",
         "Every token of every text in the set (about 240,000 texts in quick, three times as many in thorough) is nonempty, in range and ordered; whole texts beyond the set are not decided."),
 "C03": ("compile-fail witnesses: static_assert over whole highlighters and the JSON parser, which the compiler's constant evaluator has to finish within a step budget",
         "Every text of the set is finished; termination on texts beyond the set is not decided."),
 "C04": ("compile-fail witnesses: static_assert over whole highlighters and the JSON parser, ill-formed on any undefined behaviour, failed check or access outside the text",
         "No text of the set makes the evaluation undefined or fail a check; texts beyond the set are not decided."),
 "C05": ("call-graph cycle analysis over LLVM IR, indirect calls resolved by C++ type",
         "Sound for call cycles among library functions under the delegation arguments stated in the rule; known recursions are listed findings. Does not bound frame sizes beyond excluding run-time sized stack blocks."),
 "C06": ("interprocedural effect analysis (mutable globals, ambient externals) over LLVM IR",
         "Sound for accesses to static and thread storage and for the listed ambient functions; other external functions are assumed pure. Determinism of uninitialised reads is not decided."),
 "C17": ("interprocedural effect analysis (allocation, locale, terminator-seeking functions) over LLVM IR",
         "Decides that nothing reachable from the JSON parser allocates, depends on the locale or reads up to a terminator."),
 "C21": ("compile-time witnesses: static_assert over the library's own UTF-8 functions against an independent reference",
         "Exhaustive per code point, per sequence length and over boundary byte sequences as far as the constant evaluator reaches in the tier; functions the evaluator cannot run are reported as not covered."),
 "C22": ("compile-time witnesses: static_assert comparing every character class with a reference definition",
         "Exhaustive over all code units; over code points exhaustive in the thorough tier and over all class boundaries in the quick tier. Identifier classes are compared with the Unicode database available offline."),
 "C23": ("constant-table analysis of the type-checked program, and compile-time witnesses over whole tables",
         "Decides order, uniqueness and agreement of every constant table; lookup functions and operator matchers are decided over all listed entries and the gaps between them by the compiler's constant evaluator."),
 "C07": ("exception-flow analysis over the optimised LLVM IR: where every possible exception stops",
         "Sound for throws, operator new, the memory resource and callbacks reachable from the C interface; failing assertions inside other noexcept functions are left to C04."),
 "C08": ("path-sensitive dataflow over the optimised LLVM IR of every C entry point (status, error-text and flush effects on every path)",
         "Enumerates every path through each exported function and checks the returned status against the error text stored on that path; callbacks and highlighters are arbitrary."),
 "C09": ("enumeration pairing over the type-checked C and C++ headers, and compile-time witnesses for every language value",
         "Exhaustive over all language constants and the out-of-range values around them; rejection is decided by path-sensitive dataflow over the entry points."),
 "C10": ("compile-time witnesses over every registered name and its neighbours, and dataflow on the path look-up functions",
         "Exhaustive over the registered names; that no other string is found is decided over neighbours of the names and by table analysis."),
 "C11": ("enumeration pairing, compile-time witnesses over both string functions, and cross-checks of themes and theme converter",
         "Exhaustive over every highlight type and every theme key."),
 "C27": ("compile-fail witnesses: io.hpp, io.cpp and main.cpp evaluated by the compiler over a constant-evaluable model of stdio with scripted failures",
         "Bounded: every file size around multiples of the block size, failure of every read, absent and unwritable files, full disk, invalid content, every status; file names up to and beyond the buffer."),
 "C26": ("path-sensitive write-set analysis of the state over the optimised LLVM IR of every C entry point",
         "Every path of every exported function: final value of each state field compared with its value on entry."),
 "C01": ("compile-fail witnesses (constant evaluator) of the HTML writer and escaper, cut off from the highlighters at the token pass",
         "All byte values in all three positions; all token layouts, batchings and several capacities of sources of up to five characters. The token stream itself is C02."),
"C13": ("compile-fail witnesses of the buffer protocol (constant and run-time branches), symbolic path analysis of its operations over LLVM IR, field dataflow of the entry points",
         "Single-element operations for every fill and capacity; multi-element ones for all capacities up to 3 (5 thorough), fills, pairs of operations and lengths."),
"C12": ("dataflow over the optimised LLVM IR of one call of each wrapper operation, and enumeration pairing",
         "Exhaustive over the operations of ulight::State and the forwarding functions of the C++ header, on every path."),
 "C19": ("compile matrix: declarations, layout witnesses and definitions compared over all language modes of clang and gcc",
         "Exhaustive over the installed compilers' language modes and every declaration of the header, for the host's data model."),
 "C20": ("abstract evaluation of the JavaScript bindings' syntax tree against the wasm32 layout computed by clang",
         "Every memory access and export use the evaluation reaches, on all branches; accesses whose base it cannot resolve are not judged."),
 "C18": ("who-may-allocate and argument-forwarding rules over LLVM IR",
         "Decides who may allocate, that size and alignment are forwarded, and that results are null-checked; release on every exit follows from ownership by standard containers."),
 "C14": ("interprocedural taint analysis (data and control dependence) from the coalescing option and buffer state over LLVM IR, path check of the merge sites, and compile-fail witnesses of the emitter",
         "Taint and merge sites cover every function of the library; the emitter is decided for all short sequences of emissions, options and capacities."),
 "C15": ("typestate analysis of the JSON parser's push and pop events over LLVM IR, and compile-fail witnesses of its event stream against an independent parser",
         "Nesting on every path; positions and texts on every sequence of fragments up to a depth."),
 "C16": ("typestate analysis of the JSON parser's error reports over LLVM IR, and compile-fail witnesses of acceptance against an independent parser",
         "Error reports on every path; acceptance on every sequence of fragments up to a depth."),
 "C24": ("typestate of attempts: syntax-tree instrumentation of every return of every recognising method, judged by compile-fail witnesses over whole highlighters",
         "Every failed attempt in the evaluation of every text of the set (about 240,000 texts in quick) has left position, remaining text and tokens as they were; texts beyond the set are not decided."),
 "C30": ("compile-fail witnesses: static_assert over the library's own scanners against independent definitions",
         "Exhaustive over all texts up to a length over an alphabet with a representative of each class a scanner tells apart; numbers over all sequences of fragments for five sets of options."),
 "C25": ("compile-fail witnesses of the embedding operation and of HTML with stand-ins for the embedded highlighters, and return-value analysis of the embedded highlighters over LLVM IR",
         "Embedding for all small capacities, spans and options; HTML for all sequences of content fragments up to a depth; which languages may be embedded on every path."),
 "C31": ("compile-fail witnesses of conversions, and comparison of the optimised LLVM IR of a call through a reference with that of a direct call",
         "81 kinds of callables, constness, noexcept and result conversions; each comparison holds for all arguments."),
 "C32": ("compile-fail witnesses: static_assert over both branches of each stand-in against independent loops",
         "Exhaustive over short ranges of fifteen pairs of element types; the run-time branch is evaluated with a model of memcpy and memmove."),
 "C33": ("compile-fail witnesses: static_assert over the diff of all pairs of small texts against an independent shortest edit script",
         "Exhaustive over all pairs of texts of a few lines."),
 "C34": ("compile-fail witnesses: static_assert over each language's matchers against tables computed from the language's grammar",
         "116 matchers of 17 languages, each on every sequence of fragments up to a depth (about 1.4 million texts in quick); matchers that only exist inside a highlighter's class are covered by C02 to C04 and C24 instead."),
}
NA = {
 "C28": "which highlight type each construct of nineteen languages deserves is a matter of each language's grammar and of project taste; no specification exists in the tree that a static rule could compare against",
 "C29": "amortised running time is a quantitative property of nested scans over run-time lengths; no static argument in reach bounds it (several highlighters rescan, so the bound is not even syntactically visible)",
}
def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(D, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
         "notes": "Static analysis only. Every check analyses /repo's working tree on every run (IR is cached in build/ by content hash). DESIGN.md explains rules, engines, findings and seeded changes."}
    for p in props:
        if p in CHECKS:
            t, n = CHECKS[p][:2]
            lv = CHECKS[p][2] if len(CHECKS[p]) > 2 else "other"
            m["checks"].append({"property": p, "quick_cmd": "python3 checks/%s.py" % p.lower(), "thorough_cmd": "python3 checks/%s.py" % p.lower(),
                                "evidence_file": "evidence/%s.json" % p, "technique": "static analysis: " + t, "level": lv, "level_note": n})
        else:
            m["not_applicable"].append({"property": p, "reason": NA.get(p, "not claimed yet: the check is under construction")})
    json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(D, "MANIFEST.json"), "a").write("\n")
main()
