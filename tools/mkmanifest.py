#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below; properties without an entry in CLAIMED go to not_applicable."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
 "P01": ("path-sensitive coverage analysis of every tracer over the reference fields of every heap structure (LLVM SSA + debug types)", "every reference slot of every heap structure is an obligation; excuses are null/invalid tests only"),
 "P02": ("escape/reachability dataflow: every holder of a heap object must be a registered root, heap-reachable or inside the scanned stack", "all globals, raw allocations and scan loops in the compiled program"),
 "P03": ("ownership dataflow: allocator family of every owned field against the release found on every path of its sweep function; use-after-release and stale-pointer path search", "every owned field and every release site; pointer aliasing is by access path"),
 "P04": ("agreement analysis over every allocation, labelling and type-guarded read site (LLVM SSA, debug types)", "kinds, sizes and payload structures must agree at all sites; reads whose type test is not a dominating branch are left to P05"),
 "P05": ("contract inference (interprocedural nullness, type-tag and numeric dataflow over LLVM SSA): every dereference and payload access becomes an obligation proved locally, lifted to callers, or reported at a builtin's entry", "every path of every builtin, arguments of any type and any count the registration admits; a few merge points the abstraction cannot decide are listed in undecided.txt and counted in the evidence"),
 "P06": ("the same contract inference with special forms and the evaluator as roots: the parts of a form are unknown", "every path of every special-form handler for any well-formed list structure; undecided places are listed and counted"),
 "P07": ("contract inference: every assertion condition is an obligation that checks on every path must establish", "all assertions in the interpreter"),
 "P08": ("contract inference with numeric facts: divisor non-zero and dividend/divisor not INT64_MIN/-1 at every division", "all integer divisions and remainders"),
 "P09": ("contract inference with symbolic bounds: every indexed access and block copy lies within the current length of its array", "all indexed accesses reachable from builtins and special forms; undecided places are listed and counted"),
 "P20": ("registration/dispatch agreement analysis over the compiled program: recorded convention (evaluated through the registering functions) against declared signature, name, control-flow and call-graph reachability from start-up", "all registrations and all indirect calls of implementations"),
 "P21": ("format provenance and directive/argument agreement analysis, interprocedural through forwarding functions", "all formatted output calls of libc and of the repository's own error functions"),
 "P22": ("call-graph licensing analysis: every process-ending call site must be licensed by the guard it sits behind or by every call chain that reaches it", "all process-ending call sites and all call chains to them"),
 "P17": ("per-type path analysis of every operation total over values (SSA, type fixed, predicates summarised)", "all value types times all total operations"),
 "P23": ("path-sensitive cursor analysis of parameter binding (positions along parameter and argument lists relative to the number bound), arity guards of builtin and smob calls", "all functions that run procedure bodies, all calls of builtin implementations; lists of any length"),
 "P24": ("typestate analysis of promises over control-flow paths (helpers folded in)", "every creation, write and evaluation of a promise"),
 "P25": ("interprocedural flow analysis of computed values into evaluated expressions, with type guards", "every call of the evaluator and of everything that evaluates its argument"),
 "P12": ("symbolic effect analysis of every function on the temporarily changed interpreter variables, composed over the call graph", "all functions, every path to a return, all temporarily changed variables"),
 "P13": ("symbolic effect analysis from every landing point of a non-local jump, must-pass analysis of the jumping side", "all landing points of setjmp/longjmp and all temporarily changed variables"),
"P15": ("path-sensitive typestate of ports (open / closed / file released) with needs on parameters discharged at call sites", "all port operations in all port kinds; reading what a closed string port has collected (get-output-string) is allowed"),
 "P19": ("path-sensitive ownership dataflow from every acquisition to every return", "returns only: paths that leave by raising an error are not examined"),
 "P14": ("call-graph reachability: no path of an API entry point reaches a raising function outside a catch-all; failed results must be returned", "all extern-C entry points, direct and indirect calls; a raise is any call of the functions inferred never to return"),
 "P26": ("typestate of the wind chain over control-flow paths, must-pass analysis of the jumping side", "dynamic-wind itself, leaving and entering of winds, every jump of throw and continuations; guards given as builtins are rejected by the code and not examined"),
 "P16": ("type-specialised symbolic dependence analysis of the hash functions against the equivalences, per-iteration dataflow of the chain loops", "all pairs of value types in all hash families; user-defined equality of foreign objects is not examined"),
 "P31": ("greatest-fixpoint non-return analysis on the control-flow and call graphs, path enumeration of the handler search", "every path of every error-raising function; every path through one step of the search for a handler"),
 "P32": ("type-specialised path following: every question about a result of evaluation is answered for every type of value", "every decision on a result of evaluation, for all types and payload zero / non-zero; which branch #t takes is not judged"),
 "P33": ("path enumeration of the binding search, interprocedural constant flow into binding writes, order and reachability of name questions", "every path of the search; every write to a binding; every function that asks for a name in more than one place; contents of module tables not examined"),
 "P11": ("abstract interpretation of the reader: every place in the text as symbol plus offset, characters known not to be the terminator per symbol, lengths and counters measured against the text", "every function that handles a text being read, every text built for it; contents of texts unknown"),
 "P27": ("backward slicing to every place an exact number is made, interval analysis refined by dominating branches, typestate of reported overflows", "every unchecked operation, narrowing and text conversion on the way to an exact number; loop counters and character codes exempt"),
 "P10": ("contract inference with symbolic bounds over fixed-size arrays and formatted output into them", "all fixed-size buffers of the interpreter"),
}
NA = {
 "P18": "telling a list under construction from one the program holds needs a flow-sensitive heap abstraction with recency per list segment: results are built by writing the link of a tail that is merged from fresh and older cells, tails are shared and copied conditionally; the flow-insensitive analysis that was drafted reported 95 places of which 3 are real",
 "P28": "print/read round-trip compares the language of one hand-written printer with that of one hand-written reader; deciding it needs a functional equivalence argument, not a dataflow fact (bounds of both are covered by P09-P11, coverage of types by P17)",
 "P29": "what a re-entered continuation resumes with depends on run-time stack contents copied byte for byte; static analysis of the C++ source cannot see the copied frames (visibility of the copy to the collector is covered by P01)",
 "P30": "whether tail position needs stack is a bound on run-time stack depth over all programs; the evaluator is a recursive C++ function whose depth no static argument in reach bounds",
}
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
M = {"version": 1, "setup_cmd": "bash /verif/engine/build.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        M["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "other", "level_note": n})
    else: M["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(M, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(M["checks"]), "claimed")
