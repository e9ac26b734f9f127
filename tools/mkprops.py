#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the long lines stay reviewable)."""
import json, os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
S='src/c/'
p('P01','Everything reachable from a live object survives garbage collection',
 'A garbage collection never reclaims an object that is still reachable: for every kind of heap object, every reference it holds to another heap object (payload, field, array element or list of bindings) keeps that other object alive, and no value type is skipped by the marker.',
 ['histories','inputs'],'all heap shapes, all collection points, every kind of object and every reference slot of it',
 'a missed slot only shows when a collection happens while that slot is the last reference, and memory is then reused; sampled scripts rarely collect at all',
 [S+'gc.cc',S+'pscm_types.h',S+'gc.h',S+'smob.h'],
 [('per-kind tracers and the marker dispatch table',S+'gc.cc trace_*, gc_init'),('type dispatch on the payload of a value',S+'gc.cc trace_scm')],
 ['any program that allocates past the collection threshold, or calls (gc), while only a nested reference is left'])
p('P02','Interpreter-wide state is protected from garbage collection',
 'Any heap object held by the interpreter itself between evaluations - the current module, module registry, current ports, well-known symbols and constants, error state, read/print/debug option values, hook and wind state - stays valid across every garbage collection, because each such holder is known to the collector.',
 ['histories','schedules'],'all points at which a collection can run, all long-lived holders',
 'a holder the collector does not know about looks fine until a collection runs when no other reference exists',
 [S+'init.cc',S+'gc.cc',S+'module.cc',S+'port.cc',S+'symbol.cc',S+'error.cc',S+'read.cc',S+'debug.cc'],
 [('root registration',S+'gc.cc gc_register_root; register_*_roots; init_scm'),('root, stack and register scan',S+'gc.cc scan_conservative_roots')],
 ['(gc) or allocation pressure between two uses of such state'])
p('P03','Reclaimed objects release each resource once and leave nothing dangling',
 'When an object is reclaimed, every C resource only it owns (character data, element arrays, buckets, binding lists, buffers, open files, captured stacks, source locations) is released exactly once with the deallocator that matches its allocator; a reclaimed cell that is examined again before reuse never leads to a stale or null element being followed.',
 ['histories'],'all allocation/collection histories and all object kinds',
 'leaks, mismatched deallocators and stale cells are invisible to output-comparing tests',
 [S+'gc.cc',S+'string.cc',S+'vector.cc',S+'hash_table.cc',S+'port.cc',S+'environment.cc',S+'symbol.cc',S+'source_location.cc'],
 [('sweep functions and table',S+'gc.cc sweep_*, gc_init'),('allocation sites of owned resources','field stores of malloc/strdup/new results across src/c')],
 ['long-running programs; memory checkers; double sweep of a free cell'])
p('P04','Every heap cell is allocated and labelled as the kind it is used as',
 'Each heap object is created with the size and collector kind of the structure stored in it, and each value is labelled with the type whose payload it actually carries, so collector, printer and accessors always agree about what an object is.',
 ['inputs','histories'],'all allocation sites and all value-construction sites, on every path',
 'a wrong label or size on a rarely taken path corrupts memory later, elsewhere',
 [S+'pscm.h']+[S+f for f in ('gc.cc','gc.h','list.cc','hash_table.cc','vector.cc','string.cc','symbol.cc','port.cc','delay.cc','smob.cc','number.cc')],
 [('typed allocation',S+'gc.cc gc_alloc call sites'),('value construction',S+'pscm.h wrap and stores of type/payload pairs')],
 ['collector behaviour, type predicates, accessors'])
p('P05','Builtin procedures accept arguments of any type without memory errors',
 'Calling any builtin procedure with arguments of any types, in any number its calling convention lets through, either returns a value or raises a Scheme error; it never dereferences a null pointer and never treats the payload of a value of one type as that of another.',
 ['inputs'],'all registered builtin procedures times all argument types and shapes (including empty, improper and too-short lists)',
 'the product of builtins, argument positions and twenty types is not sampled; tests call builtins with sensible arguments',
 [S+f for f in ('pscm.h','list.cc','alist.cc','number.cc','string.cc','char.cc','vector.cc','hash_table.cc','port.cc','procedure.cc','predicate.cc','eq.cc','module.cc','variable.cc','symbol.cc','values.cc','apply.cc','throw.cc','delay.cc','macro.cc','read.cc','debug.cc','load.cc','exit.cc','smob.cc','continuation.cc','function.cc')],
 [('checked casts',S+'pscm.h cast<T>'),('registration of builtins',S+'pscm.h scm_define_*'),('calling convention',S+'function.cc eval_with_func')],
 ['return value or Scheme error of (builtin arg ...)'])
p('P06','Malformed special forms are reported, never followed blindly',
 'Evaluating a special form or macro use with missing, extra, improper or wrongly-typed parts yields a value or a Scheme error: the evaluator never follows a part of the form that is not there and never treats a part of one type as another.',
 ['inputs','programs'],'all special forms times all ways of being too short, improper or mistyped',
 'tests contain well-formed programs; each clause of each form can be malformed independently',
 [S+f for f in ('eval.cc','define.cc','let.cc','cond.cc','case.cc','do.cc','map.cc','for_each.cc','apply.cc','values.cc','dynwind.cc','delay.cc','macro.cc','quasiquote.cc','module.cc')],
 [('form dispatch and form handlers',S+'eval.cc eval_with_env and eval_* handlers'),('derived-form expanders',S+'let.cc expand_*')],
 ['result or Scheme error of evaluating the form'])
p('P07','No Scheme program can trip an internal assertion',
 'No program, however wrong, makes the interpreter terminate itself through one of its internal assertions: each assertion in the interpreter is implied by checks made before it on every path that leads to it.',
 ['inputs','programs'],'all programs, all assertion sites, all call paths to them',
 'an assertion is reached with a violating value only by inputs nobody wrote a test for',
 [S+'*.cc',S+'pscm.h'],
 [('assertions','assert() sites across src/c'),('checks that precede them','callers of the asserting functions')],
 ['process abort instead of a Scheme error'])
p('P08','Integer arithmetic never traps',
 'No combination of integer, rational or floating operands makes arithmetic kill the process: wherever an integer quotient or remainder is computed, the divisor is known to be non-zero and the most negative integer is never divided by minus one.',
 ['inputs'],'all operand values of all arithmetic builtins, number parsing and printing',
 'the trapping operand pairs are two points in a 128-bit space',
 [S+'number.cc',S+'string.cc',S+'print.cc',S+'hash_table.cc'],
 [('integer division and remainder sites',S+'number.cc, '+S+'hash_table.cc')],
 ['(quotient a b), (modulo a b), (remainder a b), (/ a b), (gcd a b), (lcm a b), number->string'])
p('P09','Element accesses are always within bounds',
 'Every read or write of a vector element, string character, hash bucket or other indexed table entry made on behalf of a program uses an index that has been checked against the current length on that path; an out-of-range index supplied by the program is answered with a Scheme error.',
 ['inputs'],'all indices (negative, huge, equal to the length) at all indexed accesses',
 'boundary values times access sites times paths; an off-by-one read usually goes unnoticed',
 [S+'vector.cc',S+'string.cc',S+'hash_table.cc',S+'smob.cc',S+'apply.cc',S+'throw.cc'],
 [('index checks',S+'vector.cc, '+S+'string.cc'),('bucket selection',S+'hash_table.cc')],
 ['vector-ref/-set!, string-ref/-set!, substring, list->string, hash tables, smob type lookup'])
p('P10','Fixed-size text buffers are never overrun',
 'However long a message, name, number or file name is, text assembled in a fixed-size buffer is truncated or rejected and never written beyond the end of that buffer.',
 ['inputs'],'all lengths and contents of program-supplied text reaching a fixed-size buffer',
 'only texts longer than the buffer show it, and then only as silent corruption',
 [S+f for f in ('error.cc','throw.cc','eval.cc','source_location.cc','parse.cc','number.cc','string.cc','module.cc','port.cc','quasiquote.cc','print.cc','symbol.cc')],
 [('bounded formatting into local and static arrays','snprintf/vsnprintf/memcpy/strcpy/array stores across src/c')],
 ['error messages, number formatting, parsing, module file names'])
p('P11','The reader never reads past the end of its input',
 'Whatever text is given to the reader - truncated, unbalanced, ending inside a token, an escape or a comment - it stops at the end of the text: the read position is never moved beyond the terminating character.',
 ['inputs'],'all input texts, in particular all truncations of all constructs',
 'each place the reader advances has its own truncated input; tests hold complete programs',
 [S+'parse.cc',S+'port.cc'],
 [('cursor advances',S+'parse.cc every advance of the parser position'),('lookahead',S+'parse.cc')],
 ['reading any truncated datum'])
p('P12','Interpreter bookkeeping is balanced on every normal return',
 'Evaluating or reading any expression leaves the bookkeeping of the interpreter (call stack shown in errors, current-expression context, reader nesting, handler stack, redirected output, recursion guards) exactly as it was found, on every path by which the operation returns normally.',
 ['inputs','programs'],'all paths through the evaluator, reader, printer and handler machinery that return',
 'early returns are many and an unbalanced one only distorts later behaviour',
 [S+'eval.cc',S+'parse.cc',S+'throw.cc',S+'print.cc',S+'error.cc',S+'module.cc',S+'load.cc',S+'debug.cc'],
 [('push/pop and save/restore pairs',S+'eval.cc push_eval_stack/pop_eval_stack, '+S+'parse.cc push_parse_stack/pop_parse_stack, '+S+'throw.cc catch stack')],
 ['error traces, later evaluation, output destination after the operation'])
p('P13','Escaping from an operation never leaves interpreter state redirected',
 'If a Scheme error or throw leaves an operation early, everything the operation had temporarily changed for the whole interpreter (handler stack, call stack and context, dynamic-wind state, output redirection, current module, recursion guards) is put back by the time the handler runs, so the program continues with consistent state.',
 ['programs','fault_sequences'],'all points at which an error can be raised inside all operations that change global state temporarily',
 'needs an error at a particular point inside a nested operation followed by further use',
 [S+'throw.cc',S+'continuation.cc',S+'string.cc',S+'error.cc',S+'module.cc',S+'print.cc',S+'load.cc'],
 [('catch landing',S+'throw.cc scm_c_catch'),('temporarily changed globals','save/restore pairs across src/c')],
 ['state visible to the handler and to the rest of the program after (catch ...)'])
p('P14','The embedding API never lets a Scheme error escape into host code',
 'Every function of the embedding API that can evaluate, parse, look up or otherwise raise does so under a handler, so that an error in Scheme code is reported to the host as a failed call and never unwinds or terminates the host program.',
 ['programs','inputs'],'all API entry points and all Scheme errors they can provoke',
 'the tests drive the interpreter from its own executable, which installs handlers; the API entry points are not error-tested',
 [S+'pscm_api.cc',S+'pscm_api.h',S+'throw.cc'],
 [('protected call wrapper',S+'pscm_api.cc, '+S+'throw.cc scm_c_catch')],
 ['host program calling pscm_*'])
p('P15','A closed port is never read, written or closed again',
 'After a port has been closed, every further operation on it is refused with a Scheme error or ignored: its file, buffer or procedures are never used again (what a string port has collected can still be fetched), the underlying file is closed at most once, and closing a port never closes the standard streams of the process.',
 ['histories'],'all sequences of port operations, all port kinds',
 'every port operation times every port kind after a close is not covered by example scripts',
 [S+'port.cc',S+'string.cc',S+'gc.cc'],
 [('closed flag checks',S+'port.cc'),('close operations',S+'port.cc scm_c_close_*_port, '+S+'gc.cc sweep_port')],
 ['read-char, peek-char, write-char, display, write, newline, close-port, and collection of ports'],
 [('is_closed','the port has been closed',S+'pscm_types.h SCM_Port')])
p('P16','Hash tables find every key their equivalence considers equal',
 'For each family of hash operations, two keys that the family considers the same always select the same bucket, and each operation of a family hashes and compares with that family\'s own equivalence, so a stored key is always found again by an equal key.',
 ['inputs'],'all pairs of keys of all types, all table sizes, all hash operations',
 'tests use symbols, small integers and strings as keys; the disagreement is per type',
 [S+'hash_table.cc',S+'eq.cc'],
 [('hash functions',S+'hash_table.cc'),('equivalences',S+'eq.cc')],
 ['hash-set!/hash-ref/hash-remove!/hash-get-handle and their q/v variants'])
p('P17','Every type of value can be named, compared and printed',
 'The operations that are total over values - reporting a type name, the equivalence predicates, printing - have an answer of their own for every value type: no legitimate type is taken for an unknown one, printed as nothing or ends in an error, and values that are equal by content are never judged without looking at the contents of both.',
 ['inputs'],'all value types in all total operations',
 'types are added over time; each total operation needs its own case and tests cover the common types',
 [S+'error.cc',S+'eq.cc',S+'print.cc',S+'gc.cc',S+'pscm_types.h'],
 [('type dispatches',S+'error.cc get_type_name, '+S+'eq.cc, '+S+'print.cc print_ast, '+S+'gc.cc trace_scm')],
 ['error messages, eq?/eqv?/equal?, display/write'])
p('P18','Evaluation never modifies the program being evaluated',
 'Evaluating, expanding or applying an expression never alters the expression itself or any list the program holds: only the documented mutators (set-car!, set-cdr!, append!, reverse! and the like) change existing lists, so evaluating the same expression twice means the same thing twice.',
 ['programs'],'all expressions, all forms, all evaluation orders',
 'the damage is visible only when the same expression object is evaluated or inspected again',
 [S+f for f in ('eval.cc','define.cc','let.cc','macro.cc','quasiquote.cc','do.cc','map.cc','for_each.cc','apply.cc','values.cc','cond.cc','case.cc','list.cc','alist.cc')],
 [('list construction',S+'*.cc stores into list cells')],
 ['evaluating a quoted list twice; loops and procedures whose body is evaluated repeatedly'])
p('P19','Temporary resources are released on every return path',
 'Scratch memory, temporary files and opened files that an operation acquires for its own use are released or handed over on every path by which it returns, and are never used after release or released twice; a standard stream it redirects is put back.',
 ['inputs','fault_sequences'],'all return paths of all functions that acquire memory or files',
 'leaks and double releases do not change the output of a short test',
 [S+f for f in ('string.cc','port.cc','parse.cc','module.cc','load.cc','error.cc','number.cc','symbol.cc','read.cc','print.cc','throw.cc','pscm_api.cc','do.cc','source_location.cc')],
 [('acquire/release pairs','malloc/strdup/new[]/fopen/tmpfile/open_memstream and free/delete[]/fclose across src/c')],
 ['memory and descriptor use of long-running programs'])
p('P20','Every builtin is registered consistently with how it will be called',
 'Each builtin is registered with exactly the number of parameters its implementation takes and in the calling convention it expects, under a name no other builtin takes, and every group of builtins is installed when the interpreter starts.',
 ['configurations'],'all registrations of all builtin groups',
 'a mismatch passes garbage for the extra parameter and only misbehaves when that argument is used',
 [S+'init.cc',S+'function.cc',S+'pscm.h']+[S+f for f in ('list.cc','number.cc','string.cc','char.cc','port.cc','hash_table.cc','vector.cc','module.cc')],
 [('registration templates',S+'pscm.h scm_define_function / _vararg_ / _generic_'),('dispatch by arity',S+'function.cc eval_with_func'),('start-up',S+'init.cc init_scm')],
 ['calling each builtin by name'])
p('P21','Program text is never interpreted as an output format',
 'Text that comes from a program, file or user (strings, symbol names, messages, file names) is only ever printed as data: it is never used as the format of a formatted output or error call, and every constant format agrees in number and kind with the values passed to it.',
 ['inputs'],'all program-supplied texts containing format directives; all formatted output calls',
 'only texts containing % in the right place show it',
 [S+f for f in ('error.cc','throw.cc','print.cc','port.cc','string.cc','parse.cc','eval.cc','symbol.cc','module.cc')],
 [('formatted output calls','printf family and eval_error / quasiquote_error call sites')],
 ['display, write, error messages'])
p('P22','Only an explicit request or an unhandled error ends the process',
 'The interpreter ends the process only for exit/quit/abort requests, for an error nothing handles, for a fatal failure at start-up, or when memory is exhausted; no other operation or error path ends it while a handler is installed.',
 ['programs'],'all programs, all call paths to process termination',
 'requires enumerating every route to termination in the program',
 [S+'exit.cc',S+'abort.cc',S+'throw.cc',S+'gc.cc',S+'error.cc','src/main.cc'],
 [('process termination','call sites of exit/_exit/abort/quick_exit/terminate and raise/kill')],
 ['process exit status while running any program under (catch #t ...)'])
p('P23','A call is rejected unless its argument count fits the procedure',
 'However a procedure, a macro or a builtin with a fixed number of parameters comes to be called (directly, through apply, map, for-each, catch handlers, values consumers or C callbacks), its body runs only after its parameters have been matched one-to-one with the arguments, in order, a rest parameter taking what is left; too few or too many arguments always raise an error first.',
 ['programs','inputs'],'all calling routes times all parameter-list shapes times all argument counts',
 'each calling route binds parameters with its own code',
 [S+'procedure.cc',S+'apply.cc',S+'macro.cc',S+'function.cc',S+'eval.cc',S+'throw.cc'],
 [('parameter binding loops',S+'procedure.cc apply_procedure, apply_procedure_with_values; '+S+'macro.cc expand_macro_call; '+S+'function.cc eval_with_func')],
 ['error or result of a call with a wrong number of arguments'])
p('P24','A promise keeps the first value it is given',
 'Forcing a promise evaluates its expression at most once per completed force and never replaces a value it already has: if the promise was forced while its own expression was being evaluated, the earlier value is kept and returned.',
 ['programs','histories'],'all re-entrant and repeated uses of force',
 'needs a promise that forces itself during its own evaluation',
 [S+'delay.cc'],[('force',S+'delay.cc scm_c_force')],['(force p) called repeatedly or from within p'])
p('P25','Values already computed are not evaluated again',
 'When the interpreter calls a procedure on values it already has (through apply, map, for-each, call-with-values, catch handlers, force, soft ports, C callbacks), those values are passed as they are: a symbol or list among them is never taken as an expression and evaluated a second time.',
 ['programs','inputs'],'all higher-order builtins times all kinds of argument values',
 'double evaluation is invisible for self-evaluating arguments such as numbers and strings',
 [S+'apply.cc',S+'map.cc',S+'for_each.cc',S+'values.cc',S+'procedure.cc',S+'function.cc',S+'throw.cc',S+'delay.cc',S+'port.cc',S+'eval.cc',S+'do.cc'],
 [('argument passing to procedures and builtins',S+'apply.cc, '+S+'procedure.cc')],
 ["(apply f '((a b))), (map f '(x y)), (call-with-values ...)"])
p('P26','dynamic-wind runs its guards in order around the body',
 'On normal completion dynamic-wind runs the entry guard, then the body with the guard pair recorded, then removes the record and runs the exit guard exactly once; escaping through a continuation or a throw runs the exit guards of exactly the abandoned extents innermost first, then (for a continuation) the entry guards of the entered extents outermost first.',
 ['programs','histories'],'all nestings of extents and all continuation jumps between them',
 'needs nested extents left and entered in particular combinations',
 [S+'dynwind.cc',S+'continuation.cc',S+'throw.cc'],
 [('guard sequencing',S+'dynwind.cc eval_dynamic_wind'),('unwinding and rewinding',S+'dynwind.cc, '+S+'continuation.cc')],
 ['order of guard side effects'],[('wind chain','stack of active extents',S+'pscm.h g_wind_chain')])
p('P27','Exact integer arithmetic never wraps around silently',
 'The result of adding, subtracting, multiplying, negating, dividing, raising, reducing, reading or converting exact integers and ratios that does not fit into 64 bits is a Scheme error (string->number: #f), never a wrapped, cut or clamped number; comparisons of exact integers are decided without arithmetic that can wrap around.',
 ['inputs'],'all operand values, every operation that makes an exact number','needs operands next to the limits of the representation, or products of ordinary ones; most tests use small numbers',
 [S+'number.cc',S+'string.cc',S+'parse.cc'],[('arithmetic',S+'number.cc checked_add, checked_mul, scm_make_ratio, scm_c_expt'),('reading of numbers',S+'parse.cc parse_number, '+S+'string.cc scm_c_string_to_number')],['(* 4611686018427387904 2), (- most-negative), 99999999999999999999'])
p('P28','Writing a datum and reading it back gives an equal datum',
 'For every datum made of readable types, reading the text produced by write yields an equal datum.',
 ['inputs'],'all data','infinite domain of nested data',[S+'print.cc',S+'parse.cc'],[('printer and reader',S+'print.cc, '+S+'parse.cc')],['(read (open-input-string (write-to-string x)))'])
p('P29','Re-entering a continuation resumes with the captured dynamic state',
 'Invoking a captured continuation any number of times resumes evaluation exactly where it was captured, with the local bindings and pending computations of that moment.',
 ['histories','programs'],'all capture/invoke histories','needs multi-shot invocation after arbitrary computation',[S+'continuation.cc'],[('stack copy',S+'continuation.cc')],['call/cc programs'])
p('P30','Iteration in tail position needs no stack',
 'A loop written as a tail call runs in bounded stack space for any number of iterations.',
 ['programs'],'all iteration counts','depth is a run-time quantity',[S+'eval.cc',S+'procedure.cc'],[('evaluator loop',S+'eval.cc')],['deep tail-recursive programs'])
p('P31','Raising an error never returns to the code that raised it',
 'Once an error has been raised (by a builtin, the evaluator, the reader, or throw), the code that raised it never resumes: control passes to the innermost matching handler, or the process ends with the error reported.',
 ['programs','inputs'],'all error-raising functions and all their paths, with and without handlers installed',
 'a handler that returns, or a missing handler, at the wrong nesting is needed to make a raising function fall through',
 [S+'error.cc',S+'throw.cc',S+'eval.cc',S+'parse.cc',S+'quasiquote.cc'],
 [('error raising',S+'error.cc eval_error, type_error; '+S+'throw.cc scm_throw, scm_uncaught_throw; '+S+'parse.cc parse_error')],
 ['behaviour of (catch ...) around a failing operation; exit status of an uncaught error'])
p('P32','Only #f counts as false',
 'In if, cond, and, or, do, when a test is evaluated, and in not, every value except #f counts as true: 0, the empty list, the empty string, unspecified values, procedures and every other object are treated like #t, and none of them is refused with an error.',
 ['programs','values'],'every place that decides on a result of evaluation, and every type of value',
 'tests use booleans and a few other values as conditions; a condition wrongly treating one type as false needs exactly that type at exactly that form',
 [S+'eval.cc',S+'cond.cc',S+'do.cc',S+'predicate.cc',S+'pscm.h'],
 [('decisions',S+'eval.cc eval_if, eval_and, eval_or; '+S+'cond.cc eval_cond; '+S+'do.cc eval_do; '+S+'predicate.cc scm_c_not; '+S+'pscm.h is_truthy, is_falsy')],
 ['which branch is evaluated; whether an error is raised'])
p('P33','A name denotes its innermost binding',
 'Looking up a variable finds its binding in the innermost scope that has one, never that of another name or of an enclosing scope. Making a binding (parameter, loop variable, local definition or macro) never changes a variable of the same name in an enclosing scope or module: a definition inside a procedure, let or do is bound in that scope and not visible outside it. set! changes exactly the binding that a lookup at the same place finds. Names of special forms are reserved.',
 ['programs','nesting of scopes'],'the search for a binding, every place that makes or changes one, and every place that asks for a name in several scopes',
 'the same name has to be bound in two scopes, in the right kinds of form, and be used after the inner one; programs that use distinct names never notice',
 [S+'environment.cc',S+'eval.cc',S+'define.cc',S+'do.cc',S+'procedure.cc',S+'macro.cc',S+'module.cc'],
 [('search',S+'environment.cc scm_env_search_entry, scm_env_search'),('bindings',S+'environment.cc scm_env_insert and its callers'),('assignment',S+'eval.cc eval_set')],
 ['value of a variable after an inner scope has bound or defined the same name'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
