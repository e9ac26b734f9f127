"""P24: a promise keeps the first value it is given."""
from check_api import Finding, Broken
from rules.ir import find_path, nonreturning, BASE_NR

S = "SCM_Promise."
def evaluators(m):
    """functions that may run program code"""
    if hasattr(m, "_evaluators"): return m._evaluators
    base = [f.key for n in ("eval_with_env", "apply_procedure", "eval_with_func", "apply_procedure_with_values", "eval_apply_internal") for f in m.byname.get(n, [])]
    base += [f.key for f in m.funcs.values() for I in f.calls() if not I.callee() and isinstance(I.f, str) and f.addr(I.f)[-2:-1] and f.addr(I.f)[-2].endswith(".func_ptr")]
    if not base: raise Broken("the evaluator was not found")
    m._evaluators = m.can_reach(base)
    return m._evaluators
def evaluates(m, I):
    if I.o not in ("call", "invoke"): return False
    c = I.callee()
    if c is None: return True
    return c in evaluators(m) and c not in nonreturning(m)
def base_of(f, ptr):
    """(object value, field) addressed by a pointer"""
    I = f.d(f.strip(ptr))
    if I is not None and I.o in ("gep", "getelementptr") and I.path and isinstance(I.path[-1], str): return I.a[0], I.path[-1]
    return None, None
def fresh(m, f, v):
    I = f.d(f.strip(v))
    return I is not None and I.o in ("call", "invoke") and (I.cname() or "") in ("gc_alloc", "malloc", "calloc", "operator new")
def surely_true(f, v, depth=0):
    if isinstance(v, (int, bool)): return bool(v)
    I = f.d(v)
    if I is None or depth > 6: return False
    if I.o in ("zext", "sext", "trunc", "freeze"): return surely_true(f, I.a[0], depth + 1)
    if I.o in ("phi", "select"): return all(surely_true(f, x, depth + 1) for x in (I.a if I.o == "phi" else I.a[1:]))
    return False
def same(f, a, b): return f.strip(a) == f.strip(b) or f.addr(a) == f.addr(b) and len(f.addr(a)) > 1
def run(ctx):
    m = ctx.helpers(); F = []
    nr = nonreturning(m)
    stops = lambda I: I.o in ("call", "invoke") and (I.callee() in nr or I.callee() in m._nrbase or I.callee() in BASE_NR)
    writes = flags = evs = news = 0
    for f in m.funcs.values():
        st = []
        for I in f.instrs():
            if I.o == "store":
                o, fld = base_of(f, I.a[1])
                if fld and fld.startswith(S): st.append((I, o, fld[len(S):]))
        st0 = [x for x in st if fresh(m, f, x[1])]
        news += len({f.strip(x[1]) for x in st0})
        for I, o, fld in st0:
            if fld == "is_forced" and I.a[0] not in (0, False): F.append(Finding("born-forced", I.srcfn, "a new promise is marked as forced", I.loc))
        for o in {f.strip(x[1]) for x in st0}:
            if not any(x[2] == "is_forced" and f.strip(x[1]) == o for x in st0): F.append(Finding("flag-uninitialised", f.name, "a new promise is created without clearing its forced flag", f.d(o).loc))
        st = [x for x in st if not fresh(m, f, x[1])]
        # loads of the flag and the edges they decide
        def flag_edge(T, k, o):
            """True: this edge establishes forced, False: not forced, None: says nothing"""
            if T.o != "br" or not T.a: return None
            v = T.a[0]; neg = False
            for _ in range(6):
                d = f.d(v)
                if d is None: return None
                if d.o in ("trunc", "zext", "sext", "freeze"): v = d.a[0]; continue
                if d.o == "xor" and 1 in d.a or d.o == "xor" and True in d.a or d.o == "xor" and -1 in d.a: neg = not neg; v = d.a[0]; continue
                if d.o == "icmp" and d.p in ("eq", "ne") and isinstance(d.a[1], int): 
                    if (d.p == "eq") == (d.a[1] == 0): neg = not neg
                    v = d.a[0]; continue
                if d.o == "load":
                    b, fld = base_of(f, d.a[0])
                    if fld == S + "is_forced" and same(f, b, o):
                        # the load must be as recent as the test
                        if find_path(f, d.bb, d.pos + 1, lambda J: J is T, lambda J: evaluates(m, J)) is None: return None
                        return (k == 0) != neg
                return None
            return None
        for I, o, fld in st:
            if fld == "value":
                writes += 1
                unf = lambda T, k: flag_edge(T, k, o) is not False
                # from any evaluation and from the entry, the write needs a test that the promise is still unforced
                starts = [(0, 0, "the entry")] + [(J.bb, J.pos + 1, J.loc) for J in f.instrs() if evaluates(m, J)]
                bad = None
                for b, p, what in starts:
                    w = find_path(f, b, p, lambda J: J is I, lambda J: stops(J) or evaluates(m, J), unf)
                    if w: bad = (what, w); break
                if bad: F.append(Finding("overwrites-value", I.srcfn, "the value of a promise is set without testing, after the last evaluation (%s), that it has none yet" % bad[0], I.loc, bad[1]))
                # afterwards it is marked before anything runs or returns
                is_mark = lambda J: any(J is x[0] and x[2] == "is_forced" and same(f, x[1], o) and x[0].a[0] not in (0, False) for x in st)
                w = None
                if not any(is_mark(x[0]) and f.dominates(x[0], I) for x in st):
                    w = find_path(f, I.bb, I.pos + 1, lambda J: J.o == "ret" or evaluates(m, J), lambda J: is_mark(J) or stops(J))
                if w: F.append(Finding("not-marked", I.srcfn, "a promise is given a value without being marked as forced", I.loc, w))
            elif fld == "is_forced":
                flags += 1
                if I.a[0] in (0, False):
                    F.append(Finding("unforced", I.srcfn, "a promise that may have a value is marked as not forced", I.loc)); continue
                if not surely_true(f, I.a[0]):
                    F.append(Finding("mark-conditional", I.srcfn, "whether a promise that has been given a value counts as forced depends on something else", I.loc)); continue
                isv = lambda J: any(J is x[0] and x[2] == "value" and same(f, x[1], o) for x in st)
                vs = [x[0] for x in st if isv(x[0])]
                pre = any(f.dominates(x, I) and find_path(f, x.bb, x.pos + 1, lambda J: J is I, lambda J: False) and not find_path(f, x.bb, x.pos + 1, lambda J: evaluates(m, J) and find_path(f, J.bb, J.pos + 1, lambda K: K is I, lambda K: K is x), lambda J: J is I) for x in vs)
                if not pre:
                    w = find_path(f, I.bb, I.pos + 1, lambda J: J.o == "ret" or evaluates(m, J), lambda J: isv(J) or stops(J))
                    if w: F.append(Finding("marked-without-value", I.srcfn, "a promise is marked as forced before it has its value", I.loc, w))
            elif fld == "thunk":
                unf = lambda T, k: flag_edge(T, k, o) is not True
                is_mark = lambda J: any(J is x[0] and x[2] == "is_forced" and same(f, x[1], o) and x[0].a[0] not in (0, False) for x in st)
                w = find_path(f, 0, 0, lambda J: J is I, lambda J: stops(J) or is_mark(J), unf)
                if w: F.append(Finding("thunk-dropped", I.srcfn, "the computation of a promise is replaced before it has completed", I.loc, w))
        # evaluating the computation: only while unforced; what is returned is the kept value
        thunks = [I for I in f.instrs() if I.o == "load" and base_of(f, I.a[0])[1] == S + "thunk"]
        if thunks:
            o = base_of(f, thunks[0].a[0])[0]
            for J in f.instrs():
                if not evaluates(m, J): continue
                if not any(f.dominates(t, J) for t in thunks): continue
                evs += 1
                w = find_path(f, 0, 0, lambda K: K is J, stops, lambda T, k: flag_edge(T, k, o) is not False)
                if w: F.append(Finding("evaluated-again", J.srcfn, "the computation of a promise is run without testing that it has no value yet", J.loc, w))
                # once it has been run, its result is kept (unless a value has appeared meanwhile)
                keeps = lambda K: any(K is x[0] and x[2] == "value" and same(f, x[1], o) for x in st)
                w = find_path(f, J.bb, J.pos + 1, lambda K: K.o == "ret", lambda K: keeps(K) or stops(K), lambda T, k: flag_edge(T, k, o) is not True)
                if w: F.append(Finding("result-not-kept", J.srcfn, "a promise is forced without keeping the value", J.loc, w))
            # on the edge that finds the promise forced, the kept value is what is returned
            for b in range(len(f.blocks)):
                for k in range(len(f.succ[b])):
                    if flag_edge(f.blocks[b][-1], k, o) is not True: continue
                    w = _wrong_return(m, f, b, k, o)
                    if w: F.append(Finding("kept-value-not-returned", f.name, "a promise found to be forced does not yield the value it holds", w[-1], w))
            vst = [x[0] for x in st if x[2] == "value"]
    if not news or not writes or not evs: raise Broken("promise code not found (%d creations, %d writes, %d evaluations)" % (news, writes, evs))
    return {"findings": F, "level": "other", "coverage": {"explanation": "Typestate of promises over the control-flow graph (helpers folded in): every write of a value lies behind a test, later than any evaluation, that the promise has none; value and forced flag are set together with nothing run in between; the flag is never cleared; the computation runs only while the promise is unforced; a forced promise yields the value it holds.",
        "creations": news, "value_writes": writes, "flag_writes": flags, "evaluations": evs}}

def _wrong_return(m, f, b, k, o):
    """path from edge (b,k) to a return of something other than the promise's value"""
    t = f.succ[b][k]
    st = [(t, b, (f.blocks[b][-1].loc,))]; seen = set()
    def val(v, env):
        for _ in range(10):
            d = f.d(v)
            if d is not None and d.o == "phi" and v in env: v = env[v]; continue
            break
        return v
    def go(blk, frm, env, trail, depth):
        if depth > 40: return None
        env = dict(env)
        new = {}
        for I in f.blocks[blk]:
            if I.o == "phi" and frm in I.b: new["%%%d" % I.i] = val(I.a[I.b.index(frm)], env)
        env.update(new)
        for I in f.blocks[blk]:
            if I.o in ("call", "invoke") and evaluates(m, I): return None
            if I.o == "ret":
                if not I.a: return None
                v = f.strip(val(I.a[0], env)); d = f.d(v)
                if d is not None and d.o == "load":
                    bo, fld = base_of(f, d.a[0])
                    if fld == S + "value": return None
                return list(trail) + [I.loc]
        for s in f.succ[blk]:
            if (blk, s) in seen: continue
            seen.add((blk, s))
            w = go(s, blk, env, trail + ((f.blocks[blk][-1].loc,) if len(f.succ[blk]) > 1 else ()), depth + 1)
            if w: return w
        return None
    return go(t, b, {}, (f.blocks[b][-1].loc,), 0)
