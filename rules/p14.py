"""P14: the embedding API never lets a Scheme error escape into host code."""
from check_api import Finding, Broken
from rules.ir import nonreturning, BASE_NR, controlled

PURPOSE = {"pscm_init": "start-up", "pscm_ithrow": "raising is what it is for"}

def base(m, k): return m.funcs[k].name.split("(")[0] if k in m.funcs else m.pretty(k).split("(")[0]

def run(ctx):
    m = ctx.facts(); nr = nonreturning(m); F = []
    catchers = {f.key for f in m.funcs.values() if f.name.split("(")[0] == "scm_c_catch" and len(f.params if hasattr(f, "params") else f.sig) >= 5}
    if not catchers: raise Broken("the catch entry point was not found")
    def src(f, v, seen=None):
        """instructions / constants a value may be"""
        seen = set() if seen is None else seen
        if not isinstance(v, str): return {v}
        if v in seen: return set()
        seen.add(v); I = f.d(v)
        if I is not None and I.o == "phi": return {y for x in I.a for y in src(f, x, seen)}
        if I is not None and I.o == "select": return {y for x in I.a[1:] for y in src(f, x, seen)}
        if I is not None and I.o in ("bitcast", "inttoptr", "ptrtoint"): return src(f, I.a[0], seen)
        return {v}
    def is_true(f, v):
        """#t : the result of a function that only returns the constant true, or that constant itself"""
        for x in src(f, v):
            I = f.d(x) if isinstance(x, str) else None
            if I is not None and I.o in ("call", "invoke"):
                if base(m, I.callee()) != "scm_bool_true": return False
            elif isinstance(x, str) and x.startswith("@"):
                if m.gname(x[1:]).split("::")[-1] not in ("scm_true", "g_true", "t"): return False
            elif isinstance(x, str) and x.startswith("$"): return None
            elif I is not None and I.o == "load" and isinstance(I.a[0], str) and I.a[0].startswith("@"):
                if "true" not in m.gname(I.a[0][1:]): return False
            else: return False
        return True
    # functions that run one of their parameters under a catch-all: parameter -> handler problem
    guards = {k: {1} for k in catchers}
    handlers = set(); notes = []
    def guard_params(f):
        out = set()
        for I in f.calls():
            c = I.callee()
            for p in guards.get(c, ()):
                if p >= len(I.a): continue
                for x in src(f, I.a[p]):
                    if isinstance(x, str) and x.startswith("$") and (c not in catchers or is_true(f, I.a[0])): out.add(int(x[1:]))
        return out
    ch = True
    while ch:
        ch = False
        for f in m.funcs.values():
            if f.key in catchers: continue
            g = guard_params(f)
            if g and not g <= guards.get(f.key, set()): guards[f.key] = guards.get(f.key, set()) | g; ch = True
    def fn_of(f, v): return {x[1:] for x in src(f, v) if isinstance(x, str) and x.startswith("@") and x[1:] in m.funcs}
    nobl = 0
    def edges(f):
        """(instruction, callee key or None for unknown, reason) control may enter outside any catch-all"""
        out = []
        for I in f.calls():
            c = I.callee()
            if c in guards:
                if c in catchers:
                    if is_true(f, I.a[0]) is False:
                        for k in fn_of(f, I.a[1]): out.append((I, k))
                        if not fn_of(f, I.a[1]): out.append((I, "?"))
                    for k in fn_of(f, I.a[3]): handlers.add(k); out.append((I, k))
                else: out.append((I, c))
                continue
            if c in m.funcs or c in nr or c in BASE_NR or c in getattr(m, "_nrbase", ()): out.append((I, c))
            elif c is None and I.o in ("call", "invoke"): out.append((I, None))
        return out
    api = [f for f in m.funcs.values() if f.blocks and f.key.startswith("pscm_") and f.name.split("(")[0] == f.key]
    if len(api) < 15: raise Broken("only %d embedding functions found" % len(api))
    asserts = {"__assert_fail"}
    seenall = set()
    for f in sorted(api, key=lambda x: x.key):
        if f.key in PURPOSE: notes.append("%s: %s" % (f.key, PURPOSE[f.key])); continue
        seen = {f.key: None}; st = [f.key]; hit = None
        while st and hit is None:
            k = st.pop(0)
            for I, c in edges(m.funcs[k]):
                nobl += 1
                if c in asserts or (c and m.pretty(c).split("(")[0] in asserts): continue
                if base(m, c or "").split(" ")[-1].startswith("cast<") and checked(m.funcs[k], I): continue
                if c == "?": hit = (k, "code run under a catch that does not take every key", I); break
                if c is None:
                    if k in catchers or (I.f or "").startswith("@"): continue
                    hit = (k, "code reached through a pointer", I); break
                if c in nr:
                    hit = (k, base(m, c), I); break
                if c in m.funcs and c not in seen and c not in catchers and base(m, c) != 'gc_alloc': seen[c] = (k, I); st.append(c)
        seenall |= set(seen)
        if hit:
            k, what, I = hit; path = [I.loc]
            while seen[k]: k, J = seen[k]; path.append(J.loc)
            F.append(Finding("api-escape", f.key, "an error raised here (%s) is not caught before it reaches the host" % what, I.loc, path[::-1], extra=I.srcfn))
    # a failed call must be reported as one
    guarded = {f.key for f in api if any(c in guards for c in (I.callee() for I in f.calls()))} - set(PURPOSE)
    ch = True
    while ch:
        ch = False
        for f in api:
            if f.key not in guarded and any(I.callee() in guarded for I in f.calls()): guarded.add(f.key); ch = True
    bodies = set()
    for f in m.funcs.values():
        if f.key in guarded or f.key in guards:
            for I in f.calls():
                if I.callee() in guards:
                    for p in guards[I.callee()]:
                        if p < len(I.a): bodies |= fn_of(f, I.a[p])
    nres = 0
    for k in sorted(guarded | (bodies & set(m.funcs))):
        f = m.funcs[k]
        if f.sig[0] == "void": continue
        for I in f.calls():
            if I.callee() in PURPOSE or I.i is None: continue
            if not (I.callee() in guarded or (I.callee() in guards and k in guarded)): continue
            nres += 1
            w = follow_null(f, I, guarded, guards)
            if w: F.append(Finding("failure-hidden", f.name if f.key not in guarded else f.key, "the failure of %s is not reported to the caller" % base(m, I.callee()), I.loc, w))
    for k in sorted(handlers):
        f = m.funcs[k]
        if k not in seenall and not any(True for I in f.calls()): continue
        for J in f.instrs():
            if J.o == "ret" and any(x is not None for x in src(f, J.a[0])):
                if base(m, k) == "scm_api_catch_handler" or k in {h for h in handlers}: F.append(Finding("failure-hidden", f.name, "the handler of the embedding API answers a failure with a value", J.loc, []))
    return {"findings": F, "level": "other", "coverage": {"explanation": "Call graph of every embedding (pscm_) function, entering no code that runs under a catch-all (a catch with tag #t): none of what is left may raise an error, end the process or run code through a pointer. Second obligation: on every path on which an embedding call has failed (null), nothing more is evaluated and null is returned.",
        "api_functions": len(api), "functions_reached_outside_a_handler": len(seenall), "call_edges": nobl, "failure_results_followed": nres, "handlers": sorted(m.funcs[k].name for k in handlers), "exempt": notes}}

def expr(f, v, n=0):
    """a value as an access path, for comparing loads of the same place"""
    I = f.d(v) if isinstance(v, str) else None
    if I is None or n > 12: return v
    if I.o in ("bitcast",): return expr(f, I.a[0], n + 1)
    if I.o == "load": return ("*", expr(f, I.a[0], n + 1))
    if I.o in ("gep", "getelementptr"): return ("&", expr(f, I.a[0], n + 1), str(getattr(I, "path", None)))
    if I.o in ("call", "invoke") and (I.cname() or "").split(" ")[-1].startswith(("cast<", "SCM_List* cast<")) or (I.o in ("call", "invoke") and "cast<" in (I.cname() or "")): return ("cast", expr(f, I.a[0], n + 1))
    return v
def checked(f, I):
    """the value is cast behind a test of its kind (whether it is the right kind is P05's business)"""
    x = expr(f, I.a[0])
    for b, k in controlled(f, I.bb) or []:
        T = f.blocks[b][-1]
        if T.o != "br" or not T.a: continue
        c = f.d(T.a[0]); neg = 0
        while c is not None and c.o == "xor": c = f.d(c.a[0]); neg ^= 1
        if c is not None and c.o in ("call", "invoke") and (c.cname() or "").split("(")[0].split(" ")[-1].startswith("is_") and (k ^ neg) == 0 and expr(f, c.a[0]) == x: return True
    return False

def follow_null(f, call, guarded, guards):
    """a path on which the (null) result of this call is not reported"""
    start = (call.bb, f.blocks[call.bb].index(call) + 1, frozenset(["%%%d" % call.i]))
    st = [(start, [call.loc])]; seen = set()
    while st:
        (b, i, vs), path = st.pop()
        if (b, i, vs) in seen: continue
        seen.add((b, i, vs)); stop = False
        vs = set(vs)
        for I in f.blocks[b][i:]:
            if I.o == "bitcast" and I.a[0] in vs: vs.add("%%%d" % I.i)
            if I.o in ("call", "invoke") and I is not call and (I.callee() in guarded or I.callee() in guards): return path + [I.loc]
            if I is call: return path + [I.loc]
            if I.o == "ret":
                if I.a and I.a[0] is not None and I.a[0] not in vs: return path + [I.loc]
                stop = True
        if stop: continue
        T = f.blocks[b][-1]; succ = list(f.succ[b])
        if T.o == "br" and T.a:
            c = f.d(T.a[0]); neg = False
            while c is not None and c.o == "xor": c = f.d(c.a[0]); neg = not neg
            if c is not None and c.o == "icmp" and c.p in ("eq", "ne") and ((c.a[0] in vs and c.a[1] is None) or (c.a[1] in vs and c.a[0] is None)):
                k = (0 if c.p == "eq" else 1) ^ neg
                succ = [succ[k]]
        for t in set(succ):
            nv = set(vs)
            for I in f.blocks[t]:
                if I.o != "phi": break
                for x, pb in zip(I.a, I.b):
                    if pb == b:
                        if x in vs or x is None: nv.add("%%%d" % I.i)
                        else: nv.discard("%%%d" % I.i)
            st.append(((t, 0, frozenset(nv)), path))
    return None
