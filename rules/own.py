"""Who owns raw memory: allocator families and where stored pointers come from."""
ALLOC = {"malloc": "c", "calloc": "c", "realloc": "c", "strdup": "c", "strndup": "c", "fopen": "file", "tmpfile": "file", "open_memstream": "file", "fdopen": "file", "freopen": "file"}
FREE = {"free": "c", "fclose": "file"}

def alloc_family(n):
    if n in ALLOC: return ALLOC[n]
    if n.startswith("operator new[]"): return "new[]"
    if n.startswith("operator new"): return "new"
    return None

def free_family(n):
    if n in FREE: return FREE[n]
    if n.startswith("operator delete[]"): return "new[]"
    if n.startswith("operator delete"): return "new"
    return None

def origins(m, f, v, d=0, seen=()):
    """set of (kind, detail): alloc family, null, literal, stream, interior, field, param, other"""
    if v is None or v == 0: return {("null", "")}
    if isinstance(v, dict): return {("literal", "")}
    if isinstance(v, (int, float)): return {("other", "constant")}
    if v.startswith("@"): return {("literal", m.gname(v[1:]))}
    k = (f.key, v)
    if k in seen: return set()
    seen = seen + (k,)
    if v.startswith("$"):
        cs = m.callers(f.key)
        if d > 4 or not cs or f.addrtaken: return {("param", f.name)}
        r = set()
        for I in cs: r |= origins(m, I.fn, I.a[int(v[1:])], d + 1, seen)
        return r
    I = f.d(v)
    if I is None: return {("other", "?")}
    if I.o == "phi": return set().union(*[origins(m, f, x, d, seen) for x in I.a])
    if I.o == "select": return set().union(*[origins(m, f, x, d, seen) for x in I.a[1:]])
    if I.o in ("bitcast", "inttoptr", "ptrtoint"): return origins(m, f, I.a[0], d, seen)
    if I.o in ("gep", "getelementptr"):
        if I.path and all(isinstance(e, list) and e == [0] for e in I.path): return origins(m, f, I.a[0], d, seen)
        return {("interior", "")}
    if I.o in ("call", "invoke"):
        fam = alloc_family(I.cname() or "")
        if fam: return {("alloc", fam)}
        c = I.callee()
        if c in m.funcs and d < 5:
            r = set()
            for R in m.funcs[c].rets():
                if R.a: r |= origins(m, m.funcs[c], R.a[0], d + 1, seen)
            return r
        return {("other", "result of " + (I.cname() or "an indirect call"))}
    if I.o == "load":
        p = f.addr(v)
        if p[0].startswith("@std") and len(p) == 2: return {("stream", p[0][1:])}
        if p[0].startswith("@"): 
            if not [x for x in p if "." in x]: return {("field", m.gname(p[0][1:]))}
        fl = [x for x in p if "." in x and not x.startswith("@")]
        if fl: return {("field", fl[-1])}
        d2 = f.d(p[0]) if p[0].startswith("%") else None
        if d2 is not None and d2.o == "alloca" and p[1:] == ("*",):
            r = set()
            for J in f.instrs():
                if J.o == "store" and J.a[1] == p[0]: r |= origins(m, f, J.a[0], d, seen)
            return r
        return {("other", "loaded value")}
    return {("other", I.o)}

def last_field(f, v):
    p = f.addr(v)
    return p[-1] if "." in p[-1] and not p[-1].startswith(("@", "%", "$")) else None
