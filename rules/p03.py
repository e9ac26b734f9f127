"""P03: sweeping releases what an object owns exactly once and leaves nothing stale."""
from check_api import Finding, Broken
from rules.heap import Heap
from rules.marking import Marker, canon, back_edges
from rules.own import *
from rules.p01 import table
from rules.ir import find_path

def run(ctx):
    m = ctx.helpers(); h = Heap(m); F = []; samples = []; und = []
    sname = next((k for k in m.globals if m.gname(k) == "sweep_fns"), None)
    tname = next((k for k in m.globals if m.gname(k) == "trace_fns"), None)
    if not sname or not tname: raise Broken("sweep or trace table not found")
    sw, tr = table(m, sname), table(m, tname)
    if len(sw) < 5: raise Broken("only %d sweep functions installed" % len(sw))
    # ---- owned fields and where their values come from
    stores = {}
    for I in m.all_instrs():
        if I.o == "store":
            lf = last_field(I.fn, I.a[1])
            if lf: stores.setdefault(lf, []).append(I)
    owned = {}
    for lf, L in stores.items():
        S, fl = lf.rsplit(".", 1)
        x = m.field(S, fl)
        if not x or not x["pointee"] or x["pointee"] in h.gc_structs: continue
        fams = {}
        for I in L:
            for o in origins(m, I.fn, I.a[0]): fams.setdefault(o, I)
        al = {d for k, d in fams if k == "alloc"}
        if al: owned[lf] = (al, fams)
    # structures reachable from heap objects through owned pointers or by embedding
    want = []   # (S, tag, path, field, families)
    def embedded_gets_memory(lf):
        """is the field, in a structure embedded in another one, ever given memory? Not if every such store goes to a node just allocated."""
        for I in stores[lf]:
            if not any(k == "alloc" for k, d in origins(m, I.fn, I.a[0])): continue
            r = I.fn.d(_root(I.fn, I.a[1]))
            if r is not None and r.o in ("call", "invoke") and alloc_family(r.cname() or ""): continue
            return True
        return False
    def visit(S, t, prefix, seen):
        for x in m.structs[S]["fields"]:
            lf = "%s.%s" % (S, x["name"])
            T = x["type"]
            if T in m.structs and T not in h.gc_structs and not x["pointee"]:
                visit(T, t, prefix + (lf,), seen)
            elif lf in owned:
                p = canon(prefix + (lf, "*"))
                if (lf, p) in seen: continue
                if prefix and prefix[-1] != "*" and not embedded_gets_memory(lf): continue
                want.append((S, t, p, lf, owned[lf][0]))
                if x["pointee"] in m.structs and x["pointee"] not in h.gc_structs: visit(x["pointee"], t, p, seen | {(lf, p)})
    for t, S in sorted(h.tag_struct.items()): visit(S, t, (), frozenset())
    if len(want) < 10: raise Broken("only %d owned resources found" % len(want))
    mk = Marker(m)
    for S, t, path, lf, fams in want:
        al, orig = owned[lf]
        if len(al) > 1: F.append(Finding("mixed-allocators", lf, "is allocated by %s but can only be released one way" % " and ".join(sorted(al)), list(orig.values())[0].loc))
        for (k, d), I in sorted(orig.items(), key=str):
            if k in ("literal", "interior", "field") and not (k == "field" and (d == lf and m.field(*lf.rsplit(".", 1))["pointee"] in m.structs or "::" in lf and d in owned)):
                F.append(Finding("foreign-memory", lf, "is released when its object is reclaimed but is given %s here" % {"literal": "static memory", "interior": "a pointer into other memory", "field": "memory that %s already owns" % d}[k], I.loc))
        if t not in sw:
            F.append(Finding("never-released", lf, "owned by objects of kind %s, for which no sweep function is installed" % h.tagname[t], list(orig.values())[0].loc)); continue
        fn = m.funcs[sw[t]]; fam = sorted(al)[0]
        p = mk.covers(fn, 0, path, "release:" + fam)
        if p is None and not mk.has_sink(fn, "release:" + fam): p = [fn.file + ":%d" % fn.line]
        if p is not None:
            F.append(Finding("not-released", lf, "is not released on this path through %s" % fn.name, p[-1], p)); continue
        if len(samples) < 6: samples.append("%s released by %s on every path" % (lf, fn.name))
    # ---- a released field of a surviving structure is overwritten; released memory is not touched again
    nrel = 0
    for f in m.funcs.values():
        for I in list(f.calls()):
            fam = free_family(I.cname() or "")
            if not fam or not I.a: continue
            nrel += 1
            v = f.strip(I.a[0]); d = f.d(v)
            if d is not None and d.o == "load":
                addr = f.addr(d.a[0]); lf = addr[-1] if "." in addr[-1] and not addr[-1].startswith(("@", "%", "$")) else None
                if lf in owned:
                    P = mk.P(f)
                    fields = P.of(d.a[0])
                    base = {p[:max(i for i, x in enumerate(p) if x == "*") + 1] if "*" in p else p[:1] for p in fields}
                    overwritten = lambda J: J.o == "store" and (f.addr(J.a[1]) == addr or bool(P.of(J.a[1]) & fields))
                    if find_path(f, d.bb, d.pos + 1, lambda J: J is I, overwritten) is None: continue
                    container_freed = lambda J: free_family((J.cname() or "") if J.o in ("call", "invoke") else "") and J.a and (P.of(J.a[0]) & base)
                    over = lambda J: (J.o == "store" and (f.addr(J.a[1]) == addr or P.of(J.a[1]) & fields)) or container_freed(J)
                    def alive(T, k):
                        c = f.d(T.a[0]) if T.o == "br" and T.a else None
                        if c is not None and c.o == "icmp" and c.p in ("eq", "ne") and c.a[1] is None and P.of(c.a[0]) & base: return k != (0 if c.p == "eq" else 1)
                        return True
                    w = find_path(f, I.bb, I.pos + 1, lambda J: J.o == "ret", over, alive)
                    if w: F.append(Finding("stale-after-release", f.name, "%s keeps pointing to released memory on this path" % lf, I.loc, w))
            # use after release within the function
            same = {"%%%d" % J.i for J in f.instrs() if f.strip("%%%d" % J.i) == v} | {v} if isinstance(v, str) else set()
            if d is not None and d.o in ("phi",): pass
            def uses(J):
                if J is I or J.o in ("phi", "br", "icmp", "switch"): return False
                if J.o == "load" or J.o == "store":
                    a = J.a[0] if J.o == "load" else J.a[1]
                    r = _root(f, a)
                    return r in same
                if J.o in ("call", "invoke"):
                    return any(isinstance(a, str) and _root(f, a) in same for a in J.a)
                return False
            if isinstance(v, str):
                redefined = lambda J: ("%%%d" % J.i) == v
                w = find_path(f, I.bb, I.pos + 1, uses, redefined)
                if w: F.append(Finding("use-after-release", f.name, "memory is used again after it was released here", I.loc, w))
            # a second release of the same field without a store in between
            if d is not None and d.o == "load":
                addr = f.addr(d.a[0])
                if addr[0] != "?" and not any(x.startswith("%") and f.d(x) is not None and f.d(x).o == "phi" for x in addr[:1]):
                    again = lambda J: J is not I and J.o in ("call", "invoke") and free_family(J.cname() or "") and J.a and f.d(f.strip(J.a[0])) is not None and f.d(f.strip(J.a[0])).o == "load" and f.addr(f.d(f.strip(J.a[0])).a[0]) == addr
                    over = lambda J: J.o == "store" and f.addr(J.a[1]) == addr
                    w = find_path(f, I.bb, I.pos + 1, again, over)
                    if w: F.append(Finding("released-twice", f.name, "the same memory is released twice", I.loc, w))
    # ---- a structure reached from another parameter may be the one just released
    for f in m.funcs.values():
        for I in f.calls():
            fam = free_family(I.cname() or "")
            if not fam or not I.a: continue
            d = f.d(f.strip(I.a[0]))
            if d is None or d.o != "load": continue
            addr = f.addr(d.a[0])
            if not addr[0].startswith("$") or len(addr) < 2: continue
            def aliased(J):
                if J.o != "load": return False
                b = f.addr(J.a[0])
                if not b[0].startswith("$") or b[0] == addr[0] or b[1:] != addr[1:]: return False
                if f.sig and len(f.sig) > int(b[0][1:]) + 1 and f.sig[int(b[0][1:]) + 1] != f.sig[int(addr[0][1:]) + 1]: return False
                return any(u.o not in ("icmp", "phi") for u in f.users("%%%d" % J.i))
            def roots2(J): return {f.addr(x)[0] for x in J.a if isinstance(x, str)}
            distinct = any(J.o == "icmp" and J.p in ("eq", "ne") and len(roots2(J)) == 2 and addr[0] in roots2(J) for J in f.instrs())
            over = lambda J: J.o == "store" and f.addr(J.a[1]) == addr
            w = None if distinct else find_path(f, I.bb, I.pos + 1, aliased, over)
            if w: F.append(Finding("use-after-release", f.name, "what it releases through one argument it reads through another, which may be the same object", I.loc, w))
    # ---- a reclaimed array may still be visited by a conservative scan: it has no elements
    for (S, fl), counts in sorted(h.lengths().items()):
        t = next((t for t, s in h.tag_struct.items() if s == S), None)
        if t not in sw or t not in tr: continue
        tf, sf = m.funcs[tr[t]], m.funcs[sw[t]]
        A = ("$0",)
        tested = False
        for I in tf.instrs():
            if I.o == "icmp" and None in I.a:
                if any(x == "%s.%s" % (S, fl) for y in I.a if isinstance(y, str) for x in tf.addr(y)): tested = True
        if tested: continue
        zero = [I for I in sf.instrs() if I.o == "store" and I.a[0] == 0 and last_field(sf, I.a[1]) in {"%s.%s" % (S, c) for c in counts}]
        rel = [I for I in sf.calls() if free_family(I.cname() or "")]
        def counted(r):
            # on every path through the release the count is zeroed, before or after it
            for z in zero:
                if sf.dominates(z, r) or find_path(sf, r.bb, r.pos, lambda J: J.o == "ret", lambda J: J is z) is None: return True
            return False
        if rel and not all(counted(r) for r in rel):
            F.append(Finding("stale-count", S, "%s is released but its element count is kept, and %s follows the elements without a null test" % (fl, tf.name), rel[0].loc))
    if nrel < 25: raise Broken("only %d release calls" % nrel)
    return {"findings": F, "coverage": {
        "explanation": "For every field of a heap structure that is given allocated memory, all values stored to it must come from one allocator family, the sweep function installed for its kind must release it with the matching deallocator on every path except where it is null, released fields of surviving structures must be overwritten before the function returns, and released memory must not be used or released again. Decided on SSA of the current source.",
        "owned_resources": len(want), "owned_fields": len(owned), "sweep_functions": len(sw), "release_sites": nrel, "samples": samples, "undecided": und}}

def _root(f, v):
    while True:
        I = f.d(v)
        if I is not None and I.o in ("bitcast", "gep", "getelementptr", "ptrtoint", "inttoptr"): v = I.a[0]
        else: return v
