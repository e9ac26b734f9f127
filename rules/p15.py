"""P15: a closed port is never touched again, and the process's standard streams are never closed."""
from check_api import Finding, Broken
from rules.ir import nonreturning, BASE_NR
from rules.explore import Explorer, TooMany
from rules.p24 import evaluators, evaluates

S = "SCM_Port."
CL, FI = S + "is_closed", S + "file"
class Keep(Explorer):
    # facts about ports outlive the values they were learned through
    def relevant(self, k, live): return k[0] in ("n", "l", "b") and any(isinstance(x, str) and x.startswith(S) for x in k) or k[0] in ("cl", "cl2", "nulled") or Explorer.relevant(self, k, live)

def port_path(a):
    """(path of the port, field) of an address that goes through a port field"""
    for n in range(len(a) - 1, 0, -1):
        if isinstance(a[n], str) and a[n].startswith(S): return tuple(a[:n]), a[n]
    return None, None
FRESH = ("gc_alloc", "malloc", "calloc", "operator new")
def fresh(f, P):
    I = f.d(P[0]) if P and isinstance(P[0], str) else None
    if I is not None and I.o == "phi": return all(fresh(f, (f.strip(x),)) for x in I.a if isinstance(x, str) and f.strip(x) != P[0])
    return I is not None and I.o in ("call", "invoke") and (I.cname() or "") in FRESH
def collector(m):
    """functions only the collector runs: they look at blocks that nothing in the program refers to any more"""
    out = set()
    for g in ("sweep_fns", "trace_fns"):
        for k in m.globals:
            if m.gname(k) == g:
                from rules.p01 import table
                out |= set(table(m, k).values())
    return out

class Port:
    def __init__(self, m):
        self.m = m; self.nr = nonreturning(m); self.coll = collector(m); self.touched = 0; self.sites = {}
        self.evs = evaluators(m)
    def stops(self, I):
        return I.o in ("call", "invoke") and (I.callee() in self.nr or I.callee() in self.m._nrbase or I.callee() in BASE_NR)
    def value(self, f, v):
        """(port path, field, direct) a value was read from: direct when it is the field itself"""
        if not isinstance(v, str): return None
        a = f.addr(f.strip(v)); P, fld = port_path(a)
        return (P, fld) if P else None
    def touches(self, f, I):
        """[(P, field, what)]: what this instruction does to the file, buffer or procedures of a port"""
        out = []
        if I.o in ("call", "invoke"):
            n = I.cname() or "a procedure"
            if n.startswith("llvm.") and not n.startswith("llvm.mem"): return out
            if n in ("free", "operator delete[]", "operator delete", "strlen"): return out
            for k, a in enumerate(I.a):
                v = self.value(f, a)
                if v is None: continue
                P, fld = v; x = fld[len(S):]
                if x == "file": out.append((P, x, "%s on its file" % n))
                elif x == "output_buffer" and (n == "realloc" or k == 0 and n.startswith(("memcpy", "memmove", "memset", "strcpy", "strncpy", "strcat", "llvm.mem", "snprintf", "sprintf"))): out.append((P, x, "%s into its buffer" % n))
                elif x == "string_data" and len(f.addr(f.strip(a))) > len(P) + 1: out.append((P, x, "%s on its text" % n))
                elif x == "soft_procedures" and len(f.addr(f.strip(a))) > len(P) + 2: out.append((P, x, "%s on one of its procedures" % n))
            if not I.callee() and isinstance(I.f, str):
                v = self.value(f, I.f)
                if v: out.append((v[0], v[1][len(S):], "a call of one of its procedures"))
        elif I.o == "store":
            a = f.addr(I.a[1]); P, fld = port_path(a)
            if P is None: return out
            x = fld[len(S):]
            if x == "output_buffer" and len(a) > len(P) + 1: out.append((P, x, "a store into its buffer"))
            elif x in ("string_pos", "output_len") and len(a) == len(P) + 1: out.append((P, x, "moving its position"))
        elif I.o == "load":
            a = f.addr(I.a[0]); P, fld = port_path(a)
            if P is not None and fld == S + "string_data" and len(a) > len(P) + 1: out.append((P, "string_data", "reading its text"))
            if P is not None and fld == S + "string_pos": out.append((P, "string_pos", "reading its position"))
        return out
    def run(self, f, closers):
        """explore f: unguarded needs on parameters, findings, closing facts"""
        m = self.m; ex = Keep(f, self.stops, cap=200000)
        needs = {}; bad = []; sites = set(); fclose = []
        cl = lambda P: P + (CL, "*")
        def is_open(P, st): return st.get(("l",) + cl(P)) is False or st.get(("b",) + cl(P)) is False
        def usable(P, fld, st):
            if is_open(P, st): return True
            return fld == "file" and st.get(("n",) + P + (FI, "*")) is False
        def visit(I, st):
            for P, fld, what in self.touches(f, I):
                if fresh(f, P): continue
                sites.add((I.i, I.loc, P, fld)); self.sites[(f.name, I.loc, fld)] = what
                if (("cl", P) in st or ("cl2", P) in st) and fld == "file":
                    bad.append(("used-after-close", "%s after the file was closed" % what, I, ex.trail)); continue
                if not usable(P, fld, st):
                    if len(P) == 1 and P[0].startswith("$"): needs.setdefault((P[0], fld), (I, what, ex.trail))
                    else: bad.append(("closed-port", "%s without a test that the port is open" % what, I, ex.trail))
            if I.o in ("call", "invoke"):
                c = I.callee(); n = I.cname() or ""
                for (g, k), flds in self.need.items():
                    if g != c or k >= len(I.a): continue
                    a = I.a[k]
                    if not isinstance(a, str): continue
                    P = tuple(f.addr(f.strip(a)))
                    if fresh(f, P): continue
                    for fld, (J, what, tr) in flds.items():
                        if usable(P, fld, st): continue
                        if len(P) == 1 and P[0].startswith("$"): needs.setdefault((P[0], fld), (I, "%s in %s" % (what, m.funcs[g].name), ex.trail))
                        else: bad.append(("closed-port", "%s in %s without a test that the port is open" % (what, m.funcs[g].name), I, ex.trail))
                if n == "fclose" and I.a:
                    v = self.value(f, I.a[0])
                    if v and not fresh(f, v[0]):
                        fclose.append((I, v[0], dict(st), ex.trail)); st = dict(st); st[("cl2" if ("nulled", v[0]) in st else "cl", v[0])] = I.loc
                elif evaluates(m, I) or (c, 0) in closers:
                    for k in list(st):
                        if k[0] == "cl": bad.append(("file-kept", "the port still holds its closed file when %s runs" % (n or "a procedure"), I, ex.trail))
                    st = {k: x for k, x in st.items() if not (k[0] in ("l", "b", "n") and (CL in k or FI in k))}
            elif I.o == "store":
                a = tuple(f.addr(I.a[1]))
                if a[-1] == FI:
                    # values read before keep what is known of them; only what must follow a close is recorded
                    st = dict(st); P = a[:-1]; st.pop(("cl", P), None)
                    if I.a[0] is None: st[("nulled", P)] = True
                    else: st.pop(("nulled", P), None)
            elif I.o == "ret":
                for k in st:
                    if k[0] == "cl": bad.append(("file-kept", "the port still holds its closed file when this returns", I, ex.trail))
            return st
        ex.run(0, visit)
        return needs, bad, sites, fclose

def std_known(m, f, v, X, memo):
    """{value: truth} of the conditions in f that follow from v being the stream X"""
    out = {}
    av = tuple(f.addr(f.strip(v)))
    for I in f.instrs():
        if I.o == "icmp" and I.p in ("eq", "ne"):
            r = [tuple(f.addr(f.strip(x))) if isinstance(x, str) else None for x in I.a]
            if av in r:
                o = r[1 - r.index(av)]
                if o and len(o) == 2 and o[0] == "@" + X and o[1] == "*": out["%%%d" % I.i] = I.p == "eq"
        elif I.o in ("call", "invoke") and I.callee() in m.funcs:
            for k, x in enumerate(I.a):
                if isinstance(x, str) and tuple(f.addr(f.strip(x))) == av:
                    t = std_pred(m, m.funcs[I.callee()], k, X, memo)
                    if t is not None: out["%%%d" % I.i] = t
                elif isinstance(x, str) and len(av) > 1 and av[-1] == "*" and tuple(f.addr(f.strip(x))) == av[:-2]:
                    t = std_pred(m, m.funcs[I.callee()], k, X, memo, av[-2])
                    if t is not None: out["%%%d" % I.i] = t
    return out
def std_pred(m, g, k, X, memo, field=None):
    """what a predicate answers when its k-th argument (or that port's file) is the stream X"""
    key = (g.key, k, X, field)
    if key in memo: return memo[key]
    memo[key] = None
    v = ("$%d" % k,) + ((field, "*") if field else ())
    facts = {}
    for I in g.instrs():
        if I.o == "icmp" and I.p in ("eq", "ne"):
            r = [tuple(g.addr(g.strip(x))) if isinstance(x, str) else None for x in I.a]
            if v in r:
                o = r[1 - r.index(v)]
                if o and len(o) == 2 and o[0] == "@" + X: facts[("b", "%%%d" % I.i)] = I.p == "eq"
    if not facts: return None
    res = set(); ex = Explorer(g, cap=2000)
    class E(Explorer):
        def relevant(self, k, live): return True
        def forget(self, name, st):
            keep = ("b", name) in facts; x = st.get(("b", name))
            Explorer.forget(self, name, st)
            if keep: st[("b", name)] = facts[("b", name)]
    ex = E(g, cap=2000)
    def visit(I, st):
        if I.o == "ret" and I.a: res.add(ex.truth(I.a[0], st))
        return st
    try: ex.run(0, visit, init=facts)
    except TooMany: return None
    r = res.pop() if len(res) == 1 else None
    memo[key] = r
    return r

def run(ctx):
    m = ctx.helpers(); F = []; W = Port(m); memo = {}
    def uses_port(f): return any(I.o in ("load", "store") and any(isinstance(x, str) and x.startswith(S) for x in f.addr(I.a[0] if I.o == "load" else I.a[1])) for I in f.instrs())
    users = {f.key for f in m.funcs.values() if uses_port(f)}
    if len(users) < 12: raise Broken("only %d functions use ports" % len(users))
    # functions that may call those with a port of theirs
    closing = {f.key for f in m.funcs.values() if any(I.o == "store" and f.addr(I.a[1])[-1] == CL and I.a[0] not in (0, False) and not fresh(f, tuple(f.addr(I.a[1])[:-1])) for I in f.instrs())}
    closers = {(k, 0) for k in m.can_reach(list(closing))} - {(k, 0) for k in W.evs}
    # standard streams that ports are given
    streams = {}
    for I in m.all_instrs():
        if I.o == "store" and I.fn.addr(I.a[1])[-1] == FI and isinstance(I.a[0], str):
            for o in values(I.fn, I.a[0]):
                a = I.fn.addr(o)
                if a[0] in ("@stdin", "@stdout", "@stderr"): streams.setdefault(a[0][1:], I)
    nt = 0; nf = 0; touched = {}
    W.need = {}
    work = [m.funcs[k] for k in sorted(users)]
    done = set(); rounds = 0; results = {}
    while work and rounds < 12:
        rounds += 1; nxt = set()
        for f in work:
            if f.key in W.coll: continue
            needs, bad, sites, fcl = W.run(f, closers)
            results[f.key] = (needs, bad, sites, fcl)
            byk = {}
            for (p, fld), x in needs.items(): byk.setdefault((f.key, int(p[1:])), {})[fld] = x
            for k, x in byk.items():
                if set(W.need.get(k, {})) != set(x):
                    W.need[k] = x
                    nxt |= {c.fn.key for c in m.callers(f.key)} if hasattr(m, "callers") else {I.fn.key for I in m.all_instrs() if I.o in ("call", "invoke") and I.callee() == f.key}
        work = [m.funcs[k] for k in sorted(nxt)]
    regs = {r["fn"] for r in m.registrations}
    seen = set()
    for k, (needs, bad, sites, fcl) in sorted(results.items()):
        f = m.funcs[k]; nt += len(sites)
        for rule, what, I, tr in bad:
            if (rule, what, I.loc) in seen: continue
            seen.add((rule, what, I.loc)); F.append(Finding(rule, I.srcfn, what, I.loc, list(tr) + [I.loc]))
        called = any(I.o in ("call", "invoke") and I.callee() == k for I in m.all_instrs())
        for (p, fld), (I, what, tr) in needs.items():
            if not called or k in regs: F.append(Finding("closed-port", I.srcfn, "%s without a test that the port is open" % what, I.loc, list(tr) + [I.loc]))
        # standard streams stay open
        for I in {x[0] for x in fcl}: nf += 1
    for f in m.funcs.values():
        for I in f.calls():
            if (I.cname() or "") != "fclose" or not I.a: continue
            v = W.value(f, I.a[0])
            if not v or fresh(f, v[0]): continue
            for X, J in sorted(streams.items()):
                facts = {("b", k): t for k, t in std_known(m, f, I.a[0], X, memo).items()}
                class E(Explorer):
                    def relevant(self, k, live): return k in facts or Explorer.relevant(self, k, live)
                    def forget(self, name, st):
                        Explorer.forget(self, name, st)
                        if ("b", name) in facts: st[("b", name)] = facts[("b", name)]
                ex = E(f, W.stops, cap=100000); hit = []
                def visit(K, st):
                    if K is I: hit.append(ex.trail); return None
                    return st
                ex.run(0, visit, init=dict(facts))
                if hit: F.append(Finding("closes-standard-stream", I.srcfn, "closes the file of a port, which may be %s (given to a port at %s)" % (X, J.loc), I.loc, list(hit[0]) + [I.loc]))
    # closing a port marks it closed
    names = {r["name"]: r["fn"] for r in m.registrations if r["name"].startswith("close-") and r["name"].endswith("port")}
    if len(names) < 2: raise Broken("the close operations were not found")
    cs = {names[n]: n for n in names}
    for k in closing: cs.setdefault(k, m.funcs[k].name)
    marks = {}
    def marker(f, depth=0):
        """{port path: True} when f marks it closed on every returning path on which it was open"""
        if f.key in marks: return marks[f.key]
        marks[f.key] = None
        ex = Keep(f, W.stops, cap=200000); bad = []; any_ = [0]
        def visit(I, st):
            if I.o == "store" and f.addr(I.a[1])[-1] == CL and ex.truth(I.a[0], st):
                any_[0] += 1; st = dict(st); st[("cl", "done")] = True
            elif I.o in ("call", "invoke"):
                g = I.callee()
                if g in m.funcs and g != f.key and depth < 4 and g in m.can_reach(list(closing)) and g not in W.evs or g in closing and depth < 4:
                    r = marker(m.funcs[g], depth + 1)
                    if r == []: any_[0] += 1; st = dict(st); st[("cl", "done")] = True
                if evaluates(m, I) and ("cl", "done") not in st:
                    if any(x is False for k2, x in st.items() if k2[0] == "l" and CL in k2): bad.append(("runs-before-closing", "program code runs (%s) before the port is marked as closed: it can close it again" % (I.cname() or "a procedure"), I, ex.trail))
            elif I.o == "ret" and ("cl", "done") not in st:
                if not any(x is True for k2, x in st.items() if k2[0] == "l" and CL in k2): bad.append(("not-closed", "returns without marking the port as closed", I, ex.trail))
            return st
        ex.run(0, visit)
        marks[f.key] = bad
        return bad
    for k, n in sorted(cs.items()):
        if k not in m.funcs: raise Broken("close operation %s has no definition" % n)
        for rule, what, I, tr in marker(m.funcs[k]):
            if (rule, I.loc) in seen: continue
            seen.add((rule, I.loc)); F.append(Finding(rule, I.srcfn, "%s: %s" % (n, what), I.loc, list(tr) + [I.loc]))
    if nt < 15 or not nf: raise Broken("only %d uses of port resources, %d closes" % (nt, nf))
    return {"findings": F, "level": "other", "coverage": {"explanation": "Path-sensitive typestate over the control-flow graph (helpers folded in): every use of a port's file, buffer, text or procedures lies behind a test, later than anything that could close the port, that it is open (or, for the file, that it is there); needs on parameters are discharged at every call; closing clears the file at once, marks the port before program code can run and never closes a standard stream that ports are given.",
        "port_functions": len(results), "uses": nt, "fcloses": nf, "standard_streams": sorted(streams), "close_operations": sorted(cs.values()), "needs_passed_to_callers": sum(len(x) for x in W.need.values())}}

def values(f, v, seen=None):
    """leaf values of phis and selects"""
    seen = seen if seen is not None else set(); v = f.strip(v) if isinstance(v, str) else v
    if v in seen: return []
    seen.add(v); I = f.d(v) if isinstance(v, str) else None
    if I is not None and I.o == "phi": return [y for x in I.a for y in values(f, x, seen) if isinstance(x, str)]
    if I is not None and I.o == "select": return [y for x in I.a[1:] if isinstance(x, str) for y in values(f, x, seen)]
    return [v] if isinstance(v, str) else []
