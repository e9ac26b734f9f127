"""P02: every place a heap reference can live in is visible to the collector."""
from check_api import Finding, Broken
from rules.heap import Heap, pointee
from rules.marking import Paths, canon, back_edges, loop_blocks, array_cover

def holds(m, h, S, seen=()):
    """does structure S (not itself a heap object) contain a pointer to a heap object?"""
    if not S or S in h.gc_structs or S in seen or S not in m.structs: return False
    return any(x["pointee"] in h.gc_structs or holds(m, h, x["type"].split("[")[0], seen + (S,)) for x in m.structs[S]["fields"])

def origins(fn, v, m, h, depth=0, seen=None):
    """where a stored pointer comes from: 'stack', 'null', 'heap', 'load', 'param', 'malloc', 'const'"""
    seen = seen if seen is not None else set()
    if v is None or v == 0: return {"null"}
    if isinstance(v, dict): return origins(fn, v.get("g"), m, h, depth, seen) if "g" in v else {"const"}
    if isinstance(v, (int, float)): return {"const"}
    if v in seen: return set()
    seen.add(v)
    if v.startswith("@"): return {"global"}
    if v.startswith("$"): return {"param"}
    I = fn.d(v)
    if I is None: return {"?"}
    if I.o == "alloca": return {"stack"}
    if I.o in ("bitcast", "inttoptr", "ptrtoint", "gep", "getelementptr", "trunc", "zext", "sext"): return origins(fn, I.a[0], m, h, depth, seen)
    if I.o in ("phi",): return set().union(*[origins(fn, x, m, h, depth, seen) for x in I.a])
    if I.o == "select": return set().union(*[origins(fn, x, m, h, depth, seen) for x in I.a[1:]])
    if I.o == "load":
        # a value parked in a local array: look at what is stored there
        root = fn.addr(I.a[0])
        d = fn.d(root[0]) if root[0].startswith("%") else None
        if d is not None and d.o == "alloca" and "*" not in root[1:]:
            r = set()
            for J in fn.instrs():
                if J.o == "store" and canon(fn.addr(J.a[1])) == canon(root):
                    v2 = fn.strip(J.a[0]) if isinstance(J.a[0], str) else J.a[0]
                    if isinstance(v2, str) and isinstance(J.a[0], str) and fn.d(J.a[0]) is not None and fn.d(J.a[0]).o == "ptrtoint" and h.struct_of(fn, v2) in h.gc_structs: r.add("heap")
                    else: r |= origins(fn, J.a[0], m, h, depth, seen)
            return r | {"load"}
        return {"load"}
    if I.o in ("call", "invoke"):
        n = I.cname() or ""
        if n == "gc_alloc": return {"heap"}
        if n in ("malloc", "calloc", "realloc") or n.startswith("operator new"): return {"malloc"}
        c = I.callee()
        if c in m.funcs and depth < 3:
            g = m.funcs[c]; r = set()
            for R in g.rets():
                if R.a: r |= origins(g, R.a[0], m, h, depth + 1)
            return r or {"call"}
        return {"call"}
    return {"?"}

def run(ctx):
    m = ctx.helpers(); h = Heap(m); F = []; samples = []
    if len(h.gc_structs) < 15: raise Broken("only %d heap structures" % len(h.gc_structs))
    heapptr = lambda fn, v: isinstance(v, str) and h.struct_of(fn, v) in h.gc_structs
    # ---- registrations and the functions that run unconditionally at start-up
    regs = {}
    regfn = next((f for f in m.funcs.values() if f.name == "gc_register_root"), None)
    if regfn is None: raise Broken("gc_register_root not found")
    for I in m.callers(regfn.key):
        p = I.fn.addr(I.a[0])
        if p[0].startswith("@"): regs.setdefault((p[0], tuple(p[1:])), []).append(I)
        else: F.append(Finding("unresolved-root", I.srcfn, "gc_register_root is given an address that is not a variable", I.loc))
    if len(regs) < 15: raise Broken("only %d registered roots found" % len(regs))
    init = next((f for f in m.funcs.values() if f.name == "init_scm"), None)
    if init is None: raise Broken("init_scm not found")
    always = set(); work = [init]
    while work:
        f = work.pop()
        if f.key in always: continue
        always.add(f.key)
        rets = f.rets()
        for I in f.calls():
            c = I.callee()
            if c in m.funcs and rets and all(f.dominates(I, R) for R in rets): work.append(m.funcs[c])
    # ---- collector: what it scans by itself
    gc = m.byname["run_gc"][0] if m.byname.get("run_gc") else None
    if gc is None: raise Broken("run_gc not found")
    reach = [m.funcs[k] for k in m.reach([gc.key]) if k in m.funcs]
    pushers = {f.key for f in reach if any((I.cname() or "").endswith("::push_back") for I in f.calls())}
    for _ in range(4):
        for f in reach:
            if f.key in pushers or len(f.params) == 0: continue
            for I in f.calls():
                if I.callee() in pushers and any(isinstance(a, str) and any(x[0].startswith("$") for x in Paths(f).of(a)) for a in I.a[:1]): pushers.add(f.key)
    scanned = {}     # global -> [(access path, call, fn)]
    for f in reach:
        P = None
        for I in f.calls():
            if I.callee() in pushers and I.a:
                P = P or Paths(f)
                for p in P.of(I.a[0]):
                    if p[0].startswith("@"): scanned.setdefault(p[0], []).append((p, I, f))
    # 1. the registry loop
    regtab = next((k for k in m.globals if m.gname(k) == "g_root_registry"), None)
    cnt = next((k for k in m.globals if m.gname(k) == "g_num_roots"), None)
    ok = False; why = "no loop pushes the registered roots"
    for p, I, f in scanned.get("@" + str(regtab), []):
        if p[-3:] != ("RootRegistration.ptr", "*", "*"): continue
        P = Paths(f)
        for G in f.instrs():
            if G.o in ("gep", "getelementptr") and f.addr(G.a[0])[0] == "@" + regtab or (G.o in ("gep", "getelementptr") and G.a[0] == "@" + regtab):
                ix = [e[0] for e in G.path if isinstance(e, list)]
                if not ix: continue
                v = array_cover(f, P, ix[-1], (("@" + cnt, "*"),), G)
                if v in ("ok", "unknown"): ok = True      # loop shapes that are not recognised are not reported
                else: why = v
        # inside the loop the push may only be skipped when the slot or the root is null
        if ok:
            heads = [t for (_, t) in back_edges(f) if I.bb in loop_blocks(f, t)]
            for hd in heads:
                w = _skips(f, P, hd, lambda J: J is I, regtab)
                if w: ok = False; why = "registered roots are skipped on this path"
    if not ok: F.append(Finding("root-scan", "roots", "the collector does not scan every registered root: " + why, gc.loc if hasattr(gc, "loc") else gc.file))
    # gc_register_root stores the slot and counts it
    good = False
    st = [I for I in regfn.instrs() if I.o == "store"]
    slot = [I for I in st if I.a[0] == "$0" and "RootRegistration.ptr" in regfn.addr(I.a[1])]
    inc = [I for I in st if I.a[1] == "@" + cnt]
    if slot and inc and (_must_follow(regfn, slot[0], inc[0]) or regfn.dominates(inc[0], slot[0])):
        d = regfn.d(inc[0].a[0])
        if d is not None and d.o == "add" and d.a[1] == 1: good = True
    if not good: F.append(Finding("root-registration", "gc_register_root", "registering a root does not record its address and count it", regfn.file + ":%d" % regfn.line))
    # 2. stack scan
    top = None; stackok = False; why = "no loop pushes the words between a local variable and the recorded stack top"
    for f in reach:
        tops = [I for I in f.instrs() if I.o == "load" and isinstance(I.a[0], str) and I.a[0].startswith("@") and m.globals.get(I.a[0][1:], {}).get("pointee") == "char" and I.a[0][1:] not in ("g_heap_start", "g_heap_end")]
        for I in f.calls():
            if I.callee() not in pushers or not I.a: continue
            ld = f.d(I.a[0])
            if ld is None or ld.o != "load": continue
            b = f.d(f.strip(ld.a[0]))
            if b is None or b.o != "phi": continue
            og = _leaves(f, "%%%d" % b.i)
            hasl = any(f.d(x) is not None and f.d(x).o == "alloca" for x in og)
            gl = [T for T in tops if "%%%d" % T.i in og]
            if not (hasl and gl): continue
            top = gl[0].a[0]
            step = [x for x in b.a if f.d(x) is not None and f.d(x).o in ("gep", "getelementptr") and f.d(x).a[0] == "%%%d" % b.i]
            s = f.d(step[0]).path[-1][0] if step and f.d(step[0]).path else None
            if isinstance(s, int) and f.d(step[0]).sz and len(f.d(step[0]).path) == 1: s *= f.d(step[0]).sz
            cmpo = [u for u in f.users("%%%d" % b.i) if u.o == "icmp"]
            if s == 8 and any(u.p in ("ult", "ule", "ne", "ugt", "uge") for u in cmpo):
                w = _skips(f, Paths(f), b.bb, lambda J: J is I, regtab)
                if w: why = "words of the stack are skipped"
                else: stackok = True
            else: why = "the stack is scanned in steps of %s" % s
    if not stackok: F.append(Finding("stack-scan", "stack", "the collector does not scan the whole C stack: " + why, gc.file))
    # 3. registers
    regok = False
    for f in reach:
        bufs = {I.a[0] for I in f.calls() if (I.cname() or "") in ("_setjmp", "setjmp", "__sigsetjmp") and I.a}
        for b in bufs:
            root = f.addr(b)[0]
            for I in f.calls():
                if I.callee() in pushers and I.a:
                    ld = f.d(I.a[0])
                    if ld is not None and ld.o == "load" and f.addr(ld.a[0])[0] == root: regok = True
    if not regok: F.append(Finding("register-scan", "registers", "values held only in machine registers are not scanned", gc.file))
    # 4. the stack top is recorded before anything can be collected, and lies above every frame holding references
    marker_fns = [f for f in m.funcs.values() if any(I.o == "store" and I.a[1] == top for I in f.instrs())] if top else []
    alloc_reach = m.can_reach([k for k in m.funcs if m.funcs[k].name == "run_gc"], indirect=True)
    inits = [I for f in m.funcs.values() if f.key in always for I in f.instrs() if I.o == "store" and I.a[1] == top] if top else []
    first = False
    for f in marker_fns:
        if f.key in always:
            for I in f.instrs():
                if I.o == "store" and I.a[1] == top and any(x in ("call", "load", "param", "?") for x in origins(f, I.a[0], m, h)): first = True
    if top and not first: F.append(Finding("no-stack-marker", "pscm_init", "initialising the library records no stack top, so an embedding program's stack is not scanned", init.file + ":%d" % init.line))
    for f in m.funcs.values():
        for I in f.calls():
            if I.callee() in {x.key for x in marker_fns} and I.a and isinstance(I.a[0], str):
                d = f.d(I.a[0])
                if d is not None and d.o == "alloca":
                    held = [J for J in f.instrs() if heapptr(f, "%%%d" % J.i) and J.o in ("call", "invoke", "load", "phi")]
                    live = [J for J in held if any(K.callee() in alloc_reach and f.dominates(J, K) for K in f.calls() if K is not J)]
                    if live: F.append(Finding("marker-below-references", f.name, "the stack marker is a local of a frame that itself holds heap references", I.loc))
    # ---- globals
    nglob = nplace = 0
    for k, g in sorted(m.globals.items()):
        if g.get("const") or g.get("decl"): continue
        if k.startswith((".str", "_ZTV", "_ZTI", "_ZTS", "__")): continue
        nglob += 1
        base = "@" + k
        T = g.get("type", "")
        direct = g.get("pointee") in h.gc_structs
        ptrto = holds(m, h, g.get("pointee", "").rstrip("*"))
        elem = T.split("[")[0]
        arrptr = pointee(elem) if "[" in T else ""
        inner = (elem in m.structs and elem not in h.gc_structs and holds(m, h, elem)) or elem in h.gc_structs
        stores = []
        for f in m.funcs.values():
            for I in f.instrs():
                if I.o == "store":
                    p = f.addr(I.a[1])
                    if p[0] == base and "*" not in p[1:]: stores.append((f, I, p))
        hs = []
        for f, I, p in stores:
            if I.a[0] is None: continue
            og = origins(f, I.a[0], m, h)
            v = f.strip(I.a[0]) if isinstance(I.a[0], str) else I.a[0]
            isheap = heapptr(f, v) or "heap" in og
            if isheap and og <= {"stack", "null", "global"}: continue
            if isheap or ((direct or arrptr in h.gc_structs) and not og <= {"stack", "null", "global", "const"}): hs.append((f, I, p))
            elif (ptrto or holds(m, h, arrptr)) and not og <= {"stack", "null", "global", "load"}:
                F.append(Finding("hidden-holder", m.gname(k), "points to an object outside the stack which holds heap references the collector does not scan", I.loc))
        if not hs and not direct: continue
        if not hs: continue
        nplace += 1
        for f, I, p in hs:
            steps = tuple(x for x in p[1:])
            r = [x for (b2, s2), L in regs.items() if b2 == base and canon(s2) == canon(steps) and _same_elems(s2, steps, g, L, m) for x in L]
            if base in scanned and any(canon(sp)[:1 + len(steps)] == canon((base,) + steps) for sp, _, _ in scanned[base]): continue
            if not r:
                F.append(Finding("unregistered-root", m.gname(k), "holds a heap reference (stored here) but is not a registered root", I.loc)); break
            if not any(x.fn.key in always and _every_run(x) for x in r):
                # registered where it is first stored: on every path from the store to the return of that function
                if g.get("local") or True:
                    ok = False
                    for x in r:
                        if x.fn is f and (f.dominates(x, I) or _must_follow(f, I, x)): ok = True
                    if not ok:
                        F.append(Finding("root-registered-too-late", m.gname(k), "a reference is stored here on a path that never registers the root", I.loc)); break
        else:
            if len(samples) < 6: samples.append("%s: registered or scanned" % m.gname(k))
        pass
    # ---- variables that are themselves heap structures (the global environment): nothing else leads to what they hold
    for k, g in sorted(m.globals.items()):
        if g.get("const") or g.get("decl") or g.get("type") not in h.gc_structs: continue
        for fl, kind in h.refs(g["type"]):
            if not kind.startswith("inner:"): continue
            N = kind[6:]; link = [x["name"] for x in m.structs[N]["fields"] if x["pointee"] == N]
            for x in m.structs[N]["fields"]:
                E = x["pointee"]
                if E not in m.structs or E == N or not link: continue
                for y in m.structs[E]["fields"]:
                    if y["pointee"] not in h.gc_structs: continue
                    want = canon(("@" + k, "%s.%s" % (g["type"], fl), "%s.%s" % (N, link[0]), "*", "%s.%s" % (N, x["name"]), "*", "%s.%s" % (E, y["name"]), "*"))
                    nplace += 1
                    alt = (want[0],) + want[2:]      # a constant address carries no step for the embedded node
                    if not {want, alt} & {canon(p) for p, _, _ in scanned.get("@" + k, [])}:
                        F.append(Finding("unscanned-global-object", m.gname(k), "the references held by %s are not scanned by the collector" % m.gname(k), gc.file))
    # ---- memory outside the collected heap
    nmem = 0
    for f in m.funcs.values():
        if f.file.endswith("gc.cc"): continue
        for I in f.calls():
            n = I.cname() or ""
            if "std::vector<SCM" in n or "std::map<" in n and "SCM" in n or "std::unordered_map" in n and "SCM" in n or "std::deque<SCM" in n or "std::list<SCM" in n:
                F.append(Finding("references-outside-heap", I.srcfn, "heap references are kept in a container the collector does not scan", I.loc)); continue
            if not (n in ("malloc", "calloc") or n.startswith("operator new")): continue
            nmem += 1
            me = "%%%d" % I.i
            held = [J for J in f.instrs() if J.o == "store" and heapptr(f, J.a[0]) and me in _bases(f, J.a[1])]
            if not held: continue
            if _linked(f, me, m, h, set()): continue
            # harmful only if something can be collected while the references are there
            L = [J for J in f.calls() if (J.callee() in alloc_reach or J.callee() is None) and any(_may_follow(f, x, J) for x in held)]
            if L: F.append(Finding("references-outside-heap", f.name, "heap references stored in memory the collector does not scan while other code can run", held[0].loc, [held[0].loc, L[0].loc]))
    if nglob < 30 or nplace < 15: raise Broken("only %d globals / %d holding references found" % (nglob, nplace))
    return {"findings": F, "coverage": {
        "explanation": "Every writable variable (function statics and table entries included) into which a heap reference is stored must be a registered root, registered on every start-up path or on every path from the first store, or be scanned explicitly by the collector; every raw allocation that receives heap references must be linked into a traced object; the root, stack and register scans must reach a push for every slot. Rule applied to SSA of the current source.",
        "globals": nglob, "reference_holding_globals": nplace, "registrations": sum(len(v) for v in regs.values()), "raw_allocations": nmem, "unconditional_init_functions": len(always), "samples": samples}}

def _every_run(x):
    f = x.fn; rets = f.rets()
    if all(f.dominates(x, R) for R in rets): return True
    heads = {t for (_, t) in back_edges(f) if x.bb in loop_blocks(f, t)}
    return any(all(f.dominates(f.blocks[hd][0], R) for R in rets) for hd in heads)

def _same_elems(s2, steps, g, L, m):
    """do the registered elements of a table include the ones stored to?"""
    i2 = [x for x in s2 if x.startswith("[")]; i1 = [x for x in steps if x.startswith("[")]
    if not i2 and not i1: return True
    if i2 == i1 and "[]" not in i2: return True
    n = int(g.get("type", "").split("[")[1].rstrip("]")) if "[" in g.get("type", "") else None
    for I in L:      # registered in a loop over the whole table
        f = I.fn; d = f.d(I.a[0])
        while d is not None and d.o in ("gep", "getelementptr"):
            ix = [e[0] for e in d.path if isinstance(e, list)]
            for x in ix:
                p = f.d(f.strip(x))
                if p is None or p.o != "phi" or n is None: continue
                for u in f.users("%%%d" % p.i):
                    for c in [u] + (f.users("%%%d" % u.i) if u.o in ("sext", "zext") else []):
                        if c.o == "icmp" and n in c.a and 0 in p.a: return True
            d = f.d(d.a[0])
    return False

def _leaves(f, v, seen=None):
    seen = seen if seen is not None else set()
    if not isinstance(v, str) or v in seen: return seen
    seen.add(v)
    I = f.d(v)
    if I is not None and I.o not in ("load", "alloca", "call", "invoke"):
        for x in I.a: _leaves(f, x, seen)
    return seen

def _bases(f, v):
    """allocation results a store address is built from"""
    out = set(); st = [v]; seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, str) or x in seen: continue
        seen.add(x); I = f.d(x)
        if I is None: continue
        if I.o in ("gep", "getelementptr", "bitcast", "phi"): st += I.a[:1] if I.o != "phi" else I.a
        elif I.o == "select": st += I.a[1:]
        else: out.add(x)
    return out

def _linked(f, me, m, h, seen):
    """is the memory stored into a field of a heap object (or into memory that is)?"""
    if me in seen: return False
    seen.add(me)
    al = {me}
    for I in f.instrs():
        if I.o in ("bitcast", "phi") and any(x in al for x in I.a): al.add("%%%d" % I.i)
    for I in f.instrs():
        if I.o == "store" and I.a[0] in al:
            p = f.addr(I.a[1])
            fields = [x for x in p if "." in x and not x.startswith(("@", "%", "$"))]
            if fields:
                S = fields[-1].rsplit(".", 1)[0]
                if any(x.rsplit(".", 1)[0] in h.gc_structs for x in fields): return True
                for b in _bases(f, I.a[1]):
                    d = f.d(b)
                    if d is not None and d.o in ("call", "invoke") and _linked(f, b, m, h, seen): return True
                    if d is not None and d.o in ("call", "invoke") and h.struct_of(f, b) in h.gc_structs: return True
            b = _bases(f, I.a[1])
            for x in b:
                if h.struct_of(f, x) in h.gc_structs: return True
        if I.o == "ret" and I.a and I.a[0] in al: return True
    return False

def _may_follow(f, a, b):
    if a.bb == b.bb and b.pos > a.pos: return True
    seen = set(); st = list(f.succ[a.bb])
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x == b.bb: return True
        st += f.succ[x]
    return False

def _must_follow(f, a, b):
    """every path from a to a return passes b"""
    if a.bb == b.bb and b.pos > a.pos: return True
    seen = set(); st = [a.bb]
    if f.blocks[a.bb][-1].o == "ret": return False
    st = list(f.succ[a.bb])
    while st:
        x = st.pop()
        if x in seen or x == b.bb: continue
        seen.add(x)
        if f.blocks[x][-1].o == "ret": return False
        st += f.succ[x]
    return True

def _skips(f, P, head, sink, regtab):
    """one iteration from the loop head back to it without reaching the sink, except over null tests"""
    body = loop_blocks(f, head); back = back_edges(f)
    seen = {head}; q = [head]
    while q:
        b = q.pop()
        if any(sink(I) for I in f.blocks[b]): continue
        T = f.blocks[b][-1]
        for k, t in enumerate(f.succ[b]):
            if t not in body: continue
            if T.o == "br" and T.a:
                c = f.d(T.a[0])
                if c is not None and c.o == "icmp" and c.p in ("eq", "ne") and None in (c.a[0], c.a[1]):
                    if k == (0 if c.p == "eq" else 1): continue
            if (b, t) in back and t == head: return True
            if t not in seen: seen.add(t); q.append(t)
    return False
