"""P01: every reference a heap object holds is traced, no value type is skipped, and tracing marks and pushes."""
from check_api import Finding, Broken
from rules.heap import Heap
from rules.marking import Marker, array_cover, canon

def table(m, name):
    """index -> function key, from the initialiser and from stores of functions into the global table `name`"""
    out = {}
    g = m.globals.get(name)
    if g is None: raise Broken("table %s not found" % name)
    ini = g.get("init")
    if isinstance(ini, dict) and "array" in ini:
        for i, x in enumerate(ini["array"]):
            if isinstance(x, str): out[i] = x[1:]
    n = 0
    for I in m.all_instrs():
        if I.o != "store": continue
        a = I.a[1]; idx = None
        if a == "@" + name: idx = 0
        elif isinstance(a, dict) and a.get("g") == "@" + name:
            # bytes or elements
            p = a["path"]
            if len(p) == 1 and isinstance(p[0], list) and isinstance(p[0][0], int): idx = p[0][0]
        else:
            d = I.fn.d(a)
            if d is not None and d.o in ("gep", "getelementptr") and d.a[0] == "@" + name and d.path and isinstance(d.path[-1], list): idx = d.path[-1][0]
        if idx is None: continue
        if isinstance(idx, int) and isinstance(I.a[0], str) and I.a[0].startswith("@"): out[idx] = I.a[0][1:]; n += 1
    return out

def raw_state(m, S):
    """fields of S that a function which saves an execution state (setjmp) copies the stack or the registers into"""
    out = set()
    for f in m.funcs.values():
        sj = [I for I in f.calls() if (I.cname() or "") in ("_setjmp", "setjmp", "__sigsetjmp", "sigsetjmp")]
        if not sj: continue
        for I in sj:
            for x in f.addr(I.a[0]):
                if x.startswith(S + "."): out.add(x.rsplit(".", 1)[1])
        for I in f.calls():
            if (I.cname() or "").startswith(("llvm.memcpy", "memcpy")):
                for x in f.addr(I.a[0])[-2:]:
                    if x.startswith(S + "."): out.add(x.rsplit(".", 1)[1])
    return sorted(out)

def run(ctx):
    m = ctx.helpers(); h = Heap(m)
    if len(h.alloc) < 40 or len(h.tag_struct) < 15: raise Broken("only %d allocation sites / %d kinds found" % (len(h.alloc), len(h.tag_struct)))
    tname = next((k for k in m.globals if m.gname(k) == "trace_fns"), None)
    if not tname: raise Broken("trace table not found")
    tr = table(m, tname)
    if len(tr) < 10: raise Broken("only %d tracers found in the trace table" % len(tr))
    F, mk = [], Marker(m)
    refs_checked, samples, undecided = 0, [], []
    for t, S in sorted(h.tag_struct.items()):
        refs = h.refs(S)
        want = []
        for f, kind in refs:
            if kind == "ptr": want.append((f, ("%s.%s" % (S, f), "*"), ()))
            elif kind == "array":
                cf = h.lengths().get((S, f))
                if not cf: raise Broken("no field recording the length of %s.%s found" % (S, f))
                lens = tuple(("%s.%s" % (S, x), "*") for x in sorted(cf))
                want.append((f + "[]", ("%s.%s" % (S, f), "*", "*"), lens))
            elif kind.startswith("inner:"):
                # list of bindings: entries reached by following the link field of the embedded node
                N = kind[6:]
                link = [x["name"] for x in m.structs[N]["fields"] if x["pointee"] == N]
                for x in m.structs[N]["fields"]:
                    E = x["pointee"]
                    if E in m.structs and E != N:
                        for y in m.structs[E]["fields"]:
                            if y["pointee"] in h.gc_structs and link:
                                want.append(("%s..%s" % (f, y["name"]), ("%s.%s" % (S, f), "%s.%s" % (N, link[0]), "*", "%s.%s" % (N, x["name"]), "*", "%s.%s" % (E, y["name"]), "*"), ()))
        # saved machine state: a copy of the C stack or of the registers refers to heap objects too
        for f in raw_state(m, S):
            x = m.field(S, f)
            ints = tuple(("%s.%s" % (S, y["name"]), "*") for y in m.structs[S]["fields"] if not y["pointee"] and y["size"] == 8)
            if x["pointee"]: want.append((f + "[] (saved stack)", ("%s.%s" % (S, f), "*", "*"), ints))
            else: want.append((f + " (saved registers)", ("%s.%s" % (S, f), "*"), ints))
        if S == "SCM":
            for T, P in sorted(h.payload.items()):
                want.append(("value when the type is " + h.typename[T], ("SCM.value", "*"), (), T))
        for w in want:
            what, rest, lens = w[0], w[1], w[2]
            T = w[3] if len(w) > 3 else None
            refs_checked += 1
            if t not in tr:
                F.append(Finding("untraced-kind", S, "objects of kind %s hold %s but no tracer is installed for %s" % (S, what, h.tagname[t]))); continue
            fn = m.funcs.get(tr[t])
            if fn is None: raise Broken("tracer %s not found" % tr[t])
            for sink in ("push", "flag"):
                p = mk.covers(fn, 0, rest, sink, T, lens)
                if p is None and not mk.has_sink(fn, sink): p = [fn.file + ":" + str(fn.line)]
                if p is not None:
                    F.append(Finding("untraced-reference", S, "%s of a live %s is not %s on this path through %s" % (what, S, "pushed for tracing" if sink == "push" else "marked", fn.name), p[-1], p)); break
            if lens:
                P = mk.P(fn); verdicts = []
                for I in fn.instrs():
                    if I.o in ("gep", "getelementptr") and canon(("$0",) + rest[:-1]) in {canon(x[:-0] if 0 else x) for x in P.of(I.a[0])}:
                        ix = [e[0] for e in (I.path or []) if isinstance(e, list)]
                        b = fn.d(fn.strip(I.a[0]))
                        if ix and b is not None and b.o == "phi": verdicts.append(("unknown", I))
                        elif ix: verdicts.append((array_cover(fn, P, ix[-1], lens, I), I))
                fl = m.field(S, rest[-2 if len(rest) == 2 else -3].rsplit(".", 1)[1]) if rest else None
                full = "the loop stops at the constant %d" % (fl["size"] // 8) if fl and not fl["pointee"] else None
                if not verdicts and full: F.append(Finding("partly-traced-array", S, "%s: only the first word is visited in %s" % (what, fn.name), fn.file + ":%d" % fn.line))
                verdicts = [("ok" if v == full else v, I) for v, I in verdicts]
                if verdicts and not any(v == "ok" or v == "unknown" for v, _ in verdicts):
                    F.append(Finding("partly-traced-array", S, "%s: %s in %s" % (what, verdicts[0][0], fn.name), verdicts[0][1].loc))
                elif not any(v == "ok" for v, _ in verdicts): undecided.append("%s.%s loop shape not recognised" % (S, what))
            if len(samples) < 6: samples.append("%s %s traced on every path of %s" % (S, what, fn.name))
    # the marking loop dispatches through the table on every block it pops
    mark = m.reach([f.key for f in m.byname.get("run_gc", [])])
    disp = []
    for k in mark:
        f = m.funcs.get(k)
        if not f: continue
        for I in f.calls():
            if I.callee() is None and I.f is not None:
                d = f.d(I.f)
                if d is not None and d.o == "load" and f.addr(d.a[0])[0] == "@" + tname: disp.append(I)
    if not disp: F.append(Finding("no-dispatch", "run_gc", "no call through the trace table is reachable from the collector"))
    # values labelled with a payload that is a heap object must belong to a type the SCM tracer knows: covered above; every label site counted
    if refs_checked < 40: raise Broken("only %d references found" % refs_checked)
    return {"findings": F, "level": "proof" if False else "other", "coverage": {
        "explanation": "For every structure allocated on the collected heap, every field that can refer to a heap object (from debug types) must be pushed and flagged by the tracer installed for its kind on every path of that tracer, the only excuse being that the reference is null or invalid; for SCM values this is decided separately for every type that is ever stored with a heap payload. Rule applied to SSA of the current source.",
        "allocation_sites": len(h.alloc), "kinds": len(h.tag_struct), "references_checked": refs_checked, "label_sites": len(h.labels), "dispatch_sites": len(disp), "tracers": len(tr), "undecided": undecided, "samples": samples}}
