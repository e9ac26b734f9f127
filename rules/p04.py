"""P04: heap cells are allocated and labelled as the kind they are used as."""
from check_api import Finding, Broken
from rules.heap import Heap
from rules.ir import find_path

def run(ctx):
    m = ctx.facts(); h = Heap(m); F = []; samples = []
    if len(h.alloc) < 40 or len(h.tag_struct) < 15: raise Broken("only %d allocation sites / %d kinds found" % (len(h.alloc), len(h.tag_struct)))
    # kind the tracer of each tag reads the block as takes part in the vote
    tag_of = {}
    for t, c in h.tag_votes.items():
        for S, n in c.items(): tag_of.setdefault(S, {}).setdefault(t, 0); tag_of[S][t] += n
    rounds = any(I.o == "and" and any(isinstance(a, int) and a in (-16, (1 << 64) - 16) for a in I.a) for f in m.byname.get("gc_alloc", []) for I in f.instrs())
    nsz = 0
    for I, t, s, S in h.alloc:
        if not isinstance(t, int): F.append(Finding("kind-not-constant", I.srcfn, "allocates a cell whose collector kind is not a constant", I.loc)); continue
        if not S: continue
        want = max(tag_of[S].items(), key=lambda x: x[1])[0]
        own = h.tag_struct[t]
        if want != t or own != S:
            F.append(Finding("wrong-kind", I.srcfn, "a %s is allocated as %s" % (S, h.tagname.get(t, t)), I.loc))
        sz = m.structs[S].get("size")
        if isinstance(s, int) and sz:
            nsz += 1
            if s < sz: F.append(Finding("too-small", I.srcfn, "%d bytes are allocated for a %s of %d bytes" % (s, S, sz), I.loc))
            if s > 128 and s % 16 and not rounds: F.append(Finding("unaligned-cell", I.srcfn, "a cell of %d bytes is larger than the fixed classes and not a multiple of 16: the heap walk loses its place behind it" % s, I.loc))
        elif not isinstance(s, int): F.append(Finding("size-not-constant", I.srcfn, "allocates a cell whose size is not the size of a structure", I.loc))
        if len(samples) < 4: samples.append("%s: %s as %s, %s bytes" % (I.loc, S, h.tagname[t], s))
    # labels
    SCALAR = {"NONE", "NIL", "BOOL", "NUM", "FLOAT", "CHAR"}
    # what code that has tested the type reads the payload as
    reads = {}
    mi = ctx.inlined(); hi = Heap(mi)
    guarded = 0
    for f in mi.funcs.values():
        tests = {}
        for b, blk in enumerate(f.blocks):
            T = blk[-1] if blk else None
            if T is None: continue
            if T.o == "br" and len(f.succ[b]) == 2:
                c = f.d(T.a[0])
                if c is None or c.o != "icmp" or c.p not in ("eq", "ne") or not isinstance(c.a[1], int): continue
                p = f.addr(c.a[0])
                if p[-2:] != ("SCM.type", "*"): continue
                k = 0 if c.p == "eq" else 1
                s = f.succ[b][k]
                if f.pred[s] == [b]: tests.setdefault(s, []).append((p[:-2], c.a[1], c))
            elif T.o == "switch" and T.cases:
                p = f.addr(T.a[0])
                if p[-2:] != ("SCM.type", "*"): continue
                for i, v in enumerate(T.cases):
                    s = f.succ[b][i + 1]
                    if f.pred[s] == [b] and T.cases.count(v) == 1: tests.setdefault(s, []).append((p[:-2], v, T))
        if not tests: continue
        idom = f.dominators()
        for I in f.instrs():
            if I.o != "load": continue
            p = f.addr(I.a[0])
            if p[-1] != "SCM.value": continue
            S = hi.struct_of(f, "%%%d" % I.i)
            if not S or S == "SCM": continue
            x = I.bb; best = None
            while x in idom:
                for base, v, c in tests.get(x, []):
                    if base == p[:-1] and best is None: best = v
                if idom[x] == x or best is not None: break
                x = idom[x]
            if best is not None and best in hi.typename:
                guarded += 1
                reads.setdefault(best, {}).setdefault(S, []).append((I, f))
    payload = {}
    for T in h.typename:
        votes = {}
        for S, n in h.payload_votes.get(T, {}).items(): votes[S] = votes.get(S, 0) + n
        for S, L in reads.get(T, {}).items(): votes[S] = votes.get(S, 0) + len(L)
        if votes: payload[T] = max(votes.items(), key=lambda x: x[1])[0]
    for I, T, S, v in h.labels:
        if T not in payload:
            if S and h.typename.get(T) in SCALAR: F.append(Finding("wrong-label", I.srcfn, "a %s is labelled %s, which carries no object" % (S, h.typename[T]), I.loc))
            continue
        if S and S != payload[T]:
            F.append(Finding("wrong-label", I.srcfn, "a %s is labelled %s, whose payload is a %s" % (S, h.typename.get(T, T), payload[T]), I.loc))
        elif not S and isinstance(v, int) and h.typename.get(T) not in SCALAR and v != 0:
            F.append(Finding("wrong-label", I.srcfn, "a number is labelled %s, whose payload is a %s" % (h.typename.get(T, T), payload[T]), I.loc))
    for T, d in reads.items():
        for S, L in d.items():
            if T in payload and S != payload[T]:
                for I, f in L: F.append(Finding("wrong-payload-read", I.srcfn, "a value tested to be %s, which carries a %s, is used as a %s" % (h.typename[T], payload[T], S), I.loc))
    for S, T in [(S, [T for T in payload if payload[T] == S]) for S in set(payload.values())]:
        if len(T) > 1 and S not in ("SCM",): F.append(Finding("shared-payload", S, "is the payload of several types: %s" % ", ".join(h.typename[x] for x in sorted(T))))
    # every new value is labelled on every path before it leaves the function that made it
    def labels_param(J, k):
        g = m.funcs.get(J.callee())
        if g is None: return (J.cname() or "").startswith(("llvm.memcpy", "memcpy")) and k == 0
        return any(X.o == "store" and g.addr(X.a[1]) == ("$%d" % k, "SCM.type") for X in g.instrs())
    nl = 0
    for I, t, s, S in h.alloc:
        if S != "SCM": continue
        f = I.fn; me = "%%%d" % I.i
        als = {me}; ch = True
        while ch:
            ch = False
            for J in f.instrs():
                if J.o in ("bitcast", "phi", "select") and "%%%d" % J.i not in als and any(f.strip(x) in als for x in J.a if isinstance(x, str)): als.add("%%%d" % J.i); ch = True
        spots = {f.addr(J.a[1]) + ("*",) for J in f.instrs() if J.o == "store" and isinstance(J.a[0], str) and f.strip(J.a[0]) in als and f.addr(J.a[1])[0].startswith("@")}
        for J in f.instrs():
            if J.o == "load" and f.addr("%%%d" % J.i) in spots: als.add("%%%d" % J.i)
        is_label = lambda J: (J.o == "store" and f.addr(J.a[1])[-1:] == ("SCM.type",) and f.d(J.a[1]) is not None and f.strip(f.d(J.a[1]).a[0]) in als) or \
            (J.o in ("call", "invoke") and any(isinstance(a, str) and f.strip(a) in als and labels_param(J, k) for k, a in enumerate(J.a)))
        nl += 1
        w = find_path(f, I.bb, I.pos + 1, lambda J: J.o == "ret" or (J.o in ("call", "invoke") and any(isinstance(a, str) and f.strip(a) in als for a in J.a) and not (J.cname() or "").startswith("llvm.") and not is_label(J)), is_label)
        if w: F.append(Finding("unlabelled-value", I.srcfn, "a new value is handed out without a type on this path", I.loc, w))
    if guarded < 40: raise Broken("only %d type-guarded reads found" % guarded)
    return {"findings": F, "coverage": {
        "explanation": "At every allocation the collector kind and size must be those of the structure stored in the cell (structure from debug types, kind from the agreement of all sites); at every place a value is given a type, the payload stored must be the structure that type carries at all other construction sites and at all reads guarded by a test of that type; every new value is labelled before it is handed out; cells above the fixed size classes keep the heap walk aligned.",
        "allocation_sites": len(h.alloc), "constant_sizes": nsz, "label_sites": len(h.labels), "guarded_reads": guarded, "types_with_payload": len(payload), "new_values": nl, "samples": samples}}
