"""P26: dynamic-wind runs its guards in order, and escapes run those of the extents they leave and enter."""
from check_api import Finding, Broken
from rules.ir import nonreturning, BASE_NR, find_path
from rules.explore import Explorer, TooMany
from rules.p24 import evaluators
from rules import p24

G = "@g_wind_chain"
D, N = "SCM_List.data", "SCM_List.next"

def evaluates(m, I):
    """runs program code and returns (a failed checked cast does not return)"""
    if I.o not in ("call", "invoke"): return False
    n = m.funcs[I.callee()].name if I.callee() in m.funcs else I.cname() or ""
    if n.split("(")[0].split(" ")[-1].startswith(("cast<", "wrap")): return False
    return p24.evaluates(m, I)
class Wind:
    def __init__(self, m):
        self.m = m; self.nr = nonreturning(m); self.memo = {}
        g = [k for k in m.globals if m.gname(k) == "g_wind_chain"]
        if not g: raise Broken("the wind chain was not found")
        self.g = "@" + g[0]
    def stops(self, I):
        return I.o in ("call", "invoke") and (I.callee() in self.nr or I.callee() in self.m._nrbase or I.callee() in BASE_NR)
    def addr(self, f, v):
        """access path through checked casts"""
        if not isinstance(v, str): return ("?",)
        v = f.strip(v); I = f.d(v)
        if I is not None and I.o in ("call", "invoke") and (self.m.funcs[I.callee()].name if I.callee() in self.m.funcs else I.cname() or "").split(" ")[-1].startswith(("cast<", "wrap<", "wrap")) and I.a: return self.addr(f, I.a[0]) + ("cast",)
        a = tuple(f.addr(v))
        if a and isinstance(a[0], str) and a[0].startswith("%") and a[0] != v and len(a) > 1: return self.addr(f, a[0]) + a[1:]
        if a and a[0] == v and I is not None and I.o in ("call", "invoke") and (I.cname() or "") == "": return a
        return a
    def is_head(self, f, v):
        return isinstance(v, str) and tuple(f.addr(f.strip(v))) == (self.g, "*")
    def heads_stores(self, f):
        return [I for I in f.instrs() if I.o == "store" and tuple(f.addr(I.a[1])) == (self.g,)]
    # ---- what a freshly made list cell holds
    def fresh(self, f, v):
        I = f.d(f.strip(v)) if isinstance(v, str) else None
        return I if I is not None and I.o in ("call", "invoke") and ((I.cname() or "").split("(")[0] in ("make_list", "make_list_dotted") or (I.cname() or "") == "gc_alloc") else None
    def cell(self, f, v, field):
        """value of a field of a fresh cell"""
        I = self.fresh(f, v)
        if I is None: return None
        me = "%%%d" % I.i; val = None
        if field == D and (I.cname() or "").split("(")[0].startswith("make_list") and I.a: val = I.a[0]
        for J in f.instrs():
            if J.o == "store":
                a = tuple(f.addr(J.a[1]))
                if a == (me, field): val = J.a[0]
        return val
    def entry_values(self, f, node):
        """(in guard, out guard) of the record a fresh chain node carries"""
        e = self.cell(f, node, D)
        I = f.d(f.strip(e)) if isinstance(e, str) else None
        while I is not None and I.o in ("call", "invoke") and I.a and not self.fresh(f, "%%%d" % I.i): e = I.a[0]; I = f.d(f.strip(e)) if isinstance(e, str) else None
        if I is None or not self.fresh(f, e): return None
        nx = self.cell(f, e, N)
        return self.cell(f, e, D), self.cell(f, nx, D) if nx is not None else None
    def arg_of(self, f, I):
        """the procedures a call that runs program code is given"""
        return [self.addr(f, a) for a in I.a if isinstance(a, str)]
    def walkers(self, f):
        """{phi: (initial value, step load)} of pointers that follow next"""
        out = {}
        for I in f.instrs():
            if I.o != "phi": continue
            me = "%%%d" % I.i; init = []; step = []
            for v, b in zip(I.a, I.b):
                if isinstance(v, str) and tuple(f.addr(f.strip(v))) == (me, N, "*"): step.append((v, b))
                elif isinstance(v, str) and f.strip(v) == me: pass
                else: init.append(v)
            if step and len(init) == 1: out[me] = (init[0], step, I)
        return out
    def member_tests(self, f):
        """[(walker, compare)] where every element is compared before the walker moves on"""
        out = []
        for w, (init, step, P) in self.walkers(f).items():
            for C in f.instrs():
                if C.o != "icmp" or C.p not in ("eq", "ne"): continue
                a = [f.strip(x) if isinstance(x, str) else x for x in C.a]
                if w not in a: continue
                o = a[1 - a.index(w)]
                if o is None: continue
                if all(not passes_without(f, P.bb, b, P, C) for v, b in step): out.append((w, init, C, o))
        return out
    def member_pred(self, g):
        """(chain parameter, node parameter) when g tells whether a node is in a chain"""
        if g.key in self.memo: return self.memo[g.key]
        self.memo[g.key] = None
        for w, init, C, o in self.member_tests(g):
            if not (isinstance(init, str) and init.startswith("$") and isinstance(o, str) and o.startswith("$")): continue
            ex = Explorer(g, cap=3000); ok = [True, 0]
            def visit(I, st):
                if I.o == "ret" and I.a:
                    t = ex.truth(I.a[0], st); ok[1] += 1
                    eq = ex.truth("%%%d" % C.i, st)
                    if eq is not None and C.p == "ne": eq = not eq
                    if t is True and eq is True or t is False and ex.null(w, st) is True: pass
                    else: ok[0] = False
                return st
            try: ex.run(0, visit)
            except TooMany: continue
            if ok[0] and ok[1]: self.memo[g.key] = (int(init[1:]), int(o[1:])); break
        return self.memo[g.key]

def passes_without(f, b0, bend, P, C):
    """a path from the phi's block to the end of block bend that misses C"""
    seen = set(); work = [b0]
    while work:
        b = work.pop()
        if b in seen: continue
        seen.add(b)
        if C.bb == b: continue
        if b == bend: return True
        work += [s for s in f.succ[b] if s != b0]
    return False

class Keep(Explorer):
    def __init__(self, W, fn, stops, names, cap=60000):
        Explorer.__init__(self, fn, stops, cap=cap); self.W = W; self.names = names
    def relevant(self, k, live):
        if k[0] in ("q", "e"): return True
        if any(x in self.names for x in k[1:] if isinstance(x, str)): return True
        return Explorer.relevant(self, k, live)

def run(ctx):
    m = ctx.helpers(); W = Wind(m); F = []; seen = set(); n = {"creators": 0, "unwinders": 0, "rewinders": 0, "paths": 0}
    def add(rule, where, what, loc, path=None):
        if (rule, loc, what) in seen: return
        seen.add((rule, loc, what)); F.append(Finding(rule, where, what, loc, path or [loc]))
    touch = [f for f in m.funcs.values() if W.heads_stores(f)]
    if len(touch) < 3: raise Broken("only %d functions change the wind chain" % len(touch))
    gfields = {"in": (D, "*"), "out": (N, "*", D, "*")}
    unwinders, rewinders = {}, {}
    for f in touch:
        st = W.heads_stores(f); kind = {}
        ws = W.walkers(f)
        for S in st:
            v = S.a[0]; a = tuple(f.addr(f.strip(v))) if isinstance(v, str) else ()
            if a == (W.g, "*", N, "*"): kind[S] = "pop"
            elif W.fresh(f, v): kind[S] = "push"
            elif W.is_head(f, v): kind[S] = "restore"
            elif isinstance(v, str) and enters(W, f, v): kind[S] = "enter"
            elif f.name.startswith(("gc_", "init")) : kind[S] = "other"
            else: kind[S] = "other"; add("chain-set", S.srcfn, "the wind chain is set to something that is neither its rest, a new record on top of it, nor the next record to enter", S.loc)
        ks = set(kind.values())
        if "push" in ks: n["creators"] += 1; creator(W, f, kind, add, n)
        elif "restore" in ks: pass
        if "pop" in ks and "push" not in ks: n["unwinders"] += 1; unwinders[f.key] = unwinder(W, f, kind, add, n)
        if "enter" in ks: n["rewinders"] += 1; rewinders[f.key] = rewinder(W, f, kind, add, n)
    if not n["creators"]: raise Broken("no function enters a dynamic wind")
    if not n["unwinders"] and not F: raise Broken("no function leaves dynamic winds")
    if not n["rewinders"] and not F: raise Broken("no function enters the winds of a continuation")
    # ---- the jumping side
    saved = {}
    for I in m.all_instrs():
        if I.o == "store" and W.is_head(I.fn, I.a[0]):
            a = tuple(I.fn.addr(I.a[1]))
            if a[-1] != W.g and not a[-1].startswith("SCM_List."): saved.setdefault(a[-1], []).append(I)
    jumps = [I for I in m.all_instrs() if I.o in ("call", "invoke") and (I.cname() or "") in ("longjmp", "_longjmp", "siglongjmp")]
    if not jumps: raise Broken("no jump was found")
    nj = 0
    def isrun(I, table, f):
        c = I.callee() if I.o in ("call", "invoke") else None
        if c not in table: return False
        k = table[c]
        if k is None or k >= len(I.a): return False
        a = f.addr(f.strip(I.a[k])) if isinstance(I.a[k], str) else ("?",)
        return a[-1] == "*" and len(a) > 1 and a[-2] in saved
    def must(f, I, need, depth, done, tr):
        """is there a path to I, from whoever calls, that skips what has to run"""
        hit = lambda J: isrun(J, need, f)
        w = find_path(f, 0, 0, lambda J: J is I, lambda J: hit(J) or W.stops(J) and J is not I)
        if not w: return None
        callers = [C for C in m.all_instrs() if C.o in ("call", "invoke") and C.callee() == f.key]
        if not callers or depth > 6: return w + tr
        for C in callers:
            if (C.fn.key, C.i) in done: continue
            done.add((C.fn.key, C.i))
            r = must(C.fn, C, need, depth + 1, done, w + tr)
            if r: return r
        return None
    for I in jumps:
        f = I.fn; nj += 1
        w = must(f, I, unwinders, 0, set(), [])
        if w: add("not-left", I.srcfn, "a jump is taken on this path without leaving the dynamic winds its target is not in", I.loc, w)
        a = f.addr(f.strip(I.a[0]))
        if any(isinstance(x, str) and x.startswith("SCM_Continuation.") for x in a):
            w = must(f, I, rewinders, 0, set(), [])
            if w: add("not-entered", I.srcfn, "a continuation is resumed on this path without entering the dynamic winds it is in", I.loc, w)
            # leaving comes first
            for g in m.funcs.values():
                for R in g.calls():
                    if not isrun(R, rewinders, g): continue
                    w = find_path(g, R.bb, R.pos + 1, lambda J: isrun(J, unwinders, g), lambda J: False)
                    if w and not find_path(g, 0, 0, lambda J: J is R, lambda J: isrun(J, unwinders, g)) is None: add("order", R.srcfn, "the winds of the target are entered before those it is not in have been left", R.loc, w)
                    w = find_path(g, 0, 0, lambda J: J is R, lambda J: isrun(J, unwinders, g))
                    if w: add("order", R.srcfn, "the winds of the target are entered before those it is not in have been left", R.loc, w)
    if not saved: raise Broken("no jump target records the wind chain")
    return {"findings": F, "level": "other", "coverage": {"explanation": "Typestate of the wind chain over the control-flow graph (helpers folded in): dynamic-wind calls the entry guard, puts the record (entry guard, exit guard) on top of the chain, runs the body, removes the record and calls the exit guard, in that order and once each on every returning path, and yields the body's value; leaving takes the innermost record off before running its own exit guard, only when a complete search of the target chain did not find it, and stops only when it is found or none is left; entering runs the entry guard of the record whose rest is the current chain and then makes it current, until the target is reached; every jump is preceded by leaving, and for continuations by leaving and then entering, the chain its target recorded.",
        "functions_changing_the_chain": len(touch), "jumps": nj, "recorded_in": sorted(saved), **n}}

def enters(W, f, v):
    """tests that the rest of v is the current chain"""
    v = f.strip(v); out = []
    for C in f.instrs():
        if C.o == "icmp" and C.p in ("eq", "ne"):
            for x, y in ((0, 1), (1, 0)):
                if isinstance(C.a[x], str) and isinstance(C.a[y], str) and tuple(f.addr(f.strip(C.a[x]))) == (v, N, "*") and W.is_head(f, C.a[y]): out.append(C)
    return out

def creator(W, f, kind, add, n):
    m = W.m
    for S in [s for s, k in kind.items() if k == "push"]:
        node = S.a[0]
        nx = W.cell(f, node, N)
        if not W.is_head(f, nx): add("record-link", S.srcfn, "the new record is not put on top of the current chain", S.loc)
        ev = W.entry_values(f, node)
        if not ev or ev[0] is None or ev[1] is None: add("record-content", S.srcfn, "the new record does not hold an entry and an exit guard", S.loc); continue
        vin, vout = (W.addr(f, x) for x in ev)
        def calls_on(v): return [I for I in f.calls() if evaluates(m, I) and not W.stops(I) and any(strip_cast(a) == v for a in W.arg_of(f, I))]
        gin, gout = calls_on(vin), calls_on(vout)
        gi, go = {I.i for I in gin}, {I.i for I in gout}
        ex = Keep(W, f, W.stops, set()); results = []
        if gi & go: add("record-content", S.srcfn, "entry and exit guard of the record are the same value", S.loc); continue
        def visit(I, st):
            e = st.get(("e",), "")
            if I.o in ("call", "invoke") and evaluates(m, I):
                c = "i" if I.i in gi else "o" if I.i in go else "b"
                if c == "b" and not ("P" in e and "R" not in e) and not is_proc_call(W, f, I, (vin, vout)): return st      # evaluating the arguments
                st = dict(st); st[("e",)] = e + c
                if c == "b": st[("q",)] = "%%%d" % I.i
            elif I.o == "store" and I in kind:
                st = dict(st); st[("e",)] = e + {"push": "P", "restore": "R", "pop": "R", "enter": "E"}.get(kind[I], "X")
            elif I.o == "ret":
                n["paths"] += 1; results.append((e, st.get(("q",)), I, ex.trail))
            if len(st.get(("e",), "")) > 12: return None
            return st
        try: ex.run(0, visit)
        except TooMany: raise Broken("dynamic-wind has too many paths")
        for e, q, I, tr in results:
            if e != "iPbRo":
                what = {"i": "entry guard", "P": "record added", "b": "body", "R": "record removed", "o": "exit guard"}
                add("guard-order", f.name, "on this path dynamic-wind does: %s (expected: entry guard, record added, body, record removed, exit guard)" % (", ".join(what.get(c, "?") for c in e) or "nothing"), I.loc, list(tr) + [I.loc])
            elif not I.a or f.strip(I.a[0]) != q: add("wrong-value", f.name, "dynamic-wind does not yield the value of the body", I.loc, list(tr) + [I.loc])
        # which argument plays which part
        ds = [depth(W, f, x) for x in (vin, vout)]
        if None not in ds and not ds[0] < ds[1]: add("wrong-argument", f.name, "the guards are taken from the wrong arguments", S.loc)
        for x in {r[1] for r in results if r[1]}:
            I = f.d(x)
            db = [depth(W, f, strip_cast(a)) for a in W.arg_of(f, I) if a[-1:] == ("cast",)]
            db = [d for d in db if d is not None]
            if None not in ds and db and not ds[0] < max(db) < ds[1]: add("wrong-argument", f.name, "the body is taken from the wrong argument", I.loc)

def is_proc_call(W, f, I, vs):
    """a call that is handed a procedure (not an expression to evaluate)"""
    return any(a[-1:] == ("cast",) for a in W.arg_of(f, I)) and not any("SCM_List" in str(x) for a in W.arg_of(f, I) for x in a)
def strip_cast(a):
    while a[-1:] == ("cast",): a = a[:-1]
    return a
def depth(W, f, a):
    """position of the argument a value was computed from"""
    I = f.d(a[0]) if len(a) == 1 and isinstance(a[0], str) else None
    if I is not None and I.o in ("call", "invoke"):
        for x in I.a:
            p = tuple(f.addr(f.strip(x))) if isinstance(x, str) else ()
            if p and p[0].startswith("$") and p[-2:-1] == (D,): return p.count(N)
        return None
    if a and a[0].startswith("$"): return 100 + int(a[0][1:]) if len(a) == 1 else a.count(N)
    return None

def entry_null(W, f, root):
    """edges on which part of a record is missing"""
    def ok(T, k):
        if T.o != "br" or not T.a: return True
        C = f.d(T.a[0])
        if C is None or C.o != "icmp" or C.p not in ("eq", "ne") or None not in C.a: return True
        v = C.a[0] if C.a[1] is None else C.a[1]
        a = W.addr(f, v)
        if a[:len(root)] == root and len(a) > len(root): return k != (0 if C.p == "eq" else 1)
        return True
    return ok

def unwinder(W, f, kind, add, n):
    m = W.m
    pops = [S for S, k in kind.items() if k == "pop"]
    outp = ("cast",) + (N, "*", D, "*")
    def guard_of(I):
        """'out' / 'in' / None: which guard of the current record this call runs"""
        if not evaluates(m, I): return None
        for a in W.arg_of(f, I):
            a = strip_cast(a)
            if a[:4] == (W.g, "*", D, "*"):
                r = tuple(x for x in a[4:] if x != "cast")
                if r == (N, "*", D, "*"): return "out"
                if r == (D, "*"): return "in"
                return "other"
        return None
    calls = {I.i: guard_of(I) for I in f.calls() if guard_of(I)}
    outs = [I for I in f.calls() if calls.get(I.i) == "out"]
    for I in f.calls():
        if calls.get(I.i) in ("in", "other"): add("wrong-guard", I.srcfn, "leaving a dynamic wind runs something other than its exit guard", I.loc)
        elif I.i not in calls and evaluates(m, I) and not W.stops(I) and any(isinstance(a, str) and "SCM_Procedure" in str(f.d(f.strip(a)).cname() if f.d(f.strip(a)) is not None and f.d(f.strip(a)).o in ("call", "invoke") else "") for a in I.a): add("wrong-guard", I.srcfn, "a procedure that is not the exit guard of the record being left is run", I.loc)
    if not outs: add("no-guard", f.name, "the chain is shortened without running exit guards", pops[0].loc); return param(W, f)
    null = entry_null(W, f, (W.g, "*", D, "*"))
    for I in outs:
        # the record's head load, and the pop between
        hl = head_loads(W, f, I)
        for L in hl:
            w = find_path(f, L.bb, L.pos + 1, lambda J: J is I, lambda J: J in pops)
            if w: add("inside-own-wind", I.srcfn, "an exit guard runs while its own record is still current: an escape from it would run it again", I.loc, w)
            w = find_path(f, L.bb, L.pos + 1, lambda J: evaluates(m, J) and J is not I, lambda J: J is I)
            if w and find_path(f, f_of(w, f), 0, lambda J: J is I, lambda J: J is L) is None: pass
        w = find_path(f, I.bb, I.pos + 1, lambda J: J is I, lambda J: J in hl)
        if w: add("guard-twice", I.srcfn, "an exit guard can run twice for one record", I.loc, w)
    for S in pops:
        w = find_path(f, S.bb, S.pos + 1, lambda J: J.o == "ret" or J in pops, lambda J: J in outs or W.stops(J), null)
        if w: add("guard-skipped", S.srcfn, "a record is removed from the chain without running its exit guard", S.loc, w)
        # the guard run afterwards is the one of the record removed: the record was read before the removal
        for I in outs:
            for L in head_loads(W, f, I):
                w = find_path(f, S.bb, S.pos + 1, lambda J: J is L, lambda J: J in pops)
                if w:
                    w2 = find_path(f, L.bb, L.pos + 1, lambda J: J is I, lambda J: J in pops)
                    if w2: add("wrong-record", I.srcfn, "the exit guard that runs belongs to a record other than the one just removed", I.loc, w2)
    # only what the target is not in, and all of it
    tests = W.member_tests(f); names = {t[0] for t in tests} | {"%%%d" % t[2].i for t in tests}
    preds = {I.i: W.member_pred(m.funcs[I.callee()]) for I in f.calls() if I.callee() in m.funcs and W.member_pred(m.funcs[I.callee()])}
    names |= {"%%%d" % i for i in preds} | {W.g}
    ex = Keep(W, f, W.stops, names); par = [None]
    def not_member(st):
        for w, init, C, o in tests:
            if isinstance(init, str) and init.startswith("$") and ex.null(w, st) is True and W.is_head(f, o): par[0] = int(init[1:]); return True
        for i, (a, b) in preds.items():
            I = f.d("%%%d" % i)
            if ex.truth("%%%d" % i, st) is False and isinstance(I.a[a], str) and I.a[a].startswith("$") and W.is_head(f, I.a[b]): par[0] = int(I.a[a][1:]); return True
        return False
    def member(st):
        for w, init, C, o in tests:
            t = ex.truth("%%%d" % C.i, st)
            if t is not None and (t == (C.p == "eq")) and W.is_head(f, o): return True
        for i in preds:
            if ex.truth("%%%d" % i, st) is True: return True
        return any(C.o == "icmp" and C.p in ("eq", "ne") and ex.truth("%%%d" % C.i, st) is (C.p == "eq") and any(W.is_head(f, x) for x in C.a) and any(isinstance(x, str) and x.startswith("$") for x in C.a) for C in f.instrs())
    def visit(I, st):
        if I in pops:
            if not not_member(st): add("left-too-far", I.srcfn, "a record is removed on this path although the target has not been searched for it", I.loc, list(ex.trail) + [I.loc])
        if I.o == "store" and I in kind or I.o in ("call", "invoke") and evaluates(m, I):
            st = {k: x for k, x in st.items() if not any(y in names for y in k[1:] if isinstance(y, str))}
        elif I.o == "ret":
            n["paths"] += 1
            if not (ex.null_head(st) if hasattr(ex, "null_head") else st.get(("n", W.g, "*")) is True) and not member(st): add("left-too-little", f.name, "returns on this path although the current record may not be part of the target", I.loc, list(ex.trail) + [I.loc])
        return st
    try: ex.run(0, visit)
    except TooMany: raise Broken("%s has too many paths" % f.name)
    return par[0] if par[0] is not None else param(W, f)

def f_of(w, f): return 0
def param(W, f):
    for k in range(1, len(f.sig)):
        if f.sig[k].startswith("SCM_List"): return k - 1
    return None
def head_loads(W, f, I):
    """loads of the chain that the procedure run by I was reached from"""
    out = []; seen = set()
    def go(v):
        if not isinstance(v, str) or v in seen: return
        seen.add(v); J = f.d(f.strip(v)) if f.d(v) is None or f.d(v).o not in ("load", "gep", "getelementptr") else f.d(v)
        if J is None: return
        if J.o == "load" and tuple(f.addr(J.a[0])) == (W.g,): out.append(J); return
        if J.o == "phi": return
        for a in J.a or []:
            if isinstance(a, str): go(a)
    for a in I.a:
        if isinstance(a, str) and W.addr(f, a)[:2] == (W.g, "*"): go(a)
    return out

def rewinder(W, f, kind, add, n):
    m = W.m; ent = [S for S, k in kind.items() if k == "enter"]; ws = W.walkers(f); par = None
    for S in ent:
        w = f.strip(S.a[0]); tests = enters(W, f, w)
        if w in ws:
            init = ws[w][0]
            if isinstance(init, str) and init.startswith("$"): par = int(init[1:])
            else: add("wrong-start", S.srcfn, "the record to enter is not searched from the target", S.loc)
        def runs(I, which):
            if not evaluates(m, I): return False
            for a in W.arg_of(f, I):
                a = strip_cast(a)
                if a[:3] == (w, D, "*"):
                    r = tuple(x for x in a[3:] if x != "cast")
                    return r == which
            return False
        ins = [I for I in f.calls() if runs(I, (D, "*"))]
        for I in f.calls():
            if I not in ins and evaluates(m, I) and not W.stops(I) and any(a[-1:] == ("cast",) for a in W.arg_of(f, I)): add("wrong-guard", I.srcfn, "entering a dynamic wind runs something other than its entry guard", I.loc)
        if not ins: add("no-guard", f.name, "records are entered without running their entry guards", S.loc); continue
        null = entry_null(W, f, (w, D, "*"))
        names = {"%%%d" % C.i for C in tests} | {w, W.g}
        ex = Keep(W, f, W.stops, names); par0 = par
        def visit(I, st):
            q = st.get(("q",))
            if I in ins:
                if q == "run": add("guard-twice", I.srcfn, "an entry guard runs while one that has been run is not yet recorded", I.loc, list(ex.trail) + [I.loc])
                if not any(ex.truth("%%%d" % C.i, st) is (C.p == "eq") for C in tests): add("entered-out-of-order", I.srcfn, "an entry guard runs on this path without a test that the rest of its record is the current chain", I.loc, list(ex.trail) + [I.loc])
                st = dict(st); st[("q",)] = "run"
            elif I is S:
                if q != "run" and not null_seen(W, f, st, ex, w): add("guard-skipped", S.srcfn, "a record is entered on this path without running its entry guard first", S.loc, list(ex.trail) + [S.loc])
                if q != "run" and not any(ex.truth("%%%d" % C.i, st) is (C.p == "eq") for C in tests): add("entered-out-of-order", I.srcfn, "a record is made current without a test that its rest is the current chain", I.loc, list(ex.trail) + [I.loc])
                st = {k: x for k, x in st.items() if not (W.g in k or k[0] == "b" and k[1] in names) and k != ("q",)}
            elif I.o == "ret":
                n["paths"] += 1
                if q == "run": add("not-recorded", f.name, "returns after an entry guard has run without making its record current", I.loc, list(ex.trail) + [I.loc])
                done = ex.null(w, st) is True or any(C.o == "icmp" and C.p in ("eq", "ne") and ex.truth("%%%d" % C.i, st) is (C.p == "eq") and any(W.is_head(f, x) for x in C.a) and any(isinstance(x, str) and x.startswith("$") for x in C.a) for C in f.instrs())
                if not done: add("entered-too-little", f.name, "returns on this path before the target has been reached", I.loc, list(ex.trail) + [I.loc])
            return st
        # tests of the target against the chain stay known until the chain changes
        for C in f.instrs():
            if C.o == "icmp" and C.p in ("eq", "ne") and any(W.is_head(f, x) for x in C.a): names.add("%%%d" % C.i)
        try: ex.run(0, visit)
        except TooMany: raise Broken("%s has too many paths" % f.name)
    return par if par is not None else param(W, f)

def null_seen(W, f, st, ex, w):
    """the record on this path has no entry guard"""
    for k, x in st.items():
        if k[0] == "n" and x is True and isinstance(k[1], str):
            a = W.addr(f, k[1]) + tuple(k[2:])
            if a[:3] == (w, D, "*"): return True
    return False
