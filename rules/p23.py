"""P23: a call is rejected unless its argument count fits the procedure."""
from check_api import Finding, Broken
from rules.ir import nonreturning, BASE_NR, controlled
from rules.marking import Paths, canon, back_edges, loop_blocks
from rules.explore import Explorer, TooMany
from rules.p20 import dispatch, possible
from rules.p24 import evaluators

def stops_for(m):
    nr = nonreturning(m)
    return lambda I: I.o in ("call", "invoke") and (I.callee() in nr or I.callee() in m._nrbase or I.callee() in BASE_NR)

def is_next(p): return p == ("SCM_List.next", "*")
def chain(paths, kind, f):
    """do all access paths lead along a list: 'P' the parameter list of a procedure or macro, 'A' a list passed to the function"""
    ok = False
    for p in paths:
        if p == ("null",): continue
        q = p
        while q[-2:] == ("SCM_List.next", "*"): q = q[:-2]
        if kind == "P":
            if not (len(q) >= 3 and q[-2:] == ("SCM_Procedure.args", "*")): return False
        else:
            if not (len(q) == 1 and q[0].startswith("$") and f.sig[int(q[0][1:]) + 1].replace(" ", "") == "SCM_List*"): return False
        ok = True
    return ok

def binders(m):
    """functions that evaluate a procedure's body: (fn, [body calls])"""
    out = []; ev = evaluators(m)
    for f in m.funcs.values():
        if not any(I.o in ("gep", "getelementptr") and I.path and I.path[-1] == "SCM_Procedure.body" for I in f.instrs()): continue
        P = Paths(f); calls = []
        for I in f.calls():
            if I.callee() not in ev: continue
            for a in I.a:
                if isinstance(a, str) and any(p[-2:] == ("SCM_Procedure.body", "*") for p in P.of(a)): calls.append(I); break
        if calls: out.append((f, P, calls))
    return out

def through(f, v, seen=None):
    """the value and what it is converted from (casts, wrappers, merges)"""
    seen = set() if seen is None else seen
    v = f.strip(v)
    if not isinstance(v, str) or v in seen: return seen
    seen.add(v); I = f.d(v)
    if I is not None and I.o == "phi":
        for x in I.a: through(f, x, seen)
    elif I is not None and I.o == "select": through(f, I.a[1], seen); through(f, I.a[2], seen)
    elif I is not None and I.o in ("call", "invoke") and len(I.a) == 1: through(f, I.a[0], seen)
    return seen

class Matcher(Explorer):
    """Positions along the parameter list (P) and the argument list (A), relative to k, the number of parameters bound so far (and, for the parameter
    list, to s, an unknown later cell reached by a scan).  ("p",)+root: (kind, base, d); ("nn"|"nl", kind, base): the last cell known to be there / the
    first known not to be; ("m",): s - k is at least this."""
    CAP = 3
    def __init__(self, f, stops, P, **kw):
        super().__init__(f, stops, **kw); self.P = P; self._root = {}
    def root(self, v):
        """(root key, number of nexts) of a value that may lie on one of the lists"""
        v = self.fn.strip(v)
        if not isinstance(v, str): return None
        if v not in self._root:
            p = self.addr(v); n = 0; r = None
            while p[-2:] == ("SCM_List.next", "*"): p = p[:-2]; n += 1
            if len(p) == 1: r = (p, n)
            elif p[-2:] == ("SCM_Procedure.args", "*"): r = (("args",), n)
            self._root[v] = r
        return self._root[v]
    def pos(self, v, st):
        r = self.root(v)
        if r is None: return None
        q = st.get(("p",) + r[0])
        return None if q is None else (q[0], q[1], q[2] + r[1])
    def cell(self, v):
        """the list cell whose data the value is"""
        I = self.fn.d(self.fn.strip(v)) if isinstance(v, str) else None
        if I is not None and I.o == "load":
            g = self.fn.d(I.a[0])
            if g is not None and g.o in ("gep", "getelementptr") and g.path and g.path[-1] == "SCM_List.data": return g.a[0]
        return None
    def there(self, q, st):
        """True: cell exists, False: list has ended"""
        nn, nl = st.get(("nn", q[0], q[1])), st.get(("nl", q[0], q[1]))
        if nn is not None and q[2] <= nn: return True
        if nl is not None and q[2] >= nl: return False
        return None
    def null(self, v, st):
        r = super().null(v, st)
        if r is None:
            q = self.pos(v, st)
            if q: t = self.there(q, st); return None if t is None else not t
        return r
    def _eq(self, a, b, st, depth):
        r = super()._eq(a, b, st, depth)
        if r is None and self._isptr(a) and self._isptr(b):
            x, y = self.pos(a, st), self.pos(b, st)
            if x and y and x[:2] == y[:2]:
                if x[2] == y[2]: return True
                if self.there(x, st) or self.there(y, st): return False
        return r
    def relevant(self, k, live):
        if k[0] == "p": return not k[1].startswith("%") or k[1] in live
        return super().relevant(k, live)
    def consistent(self, st):
        for kd in "PA":
            for b in "ks":
                nn, nl = st.get(("nn", kd, b)), st.get(("nl", kd, b))
                if nn is not None and nl is not None and nn >= nl: return False
        nn, nl, m = st.get(("nn", "P", "s")), st.get(("nl", "P", "k")), st.get(("m",))
        if None not in (nn, nl, m) and m >= nl - nn: return False
        return True
    def note(self, q, there, st):
        key = ("nn" if there else "nl",) + q[:2]; old = st.get(key)
        d = max(-self.CAP, min(self.CAP + 1, q[2])) if there else q[2]
        if not there and d > self.CAP + 1: return
        st[key] = d if old is None else max(old, d) if there else min(old, d)
    def assume(self, v, val, st, depth=0):
        s2 = super().assume(v, val, st, depth)
        I = self.fn.d(v) if isinstance(v, str) else None
        if s2 is None or I is None or I.o != "icmp" or I.p not in ("eq", "ne"): return s2
        a, b = I.a
        if not (self._isptr(a) and self._isptr(b)): return s2
        eq = (I.p == "eq") == val; s2 = dict(s2)
        x, y = self.pos(a, s2), self.pos(b, s2)
        na, nb = super().null(a, st), super().null(b, st)
        for q, other in ((x, nb), (y, na)):
            if q and other is True: self.note(q, not eq, s2)
            if q and other is False and eq: self.note(q, True, s2)
        if x and y and x[0] == y[0] == "P" and {x[1], y[1]} == {"k", "s"}:
            if x[1] == "s": x, y = y, x
            if eq and (self.there(x, s2) or self.there(y, s2)): self.unify(x[2] - y[2], s2)
            elif not eq and s2.get(("m",)) is not None and s2[("m",)] == x[2] - y[2]: s2[("m",)] += 1
        return s2 if self.consistent(s2) else None
    def unify(self, off, st):
        """s turns out to be k + off"""
        for k, q in list(st.items()):
            if k[0] == "p" and q[1] == "s": st[k] = (q[0], "k", q[2] + off)
        for w in ("nn", "nl"):
            d = st.pop((w, "P", "s"), None)
            if d is not None: self.note(("P", "k", d + off), w == "nn", st)
        st.pop(("m",), None)
        self.trim(st)
    def trim(self, st):
        for k, q in list(st.items()):
            if k[0] == "p" and (q[2] < -self.CAP or q[2] > self.CAP + 2): del st[k]
            if k[0] in ("nn", "nl") and q < -self.CAP:
                if k[0] == "nn": del st[k]
                else: st[k] = -self.CAP
    def bound(self, st):
        """one more parameter has its argument"""
        for k, q in list(st.items()):
            if k[0] == "p" and q[1] == "k": st[k] = (q[0], "k", q[2] - 1)
            if k[0] in ("nn", "nl") and k[2] == "k": st[k] = q - 1
        if ("m",) in st:
            st[("m",)] -= 1
            if st[("m",)] < -self.CAP: del st[("m",)]
        self.trim(st)
    def enter(self, b, frm, st):
        new = {}
        for I in self.fn.blocks[b]:
            if I.o != "phi": break
            if I.t != "ptr" or frm not in I.b: continue
            v = I.a[I.b.index(frm)]
            q = self.pos(v, st) if isinstance(v, str) else None
            new[("p", "%%%d" % I.i)] = (q, self.null(v, st))
        st = dict(super().enter(b, frm, st))
        for k, (q, n) in new.items():
            st.pop(k, None)
            if q is not None: st[k] = q
        # a scan that goes further and further is followed by its own base
        far = [k for k in new if k in st and st[k][0] == "P" and st[k][1] == "k" and st[k][2] >= self.CAP]
        if far and not any(k[0] == "p" and q[1] == "s" for k, q in st.items()):
            top = max(st[k][2] for k in far)
            for k, q in list(st.items()):
                if k[0] == "p" and q[0] == "P" and q[1] == "k" and q[2] >= 2: st[k] = ("P", "s", q[2] - top)
            for w in ("nn", "nl"):
                d = st.get((w, "P", "k"))
                if d is not None: st[(w, "P", "s")] = d - top
            st[("m",)] = self.CAP
        up = [st[k][2] for k in new if k in st and st[k][:2] == ("P", "s") and st[k][2] > 0]
        if up:
            u = max(up)
            for k, q in list(st.items()):
                if k[0] == "p" and q[1] == "s": st[k] = ("P", "s", q[2] - u)
            for w in ("nn", "nl"):
                if (w, "P", "s") in st: st[(w, "P", "s")] -= u
            if ("m",) in st: st[("m",)] = min(self.CAP, st[("m",)] + u)
        self.trim(st)
        return st

def check_binder(m, f, P, calls, stops):
    """findings for one function that runs procedure bodies"""
    A = [i for i, s in enumerate(f.sig[1:]) if s.replace(" ", "") == "SCM_List*"]
    ex = Matcher(f, stops, P)
    def onP(c):
        r = ex.root(c)
        if r is None: return False
        return r[0] == ("args",) or all(chain({p}, "P", f) or p == ("null",) for p in P.of(c)) and any(chain({p}, "P", f) for p in P.of(c))
    def onA(c):
        return all(chain({p}, "A", f) or p == ("null",) for p in P.of(c)) and any(chain({p}, "A", f) for p in P.of(c))
    if not any(I.o == "load" and f.addr("%%%d" % I.i)[-2:] == ("SCM_Procedure.args", "*") for I in f.instrs() if I.i is not None):
        return [Finding("unmatched-body", f.name, "runs the body of a procedure without matching its parameters", calls[0].loc)], 1, 0
    binds = {}
    for I in f.calls():
        if I.callee() not in m.funcs: continue
        g = m.funcs[I.callee()]; sym = None; pcell = None
        for j, a in enumerate(I.a):
            if not isinstance(a, str) or j + 1 >= len(g.sig) or g.sig[j + 1].replace(" ", "") != "SCM_Symbol*": continue
            for v in through(f, a):
                for w in (v, unwrap(f, v)):
                    c = ex.cell(w) if w else None
                    if c is not None and onP(c): sym, pcell = j, c
        if sym is None or not any(t.replace(" ", "") == "SCM*" for t in g.sig[1:]): continue
        arg = None
        for j, v in enumerate(I.a):
            if j == sym or not isinstance(v, str): continue
            d = f.d(f.strip(v)); cand = [v] + (list(d.a) if d is not None and d.o in ("call", "invoke") else [])
            for c in cand:
                k = ex.cell(c) if isinstance(c, str) else None
                if k is not None and onA(k): arg = k
        binds[id(I)] = (I, pcell, arg)
    if not binds: return [Finding("unmatched-body", f.name, "runs the body of a procedure without binding its parameters", calls[0].loc)], 1, 0
    bad = {}; lib = {id(c) for c in calls}
    def dotted(st): return any(k[0] == "l" and x and k[-2:] == ("SCM_List.is_dotted", "*") for k, x in st.items())
    def visit(I, st):
        if id(I) in binds:
            _, pc, ac = binds[id(I)]
            st = dict(st)
            if ac is None:
                if not st.get(("t", "dotted")): bad.setdefault(("rest", I.loc), (I, "the remaining arguments are taken together although the last parameter is not known to be a rest parameter", ex.trail))
                st[("t", "rest")] = True
                return st
            x, y = ex.pos(pc, st), ex.pos(ac, st)
            if ex.null(ac, st) is not False: bad.setdefault(("too-few", I.loc), (I, "a parameter is bound without testing that there is an argument for it", ex.trail))
            if x != ("P", "k", 0): bad.setdefault(("out-of-step", I.loc), (I, "a parameter is bound out of turn (%s)" % (x,), ex.trail)); return None
            if y != ("A", "k", 0): bad.setdefault(("out-of-step", I.loc), (I, "an argument is bound out of turn (%s)" % (y,), ex.trail)); return None
            ex.bound(st)
        if id(I) in lib:
            end = lambda kd, d: ex.there((kd, "k", d), st) is False
            if st.get(("t", "rest")):
                if not end("P", 1): bad.setdefault(("too-few", I.loc), (I, "the body of a procedure with a rest parameter runs although parameters before it may be left unbound", ex.trail))
            else:
                if not end("A", 0): bad.setdefault(("too-many", I.loc), (I, "the body runs although arguments may be left over", ex.trail))
                if not end("P", 0): bad.setdefault(("too-few", I.loc), (I, "the body runs although parameters may be left unbound", ex.trail))
            return None
        return st
    def edge(T, k, st):
        if ("t", "dotted") not in st and dotted(st): st = dict(st); st[("t", "dotted")] = True
        return st
    init = {("p", "args"): ("P", "k", 0)}
    for i in A: init[("p", "$%d" % i)] = ("A", "k", 0)
    try: n = ex.run(0, visit, init=init, edge=edge)
    except TooMany: return [], 0, -1
    F = [Finding(r, f.name, what, I.loc, list(tr)[-12:] + [I.loc]) for (r, loc), (I, what, tr) in bad.items()]
    return F, len(calls) + len(binds), n

def unwrap(f, v):
    I = f.d(v)
    if I is not None and I.o == "load" and f.addr(v)[-2:] == ("SCM.value", "*"):
        g = f.d(I.a[0])
        if g is not None and g.o in ("gep", "getelementptr"): return f.strip(g.a[0])
    return None

def check_dispatch(m, stops):
    """calls of a builtin's implementation happen only with the right number of arguments in the list"""
    F = []; ob = 0
    for I, n, ks in dispatch(m):
        ob += 1
        if None in ks: F.append(Finding("unchecked-builtin-call", I.srcfn, "a builtin's implementation is called without testing how many arguments it takes", I.loc)); continue
    # argument counts: at the frame where n_args is known, the list must be exactly that long
    for f in m.funcs.values():
        sites = []
        for I in f.calls():
            if I.o not in ("call", "invoke"): continue
            S = possible(f, I.bb)
            if not S or any(k < 0 for k in S): continue
            direct = not I.callee() and isinstance(I.f, str) and f.addr(I.f)[-2:] == ("SCM_Function.func_ptr", "*")
            via = I.callee() in m.funcs and any(J.callee() is None and m.funcs[I.callee()].addr(J.f)[-2:] == ("SCM_Function.func_ptr", "*") for J in m.funcs[I.callee()].calls() if isinstance(J.f, str))
            if direct or via: sites.append((I, S))
        if not sites: continue
        P = Paths(f)
        lists = [i for i, s in enumerate(f.sig[1:]) if s.replace(" ", "") == "SCM_List*"]
        ids = {id(I): S for I, S in sites}
        ex = Explorer(f, stops); bad = {}
        def visit(I, st):
            if id(I) in ids:
                for c in ids[id(I)]:
                    if len(lists) != 1: continue
                    cell = lambda j: ("n", "$%d" % lists[0]) + ("SCM_List.next", "*") * j
                    for j in range(1, c + 1):
                        if st.get(cell(j)) is not False: bad.setdefault(("too-few", I.loc), (I, "a builtin of %d arguments is called although argument %d may be missing" % (c, j)))
                    if st.get(cell(c + 1)) is not True: bad.setdefault(("too-many", I.loc), (I, "a builtin of %d arguments is called although there may be more" % c))
            return st
        try: ex.run(0, visit)
        except TooMany: continue
        ob += 2 * len(sites)
        for (r, loc), (I, what) in bad.items(): F.append(Finding(r, f.name, what, I.loc))
    return F, ob

def check_smob(m):
    F = []; ob = 0
    for f in m.funcs.values():
        for I in f.calls():
            if I.callee() or not isinstance(I.f, str): continue
            p = f.addr(I.f)
            if len(p) < 2 or not p[-2].startswith("SCM_SmobDescriptor.apply_"): continue
            ob += 1; n = int(p[-2][-1])
            if len(I.a) != n + 1: F.append(Finding("smob-arity", I.srcfn, "apply_%d is called with %d arguments" % (n, len(I.a) - 1), I.loc)); continue
            got = None
            for b, k in controlled(f, I.bb) or []:
                T = f.blocks[b][-1]
                c = f.d(T.a[0]) if T.o == "br" and T.a else None
                if c is not None and c.o == "icmp" and isinstance(c.a[1], int) and c.p in ("eq", "ne") and (c.p == "eq") == (k == 0):
                    d = f.d(f.strip(c.a[0]))
                    if d is not None and d.o == "phi" and d.t in ("i32", "i64"): got = c.a[1]
                if T.o == "switch" and k > 0: got = T.cases[k - 1]
            if got is not None and got != n: F.append(Finding("smob-arity", I.srcfn, "apply_%d is called when %d arguments were counted" % (n, got), I.loc))
            if got is None: F.append(Finding("smob-arity", I.srcfn, "apply_%d is called without testing the number of arguments" % n, I.loc))
    return F, ob

def run(ctx):
    def one(m):
        stops = stops_for(m); F = []; ob = 0; names = []; und = 0
        for f, P, calls in binders(m):
            g, o, n = check_binder(m, f, P, calls, stops)
            F += g; ob += o; names.append(f.name)
            if n < 0: und += 1
        if len(names) < 2: raise Broken("only %d functions that run procedure bodies found" % len(names))
        return F, ob, sorted(names), und
    m = ctx.helpers()
    F, ob, names, und = one(m)
    g, o2 = check_dispatch(ctx.facts(), stops_for(ctx.facts())); F += g
    h, o3 = check_smob(m); F += h
    return {"findings": F, "level": "other", "coverage": {"explanation": "Path-sensitive analysis of every function that runs a procedure's or macro's body: on no path is the body reached while arguments or parameters may be left over (or, with a rest parameter, parameters before it), every binding has a tested argument, and the cursors move in step; every call of a builtin's implementation is behind a test of its arity and of the exact length of the argument list; smob application goes by the counted arguments.",
        "binders": names, "binder_obligations": ob, "dispatch_obligations": o2, "smob_obligations": o3, "undecided": und}}
