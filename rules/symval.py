"""What a value is made of: expressions over the arguments of a function, with the kinds of some arguments fixed.
Branches decided by those kinds are pruned (conditional constant propagation), calls are entered with what their arguments are.  Nothing is executed and no path is enumerated: a value is the set of expressions it may be."""
import itertools
from rules.ir import nonreturning, BASE_NR

EQCALLS = {"memcmp": "bytes", "bcmp": "bytes", "strcmp": "cstr", "strncmp": "cstr", "strcasecmp": "other", "strncasecmp": "other"}

_R = {}
def roots(e):
    if not isinstance(e, tuple): return frozenset()
    r = _R.get(e)
    if r is None: r = _R[e] = _roots(e)
    return r
def _roots(e):
    if not isinstance(e, tuple): return frozenset()
    if e[0] == "arg": return frozenset([e])
    if e[0] == "loop": return e[1]
    r = frozenset()
    for x in e[1:]:
        if isinstance(x, tuple): r |= roots(x)
    return r
_Z = {}
def size(e):
    if not isinstance(e, tuple): return 1
    n = _Z.get(e)
    if n is None: n = _Z[e] = 1 + sum(size(x) for x in e[1:] if isinstance(x, tuple))
    return n
def _size(e): return 1 + sum(size(x) for x in e[1:] if isinstance(x, tuple)) if isinstance(e, tuple) else 1
def subst(e, sub):
    if e in sub: return sub[e]
    if not isinstance(e, tuple): return e
    if e[0] == "loop": return ("loop", frozenset(sub.get(x, x) for x in e[1]))
    if e[0] == "const": return e
    return (e[0],) + tuple(subst(x, sub) if isinstance(x, tuple) else x for x in e[1:])
_N = {}
def norm(e):
    if not isinstance(e, tuple): return e
    n = _N.get(e)
    if n is None: n = _N[e] = _norm(e)
    return n
def _norm(e):
    """cells of one list are not told apart"""
    if not isinstance(e, tuple) or e[0] in ("arg", "const", "loop"): return e
    if e[0] == "field" and e[2].startswith("SCM_List."): return ("field", ("loop", roots(e[1])), e[2])
    if e[0] in ("elem", "elemaddr") and any(isinstance(x, tuple) and x[0] == "loop" for x in parts(e[2])): return (e[0], norm(e[1]), ("loop", frozenset()))
    return (e[0],) + tuple(norm(x) if isinstance(x, tuple) else x for x in e[1:])
def parts(e):
    yield e
    if isinstance(e, tuple):
        for x in e[1:]:
            if isinstance(x, tuple): yield from parts(x)

class Sum:
    def __init__(self): self.rets = set(); self.conds = set(); self.pairs = set(); self.calls = set(); self.stores = set(); self.access = set()

class Sym:
    def __init__(self, m, opaque=None, types=None, forced=None, same=None, depth=10):
        self.m = m; self.opaque = opaque or (lambda f: False); self.types = types or {}; self.forced = forced or {}; self.same = same
        self.depth = depth; self.memo = {}; self.stack = []
        self.nr = m._sv_nr = getattr(m, "_sv_nr", None) or nonreturning(m)
    def ends(self, I): return I.o in ("call", "invoke") and (I.callee() in self.nr or I.callee() in BASE_NR or (I.cname() or "") in BASE_NR or I.callee() in getattr(self.m, "_nrbase", ())) or I.o == "unreachable"
    # ---- summaries
    def summary(self, f, args):
        k = (f.key, args)
        if k in self.memo: return self.memo[k]
        s = Sum()
        self.stack.append(f.key)
        try: Frame(self, f, args).run(s)
        finally: self.stack.pop()
        self.memo[k] = s
        return s

class Frame:
    def __init__(self, S, f, args): self.S = S; self.f = f; self.args = args
    def run(self, out):
        f = self.f; S = self.S
        self.edges = set(); self.live = {0}
        for rnd in range(60):
            self.memo = {}; before = (len(self.edges), len(self.live)); new = set()
            for b in sorted(self.live):
                if any(S.ends(I) for I in f.blocks[b]): continue
                T = f.blocks[b][-1]
                ks = self.taken(T, b)
                for k in ks: new.add((b, f.succ[b][k]))
            self.edges |= new; self.live |= {t for _, t in new}
            if (len(self.edges), len(self.live)) == before: break
        self.memo = {}
        for b in sorted(self.live):
            if any(S.ends(I) for I in f.blocks[b]) : continue
            for I in f.blocks[b]:
                if I.o == "ret" and I.a: out.rets |= self.val(I.a[0])
                elif I.o == "br" and I.a and len(set(f.succ[b])) > 1:
                    c = self.val(I.a[0])
                    if not all(x[0] == "const" for x in c): out.conds |= c
                elif I.o == "switch":
                    c = self.val(I.a[0])
                    if not all(x[0] == "const" for x in c): out.conds |= c
                elif I.o in ("icmp", "fcmp") and I.p in ("eq", "ne", "oeq", "ueq", "une", "one"):
                    for x in self.val(I.a[0]):
                        for y in self.val(I.a[1]): out.pairs.add((x, y, I.o))
                elif I.o in ("call", "invoke"):
                    v = self.val("%%%d" % I.i) if I.i is not None else self.call(I)
                    for fk, args, sm in self.targets(I):
                        out.calls.add((fk, args, I.loc))
                        if sm is not None:
                            out.conds |= sm.conds; out.pairs |= sm.pairs; out.calls |= sm.calls; out.stores |= sm.stores; out.access |= sm.access
                        nm = short(S.m.funcs[fk].name if fk in S.m.funcs else S.m.pretty(fk) if fk else "")
                        if nm in EQCALLS and len(args) >= 2: out.pairs.add((args[0], args[1], EQCALLS[nm]))
                elif I.o == "store":
                    for a in self.place(I.a[1]):
                        for v in self.val(I.a[0]): out.stores.add((a, v, I.loc, f.name))
                elif I.o == "phi" and I.t != "ptr" and self.loopphi(I):
                    for v, p in zip(I.a, I.b):
                        if (p, b) in self.edges: out.conds |= {x for x in self.val(v) if x[0] != "loop"}
                if I.o == "load":
                    for a in self.place(I.a[0]): out.access.add((a, I.loc, f.name, "load"))
                elif I.o == "store":
                    for a in self.place(I.a[1]): out.access.add((a, I.loc, f.name, "store"))
    def taken(self, T, b):
        n = len(self.f.succ[b])
        if n == 0: return []
        if T.o == "br" and T.a and n > 1:
            c = self.val(T.a[0])
            if c and all(x[0] == "const" for x in c): return sorted({0 if x[1] else 1 for x in c})
            return range(n) if c else []
        if T.o == "switch" and T.cases is not None:
            c = self.val(T.a[0])
            if c and all(x[0] == "const" for x in c): return sorted({T.cases.index(x[1]) + 1 if x[1] in T.cases else 0 for x in c})
            return range(n) if c else []
        return range(n)
    def dom(self, a, b): return self.f.dominates(self.f.blocks[a][0], self.f.blocks[b][-1])
    def loopphi(self, I): return any(self.dom(I.bb, p) for p in I.b)
    # ---- values
    def val(self, v):
        if v is None: return {("const", 0)}
        if isinstance(v, (bool, int)): return {("const", int(v))}
        if isinstance(v, float): return {("const", v)}
        if isinstance(v, dict):
            if "s" in v: return {("str", v["s"])}
            return {("static", str(v))}
        if v.startswith("$"):
            k = int(v[1:]); return {self.args[k]} if k < len(self.args) else {("arg?", v)}
        if v.startswith("@"): return {("fn", v[1:])} if v[1:] in self.S.m.funcs else {("global", v[1:])}
        if not v.startswith("%"): return {("other", v)}
        r = self.memo.get(v)
        if r is not None: return r
        I = self.f.d(v)
        if I is None: return {("other", v)}
        self.memo[v] = set()
        r = self.compute(I)
        if len(r) > 24 or any(size(x) > 120 for x in r):
            rs = frozenset(); 
            for x in r: rs |= roots(x)
            r = {("many", *sorted(rs))}
        self.memo[v] = r
        return r
    def place(self, v):
        """addresses a value may be: ('field', base, S.f) or ('elem', base, index) or ('local', n)"""
        return self.val(v)
    def compute(self, I):
        f = self.f; S = self.S; o = I.o
        if o == "phi":
            if self.loopphi(I):
                rs = frozenset(); init = set()
                for v, p in zip(I.a, I.b):
                    if (p, I.bb) in self.edges and not self.dom(I.bb, p): init |= self.val(v)
                for x in init: rs |= roots(x) if I.t == "ptr" else frozenset()
                if not init: return set()
                me = "%%%d" % I.i; steps = [f.d(f.strip(v)) for v, p in zip(I.a, I.b) if self.dom(I.bb, p)]
                if I.t == "ptr" and steps and all(G is not None and G.o in ("gep", "getelementptr") and f.strip(G.a[0]) == me and all(isinstance(e, list) for e in G.path or []) for G in steps):
                    return {x if x[0] == "elemaddr" else ("elemaddr", x, ("loop", frozenset())) for x in init}
                return {("loop", rs)}
            r = set()
            for v, p in zip(I.a, I.b):
                if (p, I.bb) in self.edges: r |= self.val(v)
            return r
        if o in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast", "freeze"):
            a = self.val(I.a[0])
            if o == "bitcast" and I.t in ("double", "float") or o == "ptrtoint" : return {self.op(o, x) for x in a}
            return set(a)
        if o in ("zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
            return {self.op(o + ":" + str(I.t), x) for x in self.val(I.a[0])}
        if o in ("gep", "getelementptr"):
            r = self.val(I.a[0])
            for e in I.path or []:
                if isinstance(e, list):
                    ix = self.val(e[0]) if not isinstance(e[0], int) else {("const", e[0])}
                    r = {("elemaddr", b, i) for b in r for i in ix}
                else: r = {("addr", b, e) for b in r}
            return r
        if o == "alloca": return {("local", f.key, I.i)}
        if o == "load":
            out = set()
            for a in self.val(I.a[0]): out |= self.load(a, I)
            if I.t in ("double", "float"): out = {x if x[0] in ("const", "static") or x[:2] == ("op", "f64") or x[0] == "op" and x[1].endswith(":double") else ("op", "f64", x) for x in out}
            return out
        if o == "select":
            c = self.val(I.a[0])
            if c and all(x[0] == "const" for x in c):
                r = set()
                for x in c: r |= self.val(I.a[1] if x[1] else I.a[2])
                return r
            r = set()
            for x in c:
                for a in self.val(I.a[1]):
                    for b in self.val(I.a[2]):
                        r.add(a if a == b else ("op", "select", x, a, b))
            return r
        if o in ("icmp", "fcmp"):
            r = set()
            for x in self.val(I.a[0]):
                for y in self.val(I.a[1]): r.add(self.cmp(I, x, y))
            return r
        if o in ("call", "invoke"): return self.call(I)
        ops = [self.val(a) for a in (I.a or [])]
        n = 1
        for x in ops: n *= max(1, len(x))
        if n > 64: return {("many", *sorted(frozenset().union(*[roots(y) for x in ops for y in x])))}
        return {self.op(o, *c) for c in itertools.product(*ops)}
    def op(self, o, *a):
        if all(x[0] == "const" and isinstance(x[1], int) for x in a):
            if o == "xor" : return ("const", a[0][1] ^ (a[1][1] & 1 if a[1][1] in (-1, 1) and a[0][1] in (0, 1) else a[1][1]))
            if o == "and": return ("const", a[0][1] & a[1][1])
            if o == "or": return ("const", a[0][1] | a[1][1])
            if o.split(":")[0] in ("zext", "sext", "trunc"): return ("const", a[0][1])
        if o == "xor" and a[1] in (("const", 1), ("const", -1)): return ("op", "not", a[0]) if a[0][:2] != ("op", "not") else a[0][2]
        if o in ("add", "mul", "and", "or", "xor", "fadd", "fmul"): a = tuple(sorted(a, key=repr))
        return ("op", o) + a
    def load(self, a, at=None):
        S = self.S
        if a[0] == "addr":
            if a[1][:2] in (("call", "scm_bool_true"), ("call", "scm_bool_false")):
                if a[2] == "SCM.type": return {("const", S.m.scm_types["BOOL"])}
                if a[2] == "SCM.value": return {("const", int(a[1][1] == "scm_bool_true"))}
            if a[2] == "SCM.type" and a[1][:2] == ("call", "scm_nil"): return {("const", S.m.scm_types["NIL"])}
            if a[2] == "SCM.type":
                t = S.types.get(a[1])
                if t is not None: return {("const", t)}
                if a[1][0] == "call" and a[1][1] == "wrap": return {("const", S.m.scm_types.get("LIST"))} if not a[1][3:] else {("field", a[1], a[2])}
            if a[2] == "SCM.value" and a[1][0] == "call" and a[1][1] == "wrap": return {a[1][2]}
            return {("field", a[1], a[2])}
        if a[0] == "elemaddr": return {("elem", a[1], a[2])}
        if a[0] == "field" and a[2].split(".")[0] not in ("SCM",): return {("elem", a, ("const", 0))}
        if a[0] == "local":
            f = S.m.funcs[a[1]]
            if a[1] != self.f.key: return {("deref", a)}
            name = "%%%d" % a[2]; r = set(); dom = self.f.dominates
            fills = [I for I in self.f.calls() if I.bb in self.live and any(isinstance(x, str) and self.f.strip(x) == name for x in I.a) and any(p == a for fk, args, sm in self.targets(I) for (p, v, _, _) in (sm.stores if sm else ()))]
            for I in self.f.instrs():
                if I.bb not in self.live: continue
                if I.o == "store" and self.f.strip(I.a[1]) == name:
                    if not any(dom(I, C) and at is not None and dom(C, at) for C in fills): r |= self.val(I.a[0])
                elif I.o in ("call", "invoke") and any(isinstance(x, str) and self.f.strip(x) == name for x in I.a):
                    for fk, args, sm in self.targets(I):
                        for (p, v, _, _) in (sm.stores if sm else ()):
                            if p == a: r.add(v)
            return r or {("deref", a)}
        if a[0] == "global":
            g = S.m.globals.get(a[1]) or {}
            return {("gload", a[1])}
        return {("deref", a)}
    def cmp(self, I, x, y):
        S = self.S; p = I.p
        if x[0] == "const" and y[0] == "const" and isinstance(x[1], int) and isinstance(y[1], int):
            a, b = x[1], y[1]
            r = {"eq": a == b, "ne": a != b, "slt": a < b, "sgt": a > b, "sle": a <= b, "sge": a >= b, "ult": a < b, "ugt": a > b, "ule": a <= b, "uge": a >= b}.get(p)
            if r is not None: return ("const", int(r))
        if p in ("eq", "ne", "oeq", "une", "ueq", "one"):
            eq = p in ("eq", "oeq", "ueq"); r = None
            if I.o == "icmp" and x == y and x[0] not in ("loop", "many", "elem", "call"): r = True
            if S.same is not None and I.o == "icmp" and {x, y} == S.same[0]: r = S.same[1]
            for z, w in ((x, y), (y, x)):
                if I.o == "icmp" and w == ("const", 0) and (z[0] == "arg" and S.types.get(z) is not None or z[0] in ("local", "addr", "elemaddr") or z[0] == "call" and z[1] in ("wrap", "make_list", "gc_alloc", "scm_nil", "scm_bool_true", "scm_bool_false", "scm_none")): r = False
            k = frozenset([norm(x), norm(y)])
            if k in S.forced: r = S.forced[k]
            if r is not None: return ("const", int(r == eq))
            # a truth value compared with zero
            for z, w in ((x, y), (y, x)):
                if w == ("const", 0) and I.o == "icmp" and z[0] == "op" and (z[1].split(":")[0] in ("zext", "sext") and z[2][0] == "op" and z[2][1] in ("icmp", "fcmp", "not")):
                    return self.op("xor", z[2], ("const", 1)) if eq else z[2]
            if not eq: return ("op", "not", ("op", I.o) + tuple(sorted((x, y), key=repr)))
            return ("op", I.o) + tuple(sorted((x, y), key=repr))
        return ("op", I.o + ":" + p, x, y)
    # ---- calls
    def callees(self, I):
        c = I.callee()
        if c: return [c]
        if isinstance(I.f, str):
            return [x[1] if x[0] == "fn" else None for x in self.val(I.f)]
        return [None]
    def targets(self, I):
        """(function, arguments, summary or None)"""
        S = self.S; out = []
        ops = [sorted(self.val(a), key=repr) for a in I.a]
        n = 1
        for x in ops: n *= max(1, len(x))
        if n > 32: combos = [tuple(x[0] if len(x) == 1 else ("many", *sorted(frozenset().union(*[roots(y) for y in x]))) for x in ops)]
        else: combos = list(itertools.product(*ops))
        for c in self.callees(I):
            g = S.m.funcs.get(c) if c else None
            enter = g is not None and g.blocks and not S.opaque(g) and c not in S.stack and len(S.stack) < S.depth and c not in S.nr
            for args in combos:
                out.append((c, tuple(args), S.summary(g, tuple(args)) if enter else None))
        return out
    def call(self, I):
        S = self.S; r = set()
        for c, args, sm in self.targets(I):
            if sm is not None:
                r |= sm.rets if sm.rets else ({("void",)} if S.m.funcs[c].sig[0] == "void" else set())
                continue
            if c is None: r.add(("icall",) + tuple(self.val(I.f) if isinstance(I.f, str) else ()) + args); continue
            g = S.m.funcs.get(c); n = short(g.name if g else S.m.pretty(c))
            if n == "wrap" and g.sig[1].replace(" ", "") != "SCM_List*": n = "wrap:" + g.sig[1]
            if n in EQCALLS and len(args) >= 2:
                k = frozenset([norm(args[0]), norm(args[1])])
                if k in S.forced: r.add(("const", 0 if S.forced[k] else 1)); continue
                r.add(("call", n) + args); continue
            if g is not None and len(args) == 2:
                k = frozenset([norm(args[0]), norm(args[1])])
                if (c, k) in S.forced: r.add(("const", int(S.forced[(c, k)]))); continue
            r.add(("call", n) + args)
        return r

OPAQUE = {"scm_bool_true", "scm_bool_false", "scm_nil", "scm_none", "wrap", "make_list", "gc_alloc", "eval_error"}
def short(n): return n.split("(")[0].split("<")[0].split(" ")[-1].lstrip("*&")
def api_opaque(g): return short(g.name) in OPAQUE
