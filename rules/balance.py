"""Symbolic effect of every function on the interpreter-wide variables: what they hold on return in terms of what they held on entry.

values   ("E",g)  what g held when the function was entered      ("c",x) constant   ("$",i) parameter   ("m",path) memory reachable from a parameter on entry
         ("ssa",n) some value computed here   ("cons",v) a fresh node whose link is v   ("next",v) the link of v   ("add",v,k) v+k   ("ge",g) the entry value with more on top
         ("floor",v) at most v (after popping down to v)   ("land",g) whatever a jump left there      ("?",) unknown"""
from rules.ir import forward, threaded, find_path, nonreturning, BASE_NR
Q = ("?",)
SETJMP = {"setjmp", "_setjmp", "sigsetjmp", "__sigsetjmp"}

def ups(v):
    """the global whose entry value (with zero or more on top) v is"""
    while v[0] in ("cons", "add"):
        if v[0] == "add" and v[2] < 0: return None
        v = v[1]
    return v[1] if v[0] in ("E", "ge") else None
def downs(v):
    while v[0] in ("next", "add"):
        if v[0] == "add" and v[2] > 0: return None
        v = v[1]
    return v[1] if v[0] == "E" else None
def jn(a, b):
    if a == b: return a
    x, y = ups(a), ups(b)
    if x is not None and x == y: return ("ge", x)
    x, y = downs(a), downs(b)
    if x is not None and x == y: return a if a[0] != "E" else b
    for p, q in ((a, b), (b, a)):        # everything was popped
        if p == ("c", None):
            if q[0] in ("$", "m"): return ("floor", q)
            if q[0] == "floor": return q
    if a[0] == "floor" and b == a[1]: return a
    if b[0] == "floor" and a == b[1]: return b
    return Q

class Balance:
    def __init__(self, m, only=None):
        self.m = m; self.nr = nonreturning(m)
        self.globs = {}          # key -> pretty name of every scalar interpreter-wide variable the program stores to
        stored = {}
        for f in m.funcs.values():
            for I in f.instrs():
                if I.o == "store" and isinstance(I.a[1], str):
                    a = f.addr(I.a[1])
                    if a[0].startswith("@") and len(a) == 1: stored.setdefault(a[0][1:], set()).add(f.key)
        self.globs = {g: m.gname(g) for g in stored if only is None or g in only}
        self.stored = stored; self.popped = set()
        self.jumped = {}         # variables the jumping side itself puts right before the jump: global -> True
        self.landed = set()
        self.nonnull = {g for g, n in self.globs.items() if n == "g_current_module"}
        self.sum = {}
        self.restores = {}       # global -> functions that put back a value it held before
        self.saved = {}          # struct field -> global whose value is kept in it
        self.order()
    def order(self):
        m = self.m; g, _ = m.callgraph(); done = set(); self.seq = []
        for s in m.funcs:
            if s in done: continue
            st = [(s, iter(sorted(g[s])))]; done.add(s)
            while st:
                k, it = st[-1]
                for y in it:
                    if y in m.funcs and y not in done: done.add(y); st.append((y, iter(sorted(g[y])))); break
                else: self.seq.append(k); st.pop()
    # ---- one function
    def sym(self, f, v, s):
        if isinstance(v, dict):
            if "g" in v: return ("&", v["g"])
            return Q
        if v is None: return ("c", None)
        if not isinstance(v, str): return ("c", v)
        if v.startswith("$"): return ("$", int(v[1:]))
        if v.startswith("@"): return ("&", v)
        if v in s: return s[v] if s[v] != Q else ("ssa", v)
        I = f.d(v)
        if I is not None and I.o in ("bitcast", "inttoptr", "ptrtoint", "zext", "sext", "trunc", "freeze"): return self.sym(f, I.a[0], s)
        return ("ssa", v)
    def fields(self, f, ptr):
        return f.addr(ptr)
    def read(self, f, key, s, n=None):
        if key in s: return s[key]
        r = key[0]
        if r.startswith("$"): return ("m", key)
        return None
    def isnext(self, f, ptr):
        I = f.d(ptr)
        if I is None or I.o not in ("gep", "getelementptr") or not I.path or not isinstance(I.path[-1], str) or "." not in I.path[-1]: return None
        st, fl = I.path[-1].split(".", 1)
        fd = self.m.field(st, fl)
        if fd and fd.get("type", "").replace(" ", "") in (st + "*", "struct" + st + "*"): return I.a[0]
        return None
    def transfer(self, f):
        m = self.m
        def T(I, s):
            o = I.o
            if o == "load":
                k = f.addr(I.a[0]); me = "%%%d" % I.i
                if len(k) == 1 and k[0].startswith("@") and k[0][1:] in self.globs:
                    g = k[0][1:]; v = s[g]
                    if v == Q or v[0] in ("land",): v = ("ssa", me); s = dict(s); s[g] = v
                    return put(s, me, v)
                base = self.isnext(f, I.a[0])
                if base is not None:
                    v = self.sym(f, base, s)
                    if v[0] == "cons": return put(s, me, v[1])
                    if v[0] in ("E", "next"): return put(s, me, ("next", v))
                    kk = f.addr(I.a[0])
                    if kk in s: return put(s, me, s[kk])
                    if v[0] == "m" and v[1] in self.saved: pass
                v = self.read(f, k, s)
                if v is not None: return put(s, me, v)
                return drop(s, me)
            if o == "store":
                k = f.addr(I.a[1]); v = self.sym(f, I.a[0], s)
                if len(k) == 1 and k[0].startswith("@") and k[0][1:] in self.globs:
                    g = k[0][1:]
                    # a fresh node linked to the value: something was pushed
                    if v[0] == "ssa":
                        for kk, x in s.items():
                            if isinstance(kk, tuple) and kk[0] == v[1] and len(kk) == 2 and ups(x) == g and ups(x) is not None and "." in kk[1]: v = ("cons", x); break
                    if v[0] == "&":
                        for kk, x in s.items():
                            if isinstance(kk, tuple) and kk[0] == v[1] and len(kk) == 2 and ups(x) == g and ups(x) is not None and "." in kk[1]: v = ("cons", x); break
                    if v == ("c", 0) and s.get("=" + g) == 0 and s[g] != ("E", g): v = ("E", g)
                    if v[0] == "next" or v[0] == "add" and v[2] < 0: self.popped.add(g)
                    if s[g] != v and ups(v) == g and v[0] == "E": self.restores.setdefault(g, set()).add(f.key)
                    if v[0] == "m" and self.saved.get(v[1][-1]) == g: self.restores.setdefault(g, set()).add(f.key)
                    s = dict(s); s[g] = v
                    return s
                if any(x == "*" for x in k[1:]) or k[0].startswith("@") or k[0] == "?": return s
                if v[0] == "E" and len(k) > 1 and "." in k[-1] and v[1] not in self.nosave: self.saved.setdefault(k[-1], v[1])
                if len(k) > 1 or k[0].startswith("$") or f.d(k[0]) is not None and f.d(k[0]).o == "alloca": s = dict(s); s[k] = v
                return s
            if o in ("add", "sub") and isinstance(I.a[1], int):
                v = self.sym(f, I.a[0], s)
                if ups(v) or downs(v):
                    k = I.a[1] if o == "add" else -I.a[1]
                    if v[0] == "add":
                        k += v[2]; v = v[1]
                    return put(s, "%%%d" % I.i, ("add", v, k) if k else v)
                return drop(s, "%%%d" % I.i)
            if o == "icmp" and I.p in ("eq", "ne") and I.a[1] in (0, False) or o == "xor" and I.a[1] in (1, True, -1) or o in ("zext", "trunc", "sext", "freeze"):
                v = self.sym(f, I.a[0], s)
                if v == ("c", 0) and o in ("icmp", "xor"): return put(s, "%%%d" % I.i, ("c", 0 if o == "icmp" and I.p == "ne" else 1))
                if v[0] == "sj": return put(s, "%%%d" % I.i, ("sj", v[1] if o not in ("icmp", "xor") or o == "icmp" and I.p == "ne" else -v[1]))
                return s
            if o in ("call", "invoke"):
                c = I.callee(); me = "%%%d" % I.i if I.i is not None else None
                if (I.cname() or "") in SETJMP: return put(s, me, ("sj", 1) if not self.noland and any("." in str(x) for x in f.addr(I.a[0])[1:]) or f.addr(I.a[0])[0][0] != "%" else ("c", 0))     # a buffer in a local variable of its own is only filled
                if c is not None and (c in self.nr or c in m._nrbase or c in BASE_NR): return None
                S = self.sum.get(c) if c else None
                if S is None:
                    if me in s: return drop(s, me)
                    return s
                s2 = dict(s)
                for g, v in S["g"].items():
                    s2[g] = self.subst(f, I, v, s, g)
                    if s2[g] == ("c", 0) and s.get("=" + g) == 0: s2[g] = ("E", g)
                for k, v in S["mem"].items():
                    i = int(k[0][1:])
                    if i < len(I.a):
                        a = f.addr(I.a[i])
                        kk = a + k[1:]
                        if "*" in kk: continue
                        s2[kk] = self.subst(f, I, v, s, None)
                        if s2[kk][0] == "E" and "." in kk[-1]: self.saved.setdefault(kk[-1], s2[kk][1])
                if me:
                    v = self.subst(f, I, S["ret"], s, None) if S["ret"] is not None else Q
                    if v[0] in ("?", "ssa"): s2.pop(me, None)
                    else: s2[me] = v
                return s2
            return s
        return T
    def subst(self, f, I, v, s, g):
        t = v[0]
        if t == "E": return s.get(v[1], Q)
        if t == "ge":
            x = ups(s.get(v[1], Q)); return ("ge", x) if x is not None else Q
        if t == "$": return self.sym(f, I.a[v[1]], s) if v[1] < len(I.a) else Q
        if t == "m":
            i = int(v[1][0][1:])
            if i >= len(I.a): return Q
            a = f.addr(I.a[i])
            r = self.read(f, a + v[1][1:], s)
            return r if r is not None else Q
        if t == "cons":
            x = self.subst(f, I, v[1], s, g); return ("cons", x) if x != Q else Q
        if t == "next":
            x = self.subst(f, I, v[1], s, g)
            if x[0] == "cons": return x[1]
            return ("next", x) if x[0] in ("E", "next") else Q
        if t == "add":
            x = self.subst(f, I, v[1], s, g)
            if x[0] == "add":
                k = x[2] + v[2]; return ("add", x[1], k) if k else x[1]
            return ("add", x, v[2]) if x[0] == "E" else Q
        if t == "floor":
            x = self.subst(f, I, v[1], s, g); c = s.get(g, Q)
            if x[0] == "E" and (ups(c) == x[1] or c == ("land", x[1])):
                self.restores.setdefault(x[1], set()).add(f.key); return x
            if x == c: return x
            return ("floor", x) if x != Q and x[0] != "ssa" else Q
        if t in ("c", "&"): return v
        return Q
    def join(self, f):
        G = self.globs
        def J(a, b):
            if a == b: return a
            r = {}
            for k in a:
                if k in b: 
                    if a[k] == b[k]: r[k] = a[k]
                    elif k in G:
                        x, y = a[k], b[k]
                        if x == ("E", k) and a.get("=" + k, 1) == 0 and y[0] not in ("E", "ge"): x = ("c", None)
                        if y == ("E", k) and b.get("=" + k, 1) == 0 and x[0] not in ("E", "ge"): y = ("c", None)
                        if x == ("E", k) and a.get("==" + k) == y: x = y
                        if y == ("E", k) and b.get("==" + k) == x: y = x
                        r[k] = jn(x, y)
                    elif isinstance(k, tuple):
                        x = jn(a[k], b[k]); r[k] = x
                    else: r[k] = Q
                elif isinstance(k, tuple) and k[0].startswith("$"):
                    x = jn(a[k], ("m", k)); r[k] = x
                elif isinstance(k, str) and k not in G and k[0] != "=": r[k] = a[k]
            for k in b:
                if k not in a:
                    if isinstance(k, tuple) and k[0].startswith("$"): r[k] = jn(b[k], ("m", k))
                    elif isinstance(k, str) and k not in G and k[0] != "=": r[k] = b[k]
            return r
        return J
    def edge(self, f):
        def E(T, k, s):
            # phi operands
            tgt = f.succ[T.bb][k]
            ns = None
            for P in f.blocks[tgt]:
                if P.o != "phi": break
                for v, b in zip(P.a, P.b):
                    if b == T.bb:
                        x = self.sym(f, v, s); me = "%%%d" % P.i
                        if ns is None: ns = dict(s)
                        ns[me] = x
            if ns is not None: s = ns
            if T.o == "br" and T.a and len(f.succ[T.bb]) > 1: return self.refine(f, T.a[0], k == 0, s)
            return s
        return E
    def refine(self, f, c, val, s, d=0):
        I = f.d(c) if isinstance(c, str) else None
        v = self.sym(f, c, s)
        if v[0] == "sj":
            if (v[1] > 0) != val: return s
            s = dict(s); self.landed.add(f.key)
            for g in self.globs: s[g] = ("E", g) if g in self.jumped else ("land", g)
            s["!land"] = 1
            return s
        if v == ("c", 0) and val: return None
        if v[0] == "E" and not val: s = dict(s); s["=" + v[1]] = 0; return s
        if I is None or d > 6: return s
        if I.o in ("trunc", "zext", "freeze"): return self.refine(f, I.a[0], val, s, d + 1)
        if I.o == "xor" and I.a[1] in (1, True, -1): return self.refine(f, I.a[0], not val, s, d + 1)
        if I.o != "icmp": return s
        a, b = I.a; p = I.p
        if p in ("eq", "ne") and b in (0, False, None) and self.sym(f, a, s)[0] == "E" and (p == "eq") == val and self.sym(f, a, s)[1] not in self.nonnull:
            s = dict(s); s["=" + self.sym(f, a, s)[1]] = 0; return s
        x, y = self.sym(f, a, s), self.sym(f, b, s)
        if p in ("eq", "ne"):
            eq = (p == "eq") == val
            for u, w in ((x, y), (y, x)):
                if w == ("c", None) or w == ("c", 0):
                    if eq:
                        for g in self.globs:
                            if s[g] == u and u[0] in ("ssa", "next"): s = dict(s); s[g] = ("c", None)
                    if eq and (u[0] == "E" and u[1] in self.nonnull or u[0] == "m" and self.saved.get(u[1][-1]) in self.nonnull): return None
                    continue
                if eq and w[0] not in ("ssa", "?", "c") and u[0] != "c":
                    if u[0] == "E" and w[0] in ("$", "m") and s.get(u[1]) == u: s = dict(s); s["==" + u[1]] = w
                    for g in self.globs:
                        if s[g] == u and (u[0] == "ssa" or g in self.popped and w[0] in ("$", "m") and (ups(u) == g or downs(u) == g)): s = dict(s); s[g] = w
            if eq and x[0] == "E" and y[0] == "E": pass
            return s
        # pop down to a depth:  leaving means not above it
        if p in ("sgt", "ugt"): le = not val; lo, hi = x, y
        elif p in ("sle", "ule"): le = val; lo, hi = x, y
        elif p in ("slt", "ult"): le = not val; lo, hi = y, x
        elif p in ("sge", "uge"): le = val; lo, hi = y, x
        else: return s
        if le and hi[0] in ("$", "E", "m"):
            for g in self.globs:
                if s[g] == lo and (lo[0] in ("ssa",) or ups(lo) == g or downs(lo) == g) and lo != hi:
                    s = dict(s); s[g] = ("floor", hi) if not (hi[0] == "E" and ups(lo) == g) else hi
        return s
    def analyse(self, f, init=None):
        s0 = {g: ("E", g) for g in self.globs}
        ins = forward(f, s0, self.transfer(f), self.join(f), self.edge(f))
        return ins
    def at(self, f, ins):
        """states at every return"""
        T = self.transfer(f); out = []
        for b, s in ins.items():
            for I in f.blocks[b]:
                if I.o == "ret": out.append((I, s)); break
                s = T(I, s)
                if s is None: break
        return out
    nosave = (); noland = False
    def run(self, neutral):
        """neutral(f, g) : the effect of f on g that callers may assume when it is not a plain one"""
        m = self.m; self.ins = {}; self.eff = {}
        for rnd in range(6):
            ch = False
            for k in self.seq:
                if k in self.nr or not m.funcs[k].blocks: continue
                f = threaded(m.funcs[k]); ins = self.analyse(f); self.ins[k] = ins
                G, mem, ret = None, None, None
                for I, s in self.at(f, ins):
                    gs = {g: s[g] for g in self.globs}
                    mm = {kk: v for kk, v in s.items() if isinstance(kk, tuple) and kk[0].startswith("$") and "*" not in kk and v[0] not in ("ssa",) }
                    rv = self.sym(f, I.a[0], s) if I.a else None
                    if G is None: G, mem, ret = gs, mm, rv
                    else:
                        G = {g: jn(G[g], gs[g]) for g in G}; mem = {kk: jn(mem[kk], mm[kk]) for kk in mem if kk in mm}; ret = jn(ret, rv) if ret and rv else None
                if G is None: continue
                self.eff[k] = G
                G2 = {}
                for g, v in G.items():
                    if v[0] == "ssa" or v[0] == "land": v = Q
                    v = neutral(f, g, v)
                    if v != ("E", g): G2[g] = v
                mem = {kk: v for kk, v in mem.items() if v[0] in ("E", "c", "$")}
                S = {"g": G2, "mem": mem, "ret": ret}
                if self.sum.get(k) != S: self.sum[k] = S; ch = True
            if not ch: break

def put(s, k, v):
    if v[0] == "ssa" and v[1] == k:
        if k in s: s = dict(s); del s[k]
        return s
    if s.get(k) == v: return s
    s = dict(s); s[k] = v; return s
def drop(s, k):
    if k in s: s = dict(s); del s[k]
    return s

# ------------------------------------------------------------------------------------------------------------------------------
SWITCH = {"set-current-module", "define-module"}
def build(ctx):
    """the balance of every interpreter-wide variable that is changed for the time of an operation"""
    from check_api import Finding, Broken
    m = ctx.facts()
    # 1. which variables are changed temporarily: something puts an earlier value back, pops what was pushed, or keeps the value to put it back
    B0 = Balance(m); B0.nosave = ()
    B0.run(lambda f, g, v: v)
    heap = {"g_eval_stack"}              # its depth g_stack_depth is followed instead
    C = {g for g in (set(B0.restores) | B0.popped | {g for fl, g in B0.saved.items() if fl.split(".")[0] not in ("SCM_List", "SCM_Port")}) if B0.globs[g] not in heap and not m.pretty(g).startswith("guard variable")}
    # 2. entry points: an operation is charged where its effect can no longer be undone by its only caller
    jumps = {k for k in B0.nr}
    EV = {f.key for f in m.funcs.values() if f.name in ("eval_with_env", "apply_procedure")}
    if not EV: raise Broken("the evaluator was not found")
    g, _ = m.callgraph(); deep = set(EV)          # functions that evaluate on a path that comes back
    rev = {}
    for k in m.funcs:
        if k not in jumps:
            for y in g[k]: rev.setdefault(y, set()).add(k)
    st = list(EV)
    while st:
        for y in rev.get(st.pop(), ()):
            if y not in deep: deep.add(y); st.append(y)
    callers = {k: {I.fn.key for I in m.callers(k)} for k in m.funcs}
    builtin = {}
    for r in m.registrations: builtin.setdefault(r["fn"], set()).add(r["name"])
    def entry(f):
        if f.name == "main": return None
        cs = callers[f.key] - {f.key}
        if f.addrtaken: return "called through a pointer"
        if not cs: return "called from outside"
        if cs <= jumps: return None
        if f.key in callers[f.key]: return "recursive"
        if f.key in deep and len(cs) > 1: return "called from %d functions" % len(cs)
        return None
    B = Balance(m, C); B.popped = set(B0.popped); B.saved = {fl: g for fl, g in B0.saved.items() if g in C}; B.nosave = set(C)
    B.deep = deep; B.first = B0
    return m, B, C, entry, builtin, jumps

def switches_module(m, f, v):
    """operations whose purpose is to choose the current module"""
    if v[0] == "$": return True                                     # makes the module it is given current
    if "set_current_module" in f.name: return True                  # the wrappers of the embedding API (their bodies carry their name)
    if f.name in ("eval_define_module", "pscm_init", "init_scm", "init_modules", "main"): return True
    return False

def charge(ctx, noland):
    m, B, C, entry, builtin, jumps = build(ctx)
    B.noland = noland; bad = {}
    mod = {g for g in C if B.globs[g] == "g_current_module"}
    thr, sites = thrower_restores(m, B.first, C)
    B.jumped = {g for g, x in thr.items() if x is True}
    def neutral(f, g, v):
        if v == ("E", g): bad.pop((f.key, g), None); return v
        if g in mod and switches_module(m, f, v):
            bad.pop((f.key, g), None)
            return v if v[0] == "$" and not f.addrtaken else ("E", g)
        if entry(f): bad[(f.key, g)] = v; return ("E", g)
        bad.pop((f.key, g), None); return v
    B.run(neutral)
    return m, B, C, entry, builtin, jumps, bad, thr

def blame(m, B, k, g):
    """where the variable is changed, and the ways out on which it stays changed"""
    f = threaded(m.funcs[k]); ins = B.ins[k]; T = B.transfer(f); ch = []; outs = {}
    for b, s in ins.items():
        for I in f.blocks[b]:
            s2 = T(I, s)
            if s2 is None: s = None; break
            if s[g] == ("E", g) and s2[g] != ("E", g): ch.append(I)
            s = s2
        if s is not None: outs[b] = s
    rb = [b for b in outs if f.blocks[b][-1].o == "ret"]
    ways = []
    for b in rb:
        ps = [p for p in f.pred[b] if p in outs]
        if len(ps) > 1:
            for p in ps:
                if outs[p][g] != ("E", g): ways.append(next((I.loc for I in reversed(f.blocks[p]) if I.l), f.blocks[p][-1].loc))
        elif outs[b][g] != ("E", g): ways.append(f.blocks[b][-1].loc)
    return ch, sorted(set(ways))

def thrower_restores(m, B, C):
    """variables that every jump back to a saved context has put right beforehand: on every path to the jump a function that changes the variable is
    given the value that was recorded for it (a field in which only that variable's value is kept)"""
    out = {}; sites = []
    jumpers = {f.key for f in m.funcs.values() for I in f.calls() if (I.cname() or "") in ("longjmp", "_longjmp", "siglongjmp")}
    for g in C:
        flds = {fl for fl, x in B.saved.items() if x == g}
        writers = B.stored[g] | {k for k in m.funcs if g in B.sum.get(k, {"g": {}})["g"]}
        if not flds: continue
        def fixes(f, I):
            if I.o not in ("call", "invoke") or I.callee() not in writers: return False
            for a in I.a:
                d = f.d(f.strip(a)) if isinstance(a, str) else None
                if d is not None and d.o == "load" and f.addr(d.a[0])[-1] in flds: return True
                if d is not None and d.o == "phi": pass
            return False
        memo = {}
        def bad(k, stack=()):
            """a path from the entry of k to the jump without the variable put right, or None"""
            if k in memo: return memo[k]
            if k in stack: return None
            f = m.funcs[k]
            goal_calls = {}
            for I in f.calls():
                c = I.callee()
                if (I.cname() or "") in ("longjmp", "_longjmp", "siglongjmp"): goal_calls[I] = True
                elif c in m.funcs and c in B.nr and c != k and bad(c, stack + (k,)) is not None: goal_calls[I] = True
            p = find_path(f, 0, 0, lambda I: I in goal_calls, lambda I: fixes(f, I) or I.o in ("call", "invoke") and (I.callee() in B.nr and I not in goal_calls))
            memo[k] = p; return p
        # the outermost functions that end in the jump
        tops = {k for k in B.nr if m.funcs[k].blocks and (k in jumpers or any(I.callee() in B.nr for I in m.funcs[k].calls()))}
        reach = {k for k in tops if k in jumpers}
        ch = True
        while ch:
            ch = False
            for k in tops - reach:
                if any(I.callee() in reach for I in m.funcs[k].calls()): reach.add(k); ch = True
        roots = {k for k in reach if any(I.fn.key not in B.nr for I in m.callers(k)) or m.funcs[k].addrtaken}
        worst = None
        for k in jumpers & reach:
            # nobody up the chain of nonreturning callers puts it right either
            def chain(k, seen):
                if bad(k) is None: return None
                p = [m.pretty(k)]
                cs = {I.fn.key for I in m.callers(k)}
                if k in roots: return p
                for c in cs - seen:
                    if c in B.nr:
                        r = bad(c)
                        if r is not None:
                            q = chain(c, seen | {c})
                            if q is not None: return p + q
                return None
            w = chain(k, {k})
            if w is not None: worst = w
        sites.append((g, len(jumpers & reach)))
        if worst is None and jumpers & reach: out[g] = True
        else: out[g] = worst
    return out, sites
