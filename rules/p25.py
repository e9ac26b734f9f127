"""P25: values already computed are not evaluated again."""
import re
from check_api import Finding, Broken
from rules.ir import nonreturning, BASE_NR, forward
from rules.p17 import predicates
from rules.p20 import dispatch

EXPLICIT = {"eval", "primitive-eval", "local-eval", "eval-string", "macroexpand"}     # asking for evaluation is what these are for
CODE = {"SCM_Procedure.body", "SCM_Procedure.args", "SCM_Promise.thunk", "SCM_Macro.transformer", "SCM_Module.binder"}   # program text kept in objects
THRU = {"SCM.value", "SCM_List.next"}
def quotesym(m, f, v):
    I = f.d(f.strip(v)) if isinstance(v, str) else None
    if I is None: return False
    n = (I.cname() or "") if I.o in ("call", "invoke") else (m.gname(f.addr(f.strip(v))[0][1:]) if f.addr(f.strip(v))[0].startswith("@") else "")
    if I.o in ("call", "invoke") and len(I.a) == 1 and isinstance(I.a[0], str):
        J = f.d(f.strip(I.a[0]))
        if J is not None and J.o in ("call", "invoke") and I.t == "ptr" and not I.f: pass
    return "quote" in n and "unquote" not in n and "quasi" not in n

class Types:
    """which types a value can have at the start of each block"""
    def __init__(self, m, f, preds): self.m, self.f, self.preds, self.memo = m, f, preds, {}
    def at(self, v, bb):
        f = self.f; v = f.strip(v)
        if v not in self.memo:
            full = frozenset(self.m.scm_types.values())
            key = f.addr(v)
            if not any(I.callee() in self.preds and len(I.a) == 1 and (f.strip(I.a[0]) == v or f.addr(f.strip(I.a[0])) == key) for I in f.calls()) and not any(I.o in ("switch",) or I.o == "icmp" and isinstance(I.a[0], str) and f.addr(f.strip(I.a[0])) == key + ("SCM.type", "*") for I in f.instrs()):
                self.memo[v] = None
            else:
                def edge(T, k, s):
                    if T.o == "br" and T.a and len(f.succ[T.bb]) > 1: return self.refine(T.a[0], k == 0, v, key, s, 0, edge, M)
                    if T.o == "switch" and f.addr(f.strip(T.a[0])) == key + ("SCM.type", "*"):
                        return s & {T.cases[k - 1]} if k > 0 else s - set(T.cases)
                    return s
                M = {0: full}; n = None
                while n != M: n = dict(M); masks(f, full, edge, M)
                self.memo[v] = M
        M = self.memo[v]
        return None if M is None else M.get(bb, frozenset())
    def refine(self, c, val, v, key, s, d=0, edge=None, M=None):
        f = self.f; I = f.d(c) if isinstance(c, str) else None
        if I is None or d > 8: return s
        if I.o in ("trunc", "zext", "freeze"): return self.refine(I.a[0], val, v, key, s, d + 1, edge, M)
        if I.o == "xor": return self.refine(I.a[0], not val, v, key, s, d + 1, edge, M)
        if I.o == "phi" and edge is not None:
            # a condition kept in a variable or joined with and/or: by where it comes from
            u = frozenset()
            for x, p in zip(I.a, I.b):
                if p not in M: continue
                T = f.blocks[p][-1]; w = frozenset().union(*[edge(T, k, M[p]) for k, t in enumerate(f.succ[p]) if t == I.bb])
                k = constant(f, x)
                if k is not None: u |= w if bool(k & 1) == val else frozenset()
                else: u |= self.refine(x, val, v, key, w, d + 1, edge, M)
            return s & u
        if I.o in ("call", "invoke") and I.callee() in self.preds and len(I.a) == 1 and (f.strip(I.a[0]) == v or f.addr(f.strip(I.a[0])) == key):
            t = self.preds[I.callee()]
            return frozenset(x for x in s if t.get(x) == val)
        if I.o == "icmp" and I.p in ("eq", "ne"):
            a, b = I.a
            if isinstance(b, int) and isinstance(a, str):
                if f.addr(f.strip(a)) == key + ("SCM.type", "*"):
                    return s & {b} if (I.p == "eq") == val else s - {b}
                if b == 0: return self.refine(a, (I.p == "ne") == val, v, key, s, d + 1, edge, M)
        return s

def masks(f, full, edge, M=None):
    M = {0: full} if M is None else M; work = list(M)
    from rules.ir import BASE_NR as B
    nr = getattr(f.mod, "_nr25", None) or set()
    while work:
        b = work.pop(); s = M[b]; dead = False
        for I in f.blocks[b]:
            if I.o in ("call", "invoke") and (I.callee() in nr or I.callee() in f.mod._nrbase or I.callee() in B): dead = True; break
        if dead: continue
        T = f.blocks[b][-1]
        for k, t in enumerate(f.succ[b]):
            x = edge(T, k, s)
            if not x: continue
            o = M.get(t)
            n = x if o is None else o | x
            if n != o: M[t] = n; work.append(t)
    return M

def constant(f, v, d=0):
    if isinstance(v, bool): return int(v)
    if isinstance(v, int): return v
    I = f.d(v) if isinstance(v, str) else None
    if I is None or d > 6: return None
    if I.o in ("trunc", "zext", "sext", "freeze"): return constant(f, I.a[0], d + 1)
    if I.o == "xor":
        a, b = constant(f, I.a[0], d + 1), constant(f, I.a[1], d + 1)
        return None if a is None or b is None else (a ^ b) & 1
    if I.o == "icmp" and I.p in ("eq", "ne"):
        a, b = constant(f, I.a[0], d + 1), constant(f, I.a[1], d + 1)
        return None if a is None or b is None else int((a == b) == (I.p == "eq"))
    return None
def alive(f):
    """blocks that can run at all (branches on constants decided)"""
    seen = {0}; work = [0]
    while work:
        b = work.pop(); T = f.blocks[b][-1]; s = list(f.succ[b])
        if T.o == "br" and T.a and len(s) > 1:
            c = constant(f, T.a[0])
            if c is not None: s = [s[0] if c & 1 else s[1]]
        for t in s:
            if t not in seen: seen.add(t); work.append(t)
    return seen

class Fn:
    def __init__(self, A, f):
        self.A, self.f, self.m = A, f, A.m
        self.sub = {}; self.back = {}; self.puts = {}; self.putc = {}; self.cls = {}; self.T = Types(A.m, f, A.preds); self.quoted = set(); self.marks = {}
    def find(self, x): return x
    def node(self, v):
        """the object whose contents (or which itself) a pointer value stands for"""
        v = self.f.strip(v)
        if not isinstance(v, str) or v.startswith("@"): return None
        return self.find(v)
    def same(self, a, b):
        """b may be a (or the tail of a)"""
        if a is not None and b is not None and a != b: self.sub.setdefault(b, set()).add(a); self.back.setdefault(a, set()).add(b)
    def put(self, a, b):
        """a is put into b"""
        if a is not None and b is not None: self.puts.setdefault(b, set()).add(a)
    def le(self, a, b):
        """contents of a flow into b"""
        if a is not None and b is not None: self.sub.setdefault(self.find(b), set()).add(a)
    def base(self, ptr):
        """(object, field) of an address"""
        I = self.f.d(self.f.strip(ptr)) if isinstance(ptr, str) else None
        if I is not None and I.o in ("gep", "getelementptr"): return I.a[0], I.path[-1] if I.path and isinstance(I.path[-1], str) else "[]", I
        return ptr, None, I
    def build(self):
        f, m, A = self.f, self.m, self.A
        ptrs = lambda t: t.replace(" ", "").replace("const", "") in ("SCM*", "SCM_List*")
        for i, t in enumerate(f.sig[1:]):
            if ptrs(t): self.cls.setdefault("$%d" % i, set()).update({"B", ("P", i)} if f.key in A.builtins or f.key in A.callbacks else {("P", i)})
        live = alive(f)
        for I in f.instrs():
            if I.bb not in live: continue
            me = "%%%d" % I.i if I.i is not None else None
            if I.o == "phi" and I.t == "ptr":
                for v, b in zip(I.a, I.b):
                    if b not in live or self.selfeval(v, b): continue
                    n = self.node(v)
                    self.same(n, me)
            elif I.o == "select" and I.t == "ptr":
                for v in I.a[1:]:
                    n = self.node(v)
                    self.same(n, me)
            elif I.o == "load" and I.t == "ptr":
                o, fld, g = self.base(I.a[0])
                if fld == "SCM_List.data": self.le(self.node(o), me)
                elif fld in THRU:
                    self.same(self.node(o), me)
                elif fld in CODE: pass
                elif fld == "SCM_Vector.elements": self.le(self.node(o), me)      # a vector may be part of a program
                elif fld and "." in fld: self.cls.setdefault(self.find(me), set()).add("V") if self.valued(I) else None
                elif fld is None and isinstance(o, str):
                    J = f.d(f.strip(o))
                    if f.strip(o).startswith("$") and "**" in f.sig[int(f.strip(o)[1:]) + 1].replace(" ", ""): self.same(f.strip(o), me)   # the expression being worked on
                    elif J is not None and J.o == "alloca":
                        self.same(f.strip(o), me)
                    elif J is not None and J.o == "load": self.le(self.node(o), me)
                else:
                    n = self.node(o) if isinstance(o, str) else None
                    self.le(n, me)      # element of an array of values
            elif I.o == "store" and isinstance(I.a[0], str):
                v = f.strip(I.a[0])
                if not isinstance(v, str) or v.startswith("@"): continue
                J = f.d(v)
                if J is not None and J.t != "ptr" and J.o != "alloca": continue
                o, fld, g = self.base(I.a[1])
                n = self.node(o)
                if n is None: continue
                if fld == "SCM_List.data": self.flow(v, n, I)
                elif fld in THRU: self.same(v, n); self.put(v, n)
                elif fld is None:
                    if f.strip(o).startswith("$") and "**" in f.sig[int(f.strip(o)[1:]) + 1].replace(" ", ""): self.A.tail.append((self, v, I))
                    J2 = f.d(f.strip(o))
                    if J2 is not None and J2.o == "alloca": self.same(v, f.strip(o))
                    else: self.flow(v, n, I)
                elif fld and not "." in fld: self.flow(v, n, I)
            elif I.o in ("call", "invoke"): self.call(I, me)
    def valued(self, I):
        """is what is loaded a Scheme value or list (not text, a table or a nested structure)"""
        g = self.f.d(self.f.strip(I.a[0]))
        t = (g.path and g.path[-1]) or ""
        st, _, fl = t.partition(".")
        s = self.m.structs.get(st)
        if not s: return False
        for x in s.get("fields", []):
            if x.get("name") == fl: return x.get("type", "").replace(" ", "") in ("SCM*", "SCM_List*", "SCM**")
        return False
    def flow(self, v, n, I):
        """value v is put into the object n at I: harmless if it can only be a self-evaluating value there"""
        if self.selfeval(v, I.bb): return
        self.put(self.node(v), n)
    def selfeval(self, v, bb):
        if not isinstance(v, str): return True
        f = self.f; s = self.T.at(v, bb)
        if s is not None and not (s & self.A.evalable): return True
        J = f.d(f.strip(v)) if isinstance(v, str) else None
        if J is not None and J.o in ("call", "invoke") and J.callee() in self.A.selfmade: return True
        return False
    def call(self, I, me):
        f, m, A = self.f, self.m, self.A
        c = I.callee(); n = I.cname() or ""
        if c is None:
            # the implementation of a builtin or a C callback: what comes back is a value
            t = I.f
            if isinstance(t, str) and f.strip(t).startswith("$"):
                for a in I.a: self.le(self.node(a), me)     # a helper mapping a C function over a list
                return
            if I.t == "ptr" and me: self.cls.setdefault(self.find(me), set()).add("V")
            return
        g = m.funcs.get(c)
        if g is None: return
        if any(quotesym(m, f, a) for a in I.a) and I.t == "ptr":
            self.quoted.add(self.find(me)); return
        A.calls.setdefault(c, []).append((self, I))
        self.marks[id(I)] = (I, me)
    def solve(self):
        """contents of every object"""
        ch = True
        for I, me in self.marks.values():
            S = self.A.sum.get(I.callee())
            if not S: continue
            for t in S["ret"]:
                if t == "V":
                    if me and not self.isexp(I): self.cls.setdefault(self.find(me), set()).add("V")
                elif me and t[1] < len(I.a):
                    v = I.a[t[1]]
                    if isinstance(v, str) and not self.selfeval(v, I.bb):
                        if t[2]: 
                            nn = self.node(v)
                            self.same(nn, me)
                        else: self.le(self.node(v), me)
            for i, j in S["into"]:
                if i < len(I.a) and j < len(I.a) and isinstance(I.a[i], str) and isinstance(I.a[j], str): self.flow(I.a[j], self.node(I.a[i]) or "", I)
        ch = True
        def add(D, k, x):
            if k in self.quoted or not x: return False
            t = D.setdefault(k, set())
            if x <= t: return False
            t |= x; return True
        while ch:
            ch = False
            for b in list(self.sub):
                for a in self.sub[b]: ch |= add(self.cls, b, self.cls.get(a, set()))
            for b in list(self.puts):
                for a in self.puts[b]: ch |= add(self.putc, b, self.cls.get(a, set()))
            for a in list(self.back):
                for b in self.back[a]: ch |= add(self.putc, a, self.putc.get(b, set()))
            for a in list(self.putc): ch |= add(self.cls, a, self.putc[a])
    def isexp(self, I):
        """what the transformer of a macro returns is an expression"""
        return I.callee() in self.A.expanders
    def of(self, v):
        n = self.node(v)
        if n is None: return set()
        if n in self.quoted: return set()
        return self.cls.get(n, set())

class Analysis:
    def __init__(self, m):
        self.m = m; m._nr25 = nonreturning(m)
        self.preds = predicates(m); self.evalable = {m.scm_types["SYM"], m.scm_types["LIST"]}
        self.builtins = {r["fn"] for r in m.registrations if r["name"] not in EXPLICIT}
        self.explicit = {r["fn"] for r in m.registrations if r["name"] in EXPLICIT} - self.builtins
        self.builtins -= {None}
        called, taken = set(), set()
        for f in m.funcs.values():
            for I in f.instrs():
                c = I.callee() if I.o in ("call", "invoke") else None
                if c: called.add(c)
                for a in (I.a or ()):
                    if isinstance(a, str) and a.startswith("@") and a[1:] in m.funcs: taken.add(a[1:])
        # called back, or for host programs to call: given values
        self.callbacks = {k for k, f in m.funcs.items() if k in taken or k not in called} - self.explicit
        self.calls, self.tail, self.sum, self.fns = {}, [], {}, {}
        # the core: takes an environment and an expression, and reads the head of the expression to choose what to do
        self.base = {}
        for n in ("eval_with_env",):
            for f in m.byname.get(n, []): self.base[f.key] = 1
        if not self.base: raise Broken("the evaluator was not found")
        self.selfmade = self.made()
        self.expanders = {f.key for f in m.funcs.values() if any(I.o in ("gep", "getelementptr") and I.path and I.path[-1] == "SCM_Macro.transformer" for I in f.instrs()) and f.sig[0].replace(" ", "") == "SCM*" and any(I.callee() and m.pretty(I.callee()) in ("eval_with_list", "eval_with_env") for I in f.calls())}
        for f in m.funcs.values():
            self.sum[f.key] = {"ret": set(), "into": set(), "sink": {}}
        for k in self.base: self.sum[k]["sink"][self.base[k]] = "eval_with_env"
        for f in m.funcs.values():
            x = self.fns[f.key] = Fn(self, f); x.build()
    def made(self):
        """functions that only return freshly labelled values of types that evaluate to themselves"""
        m = self.m; ok = set(); ch = True
        def good(f, v, seen):
            v = f.strip(v)
            if v is None: return True
            if not isinstance(v, str) or v in seen: return isinstance(v, str)
            seen.add(v); I = f.d(v)
            if I is None: 
                if v.startswith("@"):
                    return False
                return False
            if I.o == "phi": return all(good(f, x, seen) for x in I.a)
            if I.o in ("call", "invoke"):
                if I.callee() in ok: return True
                if (I.cname() or "") in ("gc_alloc",):
                    ts = [S.a[0] for S in f.instrs() if S.o == "store" and f.d(f.strip(S.a[1])) is not None and f.d(f.strip(S.a[1])).o in ("gep", "getelementptr") and f.d(f.strip(S.a[1])).path and f.d(f.strip(S.a[1])).path[-1] == "SCM.type" and f.strip(f.d(f.strip(S.a[1])).a[0]) == v]
                    ts += [S.a[0] for S in f.instrs() if S.o == "store" and f.strip(S.a[1]) == v and isinstance(S.a[0], int)]
                    return bool(ts) and all(isinstance(t, int) and t not in self.evalable for t in ts)
            return False
        while ch:
            ch = False
            for f in m.funcs.values():
                if f.key in ok or f.sig[0].replace(" ", "") != "SCM*": continue
                rs = [I.a[0] for I in f.rets() if I.a]
                if rs and all(good(f, r, set()) for r in rs) and any(r is not None for r in rs): ok.add(f.key); ch = True
        ok |= {f.key for f in m.funcs.values() if f.name == "scm_make_continuation"}
        return ok
    def run(self):
        m = self.m
        for rnd in range(12):
            ch = False
            for k, x in self.fns.items():
                x.solve(); f = x.f; S = self.sum[k]
                n = sum(len(S[q]) for q in S)
                for i, t in enumerate(f.sig[1:]):
                    v = "$%d" % i
                    for c in x.putc.get(v, ()):
                        if isinstance(c, tuple) and c[1] != i: S["into"].add((i, c[1]))
                if f.sig[0].replace(" ", "") in ("SCM*", "SCM_List*"):
                    for I in f.rets():
                        if not I.a or not isinstance(I.a[0], str): continue
                        for c in x.of(I.a[0]):
                            if c == "V": S["ret"].add("V")
                            elif c != "B": S["ret"].add(("P", c[1], x.f.strip(I.a[0]) == "$%d" % c[1]))
                if k in self.base or self.evals(f): S["ret"] = {"V"}
                for I in f.calls():
                    g = self.sum.get(I.callee())
                    if not g: continue
                    for j, why in g["sink"].items():
                        if j < len(I.a) and isinstance(I.a[j], str):
                            for c in x.of(I.a[j]):
                                if isinstance(c, tuple) and c[1] not in S["sink"] and not x.selfeval(I.a[j], I.bb): S["sink"][c[1]] = f.name
                for y, v, I in self.tail:
                    if y is x:
                        for c in x.of(v):
                            if isinstance(c, tuple): S["sink"].setdefault(c[1], f.name)
                if sum(len(S[q]) for q in S) != n: ch = True
            if not ch: break
    def evals(self, f): return m_name(f) in ("eval_with_list", "apply_procedure", "apply_procedure_with_values", "eval_with_func")

def m_name(f): return f.name
def run(ctx):
    m = ctx.facts(); A = Analysis(m); A.run(); F = []; ob = 0; seen = set()
    for k, x in A.fns.items():
        f = x.f
        if k in A.explicit: continue
        for I in f.calls():
            g = A.sum.get(I.callee())
            if not g: continue
            for j in g["sink"]:
                if j >= len(I.a) or not isinstance(I.a[j], str): continue
                ob += 1
                if x.of(I.a[j]) & {"V", "B"} and not x.selfeval(I.a[j], I.bb):
                    key = (I.srcfn, m.pretty(I.callee()), I.loc)
                    if key in seen: continue
                    seen.add(key)
                    F.append(Finding("evaluated-again", I.srcfn, "a value already computed is handed to %s, which evaluates it as an expression" % m.pretty(I.callee()), I.loc))
    for x, v, I in A.tail:
        ob += 1
        if x.of(v) & {"V", "B"}: F.append(Finding("evaluated-again", I.srcfn, "a value already computed becomes the next expression to evaluate", I.loc))
    return {"findings": F, "level": "other", "coverage": {"explanation": "Interprocedural flow analysis of values (results of evaluation, arguments of builtins, contents of variables and objects) into the expression operands of the evaluator and of everything that evaluates its argument or the elements of a list argument: such a value may only get there quoted, or known to be of a type that evaluates to itself.",
        "obligations": ob, "evaluating_functions": sum(1 for s in A.sum.values() if s["sink"]), "builtins": len(A.builtins), "self_evaluating_makers": len(A.selfmade)}}
