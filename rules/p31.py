"""P31: raising an error never returns to the code that raised it."""
from check_api import Finding, Broken
from rules.ir import nonreturning, find_path, BASE_NR
RAISE = ["scm_throw", "eval_error", "type_error", "scm_uncaught_throw", "throw_wrong_number_of_args", "parse_error", "scm_ithrow", "pscm_ithrow", "pscm_throw", "scm_c_throw_scheme",
         "report_arg_mismatch", "quasiquote_error", "scm_dynthrow", "scm_error", "wrong_type_arg_error"]
def run(ctx):
    m = ctx.facts(); nr = nonreturning(m); F = []
    want = {f.key for f in m.funcs.values() if f.noreturn and f.blocks and not f.name.startswith(("std::", "__"))}
    for n in RAISE:
        want |= {f.key for f in m.byname.get(n, []) if f.blocks}
    if len(want) < 5: raise Broken("only %d raising functions found" % len(want))
    stops = lambda I: I.o in ("call", "invoke") and (I.callee() in nr or I.callee() in m._nrbase or I.callee() in BASE_NR)
    paths = 0
    for k in sorted(want):
        f = m.funcs[k]; paths += sum(1 for b in f.blocks if b and not f.succ[f.blocks.index(b)])
        if k in nr: continue
        w = find_path(f, 0, 0, lambda I: I.o in ("ret", "unreachable"), stops)
        callees = [I for I in f.calls() if I.callee() in want and I.callee() not in nr and I.callee() != k]
        if callees: continue   # reported where it originates
        F.append(Finding("raise-returns", f.name, "can return to the code that raised the error", (w or [f.file + ":%d" % f.line])[-1], w or []))
    sites = sum(len(m.callers(k)) for k in want)
    W = Select(ctx.inlined(), nonreturning(ctx.inlined())); W.run(); F += W.F.values()
    return {"findings": F, "level": "other", "coverage": {"explanation": "Greatest set of functions none of whose paths reaches a return (every path ends the process, jumps to a handler, or calls a member of the set); every error-raising function, and every function declared not to return, must be a member. Decided on the control-flow graph of the current source. In the function that jumps to handlers, every path through one step of the search for the handler is enumerated with the facts its branches establish: a handler is chosen (or called) only where its tag is #t, the same object or a symbol of the same name, passed over only where none of that can hold or it is not active, and the search goes from the innermost outwards and keeps the first.",
        "handler_searches": W.loops, "search_paths": W.paths,
        "raising_functions": len(want), "nonreturning_functions": len(nr), "raise_call_sites": sites, "exits_examined": paths, "samples": sorted(m.funcs[k].name for k in want)[:20]}}

# ---- which handler an error reaches
NAME = ("SCM.value", "*", "SCM_Symbol.data", "*")
class Select:
    """The search for the handler: from the innermost entry outwards, the first whose tag matches, and only that."""
    def __init__(self, m, nr):
        self.m = m; self.nr = nr; self.F = {}; self.paths = 0; self.loops = 0
        self.bool_, self.sym = m.scm_types["BOOL"], m.scm_types["SYM"]
    def stops(self, I): return I.o in ("call", "invoke") and (I.callee() in self.nr or I.callee() in self.m._nrbase or I.callee() in BASE_NR)
    def add(self, f, rule, what, loc, path=()): self.F.setdefault((rule, loc), Finding(rule, f.name, what, loc, list(path)))
    def canon(self, f, v, env):
        n = 0
        while isinstance(v, str) and n < 40:
            n += 1
            if v in env: v = env[v]; continue
            I = f.d(v)
            if I is None: return ("$", v)
            if I.o in ("sext", "zext", "trunc", "freeze", "ptrtoint", "inttoptr", "bitcast"): v = I.a[0]; continue
            if I.o == "load":
                a = f.addr(I.a[0]); b = self.canon(f, a[0], env) if isinstance(a[0], str) and a[0][0] == "%" else ("$", a[0])
                r = a[1:]
                if b[0] == "ld": return ("ld",) + b[1:] + tuple(r) + (() if r and r[-1] == "*" else ("*",))
                return ("ld", b) + tuple(r) + (() if r and r[-1] == "*" else ("*",))
            if I.o == "gep" or I.o == "getelementptr":
                a = f.addr(v)
                if a[0] != v: return ("at", self.canon(f, a[0], env)) + tuple(a[1:])
            if I.o in ("call", "invoke"): return ("call", I.cname() or "", tuple(self.canon(f, x, env) for x in I.a))
            return ("v", v)
        return ("c", v if not isinstance(v, bool) else int(v))
    def atom(self, f, c, val, env):
        """-> (left, right, equal?) or None"""
        n = 0
        while isinstance(c, str) and n < 40:
            n += 1
            if c in env: c = env[c]; continue
            I = f.d(c)
            if I is None: return None
            if I.o == "xor": c, val = I.a[0], not val; continue
            if I.o in ("freeze", "zext", "sext"): c = I.a[0]; continue
            if I.o == "trunc":
                J = f.d(I.a[0]) if isinstance(I.a[0], str) else None
                if J is not None and J.o == "load": return self.canon(f, I.a[0], env), ("c", 0), not val
                c = I.a[0]; continue
            if I.o == "icmp" and I.p in ("eq", "ne"):
                x, y = I.a
                J = f.d(x) if isinstance(x, str) else None
                if J is not None and (y is None or y == 0) and (J.t == "i1" or J.o in ("zext",)):
                    c, val = x, val if I.p == "ne" else not val; continue
                A, B = self.canon(f, x, env), self.canon(f, y, env)
                if B == ("c", None): B = ("c", 0)
                if A == ("c", None): A = ("c", 0)
                if A[0] == "c" or (A > B and B[0] != "c" if str(A) != str(B) else False): A, B = B, A
                return A, B, val if I.p == "eq" else not val
            return self.canon(f, c, env), ("c", 0), not val
        if c is True or c is False or isinstance(c, int): return ("c", 1), ("c", 1), bool(c & 1) == val
        return None
    def put(self, facts, t):
        """facts with t added, or None where they contradict"""
        A, B, eq = t
        if A[0] == "c" and B[0] == "c": return facts if (A[1] == B[1]) == eq else None
        key = (A, B) if str(A) <= str(B) or B[0] == "c" else (B, A)
        if key in facts: return facts if facts[key] == eq else None
        if B[0] == "c":
            for (x, y), e in facts.items():
                if x == A and y[0] == "c" and e and y[1] != B[1]:
                    if eq: return None
                    return facts
        N = dict(facts); N[key] = eq; return N
    def run(self):
        for f in list(self.m.funcs.values()):
            J = [I for I in f.calls() if I.cname() in ("longjmp", "_longjmp", "siglongjmp", "__longjmp_chk")]
            if not J: continue
            for h, body in self.natural(f).items(): self.loop(f, h, body, J)
    def natural(self, f):
        """loops: header -> blocks"""
        preds = [[] for _ in f.blocks]
        for b, S in enumerate(f.succ):
            for s in S: preds[s].append(b)
        L = {}
        R = Reach(f)
        for b, S in enumerate(f.succ):
            for s in S:
                if R.dom(s, b):
                    B = {s}; st = [b]
                    while st:
                        x = st.pop()
                        if x in B: continue
                        B.add(x); st += preds[x]
                    L.setdefault(s, set()).update(B)
        return L
    def loop(self, f, h, body, J):
        tags = set(); keys = set()
        for b in body:
            for I in f.blocks[b]:
                if I.o == "call" and "cmp" in (I.cname() or ""):
                    P = [self.canon(f, x, {}) for x in I.a[:2]]
                    for x, y in (P, P[::-1]):
                        if x[0] == y[0] == "ld" and x[-4:] == NAME and y[-4:] == NAME and x[1][0] == "$" and x[1][1].startswith("$") and len(x) == 6: keys.add(x[1]); tags.add(y[:-4])
                elif I.o == "icmp" and I.p in ("eq", "ne"):
                    P = [self.canon(f, x, {}) for x in I.a]
                    for x, y in (P, P[::-1]):
                        if x[0] == "$" and x[1].startswith("$") and y[0] == "ld" and len(y) > 3: keys.add(x); tags.add(y)
        if not tags or len(keys) != 1: return
        K = keys.pop(); T = sorted(tags, key=len)[0]
        self.loops += 1
        entry = [I for I in f.blocks[h] if I.o == "phi" and ("v", "%%%d" % I.i) == T[1]]
        outs = [(b, s) for b in body for s in f.succ[b] if s not in body]
        calls = {b for b in body for I in f.blocks[b] if I.o in ("call", "invoke") and I.callee() is None and I.f}
        live = set(); st = [I.bb for I in J]; P = [[] for _ in f.blocks]
        for b, S in enumerate(f.succ):
            for s in S: P[s].append(b)
        while st:
            b = st.pop()
            if b not in live: live.add(b); st += P[b]
        # blocks from which an outcome can be reached
        preds = [[] for _ in f.blocks]
        for b in body:
            for s in f.succ[b]: preds[s].append(b)
        alive = set(); st = [b for b, s in outs if s in live] + [b for b in body if h in f.succ[b]] + list(calls)
        while st:
            b = st.pop()
            if b in alive or b not in body or any(self.stops(I) for I in f.blocks[b]): continue
            alive.add(b); st += preds[b]
        wanted = {x for I in J for x in self.slice(f, f.addr(I.a[0])[0])}
        done = set()
        st = [(h, {}, {}, (), False)]
        while st and self.paths < 200000:
            b, env, facts, path, called = st.pop()
            if b in calls and not called:
                called = True; self.judge(f, T, K, entry, facts, True, path, f.blocks[b][0].loc)
            Tm = f.blocks[b][-1]; S = list(f.succ[b])
            for i, s in enumerate(S):
                t = None; N = facts
                if Tm.o == "br" and Tm.a and len(S) == 2: t = self.atom(f, Tm.a[0], i == 0, env)
                elif Tm.o == "switch" and i and S.count(s) == 1: t = (self.canon(f, Tm.a[0], env), ("c", Tm.cases[i - 1]), True)
                if t is not None: N = self.put(facts, t)
                if N is None: continue
                if s not in body:
                    if s not in live: continue
                    self.paths += 1
                    flag = {("v", "%%%d" % I.i) for I in f.blocks[h] if I.o == "phi" and I not in entry}
                    if any(x in flag for x, _ in N): continue        # ended by what an earlier step chose
                    if not calls and entry and not self.is_null(N, T): self.judge(f, T, K, entry, N, True, path + (b,), Tm.loc)
                    continue
                if s == h:
                    self.paths += 1
                    if called: continue
                    E = dict(env); got = False; held = False
                    for I in f.blocks[h]:
                        if I.o != "phi" or "%%%d" % I.i not in wanted or I in entry: continue
                        v = [x for x, q in zip(I.a, I.b) if q == b]
                        c = self.canon(f, v[0], env) if v else None
                        if c is not None and entry and c == ("v", "%%%d" % entry[0].i):
                            got = True
                            once = N.get((("v", "%%%d" % I.i), ("c", 0))) is True
                            for Q in f.blocks[h]:         # or a flag that ends the search
                                if Q.o == "phi" and N.get((("v", "%%%d" % Q.i), ("c", 0))) is True:
                                    w = [self.canon(f, x, env) for x, q in zip(Q.a, Q.b) if q == b]
                                    if w and w[0][0] == "c" and w[0][1] not in (0, None): once = True
                            if not once: self.add(f, "outer-handler-chosen", "a match further out replaces the innermost one", f.blocks[b][-1].loc)
                        if N.get((("v", "%%%d" % I.i), ("c", 0))) is False: held = True
                    if not held or got: self.judge(f, T, K, entry, N, got, path + (b,), Tm.loc)
                    continue
                if s not in alive: continue
                E = dict(env)
                for I in f.blocks[s]:
                    if I.o != "phi": continue
                    v = [x for x, q in zip(I.a, I.b) if q == b]
                    if v: E["%%%d" % I.i] = self.thru(v[0], env)
                if len(path) < 400 and path.count(s) < 2: st.append((s, E, N, path + (b,), called))
        # the walk starts at the innermost entry and goes one entry out at a time
        for I in entry:
            for v, p in zip(I.a, I.b):
                c = self.canon(f, v, {})
                if p in body:
                    if not (c[0] == "ld" and c[1] == ("v", "%%%d" % I.i) and len(c) == 4): self.add(f, "handler-skipped", "the search does not go one handler out at a time", f.blocks[p][-1].loc)
                elif not (c[0] == "ld" and c[1][0] == "$" and c[1][1].startswith("@") and len(c) == 3): self.add(f, "handler-skipped", "the search does not start at the innermost handler", I.loc or f.blocks[p][-1].loc)
    def thru(self, v, env):
        n = 0
        while isinstance(v, str) and v in env and n < 40: v = env[v]; n += 1
        return v
    def slice(self, f, v):
        S, st = set(), [v]
        while st:
            x = st.pop()
            if not isinstance(x, str) or x in S: continue
            S.add(x); I = f.d(x)
            if I is not None and I.o in ("phi", "select"): st += I.a[0 if I.o == "phi" else 1:]
        return S
    def is_null(self, N, T): return N.get((T[1], ("c", 0))) is True or any(e and y == ("c", 0) and x == T[:-2] for (x, y), e in N.items())
    def judge(self, f, T, K, entry, N, match, path, loc):
        ty = lambda X: ((("ld",) + X[1:] if X[0] == "ld" else ("ld", X)) + ("SCM.type", "*"))
        val = lambda X: ((("ld",) + X[1:] if X[0] == "ld" else ("ld", X)) + ("SCM.value", "*"))
        def get(A, B):
            k = (A, B) if str(A) <= str(B) or B[0] == "c" else (B, A)
            return N.get(k)
        def isty(X, n):
            r = get(ty(X), ("c", n))
            if r is None and any(x == ty(X) and y[0] == "c" and e and y[1] != n for (x, y), e in N.items()): r = False
            return r
        same = get(T, K)
        name = None; part = False; length = None
        for (x, y), e in N.items():
            if y == ("c", 0) and x[0] == "call":
                if x[1] == "strcmp": name = e if name is None else name
                elif x[1] in ("memcmp", "bcmp", "strncmp"):
                    if e: part = len(x[2]) > 2 and x[2][2][-2:] == ("SCM_Symbol.len", "*")
                    else: name = False
                elif x[1].startswith(("_ZSteq", "std::operator==")): pass
            if x[-2:] == ("SCM_Symbol.len", "*") and y[-2:] == ("SCM_Symbol.len", "*"): length = e
        if length is False: name = False
        if part and length: name = True
        always = True if isty(T, self.bool_) and get(val(T), ("c", 0)) is False else False if isty(T, self.bool_) is False or get(val(T), ("c", 0)) is True else None
        for (x, y), e in N.items():         # compared with the one true value
            if T in (x, y):
                o = y if x == T else x
                if o[0] == "call" and "true" in o[1] or o[0] == "ld" and o[1][0] == "$" and "true" in str(o[1][1]): always = e
        if match:
            if not (same or name or always): self.add(f, "wrong-handler", "a handler is chosen although its tag does not match the key", loc)
            return
        idle = any(not (x[:len(T)] == T) and x[0] == "ld" and len(x) > 2 and x[1] == T[1] and y == ("c", 0) and e for (x, y), e in N.items()) or get(T, ("c", 0)) is True or self.is_null(N, T)
        if idle: return
        differs = name is False or same is False and (isty(T, self.sym) is False or isty(K, self.sym) is False)
        if not differs or always is not False: self.add(f, "handler-skipped", "a handler is passed over although its tag may match the key", loc)

class Reach:
    def __init__(self, f):
        self.f = f
        order = f.rpo(); pos = {x: i for i, x in enumerate(order)}
        preds = [[] for _ in f.blocks]
        for b, S in enumerate(f.succ):
            for s in S: preds[s].append(b)
        idom = {order[0]: order[0]}; ch = True
        while ch:
            ch = False
            for x in order[1:]:
                P = [p for p in preds[x] if p in idom]
                if not P: continue
                n = P[0]
                for p in P[1:]:
                    a, c = p, n
                    while a != c:
                        while pos[a] > pos[c]: a = idom[a]
                        while pos[c] > pos[a]: c = idom[c]
                    n = a
                if idom.get(x) != n: idom[x] = n; ch = True
        self.idom = idom
    def dom(self, a, b):
        if b not in self.idom: return False
        while True:
            if a == b: return True
            n = self.idom[b]
            if n == b: return False
            b = n
