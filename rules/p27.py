"""P27: exact integer arithmetic never wraps around silently.

Backward slices from every place an exact number is made (payload of a value labelled NUM, numerator, denominator, and the parameters
and results of functions that lead there).  Every addition, subtraction, multiplication, negation, shift or narrowing in such a slice must
be unable to leave its type's range, or be an overflow-reporting operation whose result is used only where no overflow was reported."""
from check_api import Finding, Broken
from rules.ir import nonreturning, BASE_NR

CASTS = {"sext", "zext", "trunc", "inttoptr", "ptrtoint", "bitcast", "freeze"}
ARITH = {"add": "adds", "sub": "subtracts", "mul": "multiplies", "shl": "shifts", "trunc": "cuts"}
RATIO = ("SCM_Rational.numerator", "SCM_Rational.denominator")
def bits(t): return int(t[1:]) if t and t[0] == "i" and t[1:].isdigit() else 64
def full(t):
    n = bits(t); return (-(1 << n - 1), (1 << n - 1) - 1)
def const(v):
    if isinstance(v, bool): return int(v)
    return v if isinstance(v, int) else None
SWAP = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}
NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}

COUNT = 1 << 40                       # more of anything than fits into memory
class Ranges:
    """intervals of SSA integers at a block, refined by the branches that dominate it"""
    def __init__(self, f, W):
        self.f = f; self.W = W
        self.preds = [[] for _ in f.blocks]
        for b, S in enumerate(f.succ):
            for s in S: self.preds[s].append(b)
        self.idom = {}
        self.memo = {}
    def edges(self, b):
        """branch outcomes that hold whenever block b is entered: (condition, outcome, block of the test)"""
        out, seen = [], set()
        while b not in seen:
            seen.add(b)
            P = self.preds[b]
            if len(P) == 1:
                p = P[0]; T = self.f.blocks[p][-1]
                if T.o == "br" and T.a and len(set(self.f.succ[p])) == 2:
                    out.append((T.a[0], self.f.succ[p][0] == b))
                elif T.o == "switch" and self.f.succ[p].count(b) == 1 and b in self.f.succ[p][1:]:
                    out.append((("eq", T.a[0], T.cases[self.f.succ[p].index(b) - 1]), True))
                b = p; continue
            d = self._idom(b)
            if d is None: break
            b = d
        return out
    def cases(self, b):
        """ways to satisfy the conditions that hold at block b: a condition that joins several tests is split by where it comes from"""
        out = [[]]
        for c, val in self.edges(b):
            if isinstance(c, tuple): continue
            new = self.ways(c, val)
            if new is not None and len(out) * len(new) <= 64: out = [a + b for a in out for b in new]
        return out
    def ways(self, c, val, depth=0):
        """None: a plain test"""
        c, val = self.peel(c, val)
        I = self.f.d(c) if isinstance(c, str) else None
        def sub(x, v):
            if const(x) is not None: return [[]] if bool(const(x) & 1) == v else []
            return (self.ways(x, v, depth + 1) if depth < 4 else None) or [[(x, v)]]
        if I is None or I.t != "i1": return None
        if I.o == "phi":
            new = []
            for x, p in zip(I.a, I.b):
                E = list(self.edges(p)); T = self.f.blocks[p][-1]
                if T.o == "br" and T.a and len(set(self.f.succ[p])) == 2: E.append((T.a[0], self.f.succ[p][0] == I.bb))
                new += [E + w for w in sub(x, val)]
            return new
        if I.o in ("and", "or") and (I.o == "or") == val: return [w for x in I.a for w in sub(x, val)]
        if I.o == "select": return [a + w for x, t in ((I.a[1], True), (I.a[2], False)) for w in sub(x, val) for a in sub(I.a[0], t)]
        return None
    def _idom(self, b):
        if not self.idom:
            f = self.f; order = f.rpo(); pos = {x: i for i, x in enumerate(order)}
            idom = {order[0]: order[0]}; ch = True
            while ch:
                ch = False
                for x in order[1:]:
                    P = [p for p in self.preds[x] if p in idom]
                    if not P: continue
                    n = P[0]
                    for p in P[1:]:
                        a, c = p, n
                        while a != c:
                            while pos[a] > pos[c]: a = idom[a]
                            while pos[c] > pos[a]: c = idom[c]
                        n = a
                    if idom.get(x) != n: idom[x] = n; ch = True
            self.idom = idom
        d = self.idom.get(b)
        return None if d is None or d == b else d
    def peel(self, c, val):
        """the test behind a condition that was kept in a variable or negated"""
        while isinstance(c, str):
            I = self.f.d(c)
            if I is None: break
            if I.o == "xor" and const(I.a[1]) is not None and const(I.a[1]) & 1: c, val = I.a[0], not val
            elif I.o in ("zext", "sext", "trunc", "freeze") and self.flag(I.a[0]): c = I.a[0]
            elif I.o == "icmp" and I.p in ("eq", "ne") and (I.a[1] is None or const(I.a[1]) == 0) and self.flag(I.a[0]):
                if I.p == "eq": val = not val
                c = I.a[0]
            else: break
        return c, val
    def flag(self, c, n=0):
        I = self.f.d(c) if isinstance(c, str) else None
        if I is None or n > 4: return False
        return I.t == "i1" or I.o in ("zext", "trunc", "freeze") and self.flag(I.a[0], n + 1)
    def same(self, a, b):
        """are two values the same number (widening of the same value)?"""
        return self.core(a) == self.core(b)
    def core(self, v):
        while isinstance(v, str):
            I = self.f.d(v)
            if I is not None and I.o in ("sext", "ptrtoint", "inttoptr", "freeze", "bitcast"): v = I.a[0]; continue
            if I is not None and I.o == "load":
                a = self.f.addr(I.a[0])
                if a[-1] in ("SCM.value",) + RATIO: return ("ld",) + tuple(a)
            break
        return v
    def at(self, v, b, depth=0, seen=()):
        c = const(v)
        if c is not None: return (c, c)
        if v is None: return (0, 0)
        if not isinstance(v, str): return full("i64")
        I = self.f.d(v)
        t = I.t if I is not None and I.t and I.t.startswith("i") else "i64"
        if I is None and v[0] == "$":
            n = str(self.f.sig[int(v[1:]) + 1]); t = "i32" if n in ("int", "unsigned int") else "i8" if "char" in n and "*" not in n else "i64"
        lo, hi = self.of(v, t, depth, seen)
        if b is None: return lo, hi
        for c, val in self.edges(b):
            lo, hi = self.refine(v, lo, hi, c, val, b, depth)
        return lo, hi
    def refine(self, v, lo, hi, c, val, b, depth):
        if isinstance(c, tuple): p, x, y = c
        else:
            c, val = self.peel(c, val)
            I = self.f.d(c) if isinstance(c, str) else None
            if I is not None and I.o in ("and", "or") and I.t == "i1" and (I.o == "and") == val and depth < 4:
                for y in I.a: lo, hi = self.refine(v, lo, hi, y, val, b, depth + 1)
                return lo, hi
            if I is None or I.o != "icmp": return lo, hi
            p, (x, y) = I.p, I.a
        if not val: p = NEG[p]
        if self.same(y, v) and not self.same(x, v): x, y, p = y, x, SWAP.get(p, p)
        if not self.same(x, v): return lo, hi
        if depth > 3 and const(y) is None: return lo, hi
        l2, h2 = (const(y),) * 2 if const(y) is not None else (0, 0) if y is None else self.at(y, b if depth < 2 else None, depth + 2)
        if p == "eq": return max(lo, l2), min(hi, h2)
        if p == "ne":
            if l2 == h2 == lo: lo += 1
            if l2 == h2 == hi: hi -= 1
        if p == "slt": hi = min(hi, h2 - 1)
        if p == "sle": hi = min(hi, h2)
        if p == "sgt": lo = max(lo, l2 + 1)
        if p == "sge": lo = max(lo, l2)
        if p in ("ult", "ule") and l2 >= 0: lo = max(lo, 0); hi = min(hi, h2 - (p == "ult"))
        return lo, hi
    def of(self, v, t, depth, seen):
        F = full(t)
        I = self.f.d(v)
        if I is None and v[0] == "$" and self.f.internal and depth < 4 and bits(t) > 8:
            C = self.W.m.callers(self.f.key); k = int(v[1:])
            if C and all(k < len(J.a) for J in C) and not self.W.taken(self.f.key):
                L = [self.W.ranges(J.fn).at(J.a[k], J.bb, depth + 2, seen + (v,)) for J in C]
                return max(F[0], min(a for a, _ in L)), min(F[1], max(b for _, b in L))
        if I is not None and I.o == "load" and self.W.tally(self.f.addr(I.a[0])): return max(F[0], -COUNT), min(F[1], COUNT)
        if I is None or depth > 8 or v in seen: return F
        seen = seen + (v,)
        b = I.bb
        def R(x): return self.at(x, b, depth + 1, seen)
        if I.o == "sext": return R(I.a[0])
        if I.o == "zext":
            J = self.f.d(I.a[0]); n = bits(J.t) if J is not None else 32
            lo, hi = R(I.a[0])
            return (lo, hi) if lo >= 0 else (0, (1 << n) - 1)
        if I.o == "trunc":
            lo, hi = R(I.a[0]); return (lo, hi) if F[0] <= lo and hi <= F[1] else F
        if I.o in ("ptrtoint", "inttoptr", "freeze", "bitcast"): return R(I.a[0])
        if I.o == "phi":
            lo = hi = None
            for x, p in zip(I.a, I.b):
                a, c = self.at(x, p, depth + 1, seen)
                a, c = self.edge(x, p, b, a, c, depth)
                lo = a if lo is None else min(lo, a); hi = c if hi is None else max(hi, c)
            return (max(lo, F[0]), min(hi, F[1])) if lo is not None else F
        if I.o == "select":
            a, c = R(I.a[1]); d, e = R(I.a[2]); return min(a, d), max(c, e)
        if I.o in ("add", "sub", "mul"):
            r = self.calc(I.o, R(I.a[0]), R(I.a[1]))
            return r if F[0] <= r[0] and r[1] <= F[1] else F
        if I.o == "srem":
            k = R(I.a[1]); m = max(abs(k[0]), abs(k[1])) - 1; a = R(I.a[0])
            return (0 if a[0] >= 0 else -m, 0 if a[1] <= 0 else m)
        if I.o == "urem":
            k = R(I.a[1])
            return (0, k[1] - 1) if k[0] > 0 else F
        if I.o == "and":
            for x in I.a:
                if const(x) is not None and const(x) >= 0: return (0, const(x))
        if I.o in ("lshr",) and const(I.a[1]): return (0, (1 << bits(t) - const(I.a[1])) - 1)
        if I.o == "sdiv":
            a = R(I.a[0]); k = R(I.a[1])
            if k[0] > 0: m = k[0]; q = lambda x: abs(x) // m * (1 if x >= 0 else -1); return (min(q(a[0]), q(a[1]), 0), max(q(a[0]), q(a[1]), 0))
        if I.o == "icmp": return (0, 1)
        return F
    def edge(self, v, p, b, lo, hi, depth):
        T = self.f.blocks[p][-1]
        if T.o == "br" and T.a and len(set(self.f.succ[p])) == 2: return self.refine(v, lo, hi, T.a[0], self.f.succ[p][0] == b, p, depth)
        return lo, hi
    def calc(self, o, a, b):
        if o == "add": return a[0] + b[0], a[1] + b[1]
        if o == "sub": return a[0] - b[1], a[1] - b[0]
        P = [x * y for x in a for y in b]
        return min(P), max(P)

class Wrap:
    def __init__(self, m):
        self.m = m; self.nr = nonreturning(m); self.F = {}; self.ops = set(); self.checked = set(); self.sinks = 0
        self.seen = set(); self.todo = []; self.R = {}; self.params = set(); self.rets = set(); self.outs = set(); self.uses = {}; self.ovf = []
    def stops(self, I):
        return I.o in ("call", "invoke") and (I.callee() in self.nr or I.callee() in self.m._nrbase or I.callee() in BASE_NR)
    def ranges(self, f):
        if f.key not in self.R: self.R[f.key] = Ranges(f, self)
        return self.R[f.key]
    def taken(self, key):
        if not hasattr(self, "_taken"):
            self._taken = set()
            for g in self.m.funcs.values():
                for I in g.instrs():
                    for x in I.a:
                        if isinstance(x, str) and x.startswith("@") and x[1:] in self.m.funcs: self._taken.add(x[1:])
        return key in self._taken
    def tally(self, a):
        """a variable that only counts: constants and steps of itself are stored in it"""
        if len(a) != 2 or a[0][0] != "@" or a[1] != "*": 
            if not (len(a) == 1 and a[0][0] == "@"): return False
        g = a[0]
        if not hasattr(self, "_tally"): self._tally = {}
        if g not in self._tally:
            ok = True
            for f in self.m.funcs.values():
                for I in f.instrs():
                    if I.o == "store" and f.strip(I.a[1]) == g and const(I.a[0]) is None:
                        J = f.d(I.a[0])
                        if not (J is not None and J.o in ("add", "sub") and const(J.a[1]) is not None and abs(const(J.a[1])) <= 64 and f.d(J.a[0]) is not None and f.d(J.a[0]).o == "load" and f.strip(f.d(J.a[0]).a[0]) == g): ok = False
                    elif I.o in ("call", "invoke") and any(isinstance(x, str) and x == g for x in I.a): ok = False
            self._tally[g] = ok
        return self._tally[g]
    def label(self, f, base, use):
        """constant type the object is labelled with in this function"""
        L = set()
        for I in f.instrs():
            if I.o == "store":
                a = f.addr(I.a[1])
                if a[-1] == "SCM.type" and a[:-1] == base: L.add(const(I.a[0]))
        return L
    def run(self):
        m = self.m; num = m.scm_types["NUM"]
        for f in m.funcs.values():
            for I in f.instrs():
                if I.o != "store": continue
                a = f.addr(I.a[1])
                if a[-1] in RATIO: self.need(f, I.a[0], I.bb, I); continue
                if a[-1] == "SCM.value" or a[-1:] == ("SCM.value",):
                    v = f.d(I.a[0])
                    if v is None or v.o not in ("inttoptr", "phi", "select"): continue
                    L = self.label(f, a[:-1], I)
                    if L and num not in L: continue
                    self.need(f, I.a[0], I.bb, I)
        while self.todo:
            f, v, bb, why = self.todo.pop()
            self.visit(f, v, bb, why)
        for f in m.funcs.values():        # numbers combined to compare them
            for I in f.instrs():
                if I.o in ("add", "sub", "mul") and (f.key, I.i) not in self.ops and all(isinstance(x, str) and isinstance(self.ranges(f).core(x), tuple) for x in I.a) and any(U.o == "icmp" for U in f.users("%%%d" % I.i)): self.arith(f, I, I.bb)
        for f, C, flags in self.ovf:
            U = self.substituted(f, C, flags)
            if U is not None: self.add(C, "substituted", "after an overflow was reported a constant stands in for the result (%s)" % U.loc.split("/")[-1])
    def need(self, f, v, bb, why):
        self.sinks += 1
        self.push(f, v, bb, why)
    def push(self, f, v, bb, why):
        if why.o in ("store", "ret") or why.o in ("call", "invoke") and ".with.overflow." not in (why.cname() or ""): self.uses.setdefault(f.key, set()).add((why, v))
        k = (f.key, str(v), bb)
        if k not in self.seen and isinstance(v, str): self.seen.add(k); self.todo.append((f, v, bb, why))
    def visit(self, f, v, bb, why):
        m = self.m
        if v[0] == "$":
            k = int(v[1:])
            if (f.key, k) in self.params: return
            self.params.add((f.key, k))
            for J in m.callers(f.key):
                if k < len(J.a): self.push(J.fn, J.a[k], J.bb, J)
            return
        I = f.d(v)
        if I is None: return
        if I.t == "ptr" and I.o not in ("inttoptr", "phi", "select", "bitcast", "freeze"): return       # an object, not a number
        if I.o == "phi":
            for x, p in zip(I.a, I.b): self.push(f, x, p, I)
        elif I.o == "select":
            for x in I.a[1:]: self.push(f, x, I.bb, I)
        elif I.o == "trunc": self.arith(f, I, bb); self.push(f, I.a[0], I.bb, I)
        elif I.o in CASTS: self.push(f, I.a[0], bb if I.bb == bb else I.bb, I)
        elif I.o in ARITH:
            self.arith(f, I, bb)
            for x in I.a: self.push(f, x, I.bb, I)
        elif I.o in ("sdiv", "udiv", "srem", "urem", "and", "or", "xor", "ashr", "lshr"):
            for x in I.a: self.push(f, x, I.bb, I)
        elif I.o == "extractvalue":
            C = f.d(I.a[0])
            if C is not None and C.o == "call" and ".with.overflow." in (C.cname() or ""):
                self.reported(f, C, I)
                for x in C.a: self.push(f, x, C.bb, C)
        elif I.o in ("call", "invoke"):
            n = (I.cname() or "").replace("__isoc23_", ""); g = m.funcs.get(I.callee() or "")
            if g is not None and g.blocks:
                if g.key not in self.rets:
                    self.rets.add(g.key)
                    for r in g.rets():
                        if r.a: self.push(g, r.a[0], r.bb, r)
            elif n in ("strtol", "strtoll", "strtoul", "strtoull", "strtoimax", "strtoumax", "strtoq"): self.clamped(f, I, why)
            elif n in ("atoi", "atol", "atoll"): self.add(I, "unreported", "converts text with %s, which does not report numbers that are too large" % n)
            elif n in ("abs", "labs", "llabs", "llvm.abs.i64", "llvm.abs.i32"):
                lo, hi = self.ranges(f).at(I.a[0], I.bb); t = I.t or "i64"
                self.ops.add((f.key, I.i))
                if lo <= full(t)[0]: self.add(I, "wraps", "takes the absolute value of a number that may be the most negative one")
                self.push(f, I.a[0], I.bb, I)
        elif I.o in ("fptosi", "fptoui"):
            self.ops.add((f.key, I.i))
            c = {f.strip(x) for x in I.a if isinstance(x, str)}
            if not any(J.o == "fcmp" and f.dominates(J, I) and c & {f.strip(x) for x in J.a if isinstance(x, str)} for J in f.instrs()): self.add(I, "narrowed", "a float is made an integer without a test that it fits")
        elif I.o == "load":
            a = f.addr(I.a[0]); s = f.strip(I.a[0])
            A = f.d(s) if isinstance(s, str) else None
            if A is not None and A.o == "alloca":
                for J in f.instrs():
                    if J.o == "store" and f.strip(J.a[1]) == s: self.push(f, J.a[0], J.bb, J)
                    elif J.o in ("call", "invoke") and J.callee() in m.funcs:
                        for k, x in enumerate(J.a):
                            if isinstance(x, str) and f.strip(x) == s and (J.callee(), k) not in self.outs:
                                self.outs.add((J.callee(), k)); g = m.funcs[J.callee()]
                                for W in g.instrs():
                                    if W.o == "store" and g.strip(W.a[1]) == "$%d" % k: self.push(g, W.a[0], W.bb, W)
    def add(self, I, rule, what):
        self.F.setdefault((I.loc, rule), Finding(rule, I.srcfn, what, I.loc, []))
    def arith(self, f, I, bb):
        if (f.key, I.i) in self.ops: return
        self.ops.add((f.key, I.i))
        R = self.ranges(f); t = I.t or "i64"; lo, hi = full(t)
        if I.o == "trunc":
            a = R.at(I.a[0], I.bb)
            if bits(t) > 8 and not (lo <= a[0] and a[1] <= hi): self.add(I, "narrowed", "a number is cut to %d bits without a test that it fits" % bits(t))
            return
        if I.o in ("add", "sub") and self.counter(f, I): return
        if self.remainder(f, I): return
        if I.o == "shl":
            a = R.at(I.a[0], I.bb); k = R.at(I.a[1], I.bb)
            if 0 <= k[0] and k[1] < bits(t) and lo <= a[0] << k[1] and a[1] << k[1] <= hi: return
        else:
            ok = True
            for case in R.cases(I.bb):
                a, b = R.at(I.a[0], I.bb), R.at(I.a[1], I.bb)
                for c, val in case: a = R.refine(I.a[0], *a, c, val, I.bb, 0); b = R.refine(I.a[1], *b, c, val, I.bb, 0)
                if a[0] > a[1] or b[0] > b[1]: continue
                r = R.calc(I.o, a, b)
                if not (lo <= r[0] and r[1] <= hi): ok = False
            if ok: return
        w = "negates a number that may be the most negative one" if I.o == "sub" and const(I.a[0]) == 0 else "%s without a test that the result fits into %d bits" % (ARITH[I.o], bits(t))
        self.add(I, "wraps", w)
    def counter(self, f, I):
        """a step of a counter that starts at a constant or a length: bounded by the size of what is counted"""
        k = const(I.a[1])
        if k is None or abs(k) > 64: return False
        seen, st = set(), [I.a[0]]
        me = "%%%d" % I.i; loop = False
        while st:
            x = st.pop()
            if const(x) is not None or x is None:
                continue
            if x in seen: continue
            if not isinstance(x, str): return False
            seen.add(x)
            if x == me: loop = True; continue
            J = f.d(x)
            if J is None: return False
            if J.o == "phi": st += list(J.a)
            elif J.o in ("sext", "zext"): st.append(J.a[0])
            elif J.o in ("add", "sub") and const(J.a[1]) is not None and abs(const(J.a[1])) <= 64: st.append(J.a[0]); loop = True
            elif J.o == "load" and f.addr(J.a[0])[-1] not in ("SCM.value",) + RATIO and f.addr(J.a[0])[-1:] != ("*",): return True      # a length or count kept in an object
            elif J.o in ("call", "invoke") and (J.cname() or "") in ("strlen",): return True
            elif J.o in ("ptrtoint",):
                return False
            else: return False
        return loop
    def remainder(self, f, I):
        """(a / b) * b, and a - (a / b) * b"""
        R = self.ranges(f)
        def prod(x):
            J = f.d(x) if isinstance(x, str) else None
            if J is None or J.o != "mul": return None
            for p, q in (J.a, J.a[::-1]):
                D = f.d(p) if isinstance(p, str) else None
                if D is not None and D.o == "sdiv" and R.same(D.a[1], q): return D.a[0]
            return None
        if I.o == "mul": return prod("%%%d" % I.i) is not None
        if I.o == "sub":
            p = prod(I.a[1])
            return p is not None and R.same(p, I.a[0])
        return False
    # ---- operations that report overflow
    def reported(self, f, C, V):
        if (f.key, C.i, V.i) in self.checked: return
        self.checked.add((f.key, C.i, V.i))
        R = self.ranges(f)
        # operands that cannot overflow anyway
        op = {"sadd": "add", "ssub": "sub", "smul": "mul"}.get(C.cname().split(".")[1])
        if op is None: self.add(C, "wraps", "tests a signed operation for unsigned overflow"); return
        n = bits(C.cname().split(".")[-1])
        r = R.calc(op, R.at(C.a[0], C.bb), R.at(C.a[1], C.bb))
        if full("i%d" % n)[0] <= r[0] and r[1] <= full("i%d" % n)[1]: return
        pos, neg = set(), set()           # conditions true / false whenever overflow was reported
        st = [("%%%d" % U.i, True) for U in f.users("%%%d" % C.i) if U.o == "extractvalue" and U.t == "i1"]
        while st:
            x, s = st.pop()
            S = pos if s else neg
            if x in S: continue
            S.add(x)
            for U in f.users(x):
                d = "%%%d" % U.i
                if U.o in ("zext", "trunc", "freeze", "sext"): st.append((d, s))
                elif U.o == "xor" and const(U.a[1]) is not None: st.append((d, not s))
                elif U.o == "or" and s or U.o == "and" and not s: st.append((d, s))
                elif U.o == "icmp" and const(U.a[1]) == 0 or U.o == "icmp" and U.a[1] is False: st.append((d, s if U.p == "ne" else not s))
                elif U.o == "call" and (U.cname() or "").startswith("llvm.expect"): st.append((d, s))
                elif U.o == "phi" and U.t == "i1" and all(a == x or const(a) is not None and bool(const(a) & 1) == s for a in U.a): st.append((d, s))
        self.ovf.append((f, C, {**{x: True for x in pos}, **{x: False for x in neg}}))
        # blocks that can be reached although overflow was reported
        bad, todo = set(), [(C.bb, C.pos + 1)]
        entered = set()
        while todo:
            b, p = todo.pop()
            if any(self.stops(J) for J in f.blocks[b][p:]): continue
            T = f.blocks[b][-1]; S = list(f.succ[b])
            if T.o == "br" and T.a and len(S) == 2:
                if T.a[0] in pos: S = S[:1]
                elif T.a[0] in neg: S = S[1:]
            for s in S:
                bad.add((b, s))
                if s == C.bb: continue
                if s not in entered: entered.add(s); todo.append((s, 0))
        badblocks = {s for _, s in bad if s != C.bb}
        for U in f.users("%%%d" % V.i):
            if U.o == "dbg": continue
            if U.o == "select":
                if U.a[0] in pos and U.a[1] != "%%%d" % V.i or U.a[0] in neg and U.a[2] != "%%%d" % V.i: continue
            if U.o == "phi":
                hit = any(x == "%%%d" % V.i and (p, U.bb) in bad for x, p in zip(U.a, U.b))
            else: hit = U.bb in badblocks or U.bb == C.bb and U.pos > C.pos
            if hit: self.add(C, "overflow-ignored", "the result is used although overflow was reported"); return
    def substituted(self, f, C, flags):
        """after an overflow was reported a constant stands in for the result"""
        U = {}
        for I, v in self.uses.get(f.key, ()): U.setdefault(I.bb, []).append((I, v))
        if not U: return None
        def val(x, E, n=0):
            c = const(x)
            if c is not None or not isinstance(x, str) or n > 8: return c
            if x in flags: return int(flags[x])
            if x in E: return E[x]
            I = f.d(x)
            if I is None: return None
            if I.o in ("zext", "trunc", "freeze", "sext", "inttoptr", "ptrtoint"): return val(I.a[0], E, n + 1)
            if I.o == "xor" and I.t == "i1": v = val(I.a[0], E, n + 1); return None if v is None else (v & 1) ^ 1
            if I.o == "icmp" and I.p in ("eq", "ne") and (I.a[1] is None or const(I.a[1]) == 0):
                v = val(I.a[0], E, n + 1); return None if v is None else int((v == 0) == (I.p == "eq"))
            return None
        seen = set(); st = [(C.bb, (), C.pos + 1, False)]
        while st and len(seen) < 20000:
            b, env, p, out = st.pop(); E = dict(env)
            B = f.blocks[b]; dead = False
            for J in B[p:]:
                for W, v in U.get(b, ()):
                    if W is J and out and val(v, E) is not None: return W
                if self.stops(J): dead = True; break
            if dead: continue
            T = B[-1]; S = list(f.succ[b])
            if T.o == "br" and T.a and len(S) == 2:
                own = isinstance(T.a[0], str) and T.a[0] in flags
                v = val(T.a[0], E)
                if v is not None: S = [S[0 if v & 1 else 1]]
                out = out or own
            for s in S:
                N = dict(E); ch = {}
                for I in f.blocks[s]:
                    if I.o != "phi": continue
                    k = [x for x, q in zip(I.a, I.b) if q == b]
                    v = val(k[0], E) if k else None
                    if v is None and k and isinstance(k[0], str) and k[0] in flags: v = int(flags[k[0]])
                    ch["%%%d" % I.i] = v
                for k, v in ch.items():
                    if v is None: N.pop(k, None)
                    else: N[k] = v
                if s == C.bb: continue
                key = (s, tuple(sorted(N.items())), out)
                if key not in seen: seen.add(key); st.append((s, key[1], 0, out))
        return None
    def clamped(self, f, C, why):
        """strtol: numbers out of range are recognised by errno"""
        if (f.key, C.i) in self.ops: return
        self.ops.add((f.key, C.i))
        ok = set()
        for I in f.instrs():
            if I.o != "icmp" or I.p not in ("eq", "ne"): continue
            k = [const(x) for x in I.a]
            L = [f.d(x) for x in I.a if isinstance(x, str)]
            if not L or L[0] is None or L[0].o != "load": continue
            E = f.d(f.strip(L[0].a[0])) if isinstance(f.strip(L[0].a[0]), str) else None
            if E is None or E.o != "call" or E.cname() != "__errno_location": continue
            if 34 in k or 0 in k:
                eq = I.p == "eq"
                if 0 in k: eq = not eq
                st, dn = [("%%%d" % I.i, eq)], set()
                while st:
                    x, s = st.pop()
                    if (x, s) in dn: continue
                    dn.add((x, s))
                    for U in f.users(x):
                        d = "%%%d" % U.i
                        if U.o == "br": ok.add((U.bb, f.succ[U.bb][0 if s else 1]))        # edge taken when the number was out of range
                        elif U.o in ("zext", "sext", "trunc", "freeze"): st.append((d, s))
                        elif U.o == "xor": st.append((d, not s))
                        elif U.o == "or" and s or U.o == "and" and not s: st.append((d, s))
                        elif U.o == "icmp" and (U.a[1] is None or const(U.a[1]) == 0): st.append((d, s if U.p == "ne" else not s))
                        elif U.o == "phi" and U.t == "i1" and all(a == x or const(a) is not None and bool(const(a) & 1) == s for a in U.a): st.append((d, s))
        # from the out-of-range edge the value must not reach its use
        tests = {b for b, _ in ok}
        use = why.bb
        # every path from the call to the use passes a test
        seen, st = set(), [C.bb]; free = C.bb == use
        first = True
        while st:
            b = st.pop()
            if b in tests and not (first and b == C.bb and False): first = False; continue
            first = False
            for s in f.succ[b]:
                if s == use: free = True
                if s not in seen: seen.add(s); st.append(s)
        after = set(); st = [s for _, s in ok]
        while st:
            s = st.pop()
            if s in after or s == C.bb: continue
            after.add(s)
            if any(self.stops(J) for J in f.blocks[s]): continue
            st += f.succ[s]
        if not ok or free or use in after: self.add(C, "unreported", "a text that stands for a number that is too large is turned into another number")

def run(ctx):
    m = ctx.inlined()
    W = Wrap(m)
    W.run()
    if W.sinks < 10: raise Broken("only %d places make exact numbers" % W.sinks)
    return {"findings": list(W.F.values()), "coverage": {"explanation": "Backward slices of the compiled program from every place an exact number is made (payloads labelled as integers, numerators, denominators, through parameters, results and out-parameters): every addition, subtraction, multiplication, negation, shift and narrowing there must stay in range by intervals refined with the dominating branches, be a loop counter, be part of a remainder, or be an overflow-reporting operation whose result is used only where no overflow was reported; conversions of text must test for numbers out of range.",
        "places_making_numbers": W.sinks, "unchecked_operations_in_slices": len(W.ops), "overflow_reporting_operations": len(W.checked), "values_in_slices": len(W.seen)}}
