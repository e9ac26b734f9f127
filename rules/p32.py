"""P32: only #f counts as false.

Wherever a result of evaluation is asked whether it is #f, the question is answered for every type of value: starting at the
questions about the value, control is followed with its type (and payload zero / not zero) fixed until the value decides no further.  No value other
than #f may end where #f ends, and none may raise an error where #t does not."""
from check_api import Finding, Broken
from rules.ir import nonreturning, BASE_NR

def const(v):
    if isinstance(v, bool): return int(v)
    return v if isinstance(v, int) else 0 if v is None else None
class Truth:
    def __init__(self, m, plain):
        self.m = m; self.nr = nonreturning(m); self.F = {}; self.alive = {}; self.groups = 0; self.questions = 0; self.vals = 0
        self.types = dict(m.scm_types); self.bool_ = self.types["BOOL"]
        self.ev = self.evaluating()
        self.nots = {x[1:] for f in plain.funcs.values() for I in f.calls() if any(isinstance(a, dict) and a.get("s") == "not" for a in I.a) for x in I.a if isinstance(x, str) and x[:1] == "@" and x[1:] in m.funcs}
    def stops(self, I): return I.o in ("call", "invoke") and (I.callee() in self.nr or I.callee() in self.m._nrbase or I.callee() in BASE_NR)
    def dead(self, f, b):
        """does every path from here raise an error?"""
        if f.key not in self.alive:
            A = {x for x, B in enumerate(f.blocks) if B[-1].o == "ret" and not any(self.stops(I) for I in B)}
            st = list(A)
            while st:
                x = st.pop()
                for p, S in enumerate(f.succ):
                    if x in S and p not in A and not any(self.stops(I) for I in f.blocks[p]): A.add(p); st.append(p)
            self.alive[f.key] = A
        return b not in self.alive[f.key]
    def evaluating(self):
        """functions whose result may be the result of evaluating a program expression"""
        m = self.m
        E = {f.key for f in m.byname.get("eval_with_env", []) + m.byname.get("eval_list_with_env", []) + m.byname.get("apply_procedure", []) + m.byname.get("apply_procedure_with_values", [])}
        if not E: raise Broken("no evaluator found")
        ch = True
        while ch:
            ch = False
            for f in m.funcs.values():
                if f.key in E or not f.blocks or not (f.sig and f.sig[0] in ("SCM*", "SCM *")): continue
                for r in f.rets():
                    if r.a and any(J.o in ("call", "invoke") and J.callee() in E for J in self.sources(f, r.a[0])): E.add(f.key); ch = True; break
        return E
    def sources(self, f, v):
        S, out, st = set(), [], [v]
        while st:
            x = st.pop()
            if not isinstance(x, str) or x in S: continue
            S.add(x); I = f.d(x)
            if I is None: continue
            if I.o == "phi": st += I.a
            elif I.o == "select": st += I.a[1:]
            elif I.o in ("bitcast", "freeze"): st.append(I.a[0])
            else: out.append(I)
        return out
    def run(self):
        for f in list(self.m.funcs.values()):
            if not f.blocks: continue
            V = {}
            for I in f.instrs():
                if I.o == "icmp" and I.p in ("eq", "ne") and (self.bool_ in I.a or None in I.a or 0 in I.a):
                    b = self.about(f, I.a[0]) or self.about(f, I.a[1])
                    if b and (self.bool_ in I.a) == (b[1] == "SCM.type"): V.setdefault(b[0], []).append(I)
                elif I.o == "switch":
                    b = self.about(f, I.a[0])
                    if b and b[1] == "SCM.type" and self.bool_ in I.cases: V.setdefault(b[0], []).append(I)
            for v, L in V.items():
                if isinstance(v, str) and v == "$0" and f.key in self.nots: self.vals += 1; self.value(f, v, L); continue
                if not isinstance(v, str) or v[0] != "%": continue
                src = self.sources(f, v)
                if not any(J.o in ("call", "invoke") and (J.callee() in self.ev) for J in src): continue
                self.vals += 1
                self.value(f, v, L)
    def about(self, f, x):
        I = f.d(x) if isinstance(x, str) else None
        while I is not None and I.o in ("sext", "zext", "ptrtoint", "freeze"): I = f.d(I.a[0])
        if I is None or I.o != "load": return None
        a = f.addr(I.a[0])
        if a[-1] == "*": a = a[:-1]
        if len(a) == 2 and a[1] in ("SCM.type", "SCM.value"): return a[0], a[1]
        g = f.d(I.a[0])
        return None
    def decide(self, f, v, c, ty, zero, env):
        """outcome of a condition for a value of this type, or None"""
        n = 0; val = True
        while isinstance(c, str) and n < 40:
            n += 1
            if c in env: c = env[c]; continue
            I = f.d(c)
            if I is None: return None
            if I.o == "xor" and const(I.a[1]) is not None: val = not val; c = I.a[0]; continue
            if I.o in ("zext", "freeze", "trunc", "sext"): c = I.a[0]; continue
            if I.o == "icmp" and I.p in ("eq", "ne"):
                x, y = I.a
                if const(x) is not None and const(y) is None: x, y = y, x
                k = const(y)
                if k is None: return None
                if x == v and k == 0: r = False                       # not a null pointer
                else:
                    b = self.about(f, x)
                    if b and b[0] == v and b[1] == "SCM.type": r = ty == k
                    elif b and b[0] == v and b[1] == "SCM.value" and k == 0: r = zero
                    else:
                        J = f.d(x) if isinstance(x, str) else None
                        if J is not None and k == 0 and (J.t == "i1" or J.o in ("zext",) or x in env):
                            if I.p == "eq": val = not val
                            c = x; continue
                        return None
                if I.p == "ne": r = not r
                return r == val
            return None
        if const(c) is not None: return bool(const(c) & 1) == val
        return None
    def mentions(self, f, v, c, d=0):
        """is a condition (partly) about the value?"""
        I = f.d(c) if isinstance(c, str) else None
        if I is None or d > 8: return False
        if I.o == "icmp":
            for x in I.a:
                b = self.about(f, x)
                if b and b[0] == v: return True
            if v in I.a and (None in I.a or 0 in I.a): return True
        if I.o in ("icmp", "xor", "and", "or", "zext", "trunc", "freeze", "select", "phi"): return any(self.mentions(f, v, x, d + 1) for x in I.a)
        return False
    def land(self, f, v, b, pos, ty, zero):
        """where control is once the value decides no further"""
        env = {}; last = None; n = 0
        while n < 400:
            n += 1
            if any(self.stops(I) for I in f.blocks[b]): return ("stop", b)
            T = f.blocks[b][-1]; S = f.succ[b]
            if T.o == "br" and T.a and len(S) == 2:
                r = self.decide(f, v, T.a[0], ty, zero, env)
                if r is None: return ("at", b) + self.seen(f, b, env)
                s = S[0 if r else 1]
            elif T.o == "switch":
                q = self.about(f, T.a[0])
                if not (q and q[0] == v and q[1] == "SCM.type"): return ("at", b) + self.seen(f, b, env)
                s = S[1 + T.cases.index(ty)] if ty in T.cases else S[0]
            elif len(S) == 1: s = S[0]
            else: return ("at", b) + self.seen(f, b, env)
            ch = {}
            for I in f.blocks[s]:
                if I.o != "phi": continue
                w = [x for x, q in zip(I.a, I.b) if q == b]
                if w:
                    x = w[0]
                    while isinstance(x, str) and x in env: x = env[x]
                    ch["%%%d" % I.i] = x
            env.update(ch)
            b = s
            # a block that does something is an end of the road unless the value is asked again behind it
            if not self.again(f, v, b): return ("at", b) + self.seen(f, b, env)
        return ("loop", b)
    def seen(self, f, b, env):
        """what the phis of the block hold"""
        return tuple(sorted((k, str(env.get(k))) for k in ("%%%d" % I.i for I in f.blocks[b] if I.o == "phi") if const(env.get(k)) is not None and env.get(k) is not None))
    def again(self, f, v, b):
        """does the value decide something before anything else happens?"""
        seen = set(); n = 0
        while b not in seen and n < 60:
            seen.add(b); n += 1
            if any(I.o in ("call", "invoke", "store") and not (I.cname() or "").startswith("llvm.dbg") for I in f.blocks[b] if I.o != "dbg"): return False
            T = f.blocks[b][-1]
            if T.o == "br" and T.a and len(f.succ[b]) == 2: return self.mentions(f, v, T.a[0])
            if T.o == "switch":
                q = self.about(f, T.a[0]); return bool(q and q[0] == v)
            if len(f.succ[b]) != 1: return False
            b = f.succ[b][0]
        return False
    def value(self, f, v, L):
        starts = {}
        for I in L:
            # first question of the group: go back while the value alone decides
            b = I.bb
            starts.setdefault(self.first(f, v, b), []).append(I)
        for b, Q in starts.items():
            if self.settled(f, v, b): continue                  # known not to be a boolean here
            if all(self.payload(f, I) for I in Q) and self.typed(f, v, b): continue      # the payload of something whose type is known
            self.groups += 1; self.questions += len(Q)
            t = self.land(f, v, b, 0, self.bool_, False); nil = self.land(f, v, b, 0, self.bool_, True)
            if t == nil: continue                               # asks for the type only
            bad = []
            for name, k in sorted(self.types.items()):
                if k == self.bool_: continue
                for zero in (False, True):
                    w = self.land(f, v, b, 0, k, zero)
                    if w == nil or self.dead(f, w[1]) and not self.dead(f, t[1]): bad.append(name); break
            if bad:
                loc = Q[0].loc
                for J in f.blocks[b][::-1]:
                    if J.loc and "pscm.h" not in J.loc: loc = J.loc; break
                self.F.setdefault(loc, Finding("false-value", f.name, "a result of evaluation that is not #f is treated like #f or refused (%s)" % ", ".join(bad[:4] + (["..."] if len(bad) > 4 else [])), loc, []))
    def settled(self, f, v, b):
        """is this only reached when the value is known not to be a boolean?"""
        for x, B in enumerate(f.blocks):
            S = f.succ[x]
            if len(S) != 2 or not B[-1].a or B[-1].o != "br" or not self.mentions(f, v, B[-1].a[0]): continue
            r = {self.decide(f, v, B[-1].a[0], self.bool_, z, {}) for z in (False, True)}
            if len(r) != 1 or None in r: continue
            s = S[1 if r == {True} else 0]
            if sum(s in q for q in f.succ) == 1 and S[0] != S[1] and (s == b or f.dominates(f.blocks[s][0], f.blocks[b][-1])): return True
        return False
    def payload(self, f, I):
        return I.o == "icmp" and any((self.about(f, x) or (0, 0))[1] == "SCM.value" for x in I.a)
    def typed(self, f, v, b):
        """has the type of the value been asked for on the way here?"""
        e = f.blocks[b][-1]
        return any(I.o in ("icmp", "switch") and I.bb != b and f.dominates(I, e) and any((self.about(f, x) or (0, 0)) == (v, "SCM.type") for x in I.a) for I in f.instrs())
    def first(self, f, v, b):
        """the first question about the value that decides whether control comes here, nothing else having happened in between"""
        I = f.dominators(); pred = {}
        for x, S in enumerate(f.succ):
            for y in S: pred.setdefault(y, set()).add(x)
        a = b
        while a in I and I[a] != a:
            d = I[a]
            if not f.blocks[d][-1].a and len(f.succ[d]) == 1: ok = True
            else: ok = self.mentions(f, v, f.blocks[d][-1].a[0]) if f.blocks[d][-1].a else False
            if not ok: break
            between, st = {b}, [b]
            while st:
                for x in pred.get(st.pop(), ()):
                    if x != d and x not in between: between.add(x); st.append(x)
            if any(K.o in ("call", "invoke", "store") and not (K.cname() or "").startswith("llvm.dbg") for x in between for K in f.blocks[x][:-1] if K.o != "dbg"): break
            if len(f.succ[d]) > 1: b = d
            a = d
            if f.d(v) is not None and f.d(v).bb == d: break
        return b
    def isnull(self, f, v, c):
        I = f.d(c) if isinstance(c, str) else None
        return I is not None and I.o == "icmp" and v in I.a and None in I.a

def run(ctx):
    W = Truth(ctx.inlined(), ctx.facts()); W.run()
    if not W.nots: raise Broken("the builtin not was not found")
    if W.groups < 4: raise Broken("only %d places ask whether a result is #f" % W.groups)
    return {"findings": list(W.F.values()), "coverage": {"explanation": "Every result of evaluation whose type is compared with boolean: control is followed from the first question about it, once per type of value and once each for a zero and a non-zero payload, until it is no longer decided by the value; nothing but #f may arrive where #f arrives, or raise an error where #t does not.",
        "values_examined": W.vals, "decisions": W.groups, "questions": W.questions, "types": len(W.types)}}
