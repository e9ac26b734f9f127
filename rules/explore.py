"""Path-sensitive dataflow: nullness of access paths, truth of conditions and tags carried along paths of one function (property simulation).
Loads of fields are identified by access path; the rules using this only follow fields that nothing on the way writes."""
from rules.ir import BASE_NR

class TooMany(Exception): pass

class Explorer:
    def __init__(self, fn, stops=None, cap=60000, keep=None):
        self.fn = fn; self.stops = stops or (lambda I: False); self.cap = cap; self.keep = keep
        self._addr = {}
    def addr(self, v):
        if isinstance(v, str):
            r = self._addr.get(v)
            if r is None: r = self._addr[v] = self.fn.addr(v)
            return r
        return self.fn.addr(v)
    # ---- liveness: facts about values nothing later looks at are dropped
    def livein(self):
        if getattr(self, "_live", None) is not None: return self._live
        fn = self.fn; n = len(fn.blocks)
        def names(v):
            out = set()
            if isinstance(v, str) and v.startswith("%"):
                out.add(v); s = fn.strip(v)
                if isinstance(s, str) and s.startswith("%"):
                    out.add(s); r = self.addr(s)[0]
                    if isinstance(r, str) and r.startswith("%"): out.add(r)
                out |= conds(v, 0)
            return out
        memo = {}
        def conds(v, d):
            # what a condition is made of: its operands are looked at again when it is tested
            if v in memo: return memo[v]
            memo[v] = set(); out = set()
            I = fn.d(v)
            if I is not None and d < 12 and I.o in ("icmp", "and", "or", "xor", "select", "zext", "sext", "trunc", "freeze") or I is not None and I.o in ("call", "invoke") and len(I.a) <= 2 and d < 12:
                for a in I.a:
                    if isinstance(a, str) and a.startswith("%"): out |= names(a)
            memo[v] = out
            return out
        use = [set() for _ in range(n)]; dfn = [set() for _ in range(n)]; out = [set() for _ in range(n)]
        edge = {}
        for b in range(n):
            for I in fn.blocks[b]:
                if I.o == "phi":
                    for v, p in zip(I.a, I.b): edge.setdefault((p, b), set()).update(names(v))
                else:
                    for v in list(I.a or []) + ([I.f] if isinstance(I.f, str) else []):
                        use[b] |= names(v)
                    if I.i is not None:
                        me = "%%%d" % I.i
                        if I.o == "load": use[b] |= names(me)
        # a root looked at through a load keeps its facts as long as the loaded value is in use, so definitions do not end liveness upwards
        phid = [{"%%%d" % I.i for I in fn.blocks[b] if I.o == "phi"} for b in range(n)]
        live = [set(u) for u in use]; ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set()
                for t in fn.succ[b]: o |= (live[t] - phid[t]) | edge.get((b, t), set())
                x = use[b] | o
                if x != live[b]: live[b] = x; ch = True
        self._live = live; self._names = names
        return live
    def relevant(self, k, live):
        r = k[2] if k[0] == "x" else k[1] if k[0] in ("n", "l", "i", "b", "a") else None
        return not (isinstance(r, str) and r.startswith("%")) or r in live
    # ---- facts
    def null(self, v, st):
        v = self.fn.strip(v)
        if v is None or v == 0: return True
        if isinstance(v, dict): return False
        I = self.fn.d(v)
        if I is not None and (I.o == "alloca" or I.o in ("call", "invoke") and (I.cname() or "") in ("gc_alloc", "make_list", "operator new", "operator new[]")): return False
        if I is not None and I.o in ("gep", "getelementptr"): return False
        if isinstance(v, str) and v.startswith("@") and v[1:] in self.fn.mod.funcs: return False
        return st.get(("n",) + self.addr(v))
    def truth(self, v, st, depth=0):
        """True/False/None of an integer or boolean condition"""
        fn = self.fn
        if isinstance(v, bool): return v
        if isinstance(v, int): return v != 0
        if v is None: return False
        if depth > 12: return None
        t = st.get(("b", v))
        if t is not None: return t
        I = fn.d(v)
        if I is None: return st.get(("l",) + self.addr(v))
        if I.o in ("trunc", "zext", "sext", "freeze"): return self.truth(I.a[0], st, depth + 1)
        if I.o == "load": return st.get(("l",) + self.addr(v))
        if I.o == "xor" and (I.a[1] in (1, True, -1)):
            t = self.truth(I.a[0], st, depth + 1); return None if t is None else not t
        if I.o == "and" and I.t == "i1":
            a, b = self.truth(I.a[0], st, depth + 1), self.truth(I.a[1], st, depth + 1)
            return False if a is False or b is False else True if a and b else None
        if I.o == "or" and I.t == "i1":
            a, b = self.truth(I.a[0], st, depth + 1), self.truth(I.a[1], st, depth + 1)
            return True if a or b else False if a is False and b is False else None
        if I.o == "and" and I.a[1] in (1, True): return self.truth(I.a[0], st, depth + 1)
        if I.o == "select":
            c = self.truth(I.a[0], st, depth + 1)
            if c is not None: return self.truth(I.a[1] if c else I.a[2], st, depth + 1)
            a, b = self.truth(I.a[1], st, depth + 1), self.truth(I.a[2], st, depth + 1)
            return a if a == b else None
        if I.o == "phi":
            al = st.get(("a", v))
            return self.truth(al, st, depth + 1) if al is not None else None
        if I.o == "icmp" and I.p in ("eq", "ne"):
            r = self._eq(I.a[0], I.a[1], st, depth)
            return None if r is None else (r if I.p == "eq" else not r)
        return None
    def _isptr(self, v):
        if v is None: return True
        I = self.fn.d(self.fn.strip(v)) if isinstance(v, str) else None
        if I is not None: return I.t == "ptr"
        if isinstance(v, str) and v.startswith("$"):
            k = int(v[1:]); return k + 1 < len(self.fn.sig) and "*" in self.fn.sig[k + 1]
        return isinstance(v, (dict, str))
    def _eq(self, a, b, st, depth):
        if self._isptr(a) and self._isptr(b):
            na, nb = self.null(a, st), self.null(b, st)
            if na and nb: return True
            if (na and nb is False) or (nb and na is False): return False
            if self.fn.strip(a) == self.fn.strip(b): return True
            return None
        if isinstance(a, int) and isinstance(b, int): return a == b
        if isinstance(a, int): a, b = b, a
        if isinstance(b, int):
            c = st.get(("i",) + self.addr(self.fn.strip(a)))
            if c is not None: return c == b
            if ("x", b) + self.addr(self.fn.strip(a)) in st: return False
            I = self.fn.d(a)
            if I is not None and (I.t in ("i1",) or I.o in ("trunc", "zext", "load", "and", "phi")) and b in (0, 1):
                t = self.truth(a, st, depth + 1)
                if t is not None and b == 0: return not t
                if t is not None and b == 1 and I.t in ("i1", "i8"): return t
        return None
    def assume(self, v, val, st, depth=0):
        """state in which condition v has truth val, or None"""
        fn = self.fn
        if isinstance(v, (int, bool)) or v is None: return st if bool(v) == val else None
        t = self.truth(v, st)
        if t is not None and t != val: return None
        if depth > 12: return st
        st = dict(st)
        I = fn.d(v)
        if I is None:
            st[("l",) + self.addr(v)] = val; return st
        if I.o in ("trunc", "zext", "sext", "freeze"): return self.assume(I.a[0], val, st, depth + 1)
        if I.o == "load":
            st[("l",) + self.addr(v)] = val; return st
        if I.o == "xor" and I.a[1] in (1, True, -1): return self.assume(I.a[0], not val, st, depth + 1)
        st[("b", v)] = val
        if I.o == "and" and I.t == "i1" and val or I.o == "or" and I.t == "i1" and not val:
            st = self.assume(I.a[0], val, st, depth + 1)
            return st if st is None else self.assume(I.a[1], val, st, depth + 1)
        if I.o == "select":
            a, b = I.a[1], I.a[2]
            if val and b in (0, False) or not val and a in (1, True):
                st = self.assume(I.a[0], val, st, depth + 1)
                return st if st is None else self.assume(a if val else b, val, st, depth + 1)
            return st
        if I.o == "phi":
            al = st.get(("a", v))
            return self.assume(al, val, st, depth + 1) if al is not None else st
        if I.o == "icmp" and I.p in ("eq", "ne"):
            eq = (I.p == "eq") == val; a, b = I.a
            if self._isptr(a) and self._isptr(b):
                for x, y in ((a, b), (b, a)):
                    nx = self.null(x, st)
                    if nx is True and self.null(y, st) is None and isinstance(fn.strip(y), str): st[("n",) + self.addr(fn.strip(y))] = eq
                    if nx is False and eq and self.null(y, st) is None and isinstance(fn.strip(y), str): st[("n",) + self.addr(fn.strip(y))] = False
                return st
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int) and isinstance(a, str):
                J = fn.d(a)
                if b == 0 and J is not None and J.o in ("trunc", "zext", "load", "and", "phi", "call", "invoke", "sext") and J.t in ("i1", "i8"): return self.assume(a, not eq, st, depth + 1)
                if b == 0 and J is not None and J.o in ("zext", "sext"): return self.assume(a, not eq, st, depth + 1)
                k = self.addr(fn.strip(a))
                if eq: st[("i",) + k] = b
                else: st[("x", b) + k] = True
        return st
    # ---- transfer
    def forget(self, name, st):
        dead = [k for k, x in st.items() if (k[0] in ("n", "l", "i") and k[1] == name) or (k[0] == "x" and k[2] == name) or (k[0] in ("b", "a") and k[1] == name) or (k[0] == "a" and x == name)]
        for k in dead: del st[k]
    def enter(self, b, frm, st):
        """phis of block b on the edge from block frm"""
        phis = [I for I in self.fn.blocks[b] if I.o == "phi"]
        if not phis: return st
        new = []
        for I in phis:
            if frm not in I.b: continue
            v = I.a[I.b.index(frm)]; me = "%%%d" % I.i
            if I.t == "ptr":
                nv = self.null(v, st)
                if nv is not None: new.append((("n", me), nv))
                sv = self.fn.strip(v)
                if isinstance(sv, str):
                    p = self.addr(sv)
                    for k, x in st.items():
                        if k[0] in ("n", "l", "i") and k[1:1 + len(p)] == p and len(k) > 1 + len(p): new.append(((k[0], me) + k[1 + len(p):], x))
            else:
                t = self.truth(v, st)
                if isinstance(v, int) and not isinstance(v, bool) and I.t != "i1": new.append((("i", me), v))
                if t is not None and I.t in ("i1", "i8"): new.append((("b", me), t))
                elif isinstance(v, str) and (I.t == "i1" or I.t == "i8" and (d := self.fn.d(v)) is not None and d.o == "zext" and (d2 := self.fn.d(d.a[0])) is not None and d2.t == "i1"): new.append((("a", me), v))
        st = dict(st)
        for I in phis: self.forget("%%%d" % I.i, st)
        for k, x in new:
            if k[0] == "a" and any(x == "%%%d" % I.i for I in phis): continue
            st[k] = x
        return st
    def run(self, start, visit, init=None, pos=0, frm=None, edge=None):
        """visit(I, st) -> new state, None (stop this path); edge(T, k, st) -> state or None. Witness: list of branch locations in st[('w',)]"""
        fn = self.fn
        seen = set(); work = [(start, pos, dict(init or {}), ())]
        n = 0
        while work:
            b, p, st, trail = work.pop()
            n += 1
            if n > self.cap: raise TooMany(fn.name)
            dead = False
            for I in fn.blocks[b][p:]:
                if I.o == "phi": continue
                if self.stops(I): dead = True; break
                if I.o not in ("br", "switch", "store", "ret") and I.i is not None: self.forget("%%%d" % I.i, st)
                self.trail = trail
                st = visit(I, st)
                if st is None: dead = True; break
            if dead: continue
            T = fn.blocks[b][-1]
            for k, t in enumerate(fn.succ[b]):
                s = st
                if T.o == "br" and T.a and len(fn.succ[b]) > 1: s = self.assume(T.a[0], k == 0, st)
                elif T.o == "switch" and T.a and T.cases is not None:
                    key = self.addr(fn.strip(T.a[0])); c = st.get(("i",) + key)
                    if k > 0:
                        if c is not None and c != T.cases[k - 1]: continue
                        s = dict(st); s[("i",) + key] = T.cases[k - 1]
                    elif c is not None and c in T.cases: continue
                if s is None: continue
                if edge:
                    s = edge(T, k, s)
                    if s is None: continue
                s = self.enter(t, b, dict(s))
                lv = self.livein()[t]
                todo = [x for x in s if x[0] == "a"]
                while todo:
                    al = [x for x in todo if x[1] in lv]
                    if not al: break
                    lv = lv.union(*[self._names(s[x]) for x in al]); todo = [x for x in todo if x not in al]
                s = {x: y for x, y in s.items() if self.relevant(x, lv)}
                if self.keep: s = {x: y for x, y in s.items() if self.keep(x)}
                sig = (t, frozenset(s.items()))
                if sig in seen: continue
                seen.add(sig)
                work.append((t, 0, s, trail + ((T.loc,) if len(fn.succ[b]) > 1 else ())))
        return n
