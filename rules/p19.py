"""P19: scratch memory and files a function acquires are released or handed over on every path by which it returns."""
from check_api import Finding, Broken
from rules.ir import nonreturning, BASE_NR, find_path
from rules.explore import Explorer, TooMany

ACQ = {"malloc": "free", "calloc": "free", "realloc": "free", "strdup": "free", "strndup": "free", "aligned_alloc": "free", "realpath": "free", "getcwd": "free",
       "operator new": "operator delete", "operator new[]": "operator delete[]", "fopen": "fclose", "fdopen": "fclose", "tmpfile": "fclose", "freopen": "fclose", "popen": "pclose", "opendir": "closedir"}
REL = {"free": "free", "realloc": "free", "operator delete": "operator delete", "operator delete[]": "operator delete[]", "fclose": "fclose", "pclose": "pclose", "closedir": "closedir"}
def base(n):
    n = (n or "").split("(")[0]
    return {"_Znwm": "operator new", "_Znam": "operator new[]", "_ZdlPv": "operator delete", "_ZdaPv": "operator delete[]"}.get(n, n)

class Res:
    def __init__(self, m):
        self.m = m; self.nr = nonreturning(m); self.memo = {}; self.own = {}
    def stops(self, I):
        return I.o in ("call", "invoke") and (I.callee() in self.nr or I.callee() in self.m._nrbase or I.callee() in BASE_NR)
    def acquires(self, I):
        """what releases the result of this call, or None"""
        if I.o not in ("call", "invoke"): return None
        n = base(I.cname())
        if n in ACQ: return ACQ[n]
        c = I.callee()
        return self.own.get(c) if c in self.m.funcs else None
    def local(self, f, v, glob=False):
        """the stack slot an address lies in"""
        r = f.addr(f.strip(v))[0] if isinstance(v, str) else None
        I = f.d(r) if isinstance(r, str) else None
        if isinstance(r, str) and r.startswith("@") and glob and r in ("@stdout", "@stderr", "@stdin") and tuple(f.addr(v)) == (r,): return r
        return r if I is not None and I.o == "alloca" and len([x for x in f.addr(v) if x == "*"]) == 0 else None
    def consumes(self, g, k, seen=()):
        """does g release parameter k, or keep it: True / None, or the set of parameters it is stored under"""
        key = (g.key, k)
        if key in self.memo: return self.memo[key]
        if key in seen or len(seen) > 8: return None
        self.memo[key] = None
        under = set(); me = "$%d" % k; res = None
        for I in g.instrs():
            if I.o == "store" and isinstance(I.a[0], str) and me in self.leaves(g, I.a[0]):
                if self.local(g, I.a[1]): continue
                r = g.addr(g.strip(I.a[1]))[0]
                if isinstance(r, str) and r.startswith("$"): under.add(int(r[1:]))
                else: res = True
            elif I.o in ("call", "invoke"):
                for j, a in enumerate(I.a):
                    if not isinstance(a, str) or me not in self.leaves(g, a): continue
                    if base(I.cname()) in REL and j == 0: res = True
                    elif I.callee() in self.m.funcs:
                        c = self.consumes(self.m.funcs[I.callee()], j, seen + (key,))
                        if c is True: res = True
                        elif c:
                            for i in c:
                                if i < len(I.a) and isinstance(I.a[i], str) and not self.local(g, I.a[i]):
                                    r = g.addr(g.strip(I.a[i]))[0]
                                    if isinstance(r, str) and r.startswith("$"): under.add(int(r[1:]))
                                    else: res = True
            elif I.o == "ret" and I.a and isinstance(I.a[0], str) and me in self.leaves(g, I.a[0]): under.add(-1)
        r = res or under or None
        self.memo[key] = r
        return r
    def leaves(self, f, v, seen=None):
        seen = set() if seen is None else seen
        v = f.strip(v)
        if v in seen: return seen
        if isinstance(v, str): seen.add(v)
        I = f.d(v) if isinstance(v, str) else None
        if I is not None and I.o in ("phi", "select"):
            for x in (I.a if I.o == "phi" else I.a[1:]):
                if isinstance(x, str): self.leaves(f, x, seen)
        return seen
    def follow(self, f, A, rel, cap, keep=None):
        """explore from the acquisition A; returns (leaks, misuses, returned)"""
        leaks, mis, ret = [], [], []
        W = self
        class E(Explorer):
            def relevant(self, k, live): return k[0] in ("h", "m", "freed", "re") or Explorer.relevant(self, k, live)
            def enter(self, b, frm, st):
                new = []
                for I in f.blocks[b]:
                    if I.o != "phi": break
                    if frm in I.b:
                        v = I.a[I.b.index(frm)]
                        if isinstance(v, str) and W.holds(f, v, st): new.append("%%%d" % I.i)
                st2 = Explorer.enter(self, b, frm, st)
                phis = {"%%%d" % I.i for I in f.blocks[b] if I.o == "phi"}
                st2 = {k: x for k, x in st2.items() if not (k[0] == "h" and k[1] in phis)}
                for n in new: st2[("h", n)] = True
                return st2
        ex = E(f, self.stops, cap=cap, keep=keep)
        me = "%%%d" % A.i
        def drop(st): return {k: x for k, x in st.items() if k[0] not in ("h", "m", "freed")}
        def visit(I, st):
            if I.i is not None and ("h", "%%%d" % I.i) in st and I.o != "phi": 
                st = dict(st); del st[("h", "%%%d" % I.i)]
            if I.o == "select":
                t = ex.truth(I.a[0], st); arms = I.a[1:] if t is None else [I.a[1] if t else I.a[2]]
                if any(isinstance(x, str) and self.holds(f, x, st) for x in arms):
                    st = dict(st); st[("h", "%%%d" % I.i)] = True
                return st
            if I.o == "load":
                s = self.local(f, I.a[0], True)
                if s and ("m", s) + tuple(f.addr(I.a[0])) in st:
                    st = dict(st); st[("h", "%%%d" % I.i)] = True; return st
                if ("freed",) in st and self.holds(f, root(f, I.a[0]), st): mis.append(("use-after-release", "is read after it was released", I, ex.trail))
                return st
            if I.o == "store":
                v = I.a[0]
                s = self.local(f, I.a[1], True)
                if s:
                    key = ("m", s) + tuple(f.addr(I.a[1]))
                    st = dict(st); st.pop(key, None)
                    if isinstance(v, str) and self.holds(f, v, st): st[key] = True
                    return st
                if ("freed",) in st and self.holds(f, root(f, I.a[1]), st): mis.append(("use-after-release", "is written after it was released", I, ex.trail))
                if isinstance(v, str) and self.holds(f, v, st) and f.strip(root(f, I.a[1])) != f.strip(v):
                    if ("freed",) in st: mis.append(("use-after-release", "is kept after it was released", I, ex.trail))
                    return None
                return st
            if I.o in ("call", "invoke"):
                n = base(I.cname())
                for j, a in enumerate(I.a):
                    if not isinstance(a, str): continue
                    if not self.holds(f, a, st):
                        s = self.local(f, a)
                        if s and any(k[0] == "m" and k[1] == s for k in st) and n.startswith(("llvm.memcpy", "memcpy")) and j == 1 and not self.local(f, I.a[0]): return None
                        continue
                    if n.startswith(("llvm.dbg", "llvm.lifetime")): continue
                    if n in REL and j == 0:
                        if ("freed",) in st: mis.append(("released-twice", "is released twice", I, ex.trail)); return None
                        if REL[n] != rel: mis.append(("wrong-release", "is released with %s, but needs %s" % (n, rel), I, ex.trail)); return None
                        if n == "realloc":
                            st = dict(st); st[("re", "%%%d" % I.i)] = True; return st
                        st = dict(st); st[("freed",)] = True; return st
                    if ("freed",) in st: mis.append(("use-after-release", "is used (%s) after it was released" % (n or "a call"), I, ex.trail)); return None
                    if I.callee() in self.m.funcs:
                        c = self.consumes(self.m.funcs[I.callee()], j)
                        if c is True: return None
                        if c and any(i >= 0 and i < len(I.a) and isinstance(I.a[i], str) and not self.local(f, I.a[i]) for i in c): return None
                        if c and -1 in c:
                            st = dict(st); st[("h", "%%%d" % I.i)] = True
                    elif I.callee() is None: return None      # a host function may take it
                return st
            if I.o == "ret":
                v = I.a[0] if I.a else None
                if isinstance(v, str) and self.holds(f, v, st):
                    if ("freed",) in st: mis.append(("use-after-release", "is returned after it was released", I, ex.trail))
                    else: ret.append(I)
                elif isinstance(v, str) and (r := f.d(f.strip(v))) is not None and r.o == "load" and any(k[0] == "m" for k in st): ret.append(I)   # a structure holding it is returned by value
                elif ("freed",) not in st and not any(k[0] == "re" or k[0] == "m" and k[1].startswith("@") for k in st): leaks.append((I, ex.trail))
            return st
        def edge(T, k, st):
            # a null test of what is held ends the obligation on the side where it is null
            if ("freed",) in st: return st
            for key in list(st):
                if key[0] == "re":
                    # what was grown is gone once the growing succeeded, and still held when it failed
                    t = ex.null(key[1], st)
                    if t is False: return None
                    if t is True: st = {k2: x for k2, x in st.items() if k2 != key}
            for key in st:
                if key[0] == "h" and ex.null(key[1], st) is True: return None
            return st
        start = {("h", me): True}
        ex.run(A.bb, visit, init=start, pos=A.pos + 1, edge=edge)
        return leaks, mis, ret
    def holds(self, f, v, st):
        v = f.strip(v) if isinstance(v, str) else v
        return ("h", v) in st
def loads(f, v, seen=None):
    seen = set() if seen is None else seen; v = f.strip(v) if isinstance(v, str) else v
    if v in seen or not isinstance(v, str): return []
    seen.add(v); d = f.d(v)
    if d is None: return []
    if d.o == "phi": return [y for x in d.a for y in loads(f, x, seen)]
    return [d]
def root(f, v):
    while True:
        I = f.d(v) if isinstance(v, str) else None
        if I is not None and I.o in ("bitcast", "gep", "getelementptr", "ptrtoint", "inttoptr"): v = I.a[0]
        else: return v

def run(ctx):
    m = ctx.helpers(); F = []; W = Res(m)
    # functions that hand what they acquire to their caller
    changed = True; seen = set(); n = 0; kinds = {}; rounds = 0; results = {}
    while changed and rounds < 6:
        changed = False; rounds += 1
        for f in m.funcs.values():
            for I in f.calls():
                rel = W.acquires(I)
                if not rel or (f.key, I.i, rel) in results: continue
                try: leaks, mis, ret = W.follow(f, I, rel, 60000)
                except TooMany:
                    # with fewer facts more paths look possible: silence is still an answer, an alarm is not
                    try: leaks, mis, ret = W.follow(f, I, rel, 60000, lambda k: k[0] in ("h", "m", "freed", "re", "n"))
                    except TooMany: leaks = [1]
                    if leaks: leaks, mis, ret = None, [], []
                results[(f.key, I.i, rel)] = (f, I, leaks, mis, ret)
                if ret and f.key not in W.own: W.own[f.key] = rel; changed = True
    und = []
    for (k, i, rel), (f, I, leaks, mis, ret) in sorted(results.items(), key=lambda x: (x[0][0], x[0][1])):
        n += 1; kinds[base(I.cname())] = kinds.get(base(I.cname()), 0) + 1
        if leaks is None: und.append("%s %s" % (f.name, I.loc)); continue
        what = {"free": "memory", "operator delete": "memory", "operator delete[]": "memory", "fclose": "a file"}.get(rel, "a resource")
        if leaks:
            J, tr = leaks[0]
            F.append(Finding("leak", I.srcfn, "%s acquired by %s is neither released nor handed over when this function returns" % (what, base(I.cname())), I.loc, list(tr) + [J.loc]))
        for rule, w, J, tr in mis:
            if (rule, I.loc, J.loc) in seen: continue
            seen.add((rule, I.loc, J.loc)); F.append(Finding(rule, J.srcfn, "%s acquired at %s %s" % (what, I.loc, w), J.loc, list(tr) + [J.loc]))
    # a standard stream that is redirected is put back
    redir = 0
    for f in m.funcs.values():
        st = [I for I in f.instrs() if I.o == "store" and f.addr(I.a[1]) and tuple(f.addr(I.a[1])) in (("@stdout",), ("@stderr",), ("@stdin",))]
        if not st: continue
        def saved(v, g, seen=()):
            v = f.strip(v) if isinstance(v, str) else v
            d = f.d(v) if isinstance(v, str) else None
            if d is None or v in seen: return d is not None
            if d.o == "phi": return all(saved(x, g, seen + (v,)) for x in d.a)
            if d.o == "load" and tuple(f.addr(d.a[0])) == (g,): return True
            return False
        for I in st:
            g = f.addr(I.a[1])[0]
            if saved(I.a[0], g): continue
            if not any(f.d(x) is not None and f.d(x).o in ("call", "invoke") for x in W.leaves(f, I.a[0])): continue     # putting back what a record of the dynamic state holds
            redir += 1
            # the value to put back must have been read before the redirection
            back = lambda J: J.o == "store" and tuple(f.addr(J.a[1])) == (g,) and saved(J.a[0], g) and all(f.dominates(x, I) for x in loads(f, J.a[0]))
            w = find_path(f, I.bb, I.pos + 1, lambda J: J.o == "ret", lambda J: back(J) or W.stops(J))
            if w: F.append(Finding("redirection-left", I.srcfn, "%s is redirected and not put back when this function returns" % g[1:], I.loc, w))
    if n < 40: raise Broken("only %d acquisitions" % n)
    return {"findings": F, "level": "other", "coverage": {"explanation": "Path-sensitive ownership: from every acquisition of memory or of a file (directly or through a function that hands over what it acquired) all paths to a return are followed; on each the resource must be released with its own release operation, stored in memory that outlives the call, passed to a function that keeps or releases it, returned, or known to be null; after a release it may not be used again. A redirected standard stream is put back on every path to a return.",
        "acquisitions": n, "redirections": redir, "by_operation": kinds, "functions_handing_over": sorted(m.funcs[k].name for k in W.own), "undecided": und}}
