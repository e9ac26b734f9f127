"""P33: a name denotes its innermost binding.

search   one step of the search for a binding, path by path: an entry is returned only where its name has been found equal to the one
         looked for, passed over only where it has been found different (or there is nothing to compare); the frame is left for the
         enclosing one only when it is exhausted and the caller asked for it; "not bound" is only said at the end.
local    bindings are made and changed in one frame only; a binding of an enclosing frame is written by set! alone.
order    whoever asks for a name in a frame and then elsewhere asks the enclosing frames in between, and goes on only if nothing was
         found; code loaded inside a module asks that module before the current one; set! asks wherever a lookup does."""
from check_api import Finding, Broken
from rules.ir import nonreturning
from rules.p31 import Select

NEXT, DATA, KEY, DUMMY, PARENT, VALUE = "SCM_Environment::List.next", "SCM_Environment::List.data", "SCM_Environment::Entry.key", "SCM_Environment.dummy", "SCM_Environment.parent", "SCM_Environment::Entry.value"
NULL = ("c", 0)
def sub(c, field): return c + (field, "*") if c[0] == "ld" else ("ld", c, field, "*")
def up(c):
    """the object a field was read from"""
    r = c[:-2]
    return r[1] if len(r) == 2 else r

class Search(Select):
    def __init__(self, m, nr): super().__init__(m, nr); self.rets = 0; self.steps = 0; self.what = None
    def atom(self, f, c, val, env):
        n = 0
        while isinstance(c, str) and n < 40:
            n += 1
            if c in env: c = env[c]; continue
            I = f.d(c)
            if I is None: return ("$", c), NULL, not val
            if I.o == "xor": c, val = I.a[0], not val; continue
            if I.o in ("freeze", "zext", "sext", "trunc"):
                c = I.a[0]; continue
            break
        return super().atom(f, c, val, env)
    def search(self, f):
        """f finds the entry of a name in a frame and, if asked to, in the enclosing ones"""
        self.f = f; self.rets = self.steps = 0
        self.heads = self.natural(f)
        self.cur = {}                         # loop header -> the phis that walk the entries of a frame
        self.walk = {h: [I for I in f.blocks[h] if I.o == "phi" and self.feeds(I, PARENT)] for h in self.heads}
        self.kept = {h: [I for I in f.blocks[h] if I.o == "phi" and self.feeds(I, DATA)] for h in self.heads}
        for h in self.heads:
            self.cur[h] = [I for I in f.blocks[h] if I.o == "phi" and self.feeds(I, NEXT)]
        for h in [None] + list(self.heads):
            st = [(0 if h is None else h, {}, {}, (), True)]
            while st and self.paths < 100000:
                b, env, facts, path, first = st.pop()
                if any(self.stops(I) for I in f.blocks[b]): continue
                Tm = f.blocks[b][-1]
                if Tm.o == "ret": self.paths += 1; self.judge_ret(Tm, env, facts, path + (b,)); continue
                S = list(f.succ[b])
                for i, s in enumerate(S):
                    N = facts
                    if Tm.o == "br" and Tm.a and len(S) == 2:
                        t = self.atom(f, Tm.a[0], i == 0, env)
                        if t is not None: N = self.put(facts, t)
                    if N is None: continue
                    E = dict(env); got = []
                    if s in self.heads:
                        for I in self.kept[s]:
                            x = [a for a, q in zip(I.a, I.b) if q == b]
                            c = self.canon(f, x[0], env) if x else NULL
                            if c[-2:] == (DATA, "*"):
                                if self.names(N, up(c)) is True: got.append(up(c))
                                else: self.add(f, "wrong-binding", "an entry is kept that has not been found to have the name looked for", Tm.loc)
                    for I in f.blocks[s]:
                        if I.o != "phi": continue
                        x = [a for a, q in zip(I.a, I.b) if q == b]
                        if not x: continue
                        x = x[0]; n = 0
                        while isinstance(x, str) and x in env and n < 40: x = env[x]; n += 1
                        if s not in self.heads: E["%%%d" % I.i] = x
                        elif I in self.walk[s]: self.judge_out(self.canon(f, x, env), N, Tm, I)
                        elif I in self.cur[s]: self.judge_step(self.canon(f, x, env), self.canon(f, I_self(I), {}), N, Tm, got)
                    if s in self.heads: self.paths += 1; continue
                    if path.count(s): continue
                    st.append((s, E, N, path + (b,), False))
    def known(self, N, A, B, eq):
        return N.get((A, B)) is eq or N.get((B, A)) is eq
    def feeds(self, I, field):
        """may the phi hold a value read from this field?"""
        S, st = set(), [I]
        while st:
            J = st.pop()
            if J.i in S: continue
            S.add(J.i)
            for x in (J.a if J.o == "phi" else J.a[1:]):
                K = self.f.d(x) if isinstance(x, str) else None
                if K is None: continue
                if K.o in ("phi", "select"):
                    if K.o == "select" or K.bb not in self.heads: st.append(K)
                elif self.canon(self.f, x, {})[-2:] == (field, "*"): return True
        return False
    def null(self, N, c): return self.known(N, c, NULL, True)
    def names(self, N, c):
        """True: the entry's name is the one looked for; False: it is not; None: not compared"""
        key = sub(sub(c, DATA), KEY)
        for (x, y), e in N.items():
            if y == NULL and x[0] == "call" and x[1] in ("strcmp", "__builtin_strcmp") and len(x[2]) == 2:
                a, b = x[2]
                if key in (a, b) and any(z[-2:] == ("SCM_Symbol.data", "*") and z[1][0] == "$" for z in (a, b)): return e
        return None
    def passed(self, N, c):
        if self.names(N, c) is False: return True
        if self.null(N, sub(c, DATA)) or self.null(N, sub(sub(c, DATA), KEY)): return True
        return any(e and y == NULL and x[-2:] == ("SCM_Symbol.data", "*") or e and y == NULL and x == ("$", "$1") for (x, y), e in N.items())
    def cursor(self, c):
        if c[0] == "v": return any(c == ("v", "%%%d" % I.i) for L in self.cur.values() for I in L)
        return c[-2:] == (NEXT, "*")
    def exhausted(self, N): return any(e and y == NULL and self.cursor(x) for (x, y), e in N.items())
    def asked(self, N): return any(not e and y == NULL and x == ("$", "$2") for (x, y), e in N.items())
    def start(self, c): return c[0] == "ld" and c[-3:] == (DUMMY, NEXT, "*")
    def judge_out(self, new, N, T, I):
        """a step from a frame to the enclosing one"""
        self.steps += 1
        if new == ("$", "$0"): return
        if not self.exhausted(N): self.add(self.f, "outer-first", "the enclosing frame is searched before this one is exhausted", T.loc); return
        if new == ("c", None) or new == NULL:
            if self.asked(N): self.add(self.f, "binding-skipped", "the search ends although there is an enclosing frame to search", T.loc)
            return
        if new[-2:] != (PARENT, "*") or up(new) != ("v", I_self(I)): self.add(self.f, "wrong-binding", "the search goes on in a frame that is not the enclosing one", T.loc)
        if not self.asked(N): self.add(self.f, "outer-binding", "the enclosing frame is searched although only this one was asked for", T.loc)
    def judge_step(self, new, me, N, T, got):
        self.steps += 1
        if self.start(new):
            e = new[:-3]; e = e[1] if len(e) == 2 else e
            if self.envcur(e): return
            if e == ("$", "$0") or not self.exhausted(N) and not any(x == me for x, _ in N): return
            if not self.exhausted(N): self.add(self.f, "outer-first", "the enclosing frame is searched before this one is exhausted", T.loc)
            return
        if new[-2:] == (NEXT, "*"):
            c = up(new)
            if not self.cursor(c): self.add(self.f, "binding-skipped", "the search does not go on with the next entry", T.loc); return
            if not self.passed(N, c) and c not in got: self.add(self.f, "binding-skipped", "an entry is passed over without its name being found different", T.loc)
            return
        if new == me: self.add(self.f, "binding-skipped", "the search does not advance", T.loc); return
    def judge_ret(self, T, env, N, path):
        self.rets += 1
        v = self.canon(self.f, T.a[0], env)
        keeps = v[0] == "v" and any(v == ("v", I_self(I)) for L in self.kept.values() for I in L)
        if keeps and self.known(N, v, NULL, False): return
        if keeps or v == ("c", None) or v == NULL or self.known(N, v, NULL, True):
            # nothing found
            if any(y == NULL and e and (x[0] == "$" and x[1] in ("$0", "$1") or x == ("ld", ("$", "$1"), "SCM_Symbol.data", "*")) for (x, y), e in N.items()): return       # nothing to look for
            if any(y == NULL and e and self.envcur(x) for (x, y), e in N.items()): return                                # no frame left
            if not self.exhausted(N): self.add(self.f, "binding-skipped", "the search ends before every entry of the frame has been looked at", T.loc); return
            if not self.asked(N): return
            if not any(e and y == NULL and (x[-2:] == (PARENT, "*") or self.envcur(x)) for (x, y), e in N.items()): self.add(self.f, "binding-skipped", "the search ends although there is an enclosing frame to search", T.loc)
            return
        if v[-2:] == (DATA, "*"):
            c = up(v)
            if not self.cursor(c): self.add(self.f, "wrong-binding", "what is returned is not an entry of the frame", T.loc); return
            if self.names(N, c) is not True: self.add(self.f, "wrong-binding", "an entry is returned that has not been found to have the name looked for", T.loc)
            return
        if v[0] == "call":
            g = [I for I in self.f.calls() if I.callee() == self.f.key]
            if not any(self.canon(self.f, "%%%d" % I.i, env) == v for I in g if I.i is not None): self.add(self.f, "wrong-binding", "what is returned does not come from the frames", T.loc); return
            a = v[2]
            if a[0] != ("ld", ("$", "$0"), PARENT, "*"): self.add(self.f, "wrong-binding", "the search goes on in a frame that is not the enclosing one", T.loc)
            if a[1] != ("$", "$1"): self.add(self.f, "wrong-binding", "the search goes on with another name", T.loc)
            if len(a) > 2 and a[2] != ("$", "$2") and a[2] != ("c", 1): self.add(self.f, "binding-skipped", "the search goes on in the enclosing frame only", T.loc)
            if not self.exhausted(N): self.add(self.f, "outer-first", "the enclosing frame is searched before this one is exhausted", T.loc)
            if not self.asked(N): self.add(self.f, "outer-binding", "the enclosing frame is searched although only this one was asked for", T.loc)
            return
        self.add(self.f, "wrong-binding", "what is returned is not an entry of the frame", T.loc)
    def envcur(self, x):
        """a variable that walks the frames outwards"""
        if x[0] != "v": return False
        I = self.f.d(x[1])
        return I is not None and I.o == "phi" and self.feeds(I, PARENT)
def I_self(I): return "%%%d" % I.i

class Frames:
    """local and order"""
    def __init__(self, m):
        self.m = m; self.F = {}; self.writes = 0; self.asks = 0; self.pairs = 0
        self.entry = self.one("scm_env_search_entry"); self.insert = self.one("scm_env_insert"); self.exist = self.one("scm_env_exist"); self.lookup = self.one("scm_env_search")
        self.setters = self.assigning()
    def one(self, n):
        L = self.m.byname.get(n, [])
        if not L: raise Broken("%s not found" % n)
        return L[0]
    def add(self, f, rule, what, loc, path=()): self.F.setdefault((rule, loc), Finding(rule, f.name, what, loc, list(path)))
    def src(self, f, v):
        S, out, st = set(), [], [v]
        while st:
            x = st.pop()
            if not isinstance(x, str): out.append(x); continue
            if x in S: continue
            S.add(x); I = f.d(x)
            if I is None: out.append(x)
            elif I.o == "phi": st += I.a
            elif I.o == "select": st += I.a[1:]
            elif I.o in ("bitcast", "freeze", "trunc", "zext", "sext"): st.append(I.a[0])
            else: out.append(I)
        return out
    def assigning(self):
        """functions and blocks that only run for set!"""
        m = self.m; B = {}; called = {}; inside = {}
        for f in m.funcs.values():
            if not f.blocks: continue
            for I in f.calls():
                if any(isinstance(a, dict) and a.get("s") == "set!" for a in I.a) and I.t in ("i1", "i8", "i32"):
                    for b, Bl in enumerate(f.blocks):
                        T = Bl[-1]
                        if T.o == "br" and T.a and len(f.succ[b]) == 2 and any(J is I for J in self.src(f, T.a[0])):
                            s = f.succ[b][0]
                            if sum(s in q for q in f.succ) == 1: B.setdefault(f.key, set()).update(x for x in range(len(f.blocks)) if x == s or f.dominates(f.blocks[s][0], f.blocks[x][-1]))
        self.blocks = B
        out = set(); ch = True
        while ch:
            ch = False
            for g in m.funcs.values():
                if g.key in out or not g.blocks or g.addrtaken: continue
                cs = [(f, I) for f in m.funcs.values() for I in f.calls() if I.callee() == g.key]
                if cs and all(f.key in out or I.bb in B.get(f.key, ()) for f, I in cs): out.add(g.key); ch = True
        return out
    def may(self, f, I): return f.key in self.setters or I.bb in self.blocks.get(f.key, ())
    def flag(self, v):
        if v is None or v is False or v == 0: return False
        if v is True or isinstance(v, int): return True
        return v
    def isglobal(self, f, v): return all(isinstance(x, str) and x.startswith("@") and self.m.gname(x[1:]).split("::")[-1] == "g_env" for x in self.src(f, v))
    def local(self):
        """writes into the value of a binding"""
        m = self.m; todo = []; seen = set()
        for f in m.funcs.values():
            for I in f.instrs():
                if I.o != "store": continue
                a = f.addr(I.a[1])
                if len(a) < 2 or a[-1] != VALUE: continue
                self.writes += 1
                for x in self.src(f, a[0]) if isinstance(a[0], str) else []:
                    if hasattr(x, "o") and x.o in ("call", "invoke") and x.callee() == self.entry.key: todo.append((f, x, x.a[0], x.a[2], I))
        for g in [self.insert]:
            a = [x for x in todo if x[0] is g]
        while todo:
            f, C, e, fl, at = todo.pop()
            for s in self.src(f, fl):
                s = self.flag(s if not hasattr(s, "o") else "?")
                if s is False or self.isglobal(f, e): continue
                if isinstance(s, str) and s.startswith("$"):
                    k = int(s[1:])
                    if (f.key, k) in seen: continue
                    seen.add((f.key, k))
                    ek = [x for x in self.src(f, e) if isinstance(x, str) and x.startswith("$")]
                    for g in m.funcs.values():
                        for I in g.calls():
                            if I.callee() == f.key and k < len(I.a): todo.append((g, I, I.a[int(ek[0][1:])] if ek else None, I.a[k], I))
                    continue
                if not self.may(f, at): self.add(f, "outer-binding", "a binding is made here that changes the variable of an enclosing scope if that has the same name", at.loc)
    def kept(self):
        """a new entry is put in front of the others"""
        for f in self.m.funcs.values():
            for I in f.instrs():
                if I.o != "store": continue
                a = f.addr(I.a[1])
                if a[-2:] != (DUMMY, NEXT) and a[-3:] != (DUMMY, NEXT, "*"): continue
                for n in self.src(f, I.a[0]):
                    if not hasattr(n, "o") or n.i is None: continue
                    ok = False
                    for J in f.instrs():
                        if J.o == "store" and f.dominates(J, I):
                            b = f.addr(J.a[1])
                            if b[0] == "%%%d" % n.i and b[1:2] == (NEXT,) and all(hasattr(x, "o") and x.o == "load" and f.addr(x.a[0])[0] == a[0] and f.addr(x.a[0])[1:3] == (DUMMY, NEXT) and len(f.addr(x.a[0])) <= 4 and f.addr(x.a[0])[3:] in ((), ("*",)) for x in self.src(f, J.a[0])): ok = True
                    if not ok and n.o in ("call", "invoke"): self.add(f, "binding-lost", "a new binding takes the place of the frame's other bindings", I.loc)
    def events(self, f):
        """where f asks for a name: (kind, call)"""
        out = []
        for I in f.calls():
            c = I.callee(); k = None
            if c == self.entry.key or c == self.exist.key:
                if self.isglobal(f, I.a[0]): k = "global"
                else:
                    S = self.src(f, I.a[0]); chain = any(hasattr(x, "o") and x.o == "load" and f.addr(x.a[0])[-1:] == (PARENT,) or hasattr(x, "o") and x.o == "load" and f.addr(x.a[0])[-2:] == (PARENT, "*") for x in S)
                    fl = self.flag(I.a[2]) if c == self.entry.key else False
                    k = "chain" if chain or fl is True else "own" if fl is False else "either"
            elif c in self.m.funcs and len(I.a) >= 2 and self.m.funcs[c].sig and len(self.m.funcs[c].sig) >= 3 and self.m.funcs[c].sig[1].replace(" ", "").endswith("SCM_Module*") and self.m.funcs[c].sig[2].replace(" ", "").endswith("SCM_Symbol*"):
                K = self.where(f, I.a[0]); k = "module of the code" if "e" in K else "current module" if "c" in K else "module"
            if k: out.append((k, I))
        return out
    def where(self, f, v, d=0):
        """where a module comes from: e(nvironment), c(urrent)"""
        out = set(); S = set(); st = [v]
        while st:
            for x in self.src(f, st.pop()):
                i = getattr(x, "i", x)
                if i in S: continue
                S.add(i)
                if not hasattr(x, "o"): continue
                if x.o in ("call", "invoke"):
                    n = x.cname() or ""; g = self.m.funcs.get(x.callee())
                    if n.startswith("scm_current_module"): out.add("c")
                    elif ("cast" in n or "cast" in self.m.pretty(x.callee() or "")) and x.a: st.append(x.a[0])
                    elif g is not None and g.blocks and d < 3:
                        for r in g.rets():
                            if r.a: out |= self.where(g, r.a[0], d + 1)
                elif x.o == "load":
                    a = f.addr(x.a[0])
                    if "SCM_Environment.module" in a: out.add("e")
                    elif isinstance(a[0], str) and a[0].startswith("@") and "current_module" in self.m.gname(a[0][1:]): out.add("c")
                    elif "SCM.value" in a and isinstance(a[0], str): st.append(a[0])
        return out
    def reach(self, f, I, block=(), cut=()):
        """blocks control can come to after I without passing a blocked call or a cut edge"""
        seen = set(); stop = {}; cut = set(cut)
        for J in block:
            stop.setdefault(J.bb, []).append(J.pos)
            x = f.d(J.a[0]) if isinstance(J.a[0], str) else None
            if x is not None and x.o == "phi": stop.setdefault(x.bb, []).append(-1)      # the head of the loop over the frames
        if block: cut |= self.top(f)
        if any(p > I.pos for p in stop.get(I.bb, ())): return {I.bb: "self"} and set()
        st = [s for s in f.succ[I.bb] if (I.bb, s) not in cut]
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b)
            if b in stop: continue
            st += [s for s in f.succ[b] if (b, s) not in cut]
        return {b for b in seen}
    def top(self, f):
        """edges taken only where there is no enclosing frame"""
        out = set()
        for b, Bl in enumerate(f.blocks):
            T = Bl[-1]; c = f.d(T.a[0]) if T.o == "br" and T.a and len(f.succ[b]) == 2 and isinstance(T.a[0], str) else None
            if c is None or c.o != "icmp" or c.p not in ("eq", "ne") or c.a[1] not in (None, 0): continue
            x = f.d(c.a[0]) if isinstance(c.a[0], str) else None
            if x is not None and x.o == "load" and f.addr(x.a[0])[-1] == PARENT: out.add((b, f.succ[b][0 if c.p == "eq" else 1]))
        return out
    def found(self, f, I):
        """edges taken only when the call found nothing"""
        cut = set()
        v = I_self(I) if I.i is not None else None
        for b, Bl in enumerate(f.blocks):
            T = Bl[-1]
            if T.o != "br" or not T.a or len(f.succ[b]) != 2: continue
            c = f.d(T.a[0]) if isinstance(T.a[0], str) else None; val = True
            while c is not None and c.o in ("xor", "freeze", "trunc", "zext"):
                if c.o == "xor": val = not val
                c = f.d(c.a[0]) if isinstance(c.a[0], str) else None
            if c is None or c.o != "icmp" or c.p not in ("eq", "ne") or not (None in c.a or 0 in c.a): continue
            x = c.a[0] if c.a[1] in (None, 0) else c.a[1]
            if not any(J is I for J in self.src(f, x)): continue
            null = (c.p == "eq") == val
            cut.add((b, f.succ[b][0 if null else 1]))
        return cut
    def order(self):
        R = {"own": 0, "either": 0, "chain": 1, "module of the code": 2, "current module": 3}
        for f in self.m.funcs.values():
            if not f.blocks or f is self.entry or f is self.exist: continue
            E = self.events(f)
            if not E: continue
            self.asks += len(E)
            chain = [I for k, I in E if k == "chain"]
            for k, I in E:
                for l, J in E:
                    if J is I: continue
                    # the enclosing frames in between
                    if k == "own" and l in ("module of the code", "current module", "module", "global"):
                        self.pairs += 1
                        loop = any(hasattr(x, "o") and x.o == "phi" for x in (f.d(I.a[0]) if isinstance(I.a[0], str) else None,) if x is not None)
                        if J.bb in self.reach(f, I, chain) and not (J.bb == I.bb): self.add(f, "scopes-skipped", "a name not bound in this frame is looked for elsewhere without asking the enclosing frames", J.loc, [I.loc])
                    # order
                    if k in R and l in R and R[l] < R[k] and f.dominates(I, J) and not self.isloop(f, I, J): self.add(f, "order", "%s is asked before %s" % (k, "the frames" if R[l] < 2 else l), I.loc, [J.loc])
                    if k in R and l in R and R[k] < R[l] and R[k] >= 1 and J.bb in self.reach(f, I, [], self.found(f, I)) and f is not self.insert:
                        if self.found(f, I) or True: self.add(f, "found-but-ignored", "the name is looked for elsewhere (%s) although it has been found" % l, J.loc, [I.loc])
        # set! asks wherever a lookup does
        L = {k for k, _ in self.events(self.lookup)} - {"own", "either", "global", "module"}
        if not {"chain"} <= L: raise Broken("the lookup does not ask the frames")
        S = set(); fs = [f for f in self.m.funcs.values() if f.key in self.setters]
        if not fs: raise Broken("set! not found")
        for f in fs: S |= {k for k, _ in self.events(f)}
        main = [f for f in fs if self.events(f)] or fs
        for k in sorted(L - S): self.add(main[0], "set-misses", "set! does not ask the %s, where a lookup finds the name" % ("frames" if k == "chain" else k), self.events(main[0])[0][1].loc if self.events(main[0]) else main[0].file)
    def isloop(self, f, I, J): return False

class Scopes(Search):
    """definitions: a special form that binds a name puts it into a module only where its environment is not a local scope: it has no
    enclosing one, or it is the module's outermost (the enclosing one belongs to another module)"""
    MOD = "SCM_Environment.module"
    def run(self, entry):
        self.forms = self.stores = self.states = 0
        for f in self.m.funcs.values():
            if not f.blocks or not f.sig or not any(a.replace(" ", "").endswith("SCM_Environment*") for a in f.sig[1:2]): continue
            C = [I for I in f.calls() if (I.cname() or "").startswith("scm_c_hash_set") and I.a and self.table(f, I.a[0], set())]
            if not C: continue
            # writes to the module in which the name was found (set!) belong to the order of the search
            asks = [I for I in f.calls() if I.callee() == entry.key and I.a[2] not in (False, 0)]
            C = [I for I in C if not any(f.dominates(J, I) for J in asks)]
            if C: self.forms += 1; self.stores += len(C); self.form(f, {I.bb: I for I in C})
    def table(self, f, v, seen):
        """does the value come from a module's table of names?"""
        if not isinstance(v, str) or v in seen: return False
        seen.add(v); I = f.d(v)
        if I is None: return False
        if I.o == "load": return "SCM_Module.obarray" in f.addr(I.a[0]) or any(self.table(f, J.a[0], seen) for J in self.into(f, I.a[0]))
        if I.o in ("phi", "select", "bitcast", "ptrtoint", "inttoptr", "freeze"): return any(self.table(f, a, seen) for a in I.a)
        if I.o in ("call", "invoke"):
            if any(self.table(f, a, seen) for a in I.a): return True
            return any(J.o == "store" and f.addr(J.a[1])[0] == v and self.table(f, J.a[0], seen) for J in f.instrs())
        return False
    def into(self, f, p): return [J for J in f.instrs() if J.o == "store" and J.a[1] == p]
    def form(self, f, at):
        E = "$0"; seen = set(); st = [(0, False, (), ())]
        while st and len(seen) < 200000:
            b, ok, ph, path = st.pop()
            if (b, ok, ph) in seen: continue
            seen.add((b, ok, ph))
            if b in at and not ok: self.add(f, "definition-leaks", "a definition in a local scope is put into a module instead of that scope", at[b].l[-1][1] if at[b].l else at[b].loc); continue
            if any(self.stops(I) for I in f.blocks[b]): continue
            env = dict(ph); T = f.blocks[b][-1]; S = list(f.succ[b])
            for i, s in enumerate(S):
                now = ok
                if T.o == "br" and T.a and len(S) == 2:
                    t = self.atom(f, T.a[0], i == 0, env)
                    if t is not None:
                        A, B, eq = t
                        if A == B and A[0] == "c":
                            if not eq: continue
                        else:
                            par, mod, pm = ("ld", ("$", E), PARENT, "*"), ("ld", ("$", E), self.MOD, "*"), ("ld", ("$", E), PARENT, "*", self.MOD, "*")
                            pm2 = ("ld", par, self.MOD, "*")
                            if eq and A == par and B == NULL: now = True
                            if not eq and (A == mod and B in (pm, pm2) or B == mod and A in (pm, pm2)): now = True
                N = dict(ph)
                for I in f.blocks[s]:
                    if I.o == "phi" and (I.t in ("i1", "i8") or any(not isinstance(a, str) for a in I.a)):
                        x = [a for a, q in zip(I.a, I.b) if q == b]
                        if x:
                            x = x[0]; n = 0
                            while isinstance(x, str) and x in env and n < 40: x = env[x]; n += 1
                            if not isinstance(x, (dict, list)): N["%%%d" % I.i] = x
                st.append((s, now, tuple(sorted(N.items(), key=str)), ()))
        self.states += len(seen)

def run(ctx):
    m = ctx.facts(); W = Frames(m)
    W.local(); W.kept(); W.order()
    mi = ctx.inlined(); S = Search(mi, nonreturning(mi))
    f = mi.funcs.get(W.entry.key)
    if f is None or not f.blocks: raise Broken("the search for an entry was not found")
    S.search(f)
    D = Scopes(mi, nonreturning(mi)); D.run(W.entry)
    if D.stores < 2: raise Broken("only %d definitions found" % D.stores)
    if not S.steps or not S.rets: raise Broken("the search for an entry was not understood")
    if W.writes < 3 or W.pairs < 2: raise Broken("only %d writes and %d pairs found" % (W.writes, W.pairs))
    return {"findings": list(W.F.values()) + list(S.F.values()) + list(D.F.values()), "coverage": {"explanation": "Every path through one step of the search for a binding is enumerated with the comparisons made on it; every store into a binding is traced to the search that produced the entry and to the constants callers pass for searching enclosing frames; every pair of places where a function asks for the same name is checked for order, enclosing frames in between and use of what was found; set! is compared with the lookup; every path of a defining form to a store into a module's table is searched for the test that its environment is not a local scope.",
        "search_paths": S.paths, "search_returns": S.rets, "binding_writes": W.writes, "questions": W.asks, "pairs": W.pairs, "set_functions": len(W.setters), "defining_forms": D.forms, "module_definitions": D.stores, "definition_states": D.states}}
