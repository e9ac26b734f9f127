"""SSA facts of the repository (written by engine/facts.cc) and the generic graph/dataflow helpers the rules use."""
import json, collections, functools

class Instr:
    __slots__ = ("fn", "bb", "pos", "i", "o", "t", "a", "b", "f", "path", "p", "cases", "v", "vt", "l", "sz", "nr", "at", "st")
    def __init__(self, fn, bb, pos, d):
        self.fn, self.bb, self.pos = fn, bb, pos
        self.i = d["i"]; self.o = d["o"]; self.t = d.get("t"); self.a = d.get("a", []); self.b = d.get("b", [])
        self.f = d.get("f"); self.path = d.get("path"); self.p = d.get("p"); self.cases = d.get("cases")
        self.v = d.get("v"); self.vt = d.get("vt"); self.l = d.get("l", []); self.sz = d.get("sz"); self.nr = d.get("nr"); self.at = d.get("at")
        self.st = d.get("st")
    @property
    def loc(self): return self.l[0][1] if self.l else (self.fn.file + ":" + str(self.fn.line))
    @property
    def srcfn(self):
        """pretty name of the function this instruction was written in"""
        if self.l:
            n = self.l[0][0]
            f = self.fn.mod.funcs.get(n)
            return f.name if f else self.fn.mod.demangled.get(n, n)
        return self.fn.name
    def callee(self):
        """name (linkage) of a direct callee, else None"""
        if self.o in ("call", "invoke") and isinstance(self.f, str) and self.f.startswith("@"): return self.f[1:]
        return None
    def cname(self):
        c = self.callee()
        return self.fn.mod.pretty(c) if c else None
    def __repr__(self): return "<%s %%%d %s %s>" % (self.fn.name, self.i, self.o, self.loc)

class Func:
    def __init__(self, mod, key, d):
        self.mod, self.key = mod, key
        self.name = d["name"]; self.full = d["full"]; self.file = d.get("file", "?"); self.line = d.get("line", 0)
        self.sig = d.get("sig", []); self.params = d["params"]; self.nargs = d["nargs"]; self.vararg = d["vararg"]
        self.noreturn = d["noreturn"]; self.internal = d["internal"]; self.addrtaken = d["addrtaken"]; self.rt = d["rt"]
        self.blocks = []; self.defs = {}
        for bi, b in enumerate(d["blocks"]):
            L = []
            for pi, x in enumerate(b):
                I = Instr(self, bi, pi, x); L.append(I); self.defs[I.i] = I
            self.blocks.append(L)
        self.succ = [list(b[-1].b) if b and b[-1].o in ("br", "switch", "invoke") else [] for b in self.blocks]
        self.pred = [[] for _ in self.blocks]
        for i, s in enumerate(self.succ):
            for t in s: self.pred[t].append(i)
    def instrs(self):
        for b in self.blocks:
            for I in b: yield I
    def calls(self):
        for I in self.instrs():
            if I.o in ("call", "invoke"): yield I
    def d(self, v):
        """defining instruction of a value or None"""
        if isinstance(v, str) and v.startswith("%"): return self.defs.get(int(v[1:]))
        return None
    def rets(self): return [b[-1] for b in self.blocks if b and b[-1].o == "ret"]
    def users(self, v):
        if not hasattr(self, "_users"):
            self._users = collections.defaultdict(list)
            for I in self.instrs():
                for x in I.a:
                    if isinstance(x, str) and x[0] in "%$": self._users[x].append(I)
                if I.path:
                    for e in I.path:
                        if isinstance(e, list) and isinstance(e[0], str): self._users[e[0]].append(I)
                if isinstance(I.f, str) and I.f[0] in "%$": self._users[I.f].append(I)
        return self._users[v]
    def strip(self, v):
        """look through casts"""
        while True:
            I = self.d(v)
            if I is not None and I.o in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast", "sext", "zext", "trunc", "freeze"): v = I.a[0]
            else: return v
    # ---- access paths: ("root", step, step, ...); root "$i", "@g", "%n"; steps "*" load, "S.f", "[c]"/"[]" index
    def addr(self, v, seen=()):
        I = self.d(v)
        if isinstance(v, dict):
            if "g" in v: return (self.addr(v["g"])[0],) + self._steps(v["path"])
            if "ce" in v and v["a"]: return self.addr(v["a"][0])
            return ("?",)
        if I is None: return (v if isinstance(v, str) else "null" if v is None else repr(v),)
        if v in seen or len(seen) > 40: return (v,)
        if I.o in ("bitcast", "inttoptr", "ptrtoint", "freeze", "sext", "zext"): return self.addr(I.a[0], seen + (v,))
        if I.o == "gep": return self.addr(I.a[0], seen + (v,)) + self._steps(I.path)
        if I.o == "getelementptr": return self.addr(I.a[0], seen + (v,)) + self._steps(I.path)
        if I.o == "load": return self.addr(I.a[0], seen + (v,)) + ("*",)
        return (v,)
    def _steps(self, path):
        r = []
        for e in path or []:
            if isinstance(e, list): r.append("[%s]" % (e[0] if isinstance(e[0], int) else ""))
            else: r.append(e)
        return tuple(r)
    def describe(self, v):
        p = self.addr(v)
        out = ""
        r = p[0]
        if r.startswith("$"):
            n = int(r[1:]); out = self.params[n] or ("arg%d" % n)
        elif r.startswith("@"): out = self.mod.gname(r[1:])
        elif r.startswith("%"):
            I = self.d(r)
            out = I.v or (I.cname() + "()" if I.o in ("call", "invoke") and I.cname() else I.v or I.o)
        else: out = r
        for s in p[1:]:
            if s == "*": continue
            out += s if s.startswith("[") else "->" + s.split(".")[-1]
        return out
    def dominators(self):
        if hasattr(self, "_dom"): return self._dom
        n = len(self.blocks); order = self.rpo(); idx = {b: i for i, b in enumerate(order)}
        idom = {order[0]: order[0]} if order else {}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]: x = idom[x]
                                while idx[y] > idx[x]: y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new: idom[b] = new; ch = True
        self._dom = idom
        return idom
    def dominates(self, a, b):
        """instruction a dominates instruction b"""
        if a.bb == b.bb: return a.pos <= b.pos
        idom = self.dominators(); x = b.bb
        if x not in idom: return True
        while idom[x] != x:
            x = idom[x]
            if x == a.bb: return True
        return False
    def rpo(self):
        if hasattr(self, "_rpo"): return self._rpo
        seen, out = set(), []
        st = [(0, iter(self.succ[0]))] if self.blocks else []
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ[s]))); break
            else:
                out.append(b); st.pop()
        self._rpo = out[::-1]
        return self._rpo
    def __repr__(self): return "<Func %s>" % self.name

class Module:
    def __init__(self, file):
        d = json.load(open(file))
        self.structs, self.globals, self.decls = d["structs"], d["globals"], d["decls"]
        self.scm_types, self.type_tags, self.registrations = d["scm_types"], d["type_tags"], d["registrations"]
        self.demangled = {k: v["name"] for k, v in self.decls.items()}
        self.funcs = {}
        for k, f in d["funcs"].items():
            self.funcs[k] = Func(self, k, f); self.demangled[k] = f["name"]
        self.byname = collections.defaultdict(list)
        for f in self.funcs.values(): self.byname[f.name].append(f)
        self._cg = None
    def pretty(self, key): return self.demangled.get(key, key)
    def gname(self, key):
        g = self.globals.get(key)
        return g.get("name", key) if g else self.pretty(key)
    def fn(self, name):
        L = self.byname.get(name)
        return L[0] if L else None
    def field(self, S, f):
        for x in self.structs.get(S, {}).get("fields", []):
            if x["name"] == f: return x
        return None
    def all_instrs(self):
        for f in self.funcs.values(): yield from f.instrs()
    # ---- call graph
    def callgraph(self):
        """direct edges plus, for indirect calls, every address-taken repo function of the same arity"""
        if self._cg: return self._cg
        taken = collections.defaultdict(set)
        for f in self.funcs.values():
            if f.addrtaken: taken[f.nargs].add(f.key)
        g = {k: set() for k in self.funcs}
        ind = {k: set() for k in self.funcs}
        for f in self.funcs.values():
            for I in f.calls():
                c = I.callee()
                if c: g[f.key].add(c)
                else: ind[f.key] |= taken[len(I.a)]
        self._cg = (g, ind)
        return self._cg
    def reach(self, starts, indirect=False, stop=()):
        g, ind = self.callgraph()
        seen = set(starts); st = list(seen)
        while st:
            x = st.pop()
            if x in stop: continue
            for y in list(g.get(x, ())) + (list(ind.get(x, ())) if indirect else []):
                if y not in seen: seen.add(y); st.append(y)
        return seen
    def callers(self, key):
        if not hasattr(self, "_callers"):
            self._callers = collections.defaultdict(list)
            for f in self.funcs.values():
                for I in f.calls():
                    c = I.callee()
                    if c: self._callers[c].append(I)
        return self._callers[key]
    def can_reach(self, targets, indirect=False):
        """set of functions from which a target function can be reached (targets included)"""
        g, ind = self.callgraph()
        rev = collections.defaultdict(set)
        for k in g:
            for y in g[k]: rev[y].add(k)
            if indirect:
                for y in ind[k]: rev[y].add(k)
        seen = set(targets); st = list(seen)
        while st:
            x = st.pop()
            for y in rev[x]:
                if y not in seen: seen.add(y); st.append(y)
        return seen

def threaded(f):
    """the function with short-circuit conditions undone: a block that only branches on a joined truth value is replaced by the branches that were joined"""
    if hasattr(f, "_threaded"): return f._threaded
    import copy
    g = copy.copy(f)
    for k in ("_rpo", "_dom", "_ctrl", "_users"): g.__dict__.pop(k, None)
    g.blocks = [list(b) for b in f.blocks]; g.succ = [list(s) for s in f.succ]
    def preds(x): return [(p, k) for p, s in enumerate(g.succ) for k, t in enumerate(s) if t == x]
    uses = collections.Counter(v for I in f.instrs() for v in I.a if isinstance(v, str))
    ch = True
    while ch:
        ch = False
        for X in range(1, len(g.blocks)):
            B = g.blocks[X]
            if not B or B[-1].o != "br" or len(g.succ[X]) != 2 or not B[-1].a: continue
            body = B[:-1]
            if not body or any(I.o not in ("phi", "xor", "zext", "trunc", "icmp") for I in body): continue
            P = [I for I in body if I.o == "phi"]; rest = [I for I in body if I.o != "phi"]
            if len(P) != 1 or any(uses["%%%d" % I.i] != 1 for I in body): continue
            if any(not any(a == "%%%d" % J.i for J in body) or I.o == "icmp" and not (I.p in ("eq", "ne") and I.a[1] in (0, False)) or I.o == "xor" and I.a[1] not in (1, True, -1) for I in rest for a in I.a[:1]): continue
            neg = sum(1 for I in rest if I.o == "xor" or I.o == "icmp" and I.p == "eq") % 2
            pr = preds(X)
            if not pr or any(g.blocks[p][-1].o != "br" or p == X for p, k in pr): continue
            if any(t == X for t in g.succ[X]): continue
            phi = P[0]; S = g.succ[X] if not neg else g.succ[X][::-1]
            todo = []
            for p, k in pr:
                v = [a for a, b in zip(phi.a, phi.b) if b == p]
                if len(v) != 1: todo = None; break
                v = v[0]
                if isinstance(v, str):
                    if len(g.succ[p]) != 1: todo = None; break
                elif v not in (0, 1, True, False): todo = None; break
                todo.append((p, k, v))
            if not todo: continue
            def addphi(t, p):
                L = g.blocks[t]
                for i, J in enumerate(L):
                    if J.o != "phi": break
                    if p in J.b: continue
                    J = copy.copy(J); J.a = list(J.a); J.b = list(J.b)
                    if X in J.b: J.a.append(J.a[J.b.index(X)]); J.b.append(p); L[i] = J
            if any(any(J.o == "phi" and p in J.b for J in g.blocks[t]) for t in S for p, k, v in todo): continue      # the predecessor already reaches it another way
            for p, k, v in todo:
                if isinstance(v, str):
                    T = copy.copy(B[-1]); T.bb = p; T.a = [v]; T.b = list(S); g.blocks[p][-1] = T; g.succ[p] = list(S)
                    for t in S: addphi(t, p)
                else:
                    t = S[0] if v in (1, True) else S[1]
                    g.succ[p][k] = t; addphi(t, p)
            ch = True
    g.pred = [[] for _ in g.blocks]
    for i, s in enumerate(g.succ):
        for t in s: g.pred[t].append(i)
    f._threaded = g
    return g

def find_path(fn, start_bb, start_pos, goal, blocked, edge_ok=None):
    """Shortest instruction path from (start_bb,start_pos) to an instruction with goal(I), never executing blocked(I) and
    only taking edges with edge_ok(term, succ_index). Returns list of branch locations or None."""
    seen = {(start_bb, start_pos > 0)}
    q = collections.deque([(start_bb, start_pos, ())])
    while q:
        b, p, trail = q.popleft()
        stop = False
        for I in fn.blocks[b][p:]:
            if goal(I): return list(trail) + [I.loc]
            if blocked(I): stop = True; break
        if stop: continue
        T = fn.blocks[b][-1]
        for k, s in enumerate(fn.succ[b]):
            if edge_ok and not edge_ok(T, k): continue
            if (s, False) in seen: continue
            seen.add((s, False))
            q.append((s, 0, trail + ((T.loc,) if len(fn.succ[b]) > 1 else ())))
    return None

def forward(fn, init, transfer, join, edge=None):
    """Generic forward dataflow. transfer(I, state)->state; edge(T, k, state)->state or None (edge infeasible). Returns in-states per block."""
    ins = {0: init}
    order = {b: i for i, b in enumerate(fn.rpo())}
    import heapq
    wl = [(0, 0)]; inq = {0}
    n = 0
    while wl:
        _, b = heapq.heappop(wl); inq.discard(b)
        n += 1
        if n > 200000: raise RuntimeError("dataflow did not converge in " + fn.name)
        s = ins[b]
        for I in fn.blocks[b]:
            s = transfer(I, s)
            if s is None: break
        if s is None: continue
        T = fn.blocks[b][-1]
        for k, t in enumerate(fn.succ[b]):
            e = edge(T, k, s) if edge else s
            if e is None: continue
            new = e if t not in ins else join(ins[t], e)
            if t not in ins or new != ins[t]:
                ins[t] = new
                if t not in inq: inq.add(t); heapq.heappush(wl, (order.get(t, 1 << 30), t))
    return ins

def controlled(fn, bb):
    """edges (block, k) every path from the entry to block bb takes"""
    if not hasattr(fn, "_ctrl"): fn._ctrl = {}
    if bb in fn._ctrl: return fn._ctrl[bb]
    out = []
    def reaches(skip):
        seen = {0}; st = [0]
        while st:
            b = st.pop()
            if b == bb: return True
            for k, t in enumerate(fn.succ[b]):
                if (b, k) != skip and t not in seen: seen.add(t); st.append(t)
        return bb in seen
    if not reaches(None): fn._ctrl[bb] = None; return None
    idom = fn.dominators(); x = bb; doms = []
    while x in idom and idom[x] != x: x = idom[x]; doms.append(x)
    for b in doms:
        if len(fn.succ[b]) > 1:
            for k in range(len(fn.succ[b])):
                if not reaches((b, k)): out.append((b, k))
    fn._ctrl[bb] = out
    return out

BASE_NR = {"exit", "_exit", "_Exit", "abort", "quick_exit", "longjmp", "_longjmp", "siglongjmp", "__longjmp_chk", "__assert_fail", "_Unwind_Resume", "__cxa_throw", "__cxa_rethrow",
           "std::terminate", "__clang_call_terminate", "__cxa_bad_cast", "std::__throw_bad_alloc"}

def nonreturning(m):
    """greatest set of functions no path of which returns: every path ends in one of their own kind, or in the process or a jump leaving the frame"""
    if hasattr(m, "_nr"): return m._nr
    nr = set(m.funcs)
    base = {k for k, d in m.decls.items() if m.pretty(k) in BASE_NR or m.pretty(k).split("(")[0] in BASE_NR}
    def stops(I): return I.o in ("call", "invoke") and (I.callee() in nr or I.callee() in base or I.callee() in BASE_NR)
    def returns(f):
        seen, st = {0}, [0]
        while st:
            b = st.pop(); done = False; prev = None
            for I in f.blocks[b]:
                if stops(I): done = True; break
                if I.o == "ret": return I
                if I.o == "unreachable": return prev or I
                prev = I
            if done: continue
            for t in f.succ[b]:
                if t not in seen: seen.add(t); st.append(t)
        return None
    ch = True
    while ch:
        ch = False
        for k in list(nr):
            f = m.funcs[k]
            if not f.blocks or returns(f) is not None: nr.discard(k); ch = True
    m._nr = nr; m._nrbase = base
    return nr
