"""P11: the reader never reads past the end of its input.

Abstract interpretation of every function that handles the text being read.  A pointer into the text is (symbol, offset);
per symbol the state knows how many characters from it are certainly not the terminator (nz).  Facts come from branches on
the characters read.  Dereferencing a pointer, making it the reader's position, handing it to another function or returning
it needs offset <= nz, i.e. no terminator lies before it.  Counters and lengths measured against a text pointer are
pointers too (base + counter).  Functions are analysed with position 'anywhere up to the terminator'; what a helper needs
beyond that is checked at its call sites."""
import collections
from check_api import Finding, Broken

KDIST, MAXSTATES, PRECAP = 6, 300, 4
NONZERO_CLASS = {"isspace", "isdigit", "isalpha", "isalnum", "isprint", "ispunct", "isupper", "islower", "isxdigit", "isgraph", "isblank"}
CSTR_OK = {"strlen", "strcmp", "strncmp", "strchr", "strrchr", "strstr", "strspn", "strcspn", "strpbrk", "strdup", "strndup", "strcasecmp", "strncasecmp", "strtol", "strtod", "strtoll",
           "printf", "fprintf", "snprintf", "sprintf", "fputs", "puts", "atoi", "atof", "strnlen", "strcpy", "strncpy"}
SIZED = {"memcpy": (1, 2), "memmove": (1, 2), "fwrite": (0, 2), "memchr": (0, 2), "memcmp": (0, 2), "llvm.memcpy.p0.p0.i64": (1, 2), "llvm.memmove.p0.p0.i64": (1, 2)}
CASTS = {"sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze"}
INF = 1 << 62

def text_fields(m):
    """fields that hold a place in the text: those the reader's entry points put their text into, and those such a place is copied to"""
    fields = set()
    for n in ("parse_string", "parse", "parse_file"):
        f = m.fn(n)
        if not f: continue
        for I in f.instrs():
            if I.o != "store": continue
            a = f.addr(I.a[1])
            if not a[-1:] or "." not in a[-1]: continue
            v = f.d(I.a[0])
            if I.a[0] == "$0" and n != "parse_file": fields.add(a[-1])
            elif n == "parse_file" and v is not None and v.o == "call" and v.t == "ptr": fields.add(a[-1])
    fields = {x for x in fields if field_is_text(m, x)}
    ch = True
    while ch:
        ch = False
        for f in m.funcs.values():
            for I in f.instrs():
                if I.o != "store": continue
                a = f.addr(I.a[1])
                if "." not in a[-1] or a[-1] in fields or not field_is_text(m, a[-1]): continue
                v = f.d(I.a[0])
                if v is not None and v.o == "load" and f.addr(v.a[0])[-1] in fields: fields.add(a[-1]); ch = True
    return fields

def field_is_text(m, x):
    S, n = x.split(".", 1)
    fd = m.field(S, n)
    return bool(fd) and "char" in str(fd.get("type", "")) and "*" in str(fd.get("type", ""))

class State:
    __slots__ = ("ptr", "cell", "nz", "end", "iv")
    def __init__(self): self.ptr = {}; self.cell = {}; self.nz = {}; self.end = {}; self.iv = {}
    def copy(self):
        s = State(); s.ptr = dict(self.ptr); s.cell = dict(self.cell); s.nz = dict(self.nz); s.end = dict(self.end); s.iv = dict(self.iv); return s
    def fresh(self, nz=0, end=None):
        k = max(self.nz, default=-1) + 1
        self.nz[k] = nz
        if end is not None: self.end[k] = end
        return k
    def know(self, sym, n):
        """the first n characters from sym are not the terminator; False if that is impossible"""
        if self.nz[sym] < n: self.nz[sym] = n
        return not (sym in self.end and self.end[sym] < self.nz[sym])
    def ends(self, sym, n):
        """the terminator is at offset n from sym"""
        if n < self.nz[sym]: return False
        if sym in self.end and self.end[sym] != n: return self.end[sym] > n if False else False
        self.end[sym] = n; self.nz[sym] = max(self.nz[sym], n)
        return True
    def canon(self, live, loop):
        """drop what is dead, split symbols whose pointers lie far apart (loop heads), rename"""
        p = {k: v for k, v in self.ptr.items() if (k[1] in live if isinstance(k, tuple) else k in live)}
        out = State()
        byc = collections.defaultdict(list)
        for k, v in sorted(p.items(), key=lambda x: str(x[0])): byc[v[0]].append((v[1], 0, k))
        for k, v in sorted(self.cell.items()): byc[v[0]].append((v[1], 1, k))
        order = sorted(byc, key=lambda s: min((c, str(k)) for _, c, k in byc[s]))
        for s in order:
            L = sorted(byc[s], key=lambda x: (x[0], x[1], str(x[2])))
            groups = [[L[0]]]
            for x in L[1:]:
                if loop and x[0] - groups[-1][0][0] > KDIST: groups.append([x])
                else: groups[-1].append(x)
            for g in groups:
                base = g[0][0]
                nz = self.nz[s] - base
                end = self.end.get(s)
                if loop: nz = min(nz, (g[-1][0] - base) + KDIST)
                n = out.fresh(nz, end - base if end is not None and (not loop or end - base <= nz) else None)
                for off, c, k in g: (out.cell if c else out.ptr)[k] = (n, off - base)
        out.iv = {k: v for k, v in self.iv.items() if k in live and v != (-INF, INF)}
        return out
    def key(self):
        return (frozenset(self.ptr.items()), frozenset(self.cell.items()), tuple(sorted(self.nz.items())), tuple(sorted(self.end.items())), frozenset(self.iv.items()))

class FnAnalysis:
    def __init__(self, A, f):
        self.A, self.f, self.m = A, f, A.m
        self.findings = {}; self.need = {}; self.obl = set()
        self.dest = {}
        self._live(); self._loops(); self._pseudo(); self._thresholds()
        self.textret = False
    # ---- structure
    def _ops(self, I):
        L = [x for x in I.a if isinstance(x, str) and x[0] in "%$"]
        for e in I.path or []:
            if isinstance(e, list) and isinstance(e[0], str): L.append(e[0])
        if isinstance(I.f, str) and I.f[0] in "%$": L.append(I.f)
        return L
    def _live(self):
        f = self.f; n = len(f.blocks)
        use = [set() for _ in range(n)]; deff = [set() for _ in range(n)]; phiuse = [set() for _ in range(n)]
        for b, B in enumerate(f.blocks):
            for I in B:
                if I.o == "dbg": continue
                if I.o == "phi":
                    for v, p in zip(I.a, I.b):
                        if isinstance(v, str): phiuse[p].add(v)
                else:
                    for x in self._ops(I):
                        if x not in deff[b]: use[b].add(x)
                deff[b].add("%%%d" % I.i)
        self.livein = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set(phiuse[b])
                for s in f.succ[b]: o |= self.livein[s]
                i = use[b] | (o - deff[b])
                if i != self.livein[b]: self.livein[b] = i; ch = True
        # values the facts are about stay interesting as long as what is computed from them is live
        self.phidef = [{"%%%d" % I.i for I in B if I.o == "phi"} for B in f.blocks]
        dep = {}
        def root(v):
            r, st, seen = set(), [v], set()
            while st:
                x = st.pop()
                if x in seen: continue
                seen.add(x); I = f.d(x)
                if I is not None and I.o in CASTS | {"icmp", "xor", "call", "and", "or", "gep", "getelementptr", "add", "sub"}:
                    for y in self._ops(I): r.add(y); st.append(y)
            return r
        for b in range(n):
            extra = set()
            for v in self.livein[b]: extra |= dep.setdefault(v, root(v))
            self.livein[b] = self.livein[b] | extra
    def _loops(self):
        f = self.f; self.loophead = set(); idx = {b: i for i, b in enumerate(f.rpo())}
        for b in idx:
            for s in f.succ[b]:
                if s in idx and idx[s] <= idx[b]: self.loophead.add(s)
    def base(self, v):
        """look through casts"""
        while True:
            I = self.f.d(v)
            if I is not None and I.o in CASTS: v = I.a[0]
            else: return v
    def _pseudo(self):
        """integers that are measured against a pointer: (base pointer, integer) pairs"""
        f = self.f; self.pairs = collections.defaultdict(set)
        seeds = []
        for I in f.instrs():
            if I.o in ("gep", "getelementptr") and I.path and len(I.path) == 1 and isinstance(I.path[0], list) and isinstance(I.path[0][0], str): seeds.append((self.base(I.a[0]), I.path[0][0]))
            elif I.o in ("call", "invoke") and I.cname() in SIZED:
                p, n = SIZED[I.cname()]
                if len(I.a) > n and isinstance(I.a[n], str): seeds.append((self.base(I.a[p]), I.a[n]))
                if I.cname() == "fwrite" and len(I.a) > 2 and isinstance(I.a[1], str): seeds.append((self.base(I.a[p]), I.a[1]))
        cmps = [I for I in f.instrs() if I.o == "icmp"]
        for b, v in seeds:
            st = [v]
            while st:
                x = self.base(st.pop())
                if not isinstance(x, str) or x[0] != "%" or x in self.pairs[b]: continue
                self.pairs[b].add(x); I = f.d(x)
                if I.o == "phi": st += [y for y in I.a if isinstance(y, str)]
                elif I.o in ("add", "sub"): st += [y for y in I.a[:1] if isinstance(y, str)]
                for c in cmps:
                    A = [self.base(y) for y in c.a]
                    if x in A: st += [y for y in A if isinstance(y, str) and y != x]
                for U in f.users(x):
                    if U.o == "phi" : st.append("%%%d" % U.i)
                    if U.o in CASTS: 
                        for W in f.users("%%%d" % U.i):
                            if W.o == "phi": st.append("%%%d" % W.i)
        for I in f.instrs():
            if I.o == "sub" and isinstance(I.a[1], str):
                b = self.base(I.a[1])
                x, y = f.d(I.a[0]), f.d(I.a[1])
                if x is not None and y is not None and x.o == "ptrtoint" and y.o == "ptrtoint": self.pairs[b].add("%%%d" % I.i)
        self.ofvar = collections.defaultdict(set)
        for b, S in self.pairs.items():
            for x in S: self.ofvar[x].add(b)
    def _thresholds(self):
        t = {0, 1}
        for I in self.f.instrs():
            for v in (I.a if I.o in ("icmp", "phi") else []):
                if isinstance(v, int): t |= {v - 1, v, v + 1}
            for c in I.cases or []:
                if isinstance(c, int): t |= {c - 1, c, c + 1}
        self.thr = sorted(t)
    def widen(self, iv):
        lo, hi = iv
        l = max([x for x in self.thr if x <= lo], default=-INF); h = min([x for x in self.thr if x >= hi], default=INF)
        return (l, h)
    # ---- values
    def const(self, v):
        if isinstance(v, int): return v
        if isinstance(v, dict) and isinstance(v.get("c"), int): return v["c"]
        if isinstance(v, bool): return int(v)
        return None
    def iv(self, s, v):
        c = self.const(v)
        if c is not None: return (c, c)
        return s.iv.get(v, (-INF, INF)) if isinstance(v, str) else (-INF, INF)
    def ptr(self, s, v, base=None):
        """(symbol, offset) of a text pointer, or of base + integer"""
        if base is not None:
            c = self.const(v)
            bp = s.ptr.get(base)
            if c is not None: return (bp[0], bp[1] + c) if bp else None
            x = self.base(v)
            return s.ptr.get((base, x))
        if not isinstance(v, str): return None
        return s.ptr.get(v)
    def cellkey(self, addr):
        if addr[-1] in self.A.fields: return "|".join(addr)
        return None
    def oblige(self, s, I, p, need, what, ent=None):
        """offset p[1]+need <= nz"""
        self.obl.add((I.i, what))
        d = p[1] + need - s.nz[p[0]]
        if d <= 0: return True
        self.fail(s, I, p, p[1] + need, what)
        return False
    def fail(self, s, I, p, k, what):
        e = s.iv.get(("entry", p[0]))
        self.findings.setdefault((I.loc, what), Finding("past-end", self.f.name, what + (": nothing on this path shows that the text has not ended before it"), I.loc, []))
    # ---- transfer
    def run(self, entrynz):
        f = self.f
        s = State()
        for i, t in enumerate(f.sig[1:1 + f.nargs]):
            if (f.key, i) in self.A.textparams:
                s.ptr["$%d" % i] = (s.fresh(self.A.pre.get((f.key, i), 0)), 0)
        self.instates = [dict() for _ in f.blocks]
        work = collections.deque()
        def push(b, st, prev):
            # a condition computed on the way here and merged with others: follow both outcomes
            for I in f.blocks[b]:
                if I.o != "phi": break
                if I.t != "i1": continue
                v = next((x for x, p in zip(I.a, I.b) if p == prev), None)
                if isinstance(v, str) and st.iv.get(v) not in ((0, 0), (1, 1)) and f.d(v) is not None and f.d(v).o == "icmp":
                    for val in (True, False):
                        n = st.copy()
                        if self.assume(n, v, val): push(b, n, prev)
                    return
            st = self.phis(st, b, prev)
            if st is None: return
            live = self.livein[b] | self.phidef[b]
            st = st.canon(live, b in self.loophead)
            if b in self.loophead: st.iv = {k: w for k, w in ((k, self.widen(v)) for k, v in st.iv.items()) if w != (-INF, INF)}
            D = self.instates[b]
            k = st.key()
            if k in D: return
            if len(D) >= MAXSTATES:
                self.widened = True
                st = self.weaken(st)
                k = st.key()
                if k in D: return
                if len(D) >= 4 * MAXSTATES: raise Broken("too many reader states in %s" % f.name)
            D[k] = st
            work.append((b, st))
        self.push = push
        live = self.livein[0]
        s = s.canon(live | {"$%d" % i for i in range(f.nargs)}, False)
        self.instates[0][s.key()] = s
        work.append((0, s)); n = 0
        while work:
            b, st = work.popleft() if len(work) < 50 else work.pop()
            n += 1
            if n > 60000: raise Broken("reader analysis of %s does not finish" % f.name)
            self.block(b, st.copy())
        self.nstates = n
        return self
    def weaken(self, st):
        o = State()
        for k, (y, off) in st.ptr.items(): o.ptr[k] = (o.fresh(max(min(st.nz[y] - off, 1), -1)), 0)
        for k, (y, off) in st.cell.items(): o.cell[k] = (o.fresh(max(min(st.nz[y] - off, 1), -1)), 0)
        o.iv = {k: v for k, v in st.iv.items() if isinstance(k, str) and self.f.d(k) is not None and self.f.d(k).t == "i1"}
        return o
    def phis(self, s, b, prev):
        f = self.f; new, niv = {}, {}
        P = [I for I in f.blocks[b] if I.o == "phi"]
        if not P: return s
        s = s.copy()
        for I in P:
            v = None
            for x, p in zip(I.a, I.b):
                if p == prev: v = x
            d = "%%%d" % I.i
            niv[d] = self.iv(s, v if not isinstance(v, str) or v in s.iv else v)
            q = self.ptr(s, v)
            new[d] = q
            for base in self.ofvar.get(d, ()): new[(base, d)] = self.ptr(s, v, base)
        for k, q in new.items():
            if q is None: s.ptr.pop(k, None)
            else: s.ptr[k] = q
        for d, v in niv.items():
            if v == (-INF, INF): s.iv.pop(d, None)
            else: s.iv[d] = v
        return s
    def setptr(self, s, d, q):
        if q is None: s.ptr.pop(d, None)
        else: s.ptr[d] = q
        for base in self.pairs_of_base(d):
            for x in self.pairs[base]: s.ptr.pop((base, x), None)
    def pairs_of_base(self, d): return [d] if d in self.pairs else []
    def block(self, b, s):
        f = self.f
        for I in f.blocks[b]:
            d = "%%%d" % I.i
            if I.o in ("phi", "dbg"): continue
            if I.o in ("br", "switch", "ret", "unreachable", "invoke"):
                if I.o == "ret": self.ret(s, I)
                else: self.branch(b, s, I)
                return
            if I.o in ("call",):
                if not self.call(s, I, d): return
                continue
            if I.o in CASTS:
                self.setptr(s, d, self.ptr(s, I.a[0]))
                v = self.iv(s, I.a[0])
                if v != (-INF, INF): s.iv[d] = v
                else: s.iv.pop(d, None)
                continue
            if I.o in ("gep", "getelementptr"):
                q = None
                b0 = self.base(I.a[0])
                if not I.path: q = self.ptr(s, I.a[0])
                if I.path and len(I.path) == 1 and isinstance(I.path[0], list):
                    ix = I.path[0][0]
                    if isinstance(ix, int):
                        p = self.ptr(s, I.a[0])
                        if p: q = (p[0], p[1] + ix)
                    else:
                        p = self.ptr(s, I.a[0])
                        if p:
                            q = self.ptr(s, ix, b0)
                            L = f.d(self.base(ix))
                            if q is None and L is not None and L.o == "call" and L.cname() == "strlen":
                                r = self.ptr(s, L.a[0])
                                if r and r == p: q = (s.fresh(0, 0), 0)
                            if q is None: q = (s.fresh(-INF), 0)
                self.setptr(s, d, q)
                s.iv.pop(d, None)
                continue
            if I.o == "load":
                a = f.addr(I.a[0])
                p = self.ptr(s, I.a[0])
                s.iv.pop(d, None)
                if p is not None and I.t == "i8":
                    self.oblige(s, I, p, 0, "reads a character of the text")
                    s.ptr[d] = p
                    if s.nz[p[0]] < p[1]: s.nz[p[0]] = p[1]
                    continue
                ck = self.cellkey(a)
                if ck:
                    if ck not in s.cell: s.cell[ck] = (s.fresh(self.A.cellpre(self.f, a)), 0)
                    self.setptr(s, d, s.cell[ck]); continue
                self.setptr(s, d, None)
                continue
            if I.o == "store":
                a = f.addr(I.a[1])
                p = self.ptr(s, I.a[0])
                ck = self.cellkey(a)
                if ck:
                    for k in [k for k in s.cell if k.split("|")[-1] == a[-1]]: s.cell.pop(k)
                    if p is None:
                        self.A.roots.append((f, I)); p = (s.fresh(0), 0)
                    else:
                        self.oblige(s, I, p, 0, "moves the reader to a place")
                        if s.nz[p[0]] < p[1]: s.nz[p[0]] = p[1]
                    s.cell[ck] = p
                continue
            if I.o in ("add", "sub"):
                x, c = I.a[0], self.const(I.a[1])
                if I.o == "add" and c is None and self.const(x) is not None: x, c = I.a[1], self.const(x)
                s.iv.pop(d, None)
                for base in self.ofvar.get(d, ()):
                    q = None
                    if c is not None:
                        p = self.ptr(s, x, base)
                        if p: q = (p[0], p[1] + (c if I.o == "add" else -c))
                    elif I.o == "sub" and self.base(I.a[1]) == base: q = s.ptr.get(self.base(I.a[0]))
                    elif I.o == "sub":
                        # distance from another pointer to the same place
                        q1, q0 = s.ptr.get(self.base(I.a[0])), s.ptr.get(self.base(I.a[1])); pb = s.ptr.get(base)
                        if q1 and q0 and pb and q0 == pb: q = q1
                    if q is None: s.ptr.pop((base, d), None)
                    else: s.ptr[(base, d)] = q
                if c is not None:
                    lo, hi = self.iv(s, x); c = c if I.o == "add" else -c
                    if (lo, hi) != (-INF, INF): s.iv[d] = (lo + c if lo > -INF else lo, hi + c if hi < INF else hi)
                s.ptr.pop(d, None)
                continue
            if I.o == "icmp":
                r = self.evalcmp(s, I)
                if r is None: s.iv.pop(d, None)
                else: s.iv[d] = (r, r)
                continue
            if I.o == "xor" and self.const(I.a[1]) is not None:
                v = self.iv(s, I.a[0])
                if v in ((0, 0), (1, 1)) and self.const(I.a[1]) & 1: s.iv[d] = (1 - v[0],) * 2
                else: s.iv.pop(d, None)
                continue
            self.setptr(s, d, None); s.iv.pop(d, None)
            for base in self.ofvar.get(d, ()): s.ptr.pop((base, d), None)
    def evalcmp(self, s, I):
        lo, hi = self.iv(s, I.a[0]); l2, h2 = self.iv(s, I.a[1])
        p = I.p
        if (lo, hi) != (-INF, INF) and (l2, h2) != (-INF, INF):
            if p == "eq": return 1 if lo == hi == l2 == h2 else 0 if hi < l2 or h2 < lo else None
            if p == "ne": return 0 if lo == hi == l2 == h2 else 1 if hi < l2 or h2 < lo else None
            if p in ("slt", "ult"): return 1 if hi < l2 else 0 if lo >= h2 else None
            if p in ("sle", "ule"): return 1 if hi <= l2 else 0 if lo > h2 else None
            if p in ("sgt", "ugt"): return 1 if lo > h2 else 0 if hi <= l2 else None
            if p in ("sge", "uge"): return 1 if lo >= h2 else 0 if hi < l2 else None
        return None
    # ---- facts from a condition; returns False when impossible
    def assume(self, s, c, val, depth=0):
        if depth > 8: return True
        k = self.const(c)
        if k is not None: return (k & 1 != 0) == val
        if not isinstance(c, str): return True
        cur = s.iv.get(c)
        if cur and cur[0] == cur[1] and (cur[0] != 0) != val: return False
        s.iv[c] = (1, 1) if val else (0, 0)
        I = self.f.d(c)
        if I is None: return True
        if I.o == "xor" and self.const(I.a[1]) is not None and self.const(I.a[1]) & 1: return self.assume(s, I.a[0], not val, depth + 1)
        if I.o in ("freeze",) or (I.o in ("trunc", "zext") ): return self.assume(s, I.a[0], val, depth + 1)
        if I.o == "and" and val or I.o == "or" and not val: return self.assume(s, I.a[0], val, depth + 1) and self.assume(s, I.a[1], val, depth + 1)
        if I.o == "call": return self.nonzero(s, c, val)
        if I.o != "icmp": return True
        p = I.p
        if not val: p = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}[p]
        a, b = I.a
        if self.const(a) is not None or a is None:
            a, b = b, a; p = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(p, p)
        kb = self.const(b)
        if b is None: kb = 0
        if kb is not None:
            if not self.bound(s, a, p, kb): return False
            if not self.compare_pseudo_const(s, a, p, kb): return False
            return True
        return self.compare(s, a, p, b)
    def bound(self, s, a, p, k):
        v = a; chain = [a]
        while True:
            J = self.f.d(v)
            if J is not None and J.o in ("sext", "zext", "trunc"): v = J.a[0]; chain.append(v)
            else: break
        for x in chain:
            lo, hi = self.iv(s, x)
            if p == "eq": lo, hi = max(lo, k), min(hi, k)
            elif p in ("slt",): hi = min(hi, k - 1)
            elif p in ("sle",): hi = min(hi, k)
            elif p in ("sgt", "ugt"): lo = max(lo, k + 1)
            elif p in ("sge", "uge"): lo = max(lo, k)
            elif p == "ult" : lo, hi = max(lo, 0), min(hi, k - 1)
            elif p == "ule" : lo, hi = max(lo, 0), min(hi, k)
            elif p == "ne":
                if lo == k: lo += 1
                if hi == k: hi -= 1
            if lo > hi: return False
            if (lo, hi) != (-INF, INF): s.iv[x] = (lo, hi)
        # what the value being non-zero or zero says about the text
        lo, hi = self.iv(s, v)
        if p == "eq" and k == 0: r = False
        elif p == "ne" and k == 0 or p == "eq": r = True
        elif p in ("sgt", "ugt") and k >= 0 or p in ("sge", "uge") and k > 0 or p in ("slt",) and k <= 0 or p == "sle" and k < 0: r = True
        elif p in ("ult",) and k == 1 or p == "ule" and k == 0: r = False
        elif lo > 0 or hi < 0: r = True
        else: return True
        return self.nonzero(s, v, r, k if p == "eq" else None)
    def nonzero(self, s, v, val, k=None, depth=0):
        """value v is (not) zero"""
        I = self.f.d(v)
        if I is None: return True
        if I.o in ("sext", "zext", "trunc", "freeze"): return self.nonzero(s, I.a[0], val, k, depth + 1)
        if I.o == "icmp": return self.assume(s, v, val, depth + 1)
        q = s.ptr.get(v)
        if q is not None and (I.o == "load" or I.o == "phi" ) and I.t == "i8":
            if val: return s.know(q[0], q[1] + 1) if s.nz[q[0]] >= q[1] else True
            return s.ends(q[0], q[1]) if s.nz[q[0]] >= q[1] else True
        if I.o == "phi" and I.t == "i1": return self.assume(s, v, val, depth + 1)
        if I.o == "call":
            n = I.cname()
            if n in NONZERO_CLASS and val and k is None or n in NONZERO_CLASS and k not in (None, 0): return self.nonzero(s, self.base(I.a[0]), True, None, depth + 1)
            if n in ("strncmp", "memcmp") and not val and len(I.a) == 3:
                L = self.const(I.a[2]); 
                for x, y in ((0, 1), (1, 0)):
                    t = I.a[y]; q = self.ptr(s, I.a[x])
                    if isinstance(t, dict) and "s" in t and q and L is not None:
                        return s.know(q[0], q[1] + min(L, len(t["s"].encode("utf-8", "surrogateescape").split(b"\0")[0])))
            if n == "strcmp" and not val:
                for x, y in ((0, 1), (1, 0)):
                    t = I.a[y]; q = self.ptr(s, I.a[x])
                    if isinstance(t, dict) and "s" in t and q:
                        return s.know(q[0], q[1] + len(t["s"])) and s.ends(q[0], q[1] + len(t["s"]))
        return True
    def compare_pseudo_const(self, s, a, p, k):
        x = self.base(a); ok = True
        for base in list(self.ofvar.get(x, ())):
            q = s.ptr.get((base, x)); bp = s.ptr.get(base)
            if q and bp: ok = ok and self.order(s, q, p, (bp[0], bp[1] + k))
        return ok
    def compare(self, s, a, p, b):
        qa, qb = self.ptr(s, a), self.ptr(s, b)
        if qa and qb and self.f.d(a) is not None and not (self.f.d(a).t == "i8"): return self.order(s, qa, p, qb)
        x, y = self.base(a), self.base(b); ok = True
        for base in list(self.ofvar.get(x, set()) & self.ofvar.get(y, set())):
            q, r = s.ptr.get((base, x)), s.ptr.get((base, y))
            if q and r: ok = ok and self.order(s, q, p, r)
        return ok
    def order(self, s, a, p, b):
        """places a and b of the same text are in relation p"""
        p = {"ult": "slt", "ule": "sle", "ugt": "sgt", "uge": "sge"}.get(p, p)
        if a[0] == b[0]:
            d = a[1] - b[1]
            r = {"eq": d == 0, "ne": d != 0, "slt": d < 0, "sle": d <= 0, "sgt": d > 0, "sge": d >= 0}[p]
            if not r: return False
        va, vb = a[1] <= s.nz[a[0]], b[1] <= s.nz[b[0]]
        if p == "slt" and vb: return s.know(a[0], a[1] + 1)
        if p == "sle" and vb: return s.know(a[0], a[1])
        if p == "sgt" and va: return s.know(b[0], b[1] + 1)
        if p == "sge" and va: return s.know(b[0], b[1])
        if p == "eq":
            na, nb = s.nz[a[0]] - a[1], s.nz[b[0]] - b[1]
            n = max(na, nb)
            if n >= 0: return s.know(a[0], a[1] + n) and s.know(b[0], b[1] + n)
        return True
    def branch(self, b, s, I):
        f = self.f
        if I.o == "unreachable": return
        if I.o == "invoke":
            d = "%%%d" % I.i
            if self.call(s, I, d): self.push(f.succ[b][0], s, b)
            return
        S = f.succ[b]
        if I.o == "br":
            if len(S) == 1: self.push(S[0], s, b); return
            for t, val in ((S[0], True), (S[1], False)):
                n = s.copy()
                if self.assume(n, I.a[0], val): self.push(t, n, b)
            return
        cases = list(zip(I.cases or [], S[1:]))
        for c, t in cases:
            n = s.copy()
            if self.bound(n, I.a[0], "eq", c) and self.compare_pseudo_const(n, I.a[0], "eq", c): self.push(t, n, b)
        n = s.copy(); ok = True
        for c, _ in cases: ok = ok and self.bound(n, I.a[0], "ne", c)
        if ok: self.push(S[0], n, b)
    def ret(self, s, I):
        if I.a and isinstance(I.a[0], str):
            q = s.ptr.get(I.a[0])
            d = self.f.d(I.a[0])
            if q is not None and self.f.rt == "ptr" and "char" in str(self.f.sig[0]):
                self.oblige(s, I, q, 0, "returns a place in the text")
                self.A.retptr.add(self.f.key)
        for k, q in s.cell.items(): pass
    def call(self, s, I, d):
        n = I.cname(); key = I.callee()
        g = self.m.funcs.get(key) if key else None
        for base in self.ofvar.get(d, ()): s.ptr.pop((base, d), None)
        s.iv.pop(d, None); s.ptr.pop(d, None)
        if I.nr or (key and key in self.A.nonret): 
            if g is not None: self.args(s, I, g)
            return False
        if g is not None:
            self.args(s, I, g)
            st = self.A.stores.get(key, ())
            for k in [k for k in s.cell if k.split("|")[-1] in st]: s.cell.pop(k)
            if key in self.A.retptr or (self.A.returns_text(g, I, s)): s.ptr[d] = (s.fresh(0), 0)
            return True
        if key is None:
            s.cell.clear(); return True
        if n in SIZED:
            pi, ni = SIZED[n]
            q = self.ptr(s, I.a[pi]) if len(I.a) > ni else None
            if q:
                b0 = self.base(I.a[pi]); e = self.ptr(s, I.a[ni], b0)
                if n == "fwrite":
                    if self.const(I.a[1]) != 1: e = self.ptr(s, I.a[1], b0) if self.const(I.a[2]) == 1 else None
                if e is None: self.obl.add((I.i, "copy")); self.findings.setdefault((I.loc, "copy"), Finding("past-end", self.f.name, "copies a stretch of the text whose length is not measured against the text", I.loc, []))
                else: self.oblige(s, I, e, 0, "copies a stretch of the text reaching to a place")
            return True
        for i, x in enumerate(I.a):
            q = self.ptr(s, x)
            if q and self.f.d(x) is not None and self.f.d(x).t in ("ptr",) or q and isinstance(x, str) and x[0] == "$":
                if q: self.oblige(s, I, q, 0, "hands a place in the text to %s" % n)
        if n in ("strchr", "strrchr", "strstr", "strpbrk") and self.ptr(s, I.a[0]): s.ptr[d] = (s.fresh(0), 0)
        return True
    def args(self, s, I, g):
        for i, x in enumerate(I.a):
            q = self.ptr(s, x)
            J = self.f.d(x)
            if q is None or (J is not None and J.t != "ptr"): continue
            if i < g.nargs and "char" in str(g.sig[1 + i]) and "*" in str(g.sig[1 + i]):
                if (g.key, i) not in self.A.textparams: self.A.textparams.add((g.key, i)); self.A.dirty.add(g.key)
                self.oblige(s, I, q, self.A.pre.get((g.key, i), 0), "hands a place in the text to %s" % g.name)
        # what the callee needs of the reader's position
        for (k, fld), need in self.A.cpre.items():
            if k != g.key: continue
            for ck, q in s.cell.items():
                if ck.split("|")[-1] == fld: self.oblige(s, I, q, need, "calls %s, which moves the reader by %d" % (g.name, need))
            if not any(ck.split("|")[-1] == fld for ck in s.cell):
                q = (s.fresh(0), 0); self.oblige(s, I, q, need, "calls %s, which moves the reader by %d" % (g.name, need))

class Reader:
    def __init__(self, m):
        from rules.ir import nonreturning
        self.m = m
        self.fields = text_fields(m)
        if not self.fields: raise Broken("the reader's position in its text was not found")
        self.nonret = set(nonreturning(m))
        self.textparams, self.pre, self.cpre, self.retptr, self.roots, self.dirty = set(), {}, {}, set(), [], set()
        self._stores()
    def cellpre(self, f, a): return self.cpre.get((f.key, a[-1]), 0)
    def returns_text(self, g, I, s): return False
    def _stores(self):
        own = {}
        for f in self.m.funcs.values():
            own[f.key] = {f.addr(I.a[1])[-1] for I in f.instrs() if I.o == "store" and f.addr(I.a[1])[-1] in self.fields}
        g, ind = self.m.callgraph()
        ch = True
        while ch:
            ch = False
            for k in own:
                for c in list(g[k]) + list(ind[k]):
                    x = own.get(c)
                    if x and not x <= own[k]: own[k] |= x; ch = True
        # only functions that are given the reader (or reach it through memory) can move it
        self.stores = {k: v for k, v in own.items() if v}
    def uses_text(self, f):
        for I in f.instrs():
            if I.o == "load" and f.addr(I.a[0])[-1] in self.fields: return True
            if I.o == "store" and f.addr(I.a[1])[-1] in self.fields: return True
        return any((f.key, i) in self.textparams for i in range(f.nargs))
    def run(self):
        m = self.m; res = {}
        todo = [f for f in m.funcs.values() if self.uses_text(f)]
        for n in ("parse_string", "parse"):
            f = m.fn(n)
            if f: self.textparams.add((f.key, 0))
        rounds = 0
        while True:
            rounds += 1; self.dirty = set(); self.roots = []
            before = (dict(self.pre), dict(self.cpre), set(self.retptr), set(self.textparams))
            res = {}
            for f in m.funcs.values():
                if self.uses_text(f): res[f.key] = self.analyse(f)
            if (dict(self.pre), dict(self.cpre), set(self.retptr), set(self.textparams)) == before: break
            if rounds > 12: raise Broken("reader summaries do not settle")
        self.rounds = rounds
        return res
    def analyse(self, f):
        a = FnAnalysis(self, f).run(0)
        # a helper that is always called with more text left: let the call sites answer for it
        if a.findings and f.internal and f.name not in ("parse_string", "parse") and self.m_callers(f):
            for n in range(1, PRECAP + 1):
                for mode in ("cell", "param"):
                    sc, sp = dict(self.cpre), dict(self.pre)
                    if mode == "cell":
                        for fl in self.fields: self.cpre[(f.key, fl)] = max(self.cpre.get((f.key, fl), 0), n)
                    else:
                        for i in range(f.nargs):
                            if (f.key, i) in self.textparams: self.pre[(f.key, i)] = max(self.pre.get((f.key, i), 0), n)
                    b = FnAnalysis(self, f).run(0)
                    if not b.findings: return b
                    self.cpre, self.pre = sc, sp
        return a
    def m_callers(self, f):
        g, ind = self.m.callgraph()
        return any(f.key in g[k] for k in g if k != f.key)

def sources(g, v):
    out, todo, seen = [], [v], set()
    while todo:
        x = todo.pop()
        if not isinstance(x, str) or x in seen: continue
        seen.add(x); d = g.d(g.strip(x))
        if d is None: continue
        if d.o == "phi": todo += list(d.a)
        elif d not in out: out.append(d)
    return out

def uses(m, R):
    """where the reader is given a text, up to the functions that got it from elsewhere"""
    out, seen = [], set()
    todo = [(f, I, I.a[0]) for f, I in R.roots]
    for n in ("parse_string", "parse"):
        f = m.fn(n)
        todo += [(J.fn, J, J.a[0]) for J in m.callers(f.key)] if f else []
    while todo:
        f, I, x = todo.pop()
        if (f.key, I.i, str(x)) in seen: continue
        seen.add((f.key, I.i, str(x)))
        s = f.strip(x)
        if isinstance(s, str) and s[0] == "$":
            for J in m.callers(f.key):
                k = int(s[1:])
                if k < len(J.a): todo.append((J.fn, J, J.a[k]))
        else: out.append((f, I, x))
    return out

def marked(f, x, use):
    """a terminator is stored through the very value that is handed on, before it is"""
    x = f.strip(x)
    for I in f.instrs():
        if I.o in ("call", "invoke") and I.cname() in ("strcpy", "strcat", "sprintf", "snprintf", "fgets", "strncat", "getcwd", "realpath") and I.a and f.strip(I.a[0]) == x and f.dominates(I, use): return True
        if I.o == "store" and I.a[0] == 0:
            d = f.d(I.a[1])
            if d is not None and d.o in ("gep", "getelementptr") and f.strip(d.a[0]) == x and d.path and isinstance(d.path[0], list) and isinstance(d.path[0][0], str) and f.dominates(I, use): return True
    return False

def terminated(m, R):
    """text the reader is started on that is built here ends with a terminator"""
    F, n = [], 0
    for f, I, x in uses(m, R):
        for v in sources(f, x):
          n += 1
          if marked(f, x, I): continue
          if v.o in ("call", "invoke") and v.callee() in m.funcs:
            g = m.funcs[v.callee()]
            for r in g.rets():
                if r.a and not marked(g, r.a[0], r):
                    for d in sources(g, r.a[0]): F += buffer_ok(m, g, d, r)
          else: F += buffer_ok(m, f, v, I)
    return F, n

def buffer_ok(m, g, alloc, use):
    if alloc.o not in ("call", "invoke") or alloc.cname() not in ("malloc", "calloc", "realloc", "operator new[](unsigned long)", "operator new[]", "_Znam", "operator new"): return []
    if alloc.cname() == "calloc": return []
    A = "%%%d" % alloc.i
    marks = []
    freads = [I for I in g.calls() if I.cname() in ("fread", "read") and g.strip(I.a[0 if I.cname() == "fread" else 1]) == A]
    for I in g.instrs():
        if I.o != "store" or I.a[0] != 0: continue
        d = g.d(I.a[1])
        if d is None or d.o not in ("gep", "getelementptr") or g.strip(d.a[0]) != A: continue
        ix = d.path[0][0] if d.path and isinstance(d.path[0], list) else None
        if freads and not any(g.strip(ix) == "%%%d" % x.i for x in freads) and isinstance(ix, str) or freads and isinstance(ix, int): continue
        if freads and not all(g.dominates(x, I) for x in freads): continue
        marks.append(I)
    from rules.ir import find_path
    if any(g.dominates(x, use) for x in marks): return []
    # every path from the allocation to the use passes a mark
    seen, st = set(), [(alloc.bb, alloc.pos + 1)]
    while st:
        b, p = st.pop()
        blk = g.blocks[b]; hit = False
        for I in blk[p:]:
            if I in marks: hit = True; break
            if I is use: return [Finding("unterminated", g.name, "the text handed to the reader is not ended with a terminator at the end of what was read", alloc.loc, [])]
        if hit: continue
        for s in g.succ[b]:
            if s not in seen: seen.add(s); st.append((s, 0))
    return []

def run(ctx):
    m = ctx.inlined()
    R = Reader(m)
    res = R.run()
    if len(res) < 8: raise Broken("only %d functions handle the text being read" % len(res))
    F = []
    for a in res.values(): F += list(a.findings.values())
    T, n = terminated(m, R)
    F += T
    return {"findings": F, "coverage": {"explanation": "abstract interpretation of every function that handles the reader's text (places as symbol+offset, known non-terminator characters per symbol); rule: a place is read, stored as position, handed on or returned only if the text cannot have ended before it",
        "functions": len(res), "obligations": sum(len(a.obl) for a in res.values()), "abstract_states": sum(a.nstates for a in res.values()), "text_fields": len(R.fields), "texts_built_here": n, "rounds": R.rounds}}
