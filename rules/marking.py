"""Does function fn mark, on every path, the object that an access path from one of its parameters leads to?"""
from rules.ir import find_path
from rules.own import free_family

SINK_PUSH = ("push_back", "emplace_back")

def canon(path):
    """drop index/offset steps and collapse repeated 'follow the same link' steps"""
    p = [s for s in path if not s.startswith("[")]
    out = []
    for s in p:
        out.append(s)
        # collapse X.next * X.next *  -> X.next *
        if len(out) >= 4 and out[-4:-2] == out[-2:]: del out[-2:]
    return tuple(out)

class Paths:
    """access paths of values of one function, phis and local variables resolved"""
    def __init__(self, fn):
        self.fn = fn; self.memo = {}
        self.stores = {}
        for I in fn.instrs():
            if I.o == "store" and isinstance(I.a[1], str):
                d = fn.d(I.a[1])
                if d is not None and d.o == "alloca": self.stores.setdefault(I.a[1], []).append(I.a[0])
    def of(self, v, depth=0, stack=()):
        fn = self.fn
        if v in stack or depth > 60: return set()
        if isinstance(v, str) and v in self.memo: return self.memo[v]
        r = self._of(v, depth, stack)
        if isinstance(v, str) and not stack: self.memo[v] = r
        return r
    def _of(self, v, depth, stack):
        fn = self.fn
        st = stack + (v,) if isinstance(v, str) else stack
        if v is None: return {("null",)}
        if isinstance(v, (int, float)): return {("const",)}
        if isinstance(v, dict):
            if "g" in v: return {canon((x + tuple(fn._steps(v["path"])))) for x in self.of(v["g"], depth + 1, st)}
            if "ce" in v: return set().union(*[self.of(x, depth + 1, st) for x in v["a"]]) if v["a"] else {("const",)}
            return {("const",)}
        I = fn.d(v)
        if I is None: return {(v,)}
        if I.o in ("bitcast", "inttoptr", "ptrtoint", "freeze", "sext", "zext", "trunc"): return self.of(I.a[0], depth + 1, st)
        if I.o in ("gep", "getelementptr"): return {canon(x + fn._steps(I.path)) for x in self.of(I.a[0], depth + 1, st)}
        if I.o == "load":
            d = fn.d(I.a[0])
            if d is not None and d.o == "alloca" and I.a[0] in self.stores:
                return set().union(*[self.of(x, depth + 1, st) for x in self.stores[I.a[0]]])
            return {canon(x + ("*",)) for x in self.of(I.a[0], depth + 1, st)}
        if I.o == "phi": return set().union(*[self.of(x, depth + 1, st) for x in I.a])
        if I.o == "select": return self.of(I.a[1], depth + 1, st) | self.of(I.a[2], depth + 1, st)
        if I.o in ("add", "sub", "and", "or"):
            # pointer arithmetic with a constant keeps the object
            if isinstance(I.a[1], int): return self.of(I.a[0], depth + 1, st)
        return {(v,)}
    def leaves(self, v, depth=0, seen=None):
        """all access paths a condition is computed from"""
        fn = self.fn; seen = seen if seen is not None else set()
        if isinstance(v, str) and v in seen: return set()
        if isinstance(v, str): seen.add(v)
        I = fn.d(v)
        if I is None or I.o in ("load", "gep", "getelementptr", "alloca"): return self.of(v)
        if I.o in ("call", "invoke"):
            r = {("call:" + (I.cname() or "?"),)}
            for x in I.a: r |= self.of(x)
            return r
        out = set()
        for x in I.a: out |= self.leaves(x, depth + 1, seen)
        return out

class Marker:
    def __init__(self, m):
        self.m = m; self.memo = {}; self.paths = {}; self.sites = 0
    def P(self, fn):
        if fn.key not in self.paths: self.paths[fn.key] = Paths(fn)
        return self.paths[fn.key]
    def covers(self, fn, param, rest, what, typeconst=None, lens=(), depth=0):
        """None if every path marks ('$param',)+rest [what = 'push' or 'flag'], else a witness path (list of locations)."""
        key = (fn.key, param, rest, what, typeconst, lens)
        if key in self.memo: return self.memo[key]
        if depth > 8: return ["too deep"]
        self.memo[key] = None  # optimistic for recursion
        P = self.P(fn)
        target = canon(("$%d" % param,) + rest)
        prefixes = {target[:k] for k in range(1, len(target) + 1)}
        header = lambda p: p[:len(target)] == target and (len(p) == len(target) or p[len(target)].startswith("GCBlock.") or p[len(target):] == ("*",))
        def is_sink(I):
            if I.o in ("call", "invoke"):
                c = I.callee()
                nm = I.cname() or ""
                if what == "push" and any(nm.endswith("::" + s) for s in SINK_PUSH):
                    if len(I.a) > 1:
                        src = P.of(I.a[1]) | {x[:-1] for x in ()}
                        d = fn.d(I.a[1])
                        if d is not None and d.o == "alloca": src = set().union(*[P.of(x) for x in P.stores.get(I.a[1], [])] or [set()])
                        if target in src: return True
                if what.startswith("release:") and free_family(nm) == what[8:] and I.a and target in P.of(I.a[0]): return True
                if c in self.m.funcs:
                    g = self.m.funcs[c]
                    for j, a in enumerate(I.a):
                        for ap in P.of(a):
                            # argument is a prefix of the target: the callee has to cover the remaining steps
                            if target[:len(ap)] == ap:
                                r = target[len(ap):]
                                if self.covers(g, j, r, what, None, lens, depth + 1) is None and self.has_sink(g, what): self.sites += 1; return True
                return False
            if what == "flag" and I.o == "store":
                for ap in P.of(I.a[1]):
                    if header(ap):
                        d = fn.d(I.a[0])
                        if d is None and isinstance(I.a[0], int) and I.a[0] & 1: return True
                        if d is not None and d.o == "or" and (isinstance(d.a[1], int) and d.a[1] & 1): return True
            return False
        def excused(leaf):
            if leaf in (("const",), ("null",)): return True
            if leaf in prefixes: return True
            if header(leaf): return True
            if leaf[0].startswith("@"): return True
            for L in lens:
                if leaf[-2:] == L: return True
            return False
        back = back_edges(fn)
        def reaches(bb):
            seen, st = {bb}, [bb]
            while st:
                b = st.pop()
                if any(is_sink(I) for I in fn.blocks[b]): return True
                for s in fn.succ[b]:
                    if (b, s) not in back and s not in seen: seen.add(s); st.append(s)
            return False
        def leaves_target(T, k):
            t = fn.succ[T.bb][k]
            here = (T.bb, t) not in back and reaches(t)
            return not here and any(j != k and (T.bb, s) not in back and reaches(s) for j, s in enumerate(fn.succ[T.bb]))
        def steps_on(v):
            """is v the next element of a chain some loop walks (as opposed to the element it is at)?"""
            I = fn.d(v)
            if I is None or I.o != "load": return False
            r = I.a[0]
            while fn.d(r) is not None and fn.d(r).o in ("gep", "getelementptr", "bitcast"): r = fn.d(r).a[0]
            d = fn.d(r)
            return d is not None and d.o == "phi" and bool(P.of(r) & P.of(v))
        def edge_ok(T, k, spun=None):
            if T.o == "switch":
                lv = P.leaves(T.a[0])
                if typeconst is not None and any(x[-2:] == ("SCM.type", "*") for x in lv):
                    if typeconst in T.cases: return T.cases.index(typeconst) + 1 == k
                    return k == 0
                return True
            if T.o == "br" and T.a:
                c = fn.d(T.a[0])
                neg = False
                if c is not None and c.o == "xor": c = fn.d(c.a[0]); neg = True
                if c is not None and c.o == "icmp":
                    l0 = P.leaves(c.a[0])
                    if typeconst is not None and any(x[-2:] == ("SCM.type", "*") for x in l0) and isinstance(c.a[1], int):
                        a, b = typeconst, c.a[1]
                        val = {"eq": a == b, "ne": a != b, "ugt": a > b, "uge": a >= b, "ult": a < b, "ule": a <= b, "sgt": a > b, "sge": a >= b, "slt": a < b, "sle": a <= b}[c.p]
                        return (k == 0) == (val != neg)
                    if c.p in ("eq", "ne") and (c.a[1] is None or c.a[0] is None):
                        # a null test only excuses its null edge
                        ptr = l0 if c.a[1] is None else P.leaves(c.a[1])
                        null_edge = (0 if c.p == "eq" else 1) ^ (1 if neg else 0)
                        if ptr and all(excused(x) for x in ptr):
                            tested = fn.strip(c.a[0] if c.a[1] is None else c.a[1])
                            if steps_on(tested): return True
                            if spun is not None and T.bb in loop_blocks(fn, spun) and fn.d(tested) is not None and fn.d(tested).o == "phi" and fn.d(tested).bb == spun: return True
                            return k != null_edge
                        return True
                    lv = l0 | P.leaves(c.a[1])
                    idx = [x for x in lv if len(x) == 1 and x[0].startswith("%")]
                    rest_l = [x for x in lv if x not in idx]
                    if idx and lens and any(x[-2:] in lens for x in rest_l) and all(excused(x) for x in rest_l): return not leaves_target(T, k)
                else: lv = P.leaves(T.a[0])
                if lv and all(excused(x) or x[0].startswith("call:") for x in lv): return not leaves_target(T, k)
            return True
        w = None
        # whole function: from entry to return; each loop that contains a sink: one iteration, from its header back to its header
        def search(start, goal_edge):
            seen, q = {(start, None)}, [(start, (), None)]
            while q:
                b, trail, spun = q.pop(0)
                hit = False
                for I in fn.blocks[b]:
                    if is_sink(I): hit = True; break
                    if I.o == "ret" and goal_edge is None: return list(trail) + [I.loc]
                if hit: continue
                T = fn.blocks[b][-1]
                for k, t in enumerate(fn.succ[b]):
                    if not edge_ok(T, k, spun): continue
                    tr = trail + ((T.loc,) if len(fn.succ[b]) > 1 else ())
                    if (b, t) in back:
                        if goal_edge is not None and t == goal_edge: return list(tr) + [T.loc]
                        if goal_edge is None and not loop_has(fn, t, back, is_sink) and (t, t) not in seen: seen.add((t, t)); q.append((t, tr, t))
                        continue
                    if (t, spun) not in seen: seen.add((t, spun)); q.append((t, tr, spun))
            return None
        w = search(0, None)
        if w is None:
            for h in sorted({t for (_, t) in back}):
                if loop_has(fn, h, back, is_sink):
                    w = search(h, h)
                    if w: break
        self.memo[key] = w
        return w
    def has_sink(self, fn, what, seen=None):
        seen = seen or set()
        if fn.key in seen: return False
        seen.add(fn.key)
        for I in fn.instrs():
            if I.o in ("call", "invoke"):
                if what == "push" and any((I.cname() or "").endswith("::" + s) for s in SINK_PUSH): return True
                if what.startswith("release:") and free_family(I.cname() or "") == what[8:]: return True
                if I.callee() in self.m.funcs and self.has_sink(self.m.funcs[I.callee()], what, seen): return True
            if what == "flag" and I.o == "store":
                d = fn.d(I.a[0])
                if d is not None and d.o == "or" and isinstance(d.a[1], int) and d.a[1] & 1: return True
        return False

def back_edges(fn):
    if hasattr(fn, "_back"): return fn._back
    idom = fn.dominators(); out = set()
    for b in range(len(fn.blocks)):
        if b not in idom: continue
        for t in fn.succ[b]:
            x = b
            while True:
                if x == t: out.add((b, t)); break
                if idom[x] == x: break
                x = idom[x]
    fn._back = out
    return out

def loop_blocks(fn, h):
    body = {h}; st = [b for (b, t) in back_edges(fn) if t == h]
    while st:
        b = st.pop()
        if b in body: continue
        body.add(b); st += fn.pred[b]
    return body

def loop_has(fn, h, back, pred):
    return any(pred(I) for b in loop_blocks(fn, h) for I in fn.blocks[b])

def narrowed(fn, v):
    """bits a value is cut to on its way, if that is less than 32"""
    for _ in range(20):
        I = fn.d(v)
        if I is None or I.o not in ("trunc", "zext", "sext", "add", "sub", "freeze"): return 0
        if I.o == "trunc" and I.t in ("i8", "i16"): return int(I.t[1:])
        v = I.a[0]
    return 0

def array_cover(fn, P, idx, lens, acc=None):
    """does the index value run over 0..length-1 ? 'ok', 'unknown' or a reason why not"""
    v = fn.strip(idx)
    if isinstance(v, int): return "only element %d is visited" % v
    I = fn.d(v)
    off = 0
    if I is not None and I.o in ("add", "sub") and isinstance(I.a[1], int):
        off = I.a[1] if I.o == "add" else -I.a[1]; I = fn.d(fn.strip(I.a[0]))
    if I is None or I.o != "phi": return "unknown"
    me = "%%%d" % I.i
    start, step = None, None
    for x in I.a:
        d = fn.d(fn.strip(x))
        if d is not None and d.o in ("add", "sub") and fn.strip(d.a[0]) == me and isinstance(d.a[1], int): step = d.a[1] if d.o == "add" else -d.a[1]
        else: start = x
    if step is None: return "unknown"
    if I.t in ("i8", "i16"): return "the loop counter wraps around after %d elements" % (1 << int(I.t[1:]))
    if step == 1 and isinstance(start, int):
        if start + off != 0: return "the loop starts at element %d" % (start + off)
        for u in fn.users(me):
            L = [u]
            if u.o in ("sext", "zext", "trunc"): L = fn.users("%%%d" % u.i)
            if u.o == "add" and isinstance(u.a[1], int) and u.a[1] > max(0, off):
                for c in fn.users("%%%d" % u.i):
                    if c.o != "icmp": continue
                    first = c.a[0] == "%%%d" % u.i
                    other = c.a[1] if first else c.a[0]
                    paths = P.of(other)
                    pred = c.p if first else {"ugt": "ult", "sgt": "slt"}.get(c.p, c.p)
                    if paths and all(p[-2:] in lens for p in paths) and pred in ("ult", "slt") and acc is not None and fn.dominates(c, acc):
                        return "the loop stops %d before the end" % (u.a[1] - off)
            mine = {me}
            if u.o == "add" and off and u.a[1] == off: L = L + fn.users("%%%d" % u.i); mine.add("%%%d" % u.i)
            for c in L:
                if c.o != "icmp": continue
                other = c.a[1] if fn.strip(c.a[0]) in mine else c.a[0]
                pred = c.p if fn.strip(c.a[0]) in mine else {"ugt": "ult", "sgt": "slt", "uge": "ule", "sge": "sle"}.get(c.p, c.p)
                paths = P.of(other)
                if all(p[-2:] in lens for p in paths) and paths:
                    if narrowed(fn, other): return "the length is cut to %d bits" % narrowed(fn, other)
                    d = fn.d(fn.strip(other))
                    if d is not None and d.o in ("add", "sub") and isinstance(d.a[1], int) and d.a[1] != 0: 
                        delta = d.a[1] if d.o == "add" else -d.a[1]
                        if pred in ("ule", "sle") and delta == -1: return "ok"
                        if pred in ("ult", "slt", "ne") and delta < 0: return "the loop stops %d before the end" % -delta
                        return "unknown"
                    if pred in ("ult", "slt", "ne", "uge", "sge", "eq"): return "ok"
                    return "unknown"
                if isinstance(other, int) and pred in ("ult", "slt", "ne"): return "the loop stops at the constant %d" % other
        return "unknown"
    if step not in (1, -1): return "the loop visits every %s element only" % step if step and abs(step) > 1 else "unknown"
    return "unknown"
