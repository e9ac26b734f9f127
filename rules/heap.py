"""What the heap looks like, read off the source: allocation sites, which structure each collector tag and value type carries, which fields refer to heap objects."""
import collections

def pointee(ts):
    """'const SCM_List*' -> 'SCM_List' ; anything else -> ''"""
    if not ts: return ""
    t = ts.replace("const ", "").strip()
    if t.endswith("*") and not t[:-1].endswith("*") and "(" not in t: return t[:-1].strip()
    return ""

class Heap:
    def __init__(self, m):
        self.m = m
        self.alloc = []      # (instr, tag, size, struct)
        for I in m.all_instrs():
            if I.cname() == "gc_alloc" and len(I.a) == 2:
                self.alloc.append((I, I.a[0], I.a[1], self.struct_of(I.fn, "%%%d" % I.i)))
        self.tagname = {v: k for k, v in m.type_tags.items()}
        self.typename = {v: k for k, v in m.scm_types.items()}
        votes = collections.defaultdict(collections.Counter)
        for I, t, s, S in self.alloc:
            if isinstance(t, int) and S: votes[t][S] += 1
        self.tag_struct = {t: c.most_common(1)[0][0] for t, c in votes.items()}
        self.tag_votes = votes
        self.gc_structs = set(self.tag_struct.values())
        self.labels = list(self._labels())
        pv = collections.defaultdict(collections.Counter)
        for I, T, S, v in self.labels:
            if S: pv[T][S] += 1
        self.payload = {T: c.most_common(1)[0][0] for T, c in pv.items()}
        self.payload_votes = pv
    def struct_of(self, fn, v, depth=0, seen=None):
        """name of the structure a pointer value points to, from types written in the program; '' if unknown"""
        m = self.m
        if depth > 12: return ""
        if isinstance(v, str) and v.startswith("$"):
            n = int(v[1:]); ts = fn.sig[n + 1] if n + 1 < len(fn.sig) else ""
            p = pointee(ts)
            return p if p in m.structs else ""
        if isinstance(v, str) and v.startswith("@"):
            g = m.globals.get(v[1:])
            return g.get("type", "") if g and g.get("type") in m.structs else ""
        I = fn.d(v)
        if I is None: return ""
        if I.vt and pointee(I.vt) in m.structs and I.o not in ("phi",): return pointee(I.vt)
        if I.o in ("call", "invoke"):
            c = I.callee()
            if c and c in m.funcs and m.funcs[c].sig:
                p = pointee(m.funcs[c].sig[0])
                if p in m.structs: return p
            if I.cname() in ("gc_alloc", "malloc", "calloc") or (I.cname() or "").startswith("operator new"):
                return self._by_use(fn, v)
            return ""
        if I.o == "load":
            a = fn.d(I.a[0])
            if a is not None and a.o in ("gep", "getelementptr") and a.path and isinstance(a.path[-1], str):
                S, f = a.path[-1].rsplit(".", 1)
                x = m.field(S, f)
                if x: return x["pointee"] if x["pointee"] in m.structs else ""
            if isinstance(I.a[0], str) and I.a[0].startswith("@"):
                g = m.globals.get(I.a[0][1:])
                if g and g.get("pointee") in m.structs: return g["pointee"]
            return self._by_use(fn, v)
        if I.o in ("phi", "select"):
            seen = seen or set()
            if v in seen: return ""
            seen = seen | {v}
            for x in (I.a if I.o == "phi" else I.a[1:]):
                s = self.struct_of(fn, x, depth + 1, seen)
                if s: return s
            if I.vt and pointee(I.vt) in m.structs: return pointee(I.vt)
            return ""
        if I.o in ("gep", "getelementptr"):
            if I.path and isinstance(I.path[-1], str):
                S, f = I.path[-1].rsplit(".", 1); x = m.field(S, f)
                if x and x["type"] in m.structs: return x["type"]
            return self._by_use(fn, v)
        if I.o == "alloca": return (I.vt or "").replace("const ", "") if (I.vt or "") in m.structs else ""
        if I.o in ("bitcast", "inttoptr", "ptrtoint"): return self.struct_of(fn, I.a[0], depth + 1, seen)
        return ""
    def _by_use(self, fn, v):
        c = collections.Counter()
        for u in fn.users(v):
            if u.o in ("gep", "getelementptr") and u.path and isinstance(u.path[0], str) and u.a[0] == v: c[u.path[0].split(".")[0] if "::" not in u.path[0] else u.path[0].rsplit(".", 1)[0]] += 1
            elif u.o == "ret":
                p = pointee(fn.sig[0] if fn.sig else "")
                if p in self.m.structs: c[p] += 1
            elif u.o in ("call", "invoke") and u.callee() in self.m.funcs:
                g = self.m.funcs[u.callee()]
                for k, a in enumerate(u.a):
                    if a == v and k + 1 < len(g.sig) and pointee(g.sig[k + 1]) in self.m.structs: c[pointee(g.sig[k + 1])] += 1
            elif u.o == "store" and u.a[0] == v:
                if isinstance(u.a[1], str) and u.a[1].startswith("@"):
                    g = self.m.globals.get(u.a[1][1:])
                    if g and g.get("pointee") in self.m.structs: c[g["pointee"]] += 1
                else:
                    a = fn.d(u.a[1])
                    if a is not None and a.path and isinstance(a.path[-1], str):
                        S, f = a.path[-1].rsplit(".", 1); x = self.m.field(S, f)
                        if x and x["pointee"] in self.m.structs: c[x["pointee"]] += 1
        return c.most_common(1)[0][0] if c else ""
    def _labels(self):
        """(store instr, type constant, payload struct or '', payload value) for every place a value is labelled with a constant type"""
        for f in self.m.funcs.values():
            types, vals = collections.defaultdict(list), collections.defaultdict(list)
            for I in f.instrs():
                if I.o != "store": continue
                a = f.d(I.a[1])
                if a is None or a.o not in ("gep", "getelementptr") or not a.path or not isinstance(a.path[-1], str): continue
                if a.path[-1] == "SCM.type" and isinstance(I.a[0], int): types[f.strip(a.a[0])].append(I)
                if a.path[-1] == "SCM.value": vals[f.strip(a.a[0])].append(I)
            for base, L in types.items():
                for I in L:
                    vs = vals.get(base, [])
                    # the store of the payload nearest to the label in the same block, else any
                    same = [v for v in vs if v.bb == I.bb] or vs
                    if not same: yield I, I.a[0], "", None; continue
                    for v in same:
                        yield I, I.a[0], self.struct_of(f, v.a[0]) if isinstance(v.a[0], str) else "", v.a[0]
    def lengths(self):
        """(structure, array field) -> {count fields}: the fields stored with the element count the array was allocated with"""
        if hasattr(self, "_len"): return self._len
        m = self.m; out = collections.defaultdict(collections.Counter)
        for f in m.funcs.values():
            arr, cnt = [], []
            for I in f.instrs():
                if I.o != "store": continue
                a = f.d(I.a[1])
                if a is None or a.o not in ("gep", "getelementptr") or not a.path or not isinstance(a.path[-1], str): continue
                S, fl = a.path[-1].rsplit(".", 1)
                if S not in self.gc_structs: continue
                x = m.field(S, fl)
                if x and x["pointee"].endswith("*") and x["pointee"][:-1] in self.gc_structs: arr.append((S, fl, f.strip(a.a[0]), I))
                elif x and not x["pointee"] and x["size"] in (4, 8): cnt.append((S, fl, f.strip(a.a[0]), I))
            for S, fl, base, I in arr:
                leaves = set(); st = [I.a[0]]; seen = set()
                while st:
                    v = st.pop()
                    if not isinstance(v, str) or v in seen: continue
                    seen.add(v); d = f.d(v)
                    if d is None: leaves.add(v); continue
                    if d.o in ("call", "invoke"):
                        if d.cname() in ("calloc", "malloc", "realloc") or (d.cname() or "").startswith(("operator new", "llvm.umul")): st += d.a
                        else: leaves.add(v)
                    elif d.o in ("mul", "shl", "phi", "select", "extractvalue", "sext", "zext", "trunc", "bitcast"): leaves.add(v); st += d.a
                    else: leaves.add(v)
                for S2, c, b2, J in cnt:
                    if S2 == S and b2 == base and (J.a[0] in leaves or f.strip(J.a[0]) in {f.strip(x) for x in leaves}): out[(S, fl)][c] += 1
        self._len = {k: {x for x, n in v.items()} for k, v in out.items()}
        return self._len
    def refs(self, S):
        """fields of S that can refer to heap objects: list of (field, kind) kind in ptr, array, env"""
        out = []
        for x in self.m.structs[S]["fields"]:
            if x["pointee"] in self.gc_structs: out.append((x["name"], "ptr"))
            elif x["pointee"].endswith("*") and x["pointee"][:-1] in self.gc_structs: out.append((x["name"], "array"))
            elif x["type"] in self.m.structs and x["type"] not in self.gc_structs: out.append((x["name"], "inner:" + x["type"]))
        return out
