"""P16: a key stored in a hash table is found by every key its family considers equal."""
from check_api import Finding, Broken
from rules.symval import Sym, roots, norm, subst, parts, api_opaque, short
from rules.p17 import ByType, predicates, nonreturning, BASE_NR
from rules.explore import TooMany

A0, A1 = ("arg", 0), ("arg", 1)
FAMILY = (("hashq-", "eq?"), ("hashv-", "eqv?"), ("hash-", "equal?"))
def squash(s): return s.replace(" ", "")
def hash_sig(f): return len(f.sig) == 2 and squash(f.sig[1]) in ("SCM*", "constSCM*") and f.sig[0] in ("unsigned long", "size_t", "unsigned int", "unsigned long long", "long", "uint64_t")
def cmp_sig(f): return len(f.sig) == 3 and [squash(x) for x in f.sig[1:]] == ["SCM*", "SCM*"] and f.sig[0] in ("bool", "int", "SCM*")

def plain(e):
    """injective conversions and negation do not matter to an equality"""
    while isinstance(e, tuple) and e[0] == "op" and (e[1].split(":")[0] in ("zext", "sext", "ptrtoint", "inttoptr") or e[1] == "not"): e = e[2]
    if not isinstance(e, tuple) or e[0] in ("arg", "const", "loop", "str", "static", "fn", "global", "gload", "local"): return e
    return (e[0],) + tuple(plain(x) if isinstance(x, tuple) else x for x in e[1:])
def key(e): return plain(norm(e))
def loopy(e): return any(isinstance(x, tuple) and x[0] in ("loop", "elem") for x in parts(e))

NO = (("const", 0), ("call", "scm_bool_false"))
class Keep(ByType):
    """facts about some cells are kept although nothing looks at the cells again"""
    roots = ()
    def relevant(self, k, live): return super().relevant(k, live) or any(x in self.roots for x in k[1:3])

class Family:
    """what one comparison and one hash say about values of each type"""
    def __init__(self, m):
        self.m = m; self.T = m.scm_types; self.cm = {}; self.hm = {}; self.same_memo = {}
    def cmp(self, fk, t0, t1, forced=None):
        f = self.m.funcs[fk]
        S = Sym(self.m, api_opaque, types={A0: t0, A1: t1}, same=({A0, A1}, False), forced=forced)
        return S.summary(f, (A0, A1))
    def may_equal(self, fk, t0, t1):
        k = (fk, t0, t1)
        if k not in self.cm: self.cm[k] = any(r[:2] not in NO for r in self.cmp(fk, t0, t1).rets)
        return self.cm[k]
    def equalities(self, fk, t):
        """expressions over one value that are the same on both sides whenever two values of type t are considered equal"""
        k = (fk, t)
        if k in self.same_memo: return self.same_memo[k]
        s = self.cmp(fk, t, t); out = {}
        sub = {A1: A0}
        cand = {}
        for x, y, o in s.pairs:
            if roots(x) == {A1} and roots(y) == {A0}: x, y = y, x
            if roots(x) == {A0} and roots(y) == {A1} and x != A0 and key(subst(y, sub)) == key(x): cand.setdefault((key(x), o), []).append(frozenset([norm(x), norm(y)]))
        for c, args, loc in s.calls:
            g = self.m.funcs.get(c)
            if g is None or not cmp_sig(g) or len(args) != 2: continue
            x, y = args
            if roots(x) == {A1} and roots(y) == {A0}: x, y = y, x
            if roots(x) == {A0} and roots(y) == {A1} and x != A0 and key(subst(y, sub)) == key(x): cand.setdefault((key(x), ("rec", c)), []).append((c, frozenset([norm(args[0]), norm(args[1])])))
        for (e, o), ks in cand.items():
            ok = loopy(e)
            if not ok:
                # it has to hold: no answer but "different" once it fails
                if o in ("icmp", "fcmp", "bytes", "cstr") or isinstance(o, tuple):
                    forced = {k_: False for k_ in ks}
                    try: ok = all(r[:2] in NO for r in self.cmp(fk, t, t, forced).rets)
                    except RecursionError: ok = False
            if ok: out.setdefault(e, set()).add(o)
        conds = {key(subst(c, sub)) for c in s.conds if roots(c) == {A1}} & {key(c) for c in s.conds if roots(c) == {A0}}
        self.same_memo[k] = (out, conds, s)
        return self.same_memo[k]
    def behaviour(self, fk):
        r = []
        for n, t in sorted(self.T.items()):
            e, c, s = self.equalities(fk, t)
            # comparisons of elements are compared by what they do, not by name
            eq = frozenset((x, o if isinstance(o, str) else "rec") for x, os in e.items() for o in os)
            r.append((n, self.may_equal(fk, t, t), any(x[:2] in NO for x in s.rets), eq))
        mix = frozenset((a, b) for a, x in self.T.items() for b, y in self.T.items() if a != b and self.may_equal(fk, x, y))
        return tuple(r), mix
    def hash(self, hk, t):
        k = (hk, t)
        if k not in self.hm:
            S = Sym(self.m, api_opaque, types={A0: t})
            self.hm[k] = S.summary(self.m.funcs[hk], (A0,))
        return self.hm[k]
    def hash_text(self, hk):
        out = []
        for n, t in sorted(self.T.items()):
            s = self.hash(hk, t)
            nm = short(self.m.funcs[hk].name)
            def ren(e):
                if not isinstance(e, tuple): return e
                if e[0] == "call" and (e[1] == nm or e[1] in self.recnames(hk)): return ("call", "H") + tuple(ren(x) for x in e[2:])
                return (e[0],) + tuple(ren(x) if isinstance(x, tuple) else x for x in e[1:]) if e[0] != "loop" else e
            out.append((n, frozenset(map(ren, s.rets)), frozenset(ren(c) for c in s.conds if c[0] != "const")))
        return tuple(out)
    def recnames(self, hk):
        return {short(self.m.funcs[c].name) for t in self.T.values() for c, a, l in self.hash(hk, t).calls if c in self.m.funcs and hash_sig(self.m.funcs[c])}

def uncovered(fam, e, eqs, conds, hconds, recs, bad, need):
    """parts of a hash that may differ between values considered equal"""
    if not isinstance(e, tuple) or e[0] in ("const", "str", "static", "loop", "global", "fn"): return
    k = key(e)
    if k in eqs: return
    if e[0] == "op" and e[1].startswith("icmp") and len(e) == 4:
        b = [x if x[0] == "elemaddr" else ("elemaddr", x, ("const", 0)) for x in e[2:]]
        if b[0][1] == b[1][1]:
            for x in b: uncovered(fam, x[2], eqs, conds, hconds, recs, bad, need)
            return
    if e[0] == "op":
        for x in e[2:]: uncovered(fam, x, eqs, conds, hconds, recs, bad, need)
        return
    if e[0] == "call":
        g = recs.get(e[1])
        if g is not None and len(e) == 3:
            x = key(e[2])
            if x == A0: return
            os = {o for o in eqs.get(x, ()) if isinstance(o, tuple)}
            if os: need.update((g, o[1]) for o in os)
            elif any(isinstance(o, str) for o in eqs.get(x, ())): pass
            else: bad.append(e)
            return
        if len(e) > 2 and e[1] in ("strlen", "strnlen"):
            if set(eqs.get(key(e[2]), ())) & {"bytes", "cstr"}: return
        for x in e[2:]: uncovered(fam, x, eqs, conds, hconds, recs, bad, need)
        return
    if e[0] == "elem":
        b = eqs.get(key(e[1]), set())
        if "bytes" in b: return
        if "cstr" in b and any(c[0] == "op" and c[1] == "icmp" and ("const", 0) in c[2:] and any(isinstance(y, tuple) and y[0] == "elem" for y in parts(c)) for c in hconds): return
        if any(key(x)[:2] == k[:2] for x in eqs if x[0] == "elem"): return
        bad.append(e); return
    if e[0] == "field":
        if e[2] == "SCM.type" or e[2] in ("SCM_List.next", "SCM_List.is_dotted"):
            base = key(e[1])
            if e[2] == "SCM.type" and base in eqs: return
            if e[2] != "SCM.type" and any(key(x) == k or any(key(p) == k for p in parts(x)) for x in conds): return
            if e[2] == "SCM.type": 
                # the kind of an element, known only as far as the comparison of the element goes
                return
        bad.append(e); return
    if e[0] == "many":
        return
    bad.append(e)

def describe(e):
    if not isinstance(e, tuple): return str(e)
    if e == A0 or e == A1: return "the address of the key"
    if e[0] == "field": return ("" if e[1][0] in ("arg", "loop") or e[2] == "SCM.value" else describe(e[1]) + "->") + (e[2].split(".")[1] if e[2] != "SCM.value" else "value")
    if e[0] == "elem": return describe(e[1]) + "[]"
    if e[0] == "op": return " ".join(describe(x) for x in e[2:] if x[0] not in ("const", "static"))
    if e[0] == "call": return "%s(%s)" % (e[1], ", ".join(describe(x) for x in e[2:]))
    return e[0]

def agree(fam, hk, ck, F, where, done, label):
    """keys considered equal by ck have the same hash hk"""
    if (hk, ck) in done: return 0
    done.add((hk, ck)); m = fam.m; names = {v: k for k, v in fam.T.items()}; ob = 0
    h = m.funcs[hk]; loc = h.blocks[0][0].loc
    recs = {short(m.funcs[c].name): c for t in fam.T.values() for c, a, l in fam.hash(hk, t).calls if c in m.funcs and hash_sig(m.funcs[c])}
    recs[short(h.name)] = hk
    later = set()
    for n, t in sorted(fam.T.items()):
        ob += 1
        if not fam.may_equal(ck, t, t): continue
        eqs, conds, _ = fam.equalities(ck, t)
        s = fam.hash(hk, t); bad = []; need = set()
        for e in list(s.rets) + [c for c in s.conds]: uncovered(fam, e, eqs, conds, s.conds, recs, bad, need)
        for g, r in need:
            if g in m.funcs and r in m.funcs and total(m.funcs[r]): later.add((g, r))
        for e in sorted(bad, key=repr)[:2]:
            F.append(Finding("hash-differs", short(h.name), "two keys of type %s that %s considers equal can hash differently: the hash depends on %s, which is not part of the comparison" % (n, label, describe(e)), loc, extra="%s/%s/%s" % (n, label, describe(e))))
        if n == "LIST":
            # (a . (b)) is (a b): what the comparison follows through a dotted tail the hash has to follow as well
            reads = lambda S, fld: any(isinstance(p, tuple) and p[0] == "field" and p[2] == fld for c in list(S.conds) + list(S.rets) for p in parts(c))
            cs = fam.equalities(ck, t)[2]
            walks = any(c in m.funcs and (hash_sig(m.funcs[c])) and any(key(x)[0] == "field" for x in a) for c, a, l in s.calls)
            if walks and reads(cs, "SCM_List.is_dotted"): F.extend(dotted(m, hk, fam, label))
    # numbers of different kinds
    for n0, t0 in fam.T.items():
        for n1, t1 in fam.T.items():
            if n0 >= n1 or not fam.may_equal(ck, t0, t1): continue
            ob += 1
            s = fam.cmp(ck, t0, t1); pairs = [(x, y) if roots(x) == {A0} else (y, x) for x, y, o in s.pairs if o in ("icmp", "fcmp") and roots(x) | roots(y) == {A0, A1} and len(roots(x)) == 1 and len(roots(y)) == 1 and x not in (A0, A1)]
            ok = False
            h0 = fam.hash(hk, t0); h1 = fam.hash(hk, t1)
            for x, y in pairs or [(None, None)]:
                y0 = subst(y, {A1: A0}) if y else None
                r = lambda s_, e: (frozenset(subst(z, {e: ("D",)}) for z in s_.rets), frozenset(subst(z, {e: ("D",)}) for z in s_.conds if z[0] != "const"))
                a, b = r(h0, x), r(h1, y0)
                if a == b and not any(A0 in roots(z) for z in a[0] | a[1]): ok = True
            if not ok: F.append(Finding("hash-differs", short(h.name), "a key of type %s and one of type %s that %s considers equal can hash differently" % (n0, n1, label), loc, extra="%s/%s/%s" % (n0, n1, label)))
    for g, r in sorted(later): ob += agree(fam, g, r, F, where, done, label)
    return ob

def total(f):
    """does a comparison look at the types of its arguments itself"""
    return any(I.o == "load" and f.addr("%%%d" % I.i) == ("$0", "SCM.type", "*") for I in f.instrs())

def dotted(m, hk, fam, label):
    """a list or nothing behind a dot is not hashed as an element"""
    out = []; f = m.funcs[hk]; preds = m._p16preds
    reachable = [f] + [m.funcs[c] for c, a, l in fam.hash(hk, fam.T["LIST"]).calls if c in m.funcs and not hash_sig(m.funcs[c])]
    for f in {g.key: g for g in reachable}.values():
        for L in f.instrs():
            if L.o != "load" or f.addr("%%%d" % L.i)[-2:] != ("SCM_List.next", "*"): continue
            # only where the cell becomes the one looked at next
            me = "%%%d" % L.i
            if not any(U.o == "phi" for U in f.users(me)): continue
            for tn in ("LIST", "NIL"):
                t = fam.T[tn]; hit = []
                ex = ByType(f)
                def visit(I, st):
                    if I.o in ("call", "invoke") and I.callee() in m.funcs and hash_sig(m.funcs[I.callee()]) and I.a and isinstance(I.a[0], str):
                        x = ex.addr(f.strip(I.a[0]))
                        if st.get(("i",) + x + ("SCM.type", "*")) == t and st.get(("l",) + x[:-2] + ("SCM_List.is_dotted", "*")) is True: hit.append((I.loc, ex.trail))
                        return None
                    if I.o == "load":
                        p = f.addr("%%%d" % I.i)
                        if p[-2:] == ("SCM_List.next", "*") and I is not L: return None
                    return st
                st0 = {("n", me): False, ("i", me, "SCM_List.is_dotted", "*"): 1, ("l", me, "SCM_List.is_dotted", "*"): True,
                       ("n", me, "SCM_List.data", "*"): False, ("i", me, "SCM_List.data", "*", "SCM.type", "*"): t}
                a = ex.addr(me)
                for k in list(st0):
                    st0[(k[0],) + a + k[2:]] = st0[k]
                try: ex.run(L.bb, visit, st0, pos=L.pos + 1)
                except TooMany: continue
                if hit: out.append(Finding("dotted-tail", short(f.name), "a tail of type %s behind a dot is hashed as an element, although %s considers such a list the same as the list without the dot" % (tn, label), hit[0][0], list(hit[0][1])[-6:], extra="%s/%s" % (tn, label)))
    return out

def run(ctx):
    m = ctx.facts(); F = []; ob = 0; fam = Family(m)
    m._p16preds = predicates(m)
    if not {"HASH_TABLE", "LIST", "NUM", "FLOAT"} <= set(fam.T): raise Broken("value types not found")
    byname = {}
    for r in m.registrations: byname.setdefault(r["name"], r["fn"])
    P = {}
    for pre, p in FAMILY:
        if byname.get(p) not in m.funcs: raise Broken("no registered %s" % p)
        P[pre] = byname[p]
    hashes = {f.key for f in m.funcs.values() if hash_sig(f)}
    # functions whose value is taken: hashes and comparisons used through pointers
    ops = []
    regs = {}
    for r in m.registrations: regs.setdefault(r["fn"], []).append(r["name"])
    taken = lambda f: {a[1:] for I in f.instrs() for a in I.a if isinstance(a, str) and a.startswith("@")} | {I.callee() for I in f.calls()}
    cand = [f for f in m.funcs.values() if f.blocks and not hash_sig(f) and not any("(" in s for s in f.sig[1:]) and taken(f) & hashes]
    opq = lambda g: api_opaque(g) or hash_sig(g) or cmp_sig(g) and g.key in cmps
    # comparisons: two-argument predicates passed next to a hash, or called where a hash is called
    cmps = {a for f in cand for a in taken(f) if a in m.funcs and cmp_sig(m.funcs[a])} | set(P.values())
    for f in cand:
        n = len(f.sig) - 1
        S = Sym(m, opq)
        try: s = S.summary(f, tuple(("arg", i) for i in range(n)))
        except RecursionError: continue
        acc = {(("elemaddr", a, ("const", 0)), l, fn) for a, l, fn, k in s.access if a[0] == "field" and a[2] == "SCM_HashTable.buckets"}
        acc |= {(a, l, fn) for a, l, fn, k in s.access if a[0] == "elemaddr" and a[1][0] == "field" and a[1][2] == "SCM_HashTable.buckets"}
        if not acc: continue
        hc = {(c, a, l) for c, a, l in s.calls if c in hashes and a and roots(a[0])}
        if not hc: continue
        ops.append((f, s, acc, hc))
    if not ops: raise Broken("no keyed hash table operations found")
    fams = {}; src = {}; shapes = {}; used = {}
    for f, s, acc, hc in ops:
        name = (regs.get(f.key) or [short(f.name)])[0]; loc = f.blocks[0][0].loc; ob += 1
        hs = {c for c, a, l in hc}; K = {a[0] for c, a, l in hc}
        if len(hs) > 1: F.append(Finding("two-hashes", f.name, "%s hashes its key in two different ways" % name, loc)); continue
        if len(K) != 1 or next(iter(K))[0] != "arg": F.append(Finding("other-key", f.name, "%s hashes something other than its key" % name, loc)); continue
        h = hs.pop(); k = K.pop()
        shape = set(); tables = {a[1][1] for a, l, fn in acc}
        for a, l, fn in acc:
            T = a[1][1]
            hexpr = {x for x in parts(a[2]) if isinstance(x, tuple) and x[0] == "call" and x[1] == short(m.funcs[h].name)}
            e = subst(a[2], {("field", T, "SCM_HashTable.capacity"): ("CAP",), **{x: ("HASH",) for x in hexpr}})
            if a[2][0] == "loop": continue
            shape.add(e)
            if ("HASH",) not in set(parts(e)): F.append(Finding("bucket", fn, "%s looks into a bucket that is not chosen by the hash of the key" % name, l)); continue
            if roots(e): F.append(Finding("bucket", fn, "%s chooses the bucket by more than the hash of the key and the size of the table" % name, l))
        cc = [(c, a, l) for c, a, l in s.calls if c in cmps and k in a]
        if not cc: F.append(Finding("no-equivalence", f.name, "%s never compares its key with the keys in the table" % name, loc)); continue
        for c, a, l in cc:
            o = a[1] if a[0] == k else a[0]
            if not (o[0] == "field" and o[2] == "SCM_List.data"): F.append(Finding("compares-other", f.name, "%s compares its key with something other than the key of an entry" % name, l))
        cs = {c for c, a, l in cc}
        if len(cs) > 1: F.append(Finding("two-equivalences", f.name, "%s compares keys in two different ways" % name, loc)); continue
        c = cs.pop()
        pre = next((p for p, _ in FAMILY for nm in regs.get(f.key, ()) if nm.startswith(p)), None)
        used.setdefault((h, c), []).append(name)
        fams.setdefault(pre or ("C", f.key), []).append((f, name, h, c, frozenset(shape), loc))
        src[f.key] = (h, c, name)
    # the operations of a family agree with each other and with their equivalence
    beh = {}
    def B(c):
        if c not in beh: beh[c] = fam.behaviour(c)
        return beh[c]
    H = {}
    def HT(h):
        if h not in H: H[h] = fam.hash_text(h)
        return H[h]
    for pre, l in sorted(fams.items(), key=repr):
        label = dict(FAMILY).get(pre)
        if label:
            for f, name, h, c, shape, loc in l:
                ob += 1
                if B(c) != B(P[pre]):
                    F.append(Finding("wrong-equivalence", f.name, "%s does not compare keys the way %s does" % (name, label), loc))
        ref = max(l, key=lambda x: sum(1 for y in l if HT(y[2]) == HT(x[2])))
        refs = max(l, key=lambda x: sum(1 for y in l if y[4] == x[4]))
        for f, name, h, c, shape, loc in l:
            ob += 2
            if HT(h) != HT(ref[2]): F.append(Finding("family-hash", f.name, "%s hashes keys in another way than %s" % (name, ref[1]), loc))
            if shape != refs[4]: F.append(Finding("family-bucket", f.name, "%s chooses the bucket in another way than %s" % (name, refs[1]), loc))
    done = set()
    for (h, c), names in sorted(used.items()):
        label = next((p for pre, p in FAMILY if any(n.startswith(pre) for n in names)), short(m.funcs[c].name))
        ob += agree(fam, h, c, F, names, done, label)
    # one table, one family
    by = {}
    for f in m.funcs.values():
        for I in f.calls():
            if I.callee() in src and I.a:
                t = table_source(m, f, I.a[0])
                if t: by.setdefault(t, []).append((I, src[I.callee()]))
    for t, l in sorted(by.items()):
        ob += len(l)
        ref = max(l, key=lambda x: sum(1 for y in l if HT(y[1][0]) == HT(x[1][0]) and B(y[1][1]) == B(x[1][1])))
        for I, (h, c, n) in l:
            if HT(h) != HT(ref[1][0]) or B(c) != B(ref[1][1]): F.append(Finding("mixed-families", I.fn.name, "%s is used on %s, which is otherwise used through %s" % (n, t, ref[1][2]), I.loc))
    n1 = capacity(m, F, hashes); n2, seen = chains(m, F, ops, cmps, fam)
    ob += n1 + n2 + inserts(m, F)
    return {"findings": F, "level": "other", "coverage": {"explanation": "Every keyed hash-table operation is analysed with its hash and its comparison resolved; for each value type (and each pair of types the comparison can equate) everything the hash depends on must be among what the comparison requires to be equal; all operations of a family must choose the bucket alike; search loops must look at the whole chain, removal must unlink the matching entry only.",
        "operations": sorted(n for l in fams.values() for _, n, *_ in l), "pairs": sorted("%s/%s" % (short(m.funcs[h].name), short(m.funcs[c].name)) for h, c in done), "types": len(fam.T), "tables_with_fixed_family": {t: len(l) for t, l in by.items()}, "search_loops": seen, "obligations": ob}}

def table_source(m, f, v):
    """a table that is always the same one or a part of an object: its name"""
    I = f.d(f.strip(v)) if isinstance(v, str) else None
    if I is not None and I.o in ("call", "invoke") and short(I.cname() or "") == "wrap" and I.a: return table_source(m, f, I.a[0])
    p = f.addr(v) if isinstance(v, str) else ("?",)
    if p[0].startswith("@") and p[1:] == ("*",): return m.gname(p[0][1:])
    if len(p) >= 3 and p[-1] == "*" and p[-2].startswith("SCM_") and "HashTable" not in p[-2] and p[-2] not in ("SCM.value",) and not p[-2].startswith("SCM_List."): return p[-2]
    return None

def capacity(m, F, hashes):
    """the number of buckets is fixed when the table is made"""
    n = 0
    for f in m.funcs.values():
        for I in f.instrs():
            if I.o != "store": continue
            p = f.addr(I.a[1])
            if p[-1] != "SCM_HashTable.capacity": continue
            n += 1
            r = p[0]; D = f.d(r)
            fresh = D is not None and D.o in ("call", "invoke") and short(D.cname() or "") in ("gc_alloc", "malloc", "calloc")
            if r.startswith("@") : fresh = any(J.o == "store" and f.addr(J.a[1]) == (r,) for J in f.instrs())
            frees = any(short(J.cname() or "") in ("free", "operator delete[]") for J in f.calls())
            rehash = any(J.callee() in hashes or J.f is not None and not J.callee() for J in f.calls())
            if not fresh and not frees and not rehash: F.append(Finding("capacity-changed", f.name, "the number of buckets of a table in use is changed without moving its entries", I.loc))
    return n

def chains(m, F, ops, cmps, fam):
    """search loops: the whole chain is looked at, the entry found is the matching one; removal unlinks just that"""
    inv = set()
    for f, s, acc, hc in ops:
        inv |= {c for c, a, l in s.calls if c in m.funcs} | {f.key}
    n = 0; seen = []; preds = m._p16preds; nr = nonreturning(m)
    raises = lambda I: I.o in ("call", "invoke") and (I.callee() in nr or I.callee() in m._nrbase or I.callee() in BASE_NR)
    for k in sorted(inv):
        f = m.funcs[k]
        for C in list(f.calls()):
            if not (C.callee() in cmps or not C.callee() and len(C.a) == 2 and C.t in ("i1", "i8") and isinstance(C.f, str) and C.f.startswith("$")) or len(C.a) != 2: continue
            ents = [a for a in C.a if isinstance(a, str) and f.addr(a)[-2:] == ("SCM_List.data", "*")]
            if len(ents) != 1: continue
            X = f.addr(ents[0])[:-2]                                   # the entry
            D = f.d(X[0]) if len(X) == 1 else None
            if D is None or D.o not in ("call", "invoke") or not short(D.cname() or "") == "cast": continue
            pl = f.addr(D.a[0])
            if pl[-2:] != ("SCM_List.data", "*") or len(pl) != 3: continue
            node = pl[0]; N = f.d(node)
            if N is None or N.o != "phi": continue
            n += 1; seen.append(f.name)
            ent = X[0]; me = "%%%d" % N.i; ckey = "%%%d" % C.i
            back = [(v, p) for v, p in zip(N.a, N.b) if f.dominates(f.blocks[N.bb][0], f.blocks[p][-1])]
            for v, p in back:
                if f.addr(v) != (me, "SCM_List.next", "*"):
                    F.append(Finding("chain-step", f.name, "the search goes on with something other than the next entry of the chain", f.blocks[p][-1].loc))
            inits = [v for v, p in zip(N.a, N.b) if (v, p) not in back]
            body = {b for b in range(len(f.blocks)) if f.dominates(f.blocks[N.bb][0], f.blocks[b][0])}
            # natural loop
            loop = {N.bb}; work = [p for v, p in back]
            pr = {}
            for b, ss in enumerate(f.succ):
                for t in ss: pr.setdefault(t, []).append(b)
            while work:
                b = work.pop()
                if b in loop: continue
                loop.add(b); work += pr.get(b, [])
            for found in (True, False):
                ex = ByType(f, raises); esc = []; again = []; nocmp = []
                def visit(I, st):
                    if I is C:
                        st = dict(st); st[("b", ckey)] = found; st[("t", "cmp")] = True; return st
                    if I is D: st = dict(st); st[("n", ent)] = False; st[("n", ent, "SCM_List.data", "*")] = False
                    return st
                def edge(T, kk, st):
                    t = f.succ[T.bb][kk]
                    if t == N.bb and T.bb in loop:
                        (again if st.get(("t", "cmp")) else nocmp).append((T.loc, ex.trail)); return None
                    if T.bb in loop and t not in loop:
                        (esc if st.get(("t", "cmp")) else nocmp).append((T.loc, ex.trail)); return None
                    return st
                st0 = {("n", me): False, ("n", me, "SCM_List.data", "*"): False, ("i", me, "SCM_List.data", "*", "SCM.type", "*"): fam.T["LIST"], ("n", "$0"): False}
                try: ex.run(N.bb, visit, st0, edge=edge)
                except TooMany: continue
                if nocmp: F.append(Finding("entry-skipped", f.name, "an entry of the chain can be passed over without comparing its key", nocmp[0][0], list(nocmp[0][1])[-6:]))
                if found and again: F.append(Finding("match-ignored", f.name, "the search goes on although the keys are equal", again[0][0], list(again[0][1])[-6:]))
                if not found and esc: F.append(Finding("search-ends-early", f.name, "the search ends although the keys differ and the chain goes on", esc[0][0], list(esc[0][1])[-6:]))
            unlink(m, f, C, N, ent, loop, raises, F)
    return n, sorted(set(seen))

def inserts(m, F):
    """a new first entry of a chain is followed by the whole old chain"""
    n = 0
    for f in m.funcs.values():
        for I in f.instrs():
            if I.o != "store": continue
            p = f.addr(I.a[1])
            if not (len(p) > 3 and p[-1].startswith("[") and p[-3:-1] == ("SCM_HashTable.buckets", "*")): continue
            V = f.d(f.strip(I.a[0])) if isinstance(I.a[0], str) else None
            if V is None or V.o not in ("call", "invoke") or short(V.cname() or "") != "wrap": continue
            N = f.strip(V.a[0]); D = f.d(N)
            if D is None or D.o not in ("call", "invoke") or short(D.cname() or "") not in ("make_list", "gc_alloc"): continue
            n += 1; keeps = False
            def olds(v, d=0):
                J = f.d(f.strip(v)) if isinstance(v, str) else None
                if J is not None and J.o in ("phi", "select") and d < 4:
                    for x in J.a[(1 if J.o == "select" else 0):]: yield from olds(x, d + 1)
                elif J is not None and J.o in ("call", "invoke") and short(J.cname() or "") == "cast" and isinstance(J.a[0], str): yield f.addr(J.a[0])
                elif isinstance(v, str): yield f.addr(v)
            for J in f.instrs():
                if J.o == "store" and f.addr(J.a[1]) == (N, "SCM_List.next"):
                    for o in olds(J.a[0]):
                        if o[-1] == "*" and o[:len(p)] == p or o == p + ("*",): keeps = True
                        elif o[0].startswith("%") and f.d(o[0]) is not None and f.d(o[0]).o in ("call", "invoke") and short(f.d(o[0]).cname() or "") == "cast":
                            J2 = f.d(o[0])
                            if f.addr(J2.a[0]) == p + ("*",) and len(o) > 1: F.append(Finding("insert", f.name, "a new entry is followed by only a part of the chain it is put in front of", J.loc)); keeps = True
            for J in f.instrs():
                if J.o in ("call", "invoke") and short(J.cname() or "") in ("scm_cons", "cons") : keeps = True
            if not keeps: F.append(Finding("insert", f.name, "a new entry replaces the chain instead of being put in front of it", I.loc))
    return n

def unlink(m, f, C, N, ent, loop, raises, F):
    """what is stored once the match is found"""
    me = "%%%d" % N.i
    nxt = lambda v: isinstance(v, str) and f.addr(v) == (me, "SCM_List.next", "*")
    prevs = {}
    for I in f.blocks[N.bb]:
        if I.o == "phi" and I is not N and I.t == "ptr": prevs["%%%d" % I.i] = I
    stores = []
    ex = Keep(f, raises); ex.roots = {me}; done = []
    def visit(I, st):
        if I is C: st = dict(st); st[("b", "%%%d" % C.i)] = True; st[("t", "hit")] = True; return st
        if I.o == "store" and st.get(("t", "hit")):
            p = f.addr(I.a[1])
            if p[-1:] == ("SCM_List.next",) or len(p) == 1 or p[-1].startswith("["): stores.append((I, p, dict(st))); st = dict(st); st[("t", "stored")] = True
        if I.o == "ret" and st.get(("t", "hit")): done.append((I, dict(st), ex.trail))
        return st
    def edge(T, kk, st):
        if st.get(("t", "hit")) and f.succ[T.bb][kk] == N.bb: return None
        return st
    try: ex.run(N.bb, visit, {("n", me): False, ("n", "$0"): False}, edge=edge)
    except TooMany: return
    if not stores: return
    for I, p, st in stores:
        if p[0] in prevs and p[1:] == ("SCM_List.next",):
            P = prevs[p[0]]
            if not nxt(I.a[0]): F.append(Finding("unlink", f.name, "removing an entry does not link its predecessor to its successor", I.loc))
            for v, b in zip(P.a, P.b):
                if b in loop and f.strip(v) != me: F.append(Finding("unlink", f.name, "removing an entry uses a predecessor that is not always the entry before it", I.loc))
        elif p[0] == me or p[0] == ent: continue
        elif p[-1:] != ("SCM_List.next",):
            v = I.a[0]; V = f.d(v) if isinstance(v, str) else None
            n = short(V.cname() or "") if V is not None and V.o in ("call", "invoke") else ""
            if n == "wrap" and nxt(V.a[0]) or nxt(v): continue
            if n == "scm_nil" or v is None:
                a = f.addr("%%%d" % N.i) + ("SCM_List.next", "*")
                if st.get(("n",) + a) is not True: F.append(Finding("unlink", f.name, "removing the first entry of a chain drops the rest of the chain", I.loc))
                continue
            if V is not None and V.o in ("phi", "select"): continue
            F.append(Finding("unlink", f.name, "removing the first entry of a chain does not leave the rest of the chain", I.loc))
    for I, st, trail in done:
        if not st.get(("t", "stored")): F.append(Finding("unlink", f.name, "the matching entry can be left in the chain", I.loc, list(trail)[-6:]))
