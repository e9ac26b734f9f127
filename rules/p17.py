"""P17: naming, comparing and printing a value handle every value type."""
from check_api import Finding, Broken
from rules.ir import nonreturning, BASE_NR
from rules.explore import Explorer, TooMany

CONTENT = ("NUM", "FLOAT", "RATIO", "CHAR", "BOOL", "SYM", "STR")     # a fresh box is made for each use of these: identity of the box says nothing
ALIKE = ("NIL", "NONE")                                              # values without payload
OUT = {"printf", "putchar", "puts", "fputs", "fputc", "putc", "fprintf", "vprintf", "fwrite", "vfprintf", "snprintf", "sprintf"}

class ByType(Explorer):
    """conditions decided by what type a value is known to have"""
    preds = None
    def truth(self, v, st, depth=0):
        t = super().truth(v, st, depth)
        if t is not None or not isinstance(v, str): return t
        I = self.fn.d(v)
        if I is None: return None
        if I.o in ("call", "invoke") and I.callee() in self.preds and len(I.a) == 1:
            c = st.get(("i",) + self.addr(self.fn.strip(I.a[0])) + ("SCM.type", "*"))
            if c is not None: return self.preds[I.callee()].get(c)
        if I.o == "icmp" and I.p not in ("eq", "ne"):
            a, b = I.a
            if isinstance(a, str) and not isinstance(b, str): a, b = st.get(("i",) + self.addr(self.fn.strip(a))), b
            elif isinstance(b, str) and not isinstance(a, str): b = st.get(("i",) + self.addr(self.fn.strip(b)))
            if isinstance(a, int) and isinstance(b, int):
                return {"slt": a < b, "sgt": a > b, "sle": a <= b, "sge": a >= b, "ult": a < b, "ugt": a > b, "ule": a <= b, "uge": a >= b}.get(I.p)
        if I.o == "icmp" and I.p in ("eq", "ne") and all(isinstance(x, str) for x in I.a):
            a, b = (st.get(("i",) + self.addr(self.fn.strip(x))) for x in I.a)
            if a is not None and b is not None: return (a == b) == (I.p == "eq")
        return None

    def enter(self, b, frm, st):
        new = {}
        for I in self.fn.blocks[b]:
            if I.o != "phi": break
            if I.t == "ptr" and frm in I.b: new[("c", "%%%d" % I.i)] = text(self.fn, I.a[I.b.index(frm)], st)
        st = dict(super().enter(b, frm, st))
        for k, x in new.items():
            st.pop(k, None)
            if x is not None: st[k] = x
        return st

def tested(f):
    """arguments (position -> constants) whose type the function tells apart"""
    n = {}
    for I in f.instrs():
        if I.o == "icmp" and isinstance(I.a[1], int) and isinstance(I.a[0], str): k = f.addr(f.strip(I.a[0])); c = [I.a[1]]
        elif I.o == "switch": k = f.addr(f.strip(I.a[0])); c = I.cases
        else: continue
        n.setdefault(k, set()).update(c)
    return n

def predicates(m):
    """functions of one value that answer from its type alone: {key: {type: answer}}"""
    out = {}
    ByType.preds = out
    for rnd in range(3):
        for f in m.funcs.values():
            if f.key in out or len(f.sig) != 2 or f.sig[0] not in ("bool",) or f.sig[1].replace(" ", "") not in ("SCM*", "constSCM*"): continue
            if len(f.blocks) > 12: continue
            tab = {}
            for T in m.scm_types.values():
                rs = set(); ex = ByType(f)
                def visit(I, st):
                    if I.o == "ret": rs.add(ex.truth(I.a[0], st)); return None
                    return st
                try: ex.run(0, visit, {("i", "$0", "SCM.type", "*"): T, ("n", "$0"): False})
                except TooMany: rs = {None}
                if len(rs) == 1 and None not in rs: tab[T] = rs.pop()
            if len(tab) == len(m.scm_types): out[f.key] = tab
    return out

def typed(f, m, preds):
    """(position, key) of arguments by whose type the function chooses among many alternatives"""
    n = {}
    for k, s in tested(f).items():
        if len(k) == 1 and k[0].startswith("$") and f.sig[int(k[0][1:]) + 1].replace("enum ", "").endswith("SCM::Type"): n.setdefault(k, set()).update(s)
        if len(k) == 3 and k[0].startswith("$") and k[1:] == ("SCM.type", "*"): n.setdefault(k, set()).update(s)
    for I in f.calls():
        if I.callee() in preds and len(I.a) == 1 and isinstance(I.a[0], str):
            k = f.addr(f.strip(I.a[0])) + ("SCM.type", "*")
            if len(k) == 3 and k[0].startswith("$"): n.setdefault(k, set()).update(t for t, y in preds[I.callee()].items() if y)
    return {k: s for k, s in n.items() if len(s) >= 8}

def run(ctx):
    m = ctx.helpers(); F = []; ob = 0; undecided = []; seen = {"naming": [], "printing": [], "comparing": []}
    preds = predicates(m)
    nr = nonreturning(m)
    raises = lambda I: I.o in ("call", "invoke") and (I.callee() in nr or I.callee() in m._nrbase or I.callee() in BASE_NR)
    names = {v: k for k, v in m.scm_types.items()}
    writers = output_functions(m)
    for f in sorted(m.funcs.values(), key=lambda f: f.key):
        ks = typed(f, m, preds)
        if not ks: continue
        ret = f.sig[0].replace(" ", "")
        if ret in ("constchar*", "char*") and len(ks) == 1: kind = "naming"
        elif ret == "void" and f.sig[1].replace(" ", "") == "SCM*" and any(I.callee() and (I.cname() or "") in OUT for I in f.calls()) and len(tested_all(ks)) >= 12: kind = "printing"
        elif len(ks) >= 1 and [s.replace(" ", "") for s in f.sig[1:]] == ["SCM*", "SCM*"] and ret in ("bool", "SCM*"): kind = "comparing"
        else: continue
        loc = f.blocks[0][0].loc
        if kind == "naming":
            seen[kind].append(f.name); k = next(iter(ks)); got = {}
            for T in list(names) + [97]:
                rs = set(); ex = ByType(f, raises)
                def visit(I, st):
                    if I.o == "ret": rs.add(text(f, I.a[0], st, T)); return None
                    return st
                ex.run(0, visit, {("i",) + k: T}); got[T] = rs
            unknown = got[97]; by = {}
            if any(None in rs for T, rs in got.items() if T != 97): undecided.append(f.name); continue
            for T, rs in got.items():
                if T == 97: continue
                ob += 1
                if not rs: F.append(Finding("no-name", f.name, "there is no name for values of type %s" % names[T], loc)); continue
                if rs & unknown: F.append(Finding("unknown-type", f.name, "values of type %s are named as if their type were unknown" % names[T], loc)); continue
                for r in rs:
                    if r in by: F.append(Finding("same-name", f.name, "values of type %s and of type %s get the same name" % (names[T], names[by[r]]), loc))
                    by.setdefault(r, T)
        elif kind == "printing":
            seen[kind].append(f.name); k = next(iter(ks))
            for T in names:
                ob += 1; st0 = {("i",) + k: T, ("n", "$0"): False}
                done = []; silent = []; fails = []; ex = ByType(f)
                boxed = names[T] not in ("NUM", "FLOAT", "BOOL", "CHAR", "NIL", "NONE")
                if boxed: st0[("n", "$0", "SCM.value", "*")] = False
                def visit(I, st):
                    if raises(I) and "assert_fail" in (I.cname() or ""): return None      # assertions are the business of P07
                    if raises(I): fails.append((I.loc, ex.trail)); return None
                    if boxed and I.o in ("call", "invoke") and I.t == "ptr" and len(I.a) == 1 and f.strip(I.a[0]) == "$0": st = dict(st); st[("n", "%%%d" % I.i)] = False
                    if I.o == "ret": (done if st.get(("t", "out")) else silent).append(ex.trail); return None
                    if I.o in ("call", "invoke") and ((I.cname() or "") in OUT or I.callee() in writers or not I.callee()): st = dict(st); st[("t", "out")] = True
                    return st
                try: ex.run(0, visit, st0)
                except TooMany: continue
                if not done and not silent: F.append(Finding("unprintable", f.name, "printing a value of type %s always ends in an error" % names[T], loc))
                elif fails: F.append(Finding("unprintable", f.name, "printing a value of type %s can end in an error" % names[T], fails[0][0], list(fails[0][1])[-8:]))
                elif silent: F.append(Finding("prints-nothing", f.name, "a value of type %s can be printed as nothing at all" % names[T], loc, list(silent[0])[-8:]))
            # the unknown type must be told apart from every legitimate one
            ref = calls_for(f, 97, k, raises)
            for T in names:
                if ref and calls_for(f, T, k, raises) <= ref: F.append(Finding("unknown-type", f.name, "values of type %s are printed as if their type were unknown" % names[T], loc))
        else:
            if not any(len(s) >= 12 for s in ks.values()): continue
            seen[kind].append(f.name)
            for T in list(CONTENT) + list(ALIKE):
                t = m.scm_types.get(T)
                if t is None: continue
                ob += 1; ex = ByType(f, raises); bad = []; rets = set(); any_ = []
                def visit(I, st):
                    if I.o == "ret":
                        any_.append(I); rets.add(answer(f, I.a[0], st, ex, m))
                        if not (st.get(("t", 0)) and st.get(("t", 1))): bad.append((I.loc, ex.trail))
                        return None
                    if I.o in ("call", "invoke"):
                        u = {j for j in (0, 1) for a in I.a if isinstance(a, str) and f.addr(f.strip(a))[0] == "$%d" % j} if I.callee() not in preds else set()
                        if u: st = dict(st); st.update({("t", j): True for j in u})
                    if I.o == "load":
                        k = ex.addr("%%%d" % I.i)
                        if k[:1] in (("$0",), ("$1",)) and "SCM.value" in k: st = dict(st); st[("t", int(k[0][1]))] = True
                    return st
                st0 = {("n", "$0"): False, ("n", "$1"): False}
                for j in (0, 1): st0[("i", "$%d" % j, "SCM.type", "*")] = t
                # two different boxes
                cut = lambda T_, k_, s: None if same_box(f, T_, k_) else s
                try: ex.run(0, visit, st0, edge=cut)
                except TooMany: continue
                if not any_: F.append(Finding("incomparable", f.name, "comparing two values of type %s always ends in an error" % T, loc)); continue
                if T in CONTENT and bad: F.append(Finding("payload-ignored", f.name, "two values of type %s are compared without looking at what they hold" % T, bad[0][0], list(bad[0][1])[-8:]))
                if T in ALIKE and False in rets: F.append(Finding("payload-ignored", f.name, "two values of type %s are not considered the same" % T, loc))
            for T, t in m.scm_types.items():
                if T in CONTENT or T in ALIKE: continue
                ob += 1; ex = ByType(f, raises); any_ = []; rets = set()
                def visit2(I, st):
                    if I.o == "ret": any_.append(I); return None
                    return st
                st0 = {("n", "$0"): False, ("n", "$1"): False}
                for j in (0, 1): st0[("i", "$%d" % j, "SCM.type", "*")] = t
                try: ex.run(0, visit2, st0)
                except TooMany: continue
                if not any_: F.append(Finding("incomparable", f.name, "comparing two values of type %s always ends in an error" % T, loc))
    for k, l in seen.items():
        if not l: raise Broken("no %s operation over all value types found" % k)
    return {"findings": F, "level": "other", "coverage": {"explanation": "Each operation that is total over values (naming a type, printing, the equivalence predicates) is analysed once per value type with the type fixed: it must return, must not treat the type as an unknown one, must write something (printing), must give each type a name of its own (naming), and must look at the payload of both values for types whose boxes are made afresh (comparing).",
        "operations": {k: sorted(v) for k, v in seen.items()}, "types": len(names), "undecided": undecided, "obligations": ob, "type_predicates": len(preds)}}

def tested_all(ks): return set().union(*ks.values())
def same_box(f, T, k):
    """is this the edge on which both arguments are the same object"""
    if T.o != "br" or not T.a: return False
    c = f.d(T.a[0])
    return c is not None and c.o == "icmp" and c.p in ("eq", "ne") and {f.strip(x) for x in c.a if isinstance(x, str)} == {"$0", "$1"} and (c.p == "eq") == (k == 0)
def text(f, v, st, T=None):
    """the constant string a value is, or None"""
    v = f.strip(v)
    if isinstance(v, dict): return str(v)
    if isinstance(v, str) and v.startswith("@"): return v
    I = f.d(v) if isinstance(v, str) else None
    if I is not None and I.o == "phi": return st.get(("c", v))
    if I is not None and I.o == "load" and T is not None:
        # an entry of a constant table
        p = f.addr(v)
        g = f.mod.globals.get(p[0][1:]) if p[0].startswith("@") else None
        d = (g.get("init") or {}) if g else {}
        for key in ("elems", "data", "fields"):
            e = d.get(key) if isinstance(d, dict) else None
            if isinstance(e, list): return str(e[T]) if T < len(e) else None
    return None
def answer(f, v, st, ex, m):
    t = ex.truth(v, st) if f.sig[0] == "bool" else None
    if t is None and isinstance(v, str):
        I = f.d(f.strip(v))
        if I is not None and I.o in ("call", "invoke"):
            n = I.cname() or ""
            if "false" in n: return False
            if "true" in n: return True
    return t
def calls_for(f, T, k, raises):
    ex = ByType(f, lambda I: False); out = set()
    def visit(I, st):
        if I.o in ("call", "invoke"): out.add((I.cname(), str(I.a[0]) if I.a else ""))
        return st
    try: ex.run(0, visit, {("i",) + k: T, ("n", "$0"): False})
    except TooMany: pass
    return out
def output_functions(m):
    out = set(); ch = True
    while ch:
        ch = False
        for f in m.funcs.values():
            if f.key in out: continue
            if any((I.cname() or "") in OUT or I.callee() in out for I in f.calls()): out.add(f.key); ch = True
    return out
