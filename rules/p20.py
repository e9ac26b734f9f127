"""P20: every builtin is registered consistently with how it will be called."""
from check_api import Finding, Broken
from rules.ir import forward

def _ty(t): return t.replace("struct ", "").replace(" ", "")
def root(f, v):
    p = f.addr(v)
    return p[0] if len(p) == 1 else None

def expr(f, v, depth=0):
    """an SSA value as int / None (null) / '$i' / '@fn' / (op, a, b) / '?'"""
    v = f.strip(v)
    if v is None or isinstance(v, int) or (isinstance(v, str) and v[0] in "$@"): return v
    I = f.d(v)
    if I is not None and I.o in ("add", "sub", "mul") and depth < 4: return (I.o, expr(f, I.a[0], depth + 1), expr(f, I.a[1], depth + 1))
    return "?"

def subst(e, f, I):
    if isinstance(e, tuple):
        a, b = subst(e[1], f, I), subst(e[2], f, I)
        if isinstance(a, int) and isinstance(b, int): return a + b if e[0] == "add" else a - b if e[0] == "sub" else a * b
        return "?" if "?" in (a, b) else (e[0], a, b)
    if isinstance(e, str) and e.startswith("$"):
        k = int(e[1:])
        return expr(f, I.a[k]) if k < len(I.a) else "?"
    return e

def effects(m, f, depth=0):
    """[(field, value)] this function stores into SCM_Function.n_args / func_ptr / generic, in terms of its own parameters"""
    c = f.__dict__.setdefault("_regfx", None)
    if c is not None: return c
    f._regfx = out = []
    for I in f.instrs():
        if I.o == "store":
            p = f.addr(I.a[1])
            if p[-1] in ("SCM_Function.n_args", "SCM_Function.func_ptr", "SCM_Function.generic"): out.append((p[-1].split(".")[1], expr(f, I.a[0])))
        elif I.o in ("call", "invoke") and I.callee() in m.funcs and depth < 4:
            g = m.funcs[I.callee()]
            if g.key == f.key: continue
            out += [(fld, subst(v, f, I)) for fld, v in effects(m, g, depth + 1)]
    f._regfx = out
    return out

def text(m, v):
    if isinstance(v, dict) and "s" in v: return v["s"]
    if isinstance(v, str) and v.startswith("@"):
        g = m.globals.get(v[1:])
        if g and isinstance(g.get("init"), dict) and "data" in g["init"]: return "".join(map(chr, g["init"]["data"][:-1]))
    return None

def registrations(m):
    """call sites that give a builtin its implementation: [(call, fn key, name or None, {field: [values]})]"""
    if hasattr(m, "_regs"): return m._regs
    out = []
    for f in m.funcs.values():
        for I in f.calls():
            g = m.funcs.get(I.callee())
            if g is None: continue
            fx = effects(m, g)
            ptrs = {v for fld, v in fx if fld == "func_ptr" and isinstance(v, str) and v.startswith("$")}
            if not ptrs: continue
            k = int(ptrs.pop()[1:])
            fn = f.strip(I.a[k]) if k < len(I.a) else None
            if not (isinstance(fn, str) and fn.startswith("@") and fn[1:] in m.funcs): continue
            vals = {}
            for fld, v in fx:
                v = subst(v, f, I)
                vals.setdefault(fld, []).append(v)
            name = next((t for t in (text(m, a) for a in I.a) if t is not None), None)
            out.append((I, fn[1:], name, vals))
    m._regs = out
    return out

def always_run(m):
    """functions every successful start-up runs, with the calls that make it so"""
    init = m.fn("init_scm")
    if init is None: raise Broken("init_scm not found")
    seen, work = {}, [(init, None)]
    while work:
        f, via = work.pop()
        if f.key in seen: continue
        seen[f.key] = via
        rets = f.rets()
        for I in f.calls():
            if I.callee() in m.funcs and rets and all(f.dominates(I, R) for R in rets): work.append((m.funcs[I.callee()], I))
    return seen

def nargs_edge(f, b, k):
    """('eq'|'ne', const) fact about an SCM_Function.n_args on edge k of block b"""
    T = f.blocks[b][-1]
    def isn(v):
        return isinstance(v, str) and f.addr(v)[-2:] == ("SCM_Function.n_args", "*")
    if T.o == "br" and T.a:
        c = f.d(T.a[0])
        if c is not None and c.o == "icmp":
            x, y = c.a[0], c.a[1]
            if isn(y): x, y = y, x
            if isn(x) and isinstance(y, int) and c.p in ("eq", "ne"): return ("eq" if (c.p == "eq") == (k == 0) else "ne", y)
    if T.o == "switch" and isn(T.a[0]) and T.cases:
        if k > 0: return ("eq", T.cases[k - 1])
    return None

def possible(f, bb):
    """values SCM_Function.n_args can have at block bb by the tests on the way; None = any"""
    if not hasattr(f, "_possible"):
        if any(nargs_edge(f, b, k) for b in range(len(f.blocks)) for k in range(len(f.succ[b]))):
            def edge(T, k, s):
                e = nargs_edge(f, T.bb, k)
                if e and e[0] == "eq": return None if s is not ANY and e[1] not in s else frozenset([e[1]])
                if e and e[0] == "ne" and s is not ANY:
                    s = s - {e[1]}
                    if not s: return None
                return s
            f._possible = forward(f, ANY, lambda I, s: s, lambda a, b: ANY if ANY in (a, b) else a | b, edge)
        else: f._possible = {}
    s = f._possible.get(bb, ANY)
    return None if s is ANY else s

ANY = "any"
def dispatch(m):
    """indirect calls of a builtin's implementation: [(call, number of arguments, n_args established or None)]"""
    out = []
    for f in m.funcs.values():
        for I in f.calls():
            if I.callee() or not isinstance(I.f, str): continue
            if f.addr(I.f)[-2:] != ("SCM_Function.func_ptr", "*"): continue
            def known(f, I, depth=0, seen=()):
                """set of n_args values that can hold here; None in it = unknown"""
                S = possible(f, I.bb)
                if S is not None: return set(S)
                if depth > 4 or f.key in seen: return {None}
                cs = m.callers(f.key)
                if not cs: return {None}
                r = set()
                for c in cs: r |= known(c.fn, c, depth + 1, seen + (f.key,))
                return r
            out.append((I, len(I.a), known(f, I)))
    return out

def run(ctx):
    m = ctx.facts(); F = []
    regs = registrations(m)
    if len(regs) < 100: raise Broken("only %d registrations found" % len(regs))
    CONV = {-1: "generic (folds its arguments two at a time)", -2: "variable-argument (takes the argument list)"}
    names, checked, unresolved = {}, 0, 0
    for I, fk, name, vals in regs:
        f = m.funcs[fk]; na = vals.get("n_args", [])
        nm = name or "?"
        ints = {v for v in na if isinstance(v, int)}
        if name is not None:
            if name in names and names[name][1] != I.loc:
                F.append(Finding("duplicate-name", nm, "is registered a second time (first at %s): one of the two implementations can never be called" % names[name][1], I.loc))
            else: names[name] = (fk, I.loc)
        if not na: F.append(Finding("no-convention", nm, "is registered without recording how many arguments it takes", I.loc)); continue
        if len(ints) != 1 or len(set(map(str, na))) != 1: unresolved += 1; continue
        n = ints.pop(); checked += 1
        ret, ps = f.sig[0], f.sig[1:]
        if n >= 0: want = ["SCM *"] * n
        elif n == -1: want = ["SCM *", "SCM *"]
        elif n == -2: want = ["SCM_List *"]
        else: F.append(Finding("unknown-convention", nm, "is registered with the calling convention %d, which nothing dispatches on" % n, I.loc)); continue
        ok = len(ps) == len(want) and all(_ty(a) == _ty(b) for a, b in zip(ps, want)) and _ty(ret) == "SCM*"
        if not ok:
            F.append(Finding("arity-mismatch", nm, "is registered as taking %s, but %s is declared as (%s) -> %s" % (("%d argument%s" % (n, "" if n == 1 else "s")) if n >= 0 else CONV[n], f.name, ", ".join(ps), ret), I.loc, [f.file + ":%d" % f.line]))
        if n == -1:
            g = vals.get("generic", [])
            if not g or all(v is None for v in g): F.append(Finding("no-initial-value", nm, "is registered as generic without the value it starts from", I.loc))
    # every dispatch agrees with the convention it has established
    disp = dispatch(m); dn = 0; covered = set()
    for I, n, ks in disp:
        for k in ks:
            if k is None: continue     # whether a convention is established at all is P23's question
            dn += 1; covered.add(k)
            want = k if k >= 0 else 2 if k == -1 else 1
            if n != want: F.append(Finding("dispatch", I.srcfn, "a builtin registered with convention %d is called with %d arguments" % (k, n), I.loc))
    if not disp: raise Broken("no call of a builtin's implementation found")
    used = {v for _, _, _, vals in regs for v in vals.get("n_args", []) if isinstance(v, int)}
    for k in sorted(used - covered):
        if any(None in ks for _, _, ks in disp): continue
        F.append(Finding("undispatched", "convention %d" % k, "builtins are registered with it but no call site handles it", disp[0][0].loc))
    # the registering function makes the builtin visible on every path
    regfns = {I.callee() for I, _, _, _ in regs}; vis = 0
    for k in sorted(regfns):
        g = m.funcs[k]; vis += 1
        rets = g.rets()
        good = False
        for c in g.calls():
            if not all(g.dominates(c, R) for R in rets): continue
            for a in c.a:
                d = g.d(g.strip(a)) if isinstance(a, str) else None
                if d is not None and d.o in ("call", "invoke") and d.callee() in m.funcs and any(_isfunc(m, g, x) for x in d.a): good = True
                if d is not None and _isfunc(m, g, a) and len(c.a) > 1: good = True
        if not good: F.append(Finding("not-installed", g.name, "creates a builtin without entering it under its name on every path", g.file + ":%d" % g.line))
    # every group is installed at start-up
    al = always_run(m); groups = {}
    for I, fk, name, vals in regs: groups.setdefault(I.fn.key, []).append((I, name))
    for k in sorted(groups):
        g = m.funcs[k]
        if k in regfns: continue       # a registering function that wraps another
        if k not in al:
            F.append(Finding("group-not-installed", g.name, "registers %d builtins (%s ...) but is not run on every start-up" % (len(groups[k]), ", ".join(str(n) for _, n in groups[k][:3])), g.file + ":%d" % g.line)); continue
        rets = g.rets()
        for I, name in groups[k]:
            if rets and not all(g.dominates(I, R) for R in rets) and not _in_loop(g, I):
                F.append(Finding("conditional-registration", str(name), "is registered only on some paths of %s" % g.name, I.loc))
    return {"findings": F, "level": "other", "coverage": {"explanation": "Every call that gives a builtin its implementation: the calling convention recorded by the registering function (evaluated through its helpers), the declared parameter and return types of the implementation, uniqueness of the name, execution of the registration on every path of its group, and execution of the group on every start-up; every indirect call of an implementation passes the number of arguments of the convention it has tested for.",
        "registrations": len(regs), "conventions_checked": checked, "unresolved_conventions": unresolved, "names": len(names), "groups": len(groups), "dispatch_sites": len(disp), "dispatch_obligations": dn, "registering_functions": vis, "samples": sorted(str(r[2]) for r in regs)[:15]}}

def _isfunc(m, g, v):
    """is v the function object being set up in g: something SCM_Function fields are stored through, or a helper's result that does it"""
    if not isinstance(v, str): return False
    s = g.strip(v)
    for I in g.instrs():
        if I.o == "store":
            p = g.addr(I.a[1])
            if p[-1].startswith("SCM_Function.") and p[0] == g.addr(s)[0]: return True
    d = g.d(s)
    return d is not None and d.o in ("call", "invoke") and d.callee() in m.funcs and any(x[0] == "func_ptr" for x in effects(m, m.funcs[d.callee()]))

def _in_loop(g, I):
    seen, st = set(), list(g.succ[I.bb])
    while st:
        b = st.pop()
        if b == I.bb: return True
        if b in seen: continue
        seen.add(b); st += g.succ[b]
    return False
