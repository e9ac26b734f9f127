"""P21: program text is never interpreted as an output format."""
import re
from check_api import Finding, Broken
from rules.p20 import text

LIBC = {"printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2, "dprintf": 1, "asprintf": 1, "syslog": 1, "vprintf": 0, "vfprintf": 1, "vsprintf": 1, "vsnprintf": 2, "vdprintf": 1, "vasprintf": 1,
        "__printf_chk": 1, "__fprintf_chk": 2, "__sprintf_chk": 3, "__snprintf_chk": 4, "scanf": 0, "fscanf": 1, "sscanf": 1, "strftime": 2, "err": 1, "errx": 1, "warn": 0, "warnx": 0, "fwprintf": 1, "error": 2}
SPEC = re.compile(r"%(?:%|([-+ #0']*)(\*|\d+)?(?:\.(\*|\d*))?(hh|h|ll|l|z|j|t|L|q)?(.))", re.S)
SIZE = {"hh": "i32", "h": "i32", None: "i32", "l": "i64", "ll": "i64", "z": "i64", "j": "i64", "t": "i64", "q": "i64"}

def directives(fmt):
    """argument types the format consumes, or an error text"""
    out = []; i = 0
    while True:
        i = fmt.find("%", i)
        if i < 0: return out, None
        m = SPEC.match(fmt, i)
        if not m: return out, "ends in an incomplete directive"
        i = m.end()
        if m.group(0) == "%%": continue
        if m.group(2) == "*": out.append(("i32", "*"))
        if m.group(3) == "*": out.append(("i32", ".*"))
        c, ln = m.group(5), m.group(4)
        if c in "dixXuo": out.append((SIZE[ln], m.group(0)))
        elif c == "c": out.append(("i32", m.group(0)))
        elif c in "fFgGeEaA": out.append(("double" if ln != "L" else "x86_fp80", m.group(0)))
        elif c in "sp": out.append(("ptr", m.group(0)))
        elif c == "n": return out, "stores through an argument (%n)"
        elif c == "m": pass
        else: return out, "contains the unknown directive %s" % m.group(0)

def leaves(f, v, seen=None):
    """values the format can come from"""
    seen = set() if seen is None else seen
    v = f.strip(v)
    if isinstance(v, str):
        if v in seen: return set()
        seen.add(v)
    I = f.d(v)
    if I is not None and I.o == "phi": return set().union(*[leaves(f, x, seen) for x in I.a])
    if I is not None and I.o == "select": return leaves(f, I.a[1], seen) | leaves(f, I.a[2], seen)
    if isinstance(v, dict): return {("s", v["s"])} if "s" in v else {("c", repr(v))}
    return {("v", v)}

def constant(m, f, v):
    """text of a constant, True for a constant whose text is not tracked, None when it is not constant"""
    if v[0] == "s": return v[1]
    if v[0] == "c":
        return True
    x = v[1]
    if x is None: return True
    t = text(m, x)
    if t is not None and m.globals.get(x[1:], {}).get("const"): return t
    # element or field of a constant table
    p = f.addr(x) if isinstance(x, str) else ()
    if p and p[0].startswith("@") and len(p) > 1:
        g = m.globals.get(p[0][1:])
        if g and g.get("const"): return True
    return None

def struct_pointer(m, f, v):
    """name of the struct a pointer argument points to, when the source says so"""
    if not isinstance(v, str): return None
    v = f.strip(v); I = f.d(v)
    t = None
    if v.startswith("$"):
        k = int(v[1:]); t = f.sig[k + 1] if k + 1 < len(f.sig) else None
    elif I is not None and I.o in ("call", "invoke") and I.callee() in m.funcs: t = m.funcs[I.callee()].sig[0]
    elif I is not None and I.o == "load":
        p = f.addr(v)
        if len(p) > 2 and "." in p[-2]:
            S, fl = p[-2].rsplit(".", 1); x = m.field(S, fl); t = x and x.get("type")
        elif len(p) == 2 and p[0].startswith("@"): t = m.globals.get(p[0][1:], {}).get("type")
    if not t: return None
    b = t.replace("const", "").replace("struct", "").replace("*", "").strip()
    return b if t.count("*") == 1 and b in m.structs else None

def run(ctx):
    m = ctx.facts(); F = []
    # formatters: function key -> (index of the format, index of the first value or None when the values come as a va_list)
    fmtrs = {}
    for k, d in m.decls.items():
        n = d["name"].split("(")[0]
        if n in LIBC: fmtrs[k] = (LIBC[n], None if n.startswith("v") or n == "strftime" else LIBC[n] + 1)
    libc = set(fmtrs)
    done = set(); work = list(fmtrs); sites = const = values = lifted = 0; samples = []
    while work:
        k = work.pop()
        fi, vi = fmtrs[k]
        for I in m.callers(k):
            if (k, id(I)) in done: continue
            done.add((k, id(I))); sites += 1
            f = I.fn
            if fi >= len(I.a): continue
            for v in leaves(f, I.a[fi]):
                t = constant(m, f, v)
                if t is not None:
                    const += 1
                    if t is True or (m.pretty(k).split("(")[0] == "strftime"): continue
                    want, bad = directives(t)
                    if bad: F.append(Finding("bad-format", I.srcfn, "the format %r %s" % (t, bad), I.loc)); continue
                    if vi is None: continue
                    at = (I.at or "").split()
                    if isinstance(vi, tuple): got = list(vi)
                    else: got = at[vi:] if at else None
                    if got is None:
                        if want: F.append(Finding("format-without-values", I.srcfn, "the text %r is used as a format by %s, which passes it no values" % (t, m.pretty(k)), I.loc))
                        continue
                    if len(got) < len(want) or len(got) > len(want):
                        F.append(Finding("format-count", I.srcfn, "the format %r takes %d values but %d are passed" % (t, len(want), len(got)), I.loc)); continue
                    if "scanf" in m.pretty(k): continue
                    for j, ((ty, sp), g) in enumerate(zip(want, got)):
                        values += 1
                        if ty != g: F.append(Finding("format-type", I.srcfn, "directive %s of %r takes a value of type %s but is passed a %s" % (sp, t, ty, g), I.loc))
                        elif sp.endswith("s") and not isinstance(vi, tuple):
                            S = struct_pointer(m, f, I.a[vi + j])
                            if S: F.append(Finding("format-type", I.srcfn, "directive %s of %r is passed a pointer to %s" % (sp, t, S), I.loc))
                    continue
                x = v[1]
                if isinstance(x, str) and x.startswith("$"):
                    # a forwarding function: its own callers supply the format
                    pi = int(x[1:]); lifted += 1
                    w = (pi, f.nargs if f.vararg else pi + 1 + 10 ** 6)
                    if f.addrtaken and not m.callers(f.key): F.append(Finding("computed-format", I.srcfn, "a value it is given is used as an output format", I.loc)); continue
                    if not m.callers(f.key) and not f.vararg: F.append(Finding("computed-format", I.srcfn, "a text it is given is used as an output format", I.loc)); continue
                    if f.vararg and pi != f.nargs - 1: w = (pi, f.nargs)
                    if not f.vararg: w = (pi, tuple((I.at or "").split()[vi:]) if isinstance(vi, int) else vi)
                    if fmtrs.get(f.key) != w: fmtrs[f.key] = w; work.append(f.key)
                    continue
                F.append(Finding("computed-format", I.srcfn, "%s is given a format that is not a constant (%s)" % (m.pretty(k), f.describe(I.a[fi])), I.loc))
        if fmtrs[k][1] == "none": pass
    repo = sorted(m.funcs[k].name for k in fmtrs if k in m.funcs)
    if sites < 200: raise Broken("only %d formatted output calls found" % sites)
    return {"findings": F, "level": "other", "coverage": {"explanation": "Every formatted output call, libc's and the repository's own forwarding functions (found by following the format parameter): the format must be a constant on every path, and its directives must agree in number, size and kind with the values passed.",
        "formatted_calls": sites, "constant_formats": const, "values_checked": values, "forwarding_functions": len(repo), "forwarders": repo}}
