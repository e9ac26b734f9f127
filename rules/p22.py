"""P22: only an explicit request or an unhandled error ends the process."""
from check_api import Finding, Broken
from rules.ir import controlled
from rules.marking import Paths
ENDS = {"exit", "_exit", "_Exit", "abort", "quick_exit", "kill", "raise", "std::terminate", "killpg", "execv", "execvp", "execl", "execlp", "pthread_exit", "pthread_kill", "__assert_fail_never"}
REQUEST = {"exit", "quit", "abort", "primitive-exit", "primitive-_exit", "emergency-exit"}
MEM = {"mmap", "malloc", "calloc", "realloc", "posix_memalign", "aligned_alloc"}
STARTUP = {"main", "init_scm", "gc_init"}
def run(ctx):
    m = ctx.facts(); F = []; why = {}; nsites = 0
    builtin = {}
    for r in m.registrations: builtin.setdefault(r["fn"], set()).add(r["name"])
    taken_by_signal = set()
    for f in m.funcs.values():
        for I in f.calls():
            if (I.cname() or "") in ("signal", "atexit", "std::set_terminate", "sigaction"):
                taken_by_signal |= {a[1:] for a in I.a if isinstance(a, str) and a.startswith("@") and a[1:] in m.funcs}
    PS = {}
    def guard_reason(I):
        """does the program point lie behind a test that licenses ending the process?"""
        f = I.fn; P = PS.setdefault(f.key, Paths(f))
        for b, k in controlled(f, I.bb) or []:
            T = f.blocks[b][-1]
            if T.o != "br" or not T.a: continue
            c = f.d(T.a[0]); neg = False
            if c is not None and c.o == "xor": c = f.d(c.a[0]); neg = True
            lv = P.leaves(T.a[0])
            if any(x[0].startswith("call:") and x[0][5:] in MEM for x in lv) or any(f.d(x[0]) is not None and f.d(x[0]).o in ("call", "invoke") and (f.d(x[0]).cname() or "") in MEM for x in lv): return "memory is exhausted"
            if c is not None and c.o == "icmp" and c.p in ("eq", "ne"):
                null_edge = (0 if c.p == "eq" else 1) ^ neg
                if (c.a[1] is None or c.a[0] is None) and k == null_edge:
                    l = P.leaves(c.a[0] if c.a[1] is None else c.a[1])
                    if any(x[0].startswith("@") and m.gname(x[0][1:]) in ("g_catch_top", "g_error_key") for x in l): return "nothing handles the error"
                for v in c.a:
                    d = f.d(v)
                    if d is not None and d.o in ("call", "invoke") and (d.cname() or "") in ("strcmp", "strncmp", "memcmp") and 0 in c.a and k == null_edge:
                        for x in d.a:
                            g = m.globals.get(x[1:]) if isinstance(x, str) and x.startswith("@") else None
                            s = "".join(map(chr, (g.get("init") or {}).get("data", [])[:-1])) if g and isinstance(g.get("init"), dict) else ""
                            if s in REQUEST: return "an explicit request"
        return None
    state = {}
    def lic(key, stack=()):
        """why may this function end the process? None: it may not"""
        if key in state: return state[key]
        if key in stack: return "only from itself"
        f = m.funcs[key]
        if f.name in STARTUP: r = "start-up"
        elif key in builtin: r = "an explicit request" if builtin[key] <= REQUEST else None
        elif key in taken_by_signal: r = "fatal signal"
        elif f.name == "gc_alloc": r = None
        else:
            cs = m.callers(key)
            # API entry points nobody inside calls are requests of the host
            if not cs and not f.addrtaken: r = "the host's own request"
            elif f.addrtaken and not cs: r = None
            else:
                r = "its callers"
                for I in cs:
                    if I.fn.key == key: continue
                    if guard_reason(I): continue
                    if lic(I.fn.key, stack + (key,)) is None: r = None; state[("via", key)] = I; break
                if f.addrtaken and r: r = None
        if not stack or r is not None: state[key] = r
        return r
    sites = []
    for f in m.funcs.values():
        for I in f.calls():
            if (I.cname() or "").split("(")[0] in ENDS: sites.append(I)
    inalloc = set()
    al = {f.key for f in m.byname.get("gc_alloc", [])}
    for I in sites:
        nsites += 1; f = I.fn
        g = guard_reason(I)
        if not g and f.key not in al:
            g = lic(f.key)
        if not g:
            # inside the allocator: reached from gc_alloc only
            seen, st, ok = {f.key}, [f.key], bool(m.callers(f.key)) or f.key in al
            while st:
                x = st.pop()
                if x in al or m.funcs[x].name in STARTUP: continue
                cs = m.callers(x)
                if not cs or m.funcs[x].addrtaken: ok = False; break
                for c in cs:
                    if c.fn.key not in seen: seen.add(c.fn.key); st.append(c.fn.key)
            if ok: g = "memory is exhausted"
        if g: why["%s at %s" % (I.cname(), I.loc)] = g; continue
        via = state.get(("via", f.key))
        F.append(Finding("ends-process", I.srcfn, "%s() is reached although a handler may be installed and nothing asked for it" % I.cname(), I.loc, [via.loc, I.loc] if via else [I.loc]))
    if nsites < 4: raise Broken("only %d process-ending calls found" % nsites)
    return {"findings": F, "level": "other", "coverage": {"explanation": "Every call that ends the process must lie behind a test establishing that nothing handles the error, that memory is exhausted or that an exit was asked for, or in code only start-up or an exit builtin reaches. Control dependence and call graph of the current source.",
        "process_ending_calls": nsites, "licensed": len(why), "reasons": why}}
