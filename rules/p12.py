"""P12: interpreter bookkeeping is what it was on every normal return."""
from check_api import Finding, Broken
from rules.balance import charge, blame
def run(ctx):
    m, B, C, entry, builtin, jumps, bad, thr = charge(ctx, True)
    F = []
    for (k, g), v in sorted(bad.items()):
        f = m.funcs[k]; ch, ways = blame(m, B, k, g)
        F.append(Finding("balance", f.name, "%s is not what it was on entry when %s returns" % (B.globs[g], f.name), ch[0].loc if ch else f.file,
            ["changed at %s%s" % (I.loc, " (call of %s)" % I.cname() if I.o in ("call", "invoke") else "") for I in ch[:4]] + ["still changed when returning from %s" % w for w in ways[:4]], extra=str(v)))
    ent = [k for k in B.eff if entry(m.funcs[k])]
    touch = [k for k in B.eff if any(v != ("E", g) for g, v in B.eff[k].items()) or any(k in B.stored[g] for g in C)]
    names = sorted(B.globs[g] for g in C)
    for n in ("g_current_eval_context", "g_stack_depth", "g_catch_top", "g_lazy_catch_top", "g_wind_chain", "g_in_binder_call", "stdout", "g_parse_stack", "g_current_module"):
        if n not in names and any(m.gname(x) == n for x in B.first.globs): F.append(Finding("balance", n, "%s is changed but never put back anywhere" % n))
    if len(C) < 5: raise Broken("fewer than five temporarily changed variables found")
    return {"findings": F, "coverage": {
        "explanation": "For every variable of the whole interpreter that some operation changes temporarily (a saved value is put back, a pushed entry popped, or the value kept to be put back later) the effect of every function on it is computed symbolically, bottom-up over the call graph, on every path to a return: entry value, entry value with entries pushed or popped, popped back to a recorded level, or something else. An operation whose effect nobody can undo (called through a pointer, from outside, recursively, or an evaluating function called from several places) must leave every one of them at its entry value.",
        "variables": len(C), "functions": len(B.eff), "operations_obliged": len(ent), "functions_touching_the_variables": len(touch), "obligations": len(ent) * len(C), "tracked": names}}
