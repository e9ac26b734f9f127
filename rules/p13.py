"""P13: escaping from an operation leaves nothing redirected when the handler runs."""
from check_api import Finding, Broken
from rules.balance import charge, blame, SETJMP
from rules.ir import threaded
def run(ctx):
    m, B, C, entry, builtin, jumps, bad, thr = charge(ctx, False)
    F = []; n = 0; pts = 0
    if not B.landed: raise Broken("no place a jump lands at was found")
    for k in sorted(B.landed):
        f = threaded(m.funcs[k]); ins = B.ins.get(k)
        if ins is None: continue
        T = B.transfer(f); seen = set()
        for b, s in ins.items():
            for I in f.blocks[b]:
                if I.o in ("call", "invoke") and (I.cname() or "") in SETJMP and not B.noland:
                    # what the jumping side relies on has been recorded here
                    for g in B.jumped:
                        n += 1
                        fl = {x for x, y in B.saved.items() if y == g} | {x for x, y in B.first.saved.items() if y == g}
                        if not any(isinstance(kk, tuple) and kk[-1] in fl and v == ("E", g) for kk, v in s.items()):
                            F.append(Finding("landing", f.name, "%s is not recorded before the jump target is set up" % B.globs[g], I.loc))
                if "!land" in s and (I.o == "ret" or I.o in ("call", "invoke") and (I.callee() is None or I.callee() in B.deep)):
                    pts += 1
                    for g in sorted(C):
                        if s[g] != ("E", g) and g not in seen:
                            seen.add(g)
                            F.append(Finding("landing", f.name, "%s is not put back after a jump to %s" % (B.globs[g], f.name), I.loc,
                                ["a throw or continuation lands in %s" % f.name, "%s at %s without %s having been put back to what it was when the jump target was set up" % ("returns" if I.o == "ret" else "runs the handler", I.loc, B.globs[g])] + (["jumping side: %s" % " <- ".join(thr[g])] if isinstance(thr.get(g), list) else []), extra=str(s[g])))
                s = T(I, s)
                if s is None: break
            if s is None: continue
    return {"findings": F, "coverage": {
        "explanation": "At every place a non-local jump lands (non-zero return of setjmp into a buffer that is jumped to), every interpreter-wide variable that operations change temporarily is taken to hold whatever the escaped operation left; before the handler is run and before the function returns each must have been put back to the value recorded when the target was set up (or, for the wind chain, been brought there by the jumping side on every path to the jump).",
        "landing_functions": len(B.landed), "variables": len(C), "points_checked": pts, "obligations": pts * len(C) + n, "restored_by_the_jumping_side": sorted(B.globs[g] for g in B.jumped), "tracked": sorted(B.globs[g] for g in C)}}
