"""Shared by the properties decided by the contract engine (engine/engine.cc).

The engine derives, for every function, the conditions under which each of its dereferences, payload accesses, assertions,
divisions and indexed accesses is safe; conditions it cannot establish locally become obligations of the callers.  A condition
that reaches a root (builtin, special form, API entry) unproved is a finding.

undecided.txt lists places where the engine's abstraction is known to be too coarse to decide: those are counted as
'undecided' in the evidence, neither proved nor reported.
"""
import os, re
from check_api import Finding, Broken
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def load_undecided():
    L = []
    for line in open(os.path.join(HERE, "undecided.txt")):
        m = re.match(r"undecided: rule=(\S+) fn=(\S+)(?: what=(\S+))? max=(\d+) (.*)$", line.rstrip("\n"))
        if m: L.append((m.group(1), m.group(2), re.compile(m.group(3)) if m.group(3) else None, int(m.group(4)), m.group(5)))
        elif line.startswith("undecided:"): raise Broken("undecided.txt: " + line)
    return L

def srcfns(f):
    """every source function the obligation passes through, callee first"""
    S = []
    for p in [f["chain"]] + f["path"]:
        for seg in p.split(" <- "):
            for w in seg.split(" at "):
                w = w.strip()
                if w and not re.match(r".*:\d+$", w) and w not in S: S.append(w)
    if f["originFn"] not in S: S.append(f["originFn"])
    return S

KNOWN = None
def home(f):
    """the function the construct belongs to: accessors of the headers and helpers the list of functions does not know are looked through"""
    global KNOWN
    if KNOWN is None: KNOWN = set(open(os.path.join(HERE, "rules", "baseline_functions.txt")).read().split("\n"))
    S = srcfns(f)
    return next((x for x in S if x in KNOWN and x not in ("operator()", "__invoke")), S[0] if S else "?")

def leaf(f):
    """the source function the construct is written in"""
    m = re.match(r"(?:(?P<root>.+?) at )?(?P<fn>[^@]+?) at \S+:\d+", f["path"][0] if f["path"] else f["chain"])
    segs = (f["path"][0] if f["path"] else f["chain"]).split(" <- ")[0].split(" at ")
    return segs[-2].strip() if len(segs) >= 2 else f["originFn"]

def select(ctx, rules, pred, floor):
    e = ctx.engine()
    und = load_undecided()
    out, undecided, other = [], set(), 0
    cand = {}
    for f in e["findings"]:
        if f["rule"] not in rules: continue
        if not pred(f): other += 1; continue
        h = home(f)
        hit = next((i for i, u in enumerate(und) if u[0] == f["rule"] and u[1] == h and (u[2] is None or u[2].search(f["what"]))), None)
        if hit is not None: cand.setdefault(hit, []).append(f); continue
        out.append(f)
    for i, L in cand.items():
        # an entry stands for as many constructs as there were when it was written: one more is a new one
        if len({f["originLoc"] for f in L}) <= und[i][3]: undecided |= {(f["rule"], f["originLoc"], f["what"]) for f in L}
        else: out += L
    seen, findings = set(), []
    for f in out:
        k = (f["rule"], f["originLoc"], f["what"])
        if k in seen: continue
        seen.add(k)
        what = {"null": "%s", "kind": "%s", "ret": "%s", "inv": "%s", "assert": "%s can fail", "div": "%s not established",
                "index": "index bound not established: %s", "heapbuf": "bound not established: %s", "buffer": "bound not established: %s"}.get(f["rule"], "%s") % f["what"]
        if f["rule"] == "null": what = "not established on some path: " + what
        findings.append(Finding(f["rule"], leaf(f), what, f["originLoc"], f["path"], {"root": f["fn"]}))
    c = e["counts"]
    n = sum(c.get("obligations." + r, 0) for r in rules)
    cov = {"explanation": "every function of the interpreter is analysed once over its SSA form (numeric, nullness and type facts per path); each site yields an obligation that is discharged locally, lifted to all callers, or reported at the root where nothing establishes it",
           "functions": c.get("functions", 0), "function_analyses": c.get("analyses", 0), "roots": c.get("roots", 0), "builtins": c.get("builtins", 0),
           "obligations": n, "sites": sum(c.get("sites." + r, 0) for r in rules), "undecided": len(undecided), "reached_only_by_embedding_calls": other,
           "rules": ", ".join(rules)}
    for r in rules: cov["obligations_" + r] = c.get("obligations." + r, 0)
    if n < floor: raise Broken("only %d obligations of %s (expected at least %d)" % (n, rules, floor))
    if c.get("functions", 0) < 400 or c.get("builtins", 0) < 150: raise Broken("too little of the program was analysed: %s" % {k: c.get(k) for k in ("functions", "builtins")})
    return {"findings": findings, "coverage": cov, "level": "other"}
