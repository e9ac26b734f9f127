#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : decides one property of /repo statically. See DESIGN.md."""
import sys, os, re, json, time, subprocess, tempfile, shutil, hashlib, importlib, glob
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PSCM_REPO", "/repo")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from check_api import Broken, Finding

class Ctx:
    def __init__(self, tmp, tier):
        self.tmp, self.tier = tmp, tier
        self._facts = self._hlp = self._inl = self._eng = None
        self.bc = None
    def lint(self):
        exe = os.path.join(HERE, "build", "pscmlint")
        srcs = glob.glob(os.path.join(HERE, "engine", "*"))
        if not os.path.exists(exe) or os.path.getmtime(exe) < max(os.path.getmtime(s) for s in srcs):
            r = subprocess.run(["bash", os.path.join(HERE, "engine", "build.sh"), os.path.join(HERE, "build")], capture_output=True, text=True)
            if r.returncode: raise Broken("analyser does not build: " + r.stderr[-2000:])
        return exe
    def bitcode(self):
        if self.bc: return self.bc
        srcs = sorted(glob.glob(REPO + "/src/c/**/*.cc", recursive=True)) + sorted(glob.glob(REPO + "/src/*.cc"))
        if len(srcs) < 40: raise Broken("only %d source files found" % len(srcs))
        procs, self.bc = [], []
        from concurrent.futures import ThreadPoolExecutor
        def one(s):
            o = os.path.join(self.tmp, s[len(REPO) + 1:].replace("/", "_") + ".bc")
            r = subprocess.run(["clang++-18", "-w", "-std=c++20", "-include", "limits.h", "-I", REPO + "/src/c", "-I", REPO + "/src", "-g", "-O0",
                                "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-emit-llvm", "-c", s, "-o", o], capture_output=True, text=True)
            if r.returncode: raise Broken("%s does not compile: %s" % (s, r.stderr[-1500:]))
            return o
        with ThreadPoolExecutor(8) as ex: self.bc = list(ex.map(one, srcs))
        self.nsrc = len(srcs)
        return self.bc
    def _run(self, args):
        r = subprocess.run([self.lint()] + self.bitcode() + args, capture_output=True, text=True)
        if r.returncode: raise Broken("pscmlint failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
    def _mk_facts(self):
        out = os.path.join(self.tmp, "facts.json")
        if not os.path.exists(out): self._run(["--facts=" + out])
        return out
    def facts(self):
        """SSA of every function, nothing inlined"""
        if not self._facts:
            from rules.ir import Module
            self._facts = Module(self._mk_facts())
        return self._facts
    def helpers(self):
        """SSA with functions that only structure one or two others folded into them"""
        if not self._hlp:
            from rules.ir import Module
            self._hlp = Module(self._mk_facts() + ".hlp")
        return self._hlp
    def inlined(self):
        """SSA with small helpers inlined into their callers"""
        if not self._inl:
            from rules.ir import Module
            self._inl = Module(self._mk_facts() + ".inl")
        return self._inl
    def engine(self):
        if not self._eng:
            out = os.path.join(self.tmp, "engine.json")
            cache = os.environ.get("PSCM_ENGINE_CACHE")   # development only
            if cache: 
                h = hashlib.sha256()
                for f in self.bitcode(): h.update(open(f, "rb").read())
                h.update(open(self.lint(), "rb").read())
                c = os.path.join(cache, h.hexdigest()[:24] + ".json")
                if os.path.exists(c): out = c
                else:
                    self._run(["--engine=" + out]); os.makedirs(cache, exist_ok=True); shutil.copy(out, c)
            else: self._run(["--engine=" + out])
            self._eng = json.load(open(out))
        return self._eng

def load_known():
    known = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=\{(.*?)\} (.*)$", line.rstrip("\n"))
            if m: known.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return known

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="pscm-%s-" % pid)
    try:
        ctx = Ctx(tmp, tier)
        mod = importlib.import_module("rules." + pid.lower())
        try:
            res = mod.run(ctx)
        except Broken as e:
            print("ANALYSIS-BROKEN property=%s %s" % (pid, e)); return 2
        known = load_known().get(pid, {})
        findings = res["findings"]
        ev = os.environ.get("PSCM_EVIDENCE") or os.path.join(HERE, "evidence"); os.makedirs(ev, exist_ok=True)
        new, old = [], []
        match = getattr(mod, "match_known", None) or (lambda f, known: f.key() if f.key() in known else None)
        for f in findings:
            k = match(f, known)
            (old if k else new).append((f, k))
        seen = set()
        for f, k in old:
            if k not in seen:
                seen.add(k); print("KNOWN-FINDING: property=%s %s at %s: %s" % (pid, k, f.loc, known[k]))
        rp = os.path.join(ev, "replay"); os.makedirs(rp, exist_ok=True)
        for o in glob.glob(os.path.join(rp, pid + "-*.json")): os.remove(o)
        for n, (f, _) in enumerate(new):
            path = os.path.join(rp, "%s-%d.json" % (pid, n))
            json.dump({"property": pid, "rule": f.rule, "where": f.where, "what": f.what, "location": f.loc, "path": f.path, "extra": f.extra, "key": f.key()}, open(path, "w"), indent=1)
            if n < 25:
                print("%s: [%s] %s: %s%s" % (f.loc, f.rule, f.where, f.what, ("  path: " + " -> ".join(map(str, f.path[:12]))) if f.path else ""))
        cov = dict(res["coverage"])
        cov.setdefault("source_files", getattr(ctx, "nsrc", 0))
        cov["violations"] = len(new); cov["known_findings_matched"] = len(seen)
        json.dump({"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": res.get("level", "other"), "coverage": cov, "wall_s": round(time.time() - t0, 2)},
                  open(os.path.join(ev, pid + ".json"), "w"), indent=1)
        if "--keys" in sys.argv:
            for f, _ in new: print("KEY", f.key())
        if new:
            print("VIOLATION property=%s replay=%s" % (pid, os.path.join(rp, pid + "-0.json")))
            return 1
        print("OK property=%s %s" % (pid, json.dumps({k: v for k, v in cov.items() if isinstance(v, (int, float))})))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
if __name__ == "__main__": sys.exit(main())
