#!/usr/bin/env python3
"""mutate.py FILE [PROP...] : FILE holds blocks 'PROP file' / '<<<' old '===' new '>>>' ('+PROP' = must stay quiet). Runs each check on a mutated copy."""
import sys, re, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
txt = open(sys.argv[1]).read(); only = set(sys.argv[2:])
muts = [(q, pr, f, re.findall(r"^<<<\n(.*?)\n===\n(.*?)\n?>>>$", body, re.S | re.M)) for q, pr, f, body in re.findall(r"^(\+?)(P\d+) (\S+)[^\n]*\n((?:<<<\n.*?\n===\n.*?>>>\n)+)", txt, re.S | re.M)]
def run(x):
    n, (quiet, prop, f, blocks) = x
    if only and prop not in only: return None
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree(os.environ.get("MUTSRC","/repo")+"/src", d + "/src")
        p = d + "/src/" + f; s = open(p).read()
        for old, new in blocks:
            if old not in s: return "%3d %s %s PATTERN NOT FOUND %r" % (n, prop, f, old[:50])
            s = s.replace(old, new, 1)
        open(p, "w").write(s); new = blocks[0][1]
        ev = tempfile.mkdtemp(prefix="mutev")
        r = subprocess.run(["python3", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.py"), prop], env=dict(os.environ, PSCM_REPO=d, PSCM_EVIDENCE=ev), capture_output=True, text=True)
        shutil.rmtree(ev, ignore_errors=True)
        want = 0 if quiet else 1
        lines = [l for l in r.stdout.splitlines() if not l.startswith(("KNOWN", "VIOL"))]
        return "%3d %s %-4s rc=%d %s %s | %r" % (n, "ok  " if r.returncode == want else "MISS" if not quiet else "FALSE ALARM", prop, r.returncode, f, (lines or [r.stderr[-300:]])[0][:200], new[:60])
    finally: shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(6) as ex:
    for r in ex.map(run, enumerate(muts)):
        if r: print(r, flush=True)
