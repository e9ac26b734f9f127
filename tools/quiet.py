#!/usr/bin/env python3
"""quiet.py FILE [ID...]: behaviour-preserving edits ('## id c/file.cc' + '<<<' old '===' new '>>>' triples, '@ file' switches file).
Applies each to a copy of /repo's sources and runs every claimed check there; prints the checks that are not quiet. -p P05,P06 limits."""
import sys, re, os, shutil, subprocess, json, tempfile
from concurrent.futures import ThreadPoolExecutor
args = sys.argv[1:]; props = None
if "-p" in args: i = args.index("-p"); props = args[i + 1].split(","); del args[i:i + 2]
if not props: props = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
txt = open(args[0]).read(); only = set(args[1:])
blocks = re.findall(r"^## (\S+) (\S+)\n(.*?)(?=^## |\Z)", txt, re.S | re.M)
def run(b):
    bid, f, body = b
    if only and bid not in only: return None
    d = "/tmp/quiet/" + bid; shutil.rmtree(d, ignore_errors=True)
    try:
        shutil.copytree(os.environ.get("MUTSRC", "/repo") + "/src", d + "/src")
        for m in re.finditer(r"^@ (\S+)\n|^<<<\n(.*?)\n===\n(.*?)\n?>>>$", body, re.S | re.M):
            if m.group(1): f = m.group(1); continue
            p = d + "/src/" + f; s = open(p).read()
            if m.group(2) not in s: return "%s PATTERN NOT FOUND %r" % (bid, m.group(2)[:60])
            open(p, "w").write(s.replace(m.group(2), m.group(3), 1))
        out = []
        for P in props:
            r = subprocess.run(["python3", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.py"), P], env=dict(os.environ, PSCM_REPO=d, PSCM_EVIDENCE=d + "/ev", PSCM_ENGINE_CACHE=d + "/cache"), capture_output=True, text=True)
            if r.returncode: out.append("   %s rc=%d\n      %s" % (P, r.returncode, "\n      ".join(l[:300] for l in (r.stdout + r.stderr[-600:]).splitlines()[:6])))
        return "%s %s" % (bid, "quiet" if not out else "ALARM\n" + "\n".join(out))
    finally: shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(run, blocks):
        if r: print(r, flush=True)
