#!/usr/bin/env python3
"""seed.py FILE [ID...] : blocks '## ID PROP file' / '<<<' old '===' new '>>>' (more than one triple allowed: each may start with '@ file') /
'needs: ..' / 'breaks: ..' / 'demo:' ... '##end'.  Writes /verif/seeded/ID and confirms: builds, stable tests pass, demo 0 clean / !=0 patched, which checks fire."""
import sys, re, os, json, subprocess, shutil
src = open(sys.argv[1]).read(); only = set(sys.argv[2:])
R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def demo(d):
    return sh("bash %s/demo.sh" % d, cwd=R, timeout=300)
for m in re.finditer(r"^## (\S+) (P\d+) (\S+)\n(.*?)^##end$", src, re.S | re.M):
    sid, prop, f, body = m.groups()
    if only and sid not in only: continue
    d = "/verif/seeded/" + sid; os.makedirs(d, exist_ok=True)
    assert not sh("git status --porcelain", cwd=R).stdout.strip(), "repo dirty"
    try:
        for at, old, new in re.findall(r"(?:^@ (\S+)\n)?^<<<\n(.*?)\n===\n(.*?)\n?>>>$", body, re.S | re.M):
            p = R + "/src/" + (at or f); s = open(p).read()
            assert s.count(old) >= 1, (sid, "pattern not found", old)
            open(p, "w").write(s.replace(old, new, 1))
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=R).stdout)
    except AssertionError as e:
        print(e); sh("git checkout -- .", cwd=R); continue
    own = []
    fn = None
    for l in open(d + "/patch.diff"):
        if l.startswith("--- a/"): fn = l[6:].strip()
        h = re.match(r"@@ -(\d+)(?:,(\d+))?", l)
        if h: ln = int(h.group(1)); continue
        if fn and l.startswith("-") and not l.startswith("---"):
            bl = sh("git blame -s -L%d,%d HEAD -- %s" % (ln, ln, fn), cwd=R).stdout
            if "38fe113" not in bl: own.append(ln)
        if fn and l[:1] in "- " and not l.startswith("---"): ln += 1
    if own: print(sid, "NOT ORIGINAL LINES", own)
    needs = re.search(r"^needs: (.*)$", body, re.M).group(1); br = re.search(r"^breaks: (.*)$", body, re.M).group(1)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": br}, open(d + "/meta.json", "w"), indent=1)
    dm = body.split("\ndemo:\n", 1)[1]
    parts = re.split(r"^--- (\S+)\n", dm, flags=re.M)
    for n, t in zip(parts[1::2], parts[2::2]): open(d + "/" + n, "w").write(t)
    open(d + "/demo.sh", "w").write("#!/bin/bash\n" + parts[0])
    b = sh("bash /opt/vp/build.sh")
    msg = []
    if b.returncode: msg.append("BUILD FAILS " + (b.stdout + b.stderr)[-600:])
    else:
        sh("bash /opt/vp/test.sh /tmp/w/seed.json")
        base = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open("/tmp/w/seed.json"))
        miss = [x for x in base["stable"] if x not in set(t["passed"])]
        if miss: msg.append("TESTS FAIL %s" % miss[:4])
        r = demo(d); msg.append("patched demo rc=%d %s" % (r.returncode, (r.stdout + r.stderr)[-150:].replace("\n", "|")))
        if r.returncode == 0: msg.append("DEMO DOES NOT FAIL")
        c = sh("python3 check.py %s" % prop, cwd="/verif", env=dict(os.environ, PSCM_EVIDENCE="/tmp/w/sev"))
        msg.append("check rc=%d %s" % (c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l or l.startswith("  ")][:2]))
    sh("git checkout -- .", cwd=R); sh("bash /opt/vp/build.sh")
    r = demo(d)
    if r.returncode: msg.append("CLEAN DEMO FAILS rc=%d %s" % (r.returncode, (r.stdout + r.stderr)[-300:]))
    print(sid, prop, " ; ".join(msg), flush=True)
