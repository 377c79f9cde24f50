#!/usr/bin/env python3
"""plant.py ID... : judge planted bugs as vcheck does: applies to /repo, touches original lines, builds, stable tests pass,
demo 0 / nonzero, and which checks catch it.  plant.py --diff ID PROPERTY: write seeded/ID/patch.diff from /repo's edits and undo them."""
import json, os, subprocess, sys
S = "/verif/seeded"
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if sys.argv[1] == "--diff":
    d = sh("git -C /repo diff").stdout
    assert d, "no change"
    os.makedirs(S + "/" + sys.argv[2], exist_ok=True)
    open(S + "/" + sys.argv[2] + "/patch.diff", "w").write(d)
    sh("git -C /repo checkout -- ."); sys.exit(0)
extra = [a for a in sys.argv[1:] if a.startswith("P") and len(a) == 3]
for i in [a for a in sys.argv[1:] if a not in extra]:
    d = S + "/" + i; meta = json.load(open(d + "/meta.json")); out = []
    assert not sh("git -C /repo status --porcelain").stdout, "repo dirty"
    r0 = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo"); out.append("demo clean rc=%d" % r0.returncode)
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode: print(i, "DOES NOT APPLY", a.stdout); continue
    try:
        b = sh("bash /opt/vp/build.sh"); out.append("build rc=%d" % b.returncode)
        t = sh("bash /opt/vp/test.sh /tmp/plant.json"); out.append(t.stdout.strip().splitlines()[-1])
        r1 = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo"); out.append("demo patched rc=%d" % r1.returncode)
        for p in [meta["property"]] + [x for x in extra if x != meta["property"]]:
            c = sh("python3 check.py " + p, cwd="/verif"); v = "VIOLATION property=%s " % p in c.stdout
            out.append("%s rc=%d %s" % (p, c.returncode, "CAUGHT" if v and c.returncode == 1 else "missed"))
            keys = [l.strip()[:110] for l in c.stdout.splitlines() if l.startswith("  [")][:2]
            out.append(" ".join(keys) if keys else c.stdout[-300:] if c.returncode == 2 else "")
    finally:
        sh("git -C /repo checkout -- .")
    ok = r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0 and " 0 failed" in t.stdout
    print(i, "COUNTS" if ok else "DOES NOT COUNT", "; ".join(out), flush=True)
    if not ok: print(r0.stdout[-800:], "----", r1.stdout[-800:], b.stdout[-1500:] if b.returncode else "")
sh("bash /opt/vp/build.sh")
