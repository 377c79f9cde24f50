"""Helper to write one planted bug: an edit of /repo (made and undone here), its demonstration and its meta data."""
import json, os, subprocess
S = "/verif/seeded"
DEMO = '''#!/bin/bash
# cwd: the repository. Builds demo.cc against include/ and runs it in a scratch directory.
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demoXXXXXX)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 %s -w -I"$R/include" -I"$D" "$D/demo.cc" -o "$T/demo" %s
cd "$T"
timeout 200 ./demo
'''
def seed(id, prop, edits, needs, breaks, demo, flags="-O1 -DNDEBUG", libs="", extra=None):
    d = os.path.join(S, id); os.makedirs(d, exist_ok=True)
    assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout
    try:
        for f, old, new in edits:
            p = "/repo/include/qlmps/" + f; s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run("git -C /repo diff", shell=True, capture_output=True, text=True).stdout
        assert diff
        open(d + "/patch.diff", "w").write(diff)
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True)
    open(d + "/demo.sh", "w").write(DEMO % (flags, libs))
    open(d + "/demo.cc", "w").write(demo.lstrip())
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
