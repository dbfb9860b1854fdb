#!/usr/bin/env python3
"""mkseed.py SPEC.py: plants one bug in a scratch copy of /repo, confirms that it builds, passes the stable tests and is
exposed by its demonstration only with the change, and stores it in /verif/seeded/<id>/.
SPEC defines: id, prop, edits=[(file, old, new)], demo (C source), needs, breaks, optional cflags"""
import json, os, shutil, subprocess, sys
spec = {}; exec(open(sys.argv[1]).read(), spec)
V = "/verif"; S = "%s/seeded/%s" % (V, spec["id"]); here = V + "/tools/demo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
os.makedirs(S, exist_ok=True)
for f in ("support.h", "crypto_stub.c", "build_demo.sh"): shutil.copy(here + "/" + f, S)
open(S + "/demo.c", "w").write(spec["demo"])
open(S + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: the property holds, anything else: it is broken
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
%sbash "$D/build_demo.sh" "$T/demo" "$D/demo.c" %s|| exit 2
(cd "$T" && timeout 120 ./demo)
''' % ('export DEMO_CFLAGS="%s"\n' % spec["cflags"] if spec.get("cflags") else "", spec.get("extra", "") + " " if spec.get("extra") else ""))
json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(S + "/meta.json", "w"), indent=1)
def demo():
    p = sh("bash %s/demo.sh" % S, cwd="/repo"); return p.returncode, (p.stdout + p.stderr)[-1500:]
try:
    r0 = demo()
    for f, a, b in spec["edits"]:
        s = open("/repo/" + f).read(); assert s.count(a) == 1, "%s: %d occurrences" % (f, s.count(a)); open("/repo/" + f, "w").write(s.replace(a, b))
    open(S + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    r1 = demo()
    t = sh("bash /tmp/rt.sh") if os.path.exists("/tmp/rt.sh") else sh("bash %s/tools/rt.sh" % V)
    pids = sys.argv[2:] or [spec["prop"]]; res = []
    for p in pids:
        c = sh("python3 %s/check.py %s" % (V, p)); res.append((p, c.returncode, "\n".join(c.stdout.splitlines()[-6:])))
finally:
    sh("git -C /repo checkout -- .")
print("clean:", r0[0], "patched:", r1[0]); 
if r0[0] != 0: print(r0[1])
if r1[0] == 0: print(r1[1])
print(t.stdout.strip().splitlines()[0] if t.stdout else t.stderr[-500:])
for p, c, o in res: print(p, "exit", c); print(o)
