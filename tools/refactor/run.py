#!/usr/bin/env python3
"""run.py [name-regex] [PIDs..]: applies behaviour-preserving edits to a scratch copy of /repo and runs the checks on it: every alarm is a false alarm"""
import os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
D = os.path.dirname(os.path.abspath(__file__)); VER = os.path.dirname(os.path.dirname(D))
sys.path[:0] = [D, VER + "/tools"]
import cases, props
ids = sys.argv[2:] or [p["id"] for p in props.PROPS]
rx = re.compile(sys.argv[1] if len(sys.argv) > 1 else ".")
T = "/tmp/ref_%d" % os.getpid()
def fresh():
    shutil.rmtree(T, ignore_errors=True); os.makedirs(T)
    subprocess.check_call("git -C /repo archive HEAD src libs bindings/colibri.c bindings/colibri.h | tar x -C " + T, shell=True)
env = dict(os.environ, VERIF_REPO=T, VERIF_EVIDENCE="/tmp/ref_ev_%d" % os.getpid())
bad = 0
def one(p):
    q = subprocess.run(["timeout", "900", "python3", VER + "/check.py", p], env=env, capture_output=True, text=True)
    return p, q.returncode, q.stdout
try:
    for name, edits in cases.CASES:
        if not rx.search(name): continue
        fresh()
        for f, old, new in edits:
            s = open(T + "/" + f).read()
            if s.count(old) < 1: print("STALE", name, f, repr(old[:60])); break
            open(T + "/" + f, "w").write(s.replace(old, new, 1))
        # the first check compiles, the others use the cache
        res = [one(ids[0])]
        with ThreadPoolExecutor(7) as ex: res += list(ex.map(one, ids[1:]))
        out = [(p, c, o) for p, c, o in res if c or "INCOMPLETE" in o]
        print(name, "ok" if not out else "ALARM", flush=True)
        for p, c, o in out:
            bad += 1
            for l in o.splitlines():
                if l.startswith("  ") and "path:" not in l or l.startswith("INCOMPLETE") or c == 2: print("    ", p, c, l[:230])
finally:
    shutil.rmtree(T, ignore_errors=True); shutil.rmtree(env["VERIF_EVIDENCE"], ignore_errors=True)
print("alarms:", bad)
