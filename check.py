#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decides one property on the current tree"""
import os, sys, traceback
if "PYTHONHASHSEED" not in os.environ: os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
D = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [D + "/engine", D + "/rules"]
import lib, registry

def main():
    pid = sys.argv[1]; tier = "thorough" if "--thorough" in sys.argv else "quick"
    f, expl, assum = registry.CHECKS[pid]
    r = lib.Rule(pid, tier)
    try: lib.world().raw                       # without the program there is no answer
    except Exception as e: traceback.print_exc(); print("analysis of %s could not be started: %s" % (pid, e)); return 2
    for g in f:
        try: g(r)
        except Exception as e:
            traceback.print_exc()
            r.notes.append("not explored: %s.%s: %s" % (g.__module__, g.__name__, e))
            print("INCOMPLETE: %s.%s could not be decided: %s" % (g.__module__, g.__name__, e))
    return lib.finish(r, expl, assum)
sys.exit(main())
