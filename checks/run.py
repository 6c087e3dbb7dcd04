#!/usr/bin/env python3
"""run.py <PROPERTY> [quick|thorough]: decide one property on the current /repo sources"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import core
for _f in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props"))):
    if _f.endswith(".py") and _f[0] != "_":
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props", _f)) as _h:
            exec(compile(_h.read(), _f, "exec"), {"__name__": _f[:-3]})
if __name__ == "__main__":
    if len(sys.argv) < 2 or sys.argv[1] not in core.PROPS:
        print("usage: run.py PROPERTY; known: " + " ".join(sorted(core.PROPS)))
        sys.exit(3)
    sys.exit(core.run_prop(sys.argv[1]))
