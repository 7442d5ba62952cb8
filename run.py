#!/usr/bin/env python3
"""run.py <property id>: runs the check of one property (see DESIGN.md)
run.py setup: makes sure the tools are there
run.py replay <file>: runs the case of a replay file again on the real code"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pv import engine

CHECKS = {}
for f in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "pv"))):
    if f.startswith("props_") and f.endswith(".py"):
        m = importlib.import_module("pv." + f[:-3])
        CHECKS.update({k.upper(): v for k, v in vars(m).items() if k[0] == "c" and k[1:].isdigit() and v.__module__ == m.__name__})


def setup():
    import shutil
    for t in ("tlc", "clang++", "python3"):
        if not shutil.which(t):
            print("missing: " + t)
            return 1
    return 0


def main():
    if sys.argv[1] == "setup":
        sys.exit(setup())
    ck = engine.Check(sys.argv[1])
    try:
        CHECKS[ck.prop](ck)
        rc = ck.finish()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
