#!/usr/bin/env python3
"""check.py ID: decides property ID on the current tree of /repo (VERIF_TIER=quick or thorough)."""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + "/lib", HERE + "/checks"]
sys.dont_write_bytecode = True
from ctx import Ctx


def main():
    pid = sys.argv[1]
    ctx = Ctx(pid)
    try:
        importlib.import_module(pid.lower()).run(ctx)
        rc = ctx.finish()
    except Exception:
        traceback.print_exc()
        if ctx.viol:
            rc = ctx.finish()
        else:
            print("ERROR: the check of %s could not be completed" % pid)
            rc = 2
    sys.stdout.flush()
    sys.exit(rc)


main()
