#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import common, registry

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod, fn, level = registry.CHECKS[pid]
    c = common.Check(pid, tier, level)
    try:
        getattr(importlib.import_module("vf." + mod), fn)(c)
    except common.CheckError as e:
        print("ERROR of the check %s: %s" % (pid, e)); return 2
    except Exception:
        traceback.print_exc(); return 3
    return c.finish()

if __name__ == "__main__": sys.exit(main())
