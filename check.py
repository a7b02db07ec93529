#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property on /repo's current working tree."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vp import core

CHECKS = {}
for mod in ("lang", "derive", "traits", "misuse", "features", "names", "spans", "stable"):
    try:
        m = importlib.import_module("vp.checks." + mod)
    except ModuleNotFoundError as e:
        if e.name != "vp.checks." + mod:
            raise
        continue
    CHECKS.update(m.CHECKS)

if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "setup":
        core.setup()
        sys.exit(0)
    core.run_check(sys.argv[1], CHECKS[sys.argv[1]])
