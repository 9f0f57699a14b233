#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decides one property.  Exit 0: it held on
everything explored; exit 1: VIOLATION line printed; anything else: no answer."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import engine, checks
if __name__ == "__main__":
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(engine.run(pid, checks.CHECKS[pid], tier, int(os.environ.get("VERIF_SEED", "1"))))
