#!/bin/bash
# Nothing to install: every check builds what it needs from /repo.  Warms the build directories.
cd "$(dirname "$0")" || exit 1
mkdir -p out build evidence
python3 - <<'P'
import sys
sys.path.insert(0, "lib")
import vbuild
from checks import CHECKS
need = {}
for c in CHECKS.values():
    for t in c.get("traces", []):
        if t["variant"] != "py":
            need.setdefault(t["variant"], set()).add(t["driver"])
for v, d in need.items():
    vbuild.build(v, sorted(d))
P
