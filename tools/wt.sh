#!/bin/bash
# tools/wt.sh <property>...: run checks against the scratch copy /tmp/wt instead of /repo (development only)
export VERIF_REPO=/tmp/wt VERIF_BUILD=/tmp/wtb VERIF_OUT=/tmp/wto
cd /verif; for p in "$@"; do python3 run.py $p || echo "exit $?"; done
