#!/bin/bash
# tools/seed.sh ID PROPERTY NEEDS BREAKS [DEMO.cpp|DEMO.py|DEMO.sh]: record the change made in /tmp/wt (a copy of /repo) as a planted bug
set -e
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C ${WT:-/tmp/wt} diff > $d/patch.diff
[ -s $d/patch.diff ]
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+"/meta.json","w"),indent=1)
P
case "$5" in
*.cpp) cp $5 $d/demo.cpp
cat > $d/demo.sh <<'S'
#!/bin/bash
# builds the demonstration against /repo and runs it in a scratch directory
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
B=/repo/_build
L=$(ls $B/client/libhawktracer_client.* $B/client_utils/libhawktracer_client_utils.* $B/parser/libhawktracer_parser.* 2>/dev/null | grep -E '\.(so|a)$')
g++ -std=c++14 -g -w -include stdint.h -I/repo/lib/include -I$B/lib/include -I/repo/parser/include -I/repo/client_utils/include -I/repo "$H/demo.cpp" -o "$D/demo" \
    $L -L$B/lib -lhawktracer -Wl,-rpath,$B/lib -Wl,-rpath,$B/parser -Wl,-rpath,$B/client_utils -Wl,-rpath,$B/client -lpthread || exit 2
cd "$D" && timeout 200 ./demo
S
;;
*.sh) cp $5 $d/demo.sh;;
esac
chmod +x $d/demo.sh
