#!/bin/bash
# tools/trybug.sh ID [PROPERTY...]: apply a planted bug to a fresh /tmp/wt, build + test it there is left to vcheck --bug; run the checks on it
id=$1; shift; p=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
rm -rf /tmp/wt; cp -a /repo /tmp/wt; git -C /tmp/wt checkout -q -- .; git -C /tmp/wt apply /verif/seeded/$id/patch.diff || exit 3
/verif/tools/wt.sh $p
