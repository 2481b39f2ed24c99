#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks" : takes the diff of /tmp/sc (edited by hand) and /tmp/demo.rs
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/sc diff > $d/patch.diff
cp /tmp/demo.rs $d/demo.rs; cp /verif/tools/demo_template.sh $d/demo.sh
python3 - "$@" > $d/meta.json <<'P'
import json,sys
print(json.dumps({"property": sys.argv[2], "needs": sys.argv[3], "what_it_breaks": sys.argv[4]}, indent=1))
P
git -C /tmp/sc checkout -q -- .
