#!/bin/bash
# usage: seedrun.sh ID [PROP...] : runs the quick checks of a property with the planted bug applied to /repo
id=$1; shift; d=/verif/seeded/$id
p="$*"; [ "$p" ] || p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || exit 3
for x in $p; do timeout 900 python3 /verif/bin/check.py --property $x --no-evidence >/tmp/seedrun.log 2>&1; echo "$id $x exit=$? $(grep -m1 VIOLATION /tmp/seedrun.log | cut -c1-160)"; done
git -C /repo checkout -q -- .
