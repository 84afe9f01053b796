#!/bin/bash
# tools/catch.sh SEED [CHECK...] : run the checks against a planted bug
s=$1; shift
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
[ $# = 0 ] && set -- $p
git -C /repo apply /verif/seeded/$s/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for c in "$@"; do
 cd /verif && ./run.sh $c quick > /tmp/catch.$s.$c 2>&1; r=$?
 echo "$s $c exit=$r $(grep -c ^VIOLATION /tmp/catch.$s.$c) $(grep -m2 -A1 ^VIOLATION /tmp/catch.$s.$c | cut -c1-250 | tr '\n' ' ')"
done
