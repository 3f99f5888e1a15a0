#!/bin/bash
# tryseed.sh ID [tier]: applies seeded/ID to /repo, runs its property's check, undoes it.
id=$1; tier=${2:-quick}
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
python3 /verif/run.py $p $tier > /tmp/try-$id.out 2> /tmp/try-$id.err; rc=$?
git -C /repo checkout -- .
echo "$id $p rc=$rc $(grep -c VIOLATION /tmp/try-$id.out)"
