#!/bin/bash
# seedrun.sh id... : run the check of its property against each seed (scratch copy)
one(){ id=$1; d=$(mktemp -d /tmp/sr.XXXX); cp -a /repo $d/r; (cd $d/r && git apply /verif/seeded/$id/patch.diff) || echo "$id NOAPPLY"
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
cd /verif; out=$(timeout 900 python3 -W ignore -m gcv.check $p $d/r 2>&1); echo "$id $p rc=$? $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep -v '^property' | head -1 | cut -c1-${W:-160})"; rm -rf $d; }
export -f one
printf '%s\n' "$@" | xargs -P 7 -I{} bash -c 'one {}'
