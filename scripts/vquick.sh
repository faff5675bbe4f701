#!/bin/bash
# vquick.sh ID [CHECK...]: runs checks, as last committed, against a copy of /repo with seeded/ID applied
id=$1; shift
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
t=/tmp/vq-$id v=/tmp/vqv-$id
rm -rf "/tmp/vq-$id" "/tmp/vqv-$id"
git clone -q /verif $v
git clone -q /repo $t && git -C $t apply $d/patch.diff || exit 1
export GOPROXY=off GOTOOLCHAIN=local VERIF_REPO=$t VERIF_DIR=$v
for c in ${*:-$prop}; do
  out=$(cd $v && bash check.sh $c quick 2>/tmp/vq-$id.err); rc=$?
  echo "$id $c: exit $rc $(echo "$out" | grep -a VIOLATION | head -1) $(echo "$out" | grep -a runs | head -1)"
done
rm -rf "/tmp/vq-$id" "/tmp/vqv-$id"
