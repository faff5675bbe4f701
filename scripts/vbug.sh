#!/bin/bash
# vbug.sh ID [CHECK...]: verifies seeded/ID against /repo and runs checks against it (default: its property's)
id=$1; shift
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
checks=${*:-$prop}
cd /repo
[ -z "$(git status --short)" ] || { echo "repo dirty"; exit 1; }
export GOPROXY=off GOTOOLCHAIN=local
if [ -z "$NODEMO" ]; then
t0=$(date +%s); bash $d/demo.sh >/tmp/demo0.log 2>&1; echo "$id demo clean: $? ($(($(date +%s)-t0)) s)"
fi
git apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -- .' EXIT
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo "$id build fails"; tail /tmp/build.log; }
echo "$id tests: $(bash /opt/vp/test.sh /tmp/vb.json 2>&1 | tail -1)"
bash $d/demo.sh >/tmp/demo1.log 2>&1; echo "$id demo patched: $?"
fi
for c in $checks; do
  out=$(cd /verif && bash check.sh $c quick 2>/dev/null); rc=$?
  echo "$id $c: exit $rc $(echo "$out" | grep -a VIOLATION | head -1) $(echo "$out" | grep -a runs | head -1)"
done
