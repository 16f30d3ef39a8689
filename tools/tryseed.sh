#!/bin/bash
# tryseed.sh ID...: verifies planted bugs: applies, builds, stable tests, demo
# without and with the patch, and which checks catch it (CHECKS="C01 C02", by
# default the property's own). Works on /repo and undoes the patch.
for ID in "$@"; do
S=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "dirty /repo"; exit 1; }
bash "$S/demo.sh" >/tmp/seed.out 2>&1; a=$?
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; continue; }
bash /opt/vp/build.sh >/tmp/seed.build 2>&1; b=$?
bash /opt/vp/test.sh /tmp/seed.test >/dev/null 2>&1
t=$(python3 -c "
import json
p=json.load(open('/tmp/seed.test'))['passed']; s=['TestFlatDirectory','TestFlatOmitPrefixStorageLayout','TestHashAndIdNTuple','TestHashedNTuple','TestNTupleOmitPrefixStorageLayout']
print(sum(any(x.endswith('/'+n) for x in p) for n in s))")
bash "$S/demo.sh" >/tmp/seed.out2 2>&1; d=$?
r=""
for c in ${CHECKS:-$P}; do
  /verif/run.sh $c ${TIER:-quick} >/tmp/seed.check 2>&1; r="$r $c=$?"
done
git checkout -q -- .
echo "$ID ($P): clean demo=$a build=$b stable=$t/5 patched demo=$d | $r | $(tail -1 /tmp/seed.out2)"
done
