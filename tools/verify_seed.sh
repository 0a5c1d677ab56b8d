#!/bin/bash
# tools/verify_seed.sh <id>...   confirm planted bugs in scratch copies of /repo (mounted over /repo in a private namespace):
# the demo passes on the unchanged tree, the patch applies and builds, all stable tests pass, the demo fails.
cd "$(dirname "$0")/.."
V=$PWD
if [ $# -gt 1 ]; then
  printf '%s\n' "$@" | xargs -P 3 -n 1 bash "$0"
  exit
fi
id=$1
S=/tmp/hext-seed-$id
trap 'rm -rf /tmp/hext-seed-'$id EXIT
mkdir -p $S
cp -a /repo $S/repo
cp -a seeded/$id $S/demo; rm -f $S/demo/*.diff $S/demo/meta.json
cat > $S/go.sh <<EOG
mount --bind $S/repo /repo || exit 9
cd /repo && git checkout -q -- . 
bash /opt/vp/build.sh > $S/build0.log 2>&1 || { echo "$id: BASE BUILD FAILED"; exit 1; }
cd /repo && timeout 300 bash $S/demo/demo.sh > $S/demo0.log 2>&1; r0=\$?
git apply --check $V/seeded/$id/patch.diff && git apply $V/seeded/$id/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/test.sh $S/out.json > $S/build1.log 2>&1 || { echo "$id: BUILD/TEST FAILED"; tail -20 $S/build1.log; exit 1; }
miss=\$(python3 - <<EOP
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$S/out.json'))
want=b['stable']
want=want if isinstance(want,list) else want['passed']
print(len(want), sorted(set(want)-set(o['passed']))[:5])
EOP
)
cd /repo && timeout 300 bash $S/demo/demo.sh > $S/demo1.log 2>&1; r1=\$?
echo "$id: demo clean=\$r0 patched=\$r1 tests(missing)=\$miss"
if [ \$r0 -ne 0 ]; then tail -5 $S/demo0.log; fi
tail -3 $S/demo1.log | cut -c1-300
EOG
unshare -Urm bash $S/go.sh
