#!/bin/bash
# plant.sh ID [tier]: is seeded/ID a fair planted bug, and does its property's check catch it?
ID=$1; TIER=${2:-quick}; D=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 2; }
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
rm -rf /tmp/pl-demo-$ID; mkdir /tmp/pl-demo-$ID; cp $D/* /tmp/pl-demo-$ID/; rm -f /tmp/pl-demo-$ID/*.diff /tmp/pl-demo-$ID/meta.json
if [ -z "$SKIP" ]; then
  (cd /repo && bash /tmp/pl-demo-$ID/demo.sh >/tmp/pl.out 2>&1); a=$?; echo "demo on clean tree: $a"; [ $a = 0 ] || tail -5 /tmp/pl.out
fi
git -C /repo apply $D/patch.diff || exit 2
if [ -z "$SKIP" ]; then
  bash /opt/vp/build.sh >/tmp/pl.b 2>&1 || { echo BUILD FAILS; tail -20 /tmp/pl.b; exit 2; }
  bash /opt/vp/test.sh /tmp/pl.json >/tmp/pl.t 2>&1
  python3 -c "import json;t=json.load(open('/tmp/pl.json'));print('tests:',len(t['passed']),'passed',t['failed'])"
  (cd /repo && bash /tmp/pl-demo-$ID/demo.sh >/tmp/pl.out 2>&1); a=$?; echo "demo on patched tree: $a"; tail -2 /tmp/pl.out
fi
rm -rf /tmp/pl-demo-$ID
(cd /verif && VERIF_SEED=1 bash check.sh $P $TIER 2>&1 | tail -4)
