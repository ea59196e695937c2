#!/bin/bash
# development helper: validates seeded/<id> in a scratch copy of /repo mounted over /repo in a private namespace:
# demo passes on the unchanged tree, patch applies, builds, stable tests pass, demo fails.   plant.sh ID [JOBS]
V=$(cd "$(dirname "$0")/.." && pwd); id=$1; S=/tmp/plant.$id; rm -rf "/tmp/plant.$id"; mkdir -p $S; cp -a /repo $S/repo; cp -a $V/seeded/$id $S/demo; rm -f $S/demo/patch.diff $S/demo/meta.json; cp $V/seeded/$id/patch.diff $S/p.diff
cat > $S/in.sh <<I
mount --bind $S/repo /repo || exit 9
cd /repo; git checkout -q -- . ; bash /opt/vp/build.sh > $S/build0.log 2>&1 || { echo "base build failed"; exit 1; }
timeout 300 bash $S/demo/demo.sh > $S/demo0.log 2>&1; echo "demo on unchanged tree: \$?"
git apply $S/p.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/test.sh $S/out.json > $S/test.log 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$S/out.json')); k=[x for x in b if isinstance(b[x],list)]
st=set(b.get('passed') or b.get('stable') or b[k[0]]); p=set(o['passed']); print('stable tests', len(st), 'not passing', len(st-p), sorted(st-p)[:5])
P
timeout 300 bash $S/demo/demo.sh > $S/demo1.log 2>&1; echo "demo on patched tree: \$?"
I
unshare -Urm bash $S/in.sh; rc=$?; tail -3 $S/demo1.log; rm -rf "/tmp/plant.$id/repo"; exit $rc
