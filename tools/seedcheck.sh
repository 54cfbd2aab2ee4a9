#!/bin/bash
# tools/seedcheck.sh ID [nocheck]: in a private mount namespace over a scratch copy of /repo: demo on the unchanged tree, then patch, build, tests, demo, and the property's check
id=$1
d=/verif/seeded/$id
s=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo $s/repo; mkdir $s/work
cat > $s/run.sh <<F
mount --bind $s/repo /repo && mkdir -p /opt/vp/work && mount --bind $s/work /opt/vp/work || exit 9
cd /repo
mkdir $s/demo; cp $d/* $s/demo/; rm -f $s/demo/*.diff $s/demo/meta.json
bash $s/demo/demo.sh > $s/d0.log 2>&1; echo "$id demo unchanged: \$?"
git apply $d/patch.diff || exit 9
bash /opt/vp/test.sh $s/out.json > $s/test.log 2>&1
python3 - <<P
import json
b = json.load(open('/opt/vp/BASELINE.json'))
o = json.load(open('$s/out.json'))
base = b.get('passed') or b.get('stable') or b
miss = [x for x in base if x not in o['passed']]
print('$id tests: passed', len(o['passed']), 'lost', miss)
P
timeout 300 bash $s/demo/demo.sh > $s/d1.log 2>&1; echo "$id demo patched: \$? \$(tail -1 $s/d1.log)"
if [ "$2" != nocheck ]; then
  p=\$(python3 -c "import json; print(json.load(open('$d/meta.json'))['property'])")
  cp -a /verif $s/verif; rm -rf $s/verif/seeded; mount --bind $s/verif /verif; cd /verif
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt checks/run.py \$p > $s/chk.log 2>&1; echo "$id check \$p: \$?"; grep -h VIOLATION $s/chk.log | cut -c1-300 | head -4
fi
F
unshare -m bash $s/run.sh
cp $s/chk.log /tmp/chk.$id.log 2>/dev/null; cp $s/d1.log /tmp/demo.$id.log 2>/dev/null; cp $s/d0.log /tmp/demo0.$id.log
rm -rf "$s"
