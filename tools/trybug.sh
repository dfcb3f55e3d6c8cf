#!/bin/bash
# trybug.sh ID [PROPERTY...]: confirms a planted bug and runs checks on it. Leaves /repo clean.
S=/verif/seeded/$1; shift
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
props="$*"; [ -n "$props" ] || props=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' $S/meta.json)
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$SKIPDEMO" ]; then
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "build failed on clean"; exit 1; }
D=$(mktemp -d); cp -a $S/. $D; rm -f $D/*.diff $D/meta.json
bash $D/demo.sh >/tmp/demo0.log 2>&1; echo "demo on clean tree: $? (want 0)"
fi
git apply $S/patch.diff || exit 1
if [ -z "$SKIPDEMO" ]; then
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; echo "does not build"; exit 1; }
bash $D/demo.sh >/tmp/demo1.log 2>&1; echo "demo with bug: $? (want nonzero)"; tail -3 /tmp/demo1.log
bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/out.json')); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
m=[x for x in b if x not in set(o['passed'])]
print('stable tests missing:',len(m),m[:5])
P
rm -rf $D
fi
for p in $props; do (cd /verif; timeout 900 python3 check.py $p > /tmp/check_$p.log 2>&1; echo "check $p: exit $? $(grep -c ^VIOLATION /tmp/check_$p.log) violations reported; $(tail -1 /tmp/check_$p.log)"); done
