#!/bin/bash
# Development aid: tools/seedtest.sh ID [--fast]: tries seeded/ID in a scratch copy of /repo.
ID=$1; D=/verif/seeded/$ID; W=$(mktemp -d /tmp/seed.XXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; R=$W/repo
git -C $R checkout -q -- . ; git -C $R apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
cp -a $D $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
sed "s#cd /repo#cd $R#" /opt/vp/env.sh > $W/env.sh
sed "s#/opt/vp/env.sh#$W/env.sh#; s#/repo/#$R/#" /opt/vp/test.sh > $W/test.sh
. $W/env.sh
go build ./... || { echo "$ID: does not build"; exit 1; }
(cd $R; timeout 300 bash $W/demo/demo.sh > $W/d1 2>&1); a=$?
(cd /repo; timeout 300 bash $W/demo/demo.sh > $W/d0 2>&1); b=$?
echo "$ID: demo unchanged=$b patched=$a"
[ $b != 0 ] && tail -30 $W/d0
[ $a = 0 ] && tail -30 $W/d1
grep -q "build failed\|setup failed" $W/d1 && { echo BUILD FAILED; tail -20 $W/d1; }
if [ "$2" != --fast ]; then
bash $W/test.sh $W/out.json >/dev/null 2>&1
python3 - $W/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
p=set(o['passed']); print('  stable missing:',[x for x in b['stable'] if x not in p][:10])
P
fi
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
for p in ${CHECK:-$P}; do
TDEX_REPO=$R /verif/bin/checker -property $p 2>&1 | grep -A3 "VIOLATION\|violat\|FAIL\|panic" | head -${LINES_MAX:-12}
done
cd /repo; git -C /repo status --short | head
