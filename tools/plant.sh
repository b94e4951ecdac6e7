#!/bin/bash
# plant.sh ID [check]: confirm the planted bug seeded/ID (builds, stable tests pass, demo 0 without / nonzero with
# the patch), then run the property's quick check on it.  /repo must be clean; it is restored at the end.
D=/verif/seeded/$1
P=${2:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
if [ "$3" != nodemo ]; then
bash /opt/vp/build.sh >/dev/null 2>&1
cp -r $D /tmp/plant.$$; (cd /repo && timeout 300 bash /tmp/plant.$$/demo.sh >/tmp/plant.$$/o 2>&1); a=$?
else mkdir -p /tmp/plant.$$; fi
git -C /repo apply $D/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .; rm -rf /tmp/plant.'$$ EXIT
if [ "$3" != nodemo ]; then
bash /opt/vp/build.sh >/tmp/plant.$$/b 2>&1 || { tail -5 /tmp/plant.$$/b; echo "BUILD FAILS"; exit 2; }
bash /opt/vp/test.sh /tmp/plant.$$/t.json >/dev/null 2>&1
m=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/plant.$$/t.json'))
print([x for x in b['stable'] if x not in set(t['passed'])])")
(cd /repo && timeout 300 bash /tmp/plant.$$/demo.sh >/tmp/plant.$$/o2 2>&1); c=$?
echo "$1: demo clean=$a patched=$c stable tests broken=$m"; tail -2 /tmp/plant.$$/o2
fi
cd /verif; for p in $P; do timeout 900 python3 check.py $p quick >/tmp/plant.$$/c; rc=$?; cut -c1-${W:-300} /tmp/plant.$$/c | head -${N:-6}; echo "$1: check $p exit $rc"; done
