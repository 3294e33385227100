#!/bin/bash
# Development tool: seedtest.sh ID [notests]: applies seeded/ID in /repo, builds, tests, demo, check; undoes it.
i=$1; d=/verif/seeded/$i; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
[ "$2" = fast ] || { bash /opt/vp/build.sh >/tmp/sb.log 2>&1; bash $d/demo.sh >/tmp/sd0.log 2>&1; echo "$i demo without: $? (want 0)"; }
git apply $d/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || echo "DOES NOT BUILD"
if [ "$2" != fast ]; then
bash /opt/vp/test.sh /tmp/st.json >/dev/null 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/st.json'))
print('$i tests lost:',[x for x in b['stable'] if x not in t['passed']])"
fi
timeout 300 bash $d/demo.sh >/tmp/sd1.log 2>&1; echo "$i demo with: $? (want nonzero)"; tail -3 /tmp/sd1.log
cd /verif; timeout 900 python3 check.py $prop > /tmp/sc_$i.log 2>&1; echo "$i check $prop: $? (want 1)"; grep -m1 ^VIOLATION -A1 /tmp/sc_$i.log; tail -1 /tmp/sc_$i.log | cut -c1-200
git -C /repo checkout -- .; cd /repo; [ "$2" = fast ] || bash /opt/vp/build.sh >/tmp/sb.log 2>&1
