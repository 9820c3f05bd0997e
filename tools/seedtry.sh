#!/bin/bash
# tools/seedtry.sh ID PROPERTY: /repo holds a planted change, uncommitted. Saves it as seeded/ID/patch.diff and confirms
# that it builds, passes the stable tests, that demo.sh fails with it and passes without, and shows what the check says.
id=$1; prop=$2; d=/verif/seeded/$id
[ -f $d/demo.sh ] || { echo "no demo.sh"; exit 2; }
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 2; }
bash /opt/vp/test.sh /tmp/seedtry.json > /tmp/seedtry.log 2>&1 || tail -20 /tmp/seedtry.log
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/seedtry.json'))['passed'])
print('missing tests:', sorted(b-p)[:5], len(b-p))
P
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/seeddemo.log 2>&1); echo "demo with patch: $? (want nonzero)"; tail -3 /tmp/seeddemo.log
for p in $prop; do python3 /verif/checks/${p,,}.py | grep -v KNOWN-FINDING | tail -5; done
git -C /repo checkout -- .
bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/seeddemo.log 2>&1); echo "demo without patch: $? (want 0)"; tail -3 /tmp/seeddemo.log
