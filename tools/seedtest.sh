#!/bin/bash
# seedtest.sh ID [full]: applies seeded/ID/patch.diff to a scratch copy of /repo that is bind-mounted over /repo in a
# private mount namespace; builds, runs the stable tests (with "full"), the demo and the check of its property there.
id=$1; full=$2
S=/verif/seeded/$id
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=/tmp/seedscratch_$id
rm -rf "$W"; cp -a /repo "$W"
unshare -m bash -c "
mount --bind $W /repo
cd /repo
bash $S/demo.sh >/tmp/seedlog_$id.clean 2>&1; echo \"$id clean demo rc=\$?\"
git apply $S/patch.diff || exit 9
bash $S/demo.sh >/tmp/seedlog_$id.patched 2>&1; echo \"$id patched demo rc=\$?\"
(cd /verif && FRACKIT_NOEVID=1 python3 run.py $P > /tmp/seedlog_$id.check 2>&1; echo \"$id check $P rc=\$?\"; grep -h VIOLATION /tmp/seedlog_$id.check | head -1)
if [ -n '$full' ]; then
 bash /opt/vp/build.sh >/tmp/seedlog_$id.build 2>&1; echo \"$id build rc=\$?\"
 bash /opt/vp/test.sh /tmp/seedlog_$id.json >/tmp/seedlog_$id.test 2>&1
 python3 -c \"
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/seedlog_$id.json'))['passed']
print('$id','stable failing:', sorted(set(b)-set(t)))\"
fi
"
rm -rf "$W"
