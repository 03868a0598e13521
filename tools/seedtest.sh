#!/bin/bash
# seedtest.sh ID [check ids...]: confirm a planted bug in a scratch copy (builds, stable tests pass, demo 0/nonzero),
# then (with check ids) run checks against /repo with it applied and undone straight afterwards.
ID=$1; shift
S=/verif/seeded/$ID
W=/tmp/sr
if [ "$CONFIRM" != 0 ]; then
mkdir -p /tmp/vpm
for f in env.sh build.sh test.sh; do sed -e "s#/repo#$W#g" -e "s#/opt/vp/env.sh#/tmp/vpm/env.sh#" /opt/vp/$f > /tmp/vpm/$f; done
rsync -a --delete --exclude .git --exclude target /repo/ $W/ 2>/dev/null || { mkdir -p $W; (cd /repo && tar cf - --exclude=.git --exclude=./target .) | (cd $W && tar xf -); }
[ -d $W/target ] || cp -a /repo/target $W/target
cd $W || exit 9
git init -q . 2>/dev/null
bash /tmp/vpm/build.sh >/tmp/sr.b0 2>&1 || { echo base build failed; exit 9; }
if [ "$SKIPBASE" != 1 ]; then (cd $W && timeout 300 bash $S/demo.sh >/tmp/sr.d0 2>&1); echo "demo base: $?"; fi
git apply $S/patch.diff || { echo "patch does not apply"; exit 9; }
bash /tmp/vpm/build.sh >/tmp/sr.b1 2>&1; echo "build patched: $?"
bash /tmp/vpm/test.sh /tmp/sr.out >/tmp/sr.t1 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/sr.out'))
bad=[t for t in b['stable'] if t not in o['passed']]
print('tests patched: %d stable fail'%len(bad), bad[:5])
P
(cd $W && timeout 300 bash $S/demo.sh >/tmp/sr.d1 2>&1); echo "demo patched: $?"; tail -3 /tmp/sr.d1
fi
if [ $# -gt 0 ]; then
  cd /verif
  git -C /repo apply $S/patch.diff || exit 9
  for c in "$@"; do timeout 900 python3 check.py $c >/tmp/sr.c 2>&1; echo "check $c: $?"; grep -E '^VIOLATION|^  \[' /tmp/sr.c | cut -c1-300 | head -4; done
  git -C /repo checkout -- .
fi
