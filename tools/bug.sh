#!/bin/bash
# bug.sh ID...: applies each planted bug in /repo, builds, runs the stable tests and its demo, and undoes it
for id in "$@"; do
  d=/verif/seeded/$id
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  if bash /opt/vp/test.sh /tmp/bug_$id.json >/tmp/bug_$id.log 2>&1; then :; fi
  r=$(python3 -c "
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/bug_$id.json'))['passed'])
print('tests ok' if s<=p else 'TESTS FAIL: %s' % sorted(s-p)[:4])")
  cp -r $d /tmp/bug_d_$id; (cd /repo && timeout 300 bash /tmp/bug_d_$id/demo.sh >/tmp/bug_$id.demo 2>&1); rc=$?
  echo "$id: $r, demo with the change: $rc $(tail -1 /tmp/bug_$id.demo | cut -c1-200)"
  git -C /repo checkout -q -- .
  rm -rf /tmp/bug_d_$id
done
bash /opt/vp/build.sh >/dev/null 2>&1
for id in "$@"; do
  (cd /repo && timeout 300 bash /verif/seeded/$id/demo.sh >/tmp/bug_$id.demo0 2>&1); rc=$?
  [ $rc = 0 ] && echo "$id: demo without the change: 0" || echo "$id: DEMO FAILS ON THE UNCHANGED TREE: $(tail -2 /tmp/bug_$id.demo0)"
done
