#!/bin/bash
# usage: seedtest.sh <seed-id>...   (development aid, not used by any check)
# Verifies a planted bug in a scratch copy: applies, builds, passes the existing tests, demo flips.
W=/tmp/wt
[ -d $W/.git ] || { rm -rf /tmp/wt; cp -a /repo /tmp/wt; }
for id in "$@"; do
  S=/verif/seeded/$id
  git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD
  git -C $W apply $S/patch.diff || { echo "$id: APPLY FAILED"; continue; }
  sed "s#/repo#$W#g" /opt/vp/build.sh > /tmp/wt-build.sh
  sed "s#/repo#$W#g; s#/opt/vp/work#/tmp/wt-work#g" /opt/vp/test.sh > /tmp/wt-test.sh
  bash /tmp/wt-build.sh > /tmp/wt-build.log 2>&1 || { echo "$id: BUILD FAILED"; tail -30 /tmp/wt-build.log; continue; }
  (cd $W && timeout 300 bash $S/demo.sh > /tmp/wt-demo.log 2>&1); echo "$id: demo with bug: exit $?"; tail -3 /tmp/wt-demo.log
  if [ -z "$NOTEST" ]; then
    bash /tmp/wt-test.sh /tmp/wt-out.json > /tmp/wt-test.log 2>&1
    python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/wt-out.json'))
def tests(d):
    for k in ('stable','tests','results','passed'):
        if k in d: d=d[k]; break
    if isinstance(d,dict): return {k for k,v in d.items() if v in ('pass','passed','ok',True)}
    return set(x if isinstance(x,str) else x.get('name') for x in d if isinstance(x,str) or x.get('status') in ('pass','passed','ok'))
print("$id: failing baseline tests:", sorted(tests(b)-tests(o))[:10], len(tests(b)), len(tests(o)))
PY
  fi
done
