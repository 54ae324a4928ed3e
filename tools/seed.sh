#!/bin/bash
# seed.sh [ID...]: checks planted bugs against /repo (applies, tests, demonstrates, runs the property's check, undoes).
cd /verif/seeded || exit 2
for id in "${@:-*}"; do for d in $id; do
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
  r="$d $prop:"
  (cd /repo && bash /verif/seeded/$d/demo.sh >/tmp/seed.$d.clean 2>&1) && r="$r demo-clean-ok" || r="$r DEMO-CLEAN-FAILS"
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$r DOES NOT APPLY"; continue; }
  if bash /opt/vp/build.sh >/tmp/seed.$d.build 2>&1; then
    if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh /tmp/seed.$d.json >/dev/null 2>&1
    r="$r $(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.$d.json'))
def names(x):
    for k in ('stable','passed','tests'):
        if isinstance(x,dict) and k in x: return set(x[k])
    return set(x)
m=names(b)-names(o)
print('tests-ok' if not m else 'TESTS-FAIL %s'%list(m)[:3])
P
)"; fi
    (cd /repo && timeout 300 bash /verif/seeded/$d/demo.sh >/tmp/seed.$d.bug 2>&1) && r="$r DEMO-BUG-PASSES" || r="$r demo-bug-fails"
    s=$(date +%s)
    (cd /verif && VERIF_TIER=quick timeout 900 bash check.sh $prop quick >/tmp/seed.$d.check 2>&1); rc=$?
    r="$r check=$rc ($(( $(date +%s) - s )) s) $(grep -c "^VIOLATION property=$prop" /tmp/seed.$d.check)"
  else r="$r DOES-NOT-BUILD"; fi
  git -C /repo checkout -q -- .
  echo "$r"
done; done
