#!/bin/bash
# try_bug.sh ID [PROP...]: applies seeded/ID to /repo, runs tests, demo and the
# checks (default: the bug's property; "all": every check), undoes it.
root=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
d=$root/seeded/$id
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo not clean"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
(cd /repo && bash "$d/demo.sh") >/dev/null 2>&1; clean=$?
git -C /repo apply "$d/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
t=$(bash /opt/vp/test.sh /tmp/try.json >/dev/null 2>&1; python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); d=json.load(open('/tmp/try.json'))
p=set(d.get('passed',d.get('pass',[])) if isinstance(d,dict) else [])
print('tests-ok' if b<=p else 'TESTS-FAIL %s' % sorted(b-p)[:3])
P
)
(cd /repo && bash "$d/demo.sh") >/tmp/try.demo 2>&1; broken=$?
hits=""
ps="${*:-$prop}"; [ "$ps" = all ] && ps=$("$root/sim/target/release/sim" list)
for p in $ps; do
    out=$(cd "$root" && ./check.sh "$p" quick 2>&1); rc=$?
    if [ $rc = 1 ]; then hits="$hits $p"; [ $p = $prop ] && why=$(echo "$out" | grep -m1 'class'); 
    elif [ $rc != 0 ]; then hits="$hits $p(rc$rc)"; fi
done
echo "$id [$prop] demo clean=$clean bug=$broken $t caught by:$hits | $why"
