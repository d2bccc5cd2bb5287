#!/bin/bash
# Validate a planted bug in a private mount namespace: trybug.sh <id> [check ids...]. /tmp/seedrepo is a copy of /repo mounted over /repo.
# Prints: tests, demo result with patch (and without with CLEAN=1), and the exit of the checks given.
id=$1; shift; V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$id; R=/tmp/seedrepo
[ -d $R/.git ] || { mkdir -p $R; cp -a /repo/. $R/; }
git -C $R fetch -q /repo HEAD && git -C $R checkout -qf FETCH_HEAD
unshare -rm bash -c '
mount --bind /tmp/seedrepo /repo; cd /repo; S='$S'
T=/tmp/seeddemo.$$; mkdir -p $T; cp -r $S/. $T/; rm -f $T/*.diff $T/meta.json
if [ -n "$CLEAN" ]; then bash /opt/vp/build.sh >/tmp/trybug_build.log 2>&1 || { echo CLEAN-BUILD-FAILED; exit 1; }; timeout 300 bash $T/demo.sh > /tmp/trybug_demo0.log 2>&1; echo "demo clean: $?"; fi
git apply $S/patch.diff || { echo NO-APPLY; exit 1; }
s=$(date +%s); bash /opt/vp/test.sh /tmp/trybug_res.json > /tmp/trybug_test.log 2>&1
python3 - <<P
import json; r=json.load(open("/tmp/trybug_res.json")); b=json.load(open("/opt/vp/BASELINE.json"))
st=b.get("stable") or b.get("passed") or b.get("tests") or b
miss=[t for t in (st if isinstance(st,list) else st.get("passed",[])) if t not in r["passed"]]
print("tests: passed",len(r["passed"]),"missing",miss)
P
echo "build+test $(( $(date +%s)-s )) s"
s=$(date +%s); timeout 300 bash $T/demo.sh > /tmp/trybug_demo1.log 2>&1; echo "demo patched: $? ($(( $(date +%s)-s )) s)"
cd '$V'; for c in '"$*"'; do timeout 880 env VERIF_SEED=1 VERIF_TIER=quick python3 check.py $c > /tmp/trybug_$c.log 2>&1; echo "check $c: exit $?"; grep -m3 -E "^  \[|VIOLATION" /tmp/trybug_$c.log | cut -c1-250; done
rm -rf /tmp/seeddemo.$$
cd /repo; git checkout -q -- .'
