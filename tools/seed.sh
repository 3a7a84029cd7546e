#!/bin/bash
# seed.sh ID [--fast]: verify a planted bug in a private copy of /repo (mount + network namespace).
# Prints: demo on the unchanged tree, demo / stable tests / check with the patch.
set -u
ID=$1; FAST=${2:-}
S=/verif/seeded/$ID
W=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo "$W/repo"; cp -a "$S" "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
export W S PROP FAST ID
unshare -mn bash -c '
mount --bind $W/repo /repo; ip link set lo up; cd /repo
timeout 300 bash $W/demo/demo.sh >$W/demo0.log 2>&1; d0=$?
git apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
timeout 300 bash $W/demo/demo.sh >$W/demo1.log 2>&1; d1=$?
t=skipped
if [ -z "$FAST" ]; then

  bash /opt/vp/test.sh $W/out.json >$W/test.log 2>&1
  t=$(python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open("$W/out.json"))
def names(x):
    for k in ("stable","passed","pass","tests"):
        if k in x: return set(x[k])
    return set()
miss=sorted(names(b)-names(o))
print("tests ok" if not miss else "tests broken: %s" % miss[:3])
P
)
fi
cd /verif; VERIF_TIER=quick VERIF_SEED=1 timeout 900 bin/check.py $PROP --tier quick >$W/check.log 2>&1; c=$?
echo "$ID: demo unchanged=$d0 patched=$d1; $t; check $PROP exit=$c $(grep -c VIOLATION $W/check.log) $(grep -A1 VIOLATION $W/check.log | tail -1 | cut -c1-160)"
grep UNDECIDED $W/check.log | head -2 | cut -c1-300
'
[ "${KEEP:-}" ] && echo "$W" || { umount "$W/repo" 2>/dev/null; rm -r -f "$W"; }
