#!/bin/bash
# seedtest.sh DIR [CHECK...]: validates one planted bug (DIR holds patch.diff, demo.sh) in a scratch copy of /repo:
# builds it, runs the stable tests against it, the demo on the clean and the changed tree, then the given checks.
# Uses a private mount namespace to show the copy as /repo.  Not used by any check.
d=$(realpath "$1"); id=$(basename "$d"); shift
w=/var/tmp/camp/$id; rm -rf "$w"; mkdir -p "$w"
cp -a /repo "$w/repo"
git -C "$w/repo" apply "$d/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; rm -rf "$w"; exit 1; }
mkdir -p "$w/demo" "$w/tmp"; cp -a "$d/." "$w/demo/"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
(cd /repo && timeout 300 bash "$w/demo/demo.sh" >"$w/demo-clean.log" 2>&1); clean=$?
if [ -z "$SKIPTESTS" ]; then
unshare -Urm bash -c "mount --bind $w/repo /repo && mount --bind $w/tmp /tmp && cd /repo && bash /opt/vp/test.sh $w/out.json >$w/test.log 2>&1; timeout 300 bash $w/demo/demo.sh >$w/demo-mut.log 2>&1; echo \$? >$w/mut.rc"
else
unshare -Urm bash -c "mount --bind $w/repo /repo && mount --bind $w/tmp /tmp && cd /repo && bash /opt/vp/build.sh >$w/test.log 2>&1; timeout 300 bash $w/demo/demo.sh >$w/demo-mut.log 2>&1; echo \$? >$w/mut.rc"
fi
broke=$([ -f "$w/out.json" ] && /opt/venv/bin/python - "$w/out.json" <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json')); out=json.load(open(sys.argv[1]))
st=base.get('stable') or base.get('passed') or base.get('tests') or base
if isinstance(st,dict): st=st.get('stable') or st.get('passed') or list(st)
bad=[t for t in st if t not in set(out['passed'])]
print(len(bad), bad[:2])
P
)
echo "$id: demo clean=$clean mutated=$(cat $w/mut.rc) stable tests broken: $broke"
for c in "$@"; do
  PHILTORCH_REPO=$w/repo VERIF_SEED=${VERIF_SEED:-1} VMON_OUT=$w /verif/check.sh $c >"$w/$c.log" 2>&1; echo "$id: $c rc=$? $(grep -m1 VIOLATION $w/$c.log | cut -c1-150)"
done
[ -n "$KEEP" ] || rm -rf "$w"
