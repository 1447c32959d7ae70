#!/bin/bash
# tools/seed.sh ID [nocheck]: confirms a planted bug in a private copy of /repo (mounted over /repo in a private mount namespace)
# and runs the check of its property against it.
ID=$1; S=/verif/seeded/$ID; C=/tmp/seedcopy_$ID
[ -d "$S" ] || { echo "no such seed"; exit 2; }
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mkdir -p "$C" && cp -a /repo/. "$C"/
unshare -Urm bash -s "$ID" "$S" "$C" "$P" "$2" <<'I'
ID=$1; S=$2; C=$3; P=$4
mount --bind $C /repo || exit 2
[ -d /tmp/vsnap ] && mount --bind /tmp/vsnap /verif   # a snapshot of /verif, so that editing goes on
D=$(mktemp -d); cp -r $S/. $D/; find $D -name '*.diff' -delete
bash /opt/vp/build.sh >/dev/null 2>&1
cd /repo; bash $D/demo.sh >$C/d0.log 2>&1; d0=$?
git apply $S/patch.diff || { echo "$ID PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh >$C/b.log 2>&1 || { tail -5 $C/b.log; echo "$ID DOES NOT BUILD"; exit 1; }
bash /opt/vp/test.sh $C/t.json >/dev/null 2>&1
miss=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$C/t.json'))
s=b.get('passed') or b.get('stable') or b
print(' '.join(x for x in s if x not in t['passed']))")
timeout 300 bash $D/demo.sh >$C/d1.log 2>&1; d1=$?
ok=BAD; [ $d0 = 0 ] && [ $d1 != 0 ] && [ -z "$miss" ] && ok=COUNTS
echo "$ID $ok demo $d0/$d1 tests missing: '$miss'"
[ $d0 != 0 ] && tail -5 $C/d0.log
tail -2 $C/d1.log
if [ "$5" != nocheck ]; then
  cd /verif; VERIF_SEED=1 python3-vt check.py $P --tier quick >$C/c.log 2>&1; r=$?
  echo "   check $P exit $r $(grep -c 'FAILED OBL' $C/c.log) failed obligations; $(grep VIOLATION $C/c.log)"
  grep 'FAILED OBL' $C/c.log | head -3 | cut -c1-200; grep -A1 '^FAIL ' $C/c.log | head -2
  grep -E 'UNDECIDED|BOUNDED RUN NOT|PROOF NOT' $C/c.log | head -5 | cut -c1-300
fi
find $D -delete
I
find "$C" -delete
