#!/bin/bash
# plant.sh ID...: confirms the planted bugs seeded/ID and runs their properties' checks on them, in
# private copies of /repo and /verif bound over the originals (unshare), all removed afterwards.
V=${V:-/verif}; S=${S:-/verif/seeded}
one() {
  id=$1; T=$(mktemp -d /tmp/plant.XXXXXX)
  prop=$(python3 -c "import json;print(json.load(open('$S/$id/meta.json'))['property'])")
  cp -a /repo "$T/repo"; cp -a $V "$T/verif"; rm -rf "$T/verif/seeded" "$T/verif/work"; mkdir "$T/demo"
  cp -a $S/$id/. "$T/demo/"; rm -f "$T/demo/"*.diff "$T/demo/meta.json"
  cp $S/$id/patch.diff "$T/patch.diff"
  cat > "$T/run.sh" <<'R'
T=$1; id=$2; prop=$3
mount --bind $T/repo /repo; mount --bind $T/verif /verif
cd /repo
out() { echo "[$id] $*"; }
if [ -z "$QUICK" ]; then
bash /opt/vp/build.sh >$T/b0 2>&1 || { out BAD clean build; exit; }
timeout 300 bash $T/demo/demo.sh >$T/d0 2>&1; rc=$?
[ $rc = 0 ] || { out "BAD demo on the clean tree: $rc"; tail -15 $T/d0; exit; }
fi
git apply $T/patch.diff || { out "BAD patch does not apply"; exit; }
bash /opt/vp/build.sh >$T/b1 2>&1 || { out BAD patched build; grep -A8 ^error $T/b1 | head -30; exit; }
bash /opt/vp/test.sh $T/t.json >$T/t1 2>&1
miss=$(python3 -c "
import json;a=json.load(open('$T/t.json'));b=json.load(open('/opt/vp/BASELINE.json'));print(' '.join(t for t in b['stable'] if t not in a['passed']))")
[ -z "$miss" ] || { out "BAD tests: $miss"; exit; }
timeout 300 bash $T/demo/demo.sh >$T/d1 2>&1; rc=$?
[ $rc = 0 ] && { out "BAD demo passes with the patch"; tail -5 $T/d1; exit; }
[ $rc = 124 ] && out "demo timed out"
tail -3 $T/d1 | sed "s/^/[$id] demo: /" | cut -c1-200
s=$(date +%s)
cd /verif; timeout 900 ./check.sh $prop >$T/c 2>&1; rc=$?
e=$(($(date +%s)-s))
if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " $T/c; then out "CAUGHT by $prop (${e} s)"; grep -A2 -m1 ^VIOLATION $T/c | cut -c1-220 | sed "s/^/[$id]   /"; else out "MISSED by $prop rc=$rc (${e} s)"; tail -5 $T/c; fi
R
  QUICK=$QUICK unshare -Urm bash "$T/run.sh" "$T" "$id" "$prop" 2>&1 | grep -v "Deny\|^$"
  rm -rf "$T"
}
for id in "$@"; do one "$id"; done
