#!/bin/bash
# bug.sh ID [tests] [checks...] : try seeded/ID in private copies of /repo and /verif (bind-mounted in a user namespace)
# prints: demo on clean tree, demo on patched tree, stable tests failing (with "tests"), and each check's verdict
id=$1; shift
S=/tmp/bug-$id
rm -rf "$S"; mkdir -p "$S"
cp -a /repo "$S/repo"; cp -a /verif "$S/verif"
cp -a /verif/seeded/$id "$S/demo"
rm -rf "$S/verif/replay" "$S/verif/evidence"
unshare -Urm bash -s -- "$id" "$@" <<X
mount --bind $S/repo /repo; mount --bind $S/verif /verif
cd /repo
id=$id
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "clean build failed"
timeout 300 bash $S/demo/demo.sh > $S/demo0.log 2>&1; echo "$id demo clean: \$?"
git apply $S/demo/patch.diff || { echo "$id PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh > $S/build.log 2>&1 || { echo "$id BUILD FAILS"; tail -5 $S/build.log; exit 1; }
timeout 300 bash $S/demo/demo.sh > $S/demo1.log 2>&1; echo "$id demo patched: \$?"
for c in $*; do
  if [ \$c = tests ]; then
    bash /opt/vp/test.sh $S/test.json > $S/test.log 2>&1
    python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$S/test.json'))
bad=sorted(set(b['stable'])-set(t['passed']))
print("$id", len(bad),"stable tests fail", bad[:5])
P
  else
    (cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 vlib/runner.py \$c > $S/\$c.log 2>&1; echo "$id \$c: exit \$?"; grep -m2 "  key:" $S/\$c.log)
  fi
done
X
[ -n "$KEEP" ] || rm -rf "$S"
