#!/bin/bash
# seedrun.sh [-n] ID... : in a private copy bound over /repo, confirm each planted bug (builds, stable tests pass, demo
# distinguishes) and run its property's quick check. -n skips build, tests and demo.
W=/tmp/seedwork/${SLOT:-0}
mkdir -p $W
if [ ! -d $W/repo ]; then cp -a /repo $W/repo; else git -C $W/repo checkout -q -- . && git -C $W/repo fetch -q /repo HEAD && git -C $W/repo reset -q --hard FETCH_HEAD; fi
exec unshare -Urm bash -c '
mount --bind '$W'/repo /repo
cd /repo
skip=; if [ "$1" = -n ]; then skip=1; shift; fi
if [ -z "$skip" ]; then
  bash /opt/vp/build.sh > '$W'/b0.log 2>&1 || echo CLEAN-BUILD-FAILS
  for id in "$@"; do
    s=/verif/seeded/$id; D='$W'/demo; rm -rf '$W'/demo; mkdir $D; cp $s/* $D/; rm -f $D/patch.diff $D/meta.json
    (cd /repo; timeout 300 bash $D/demo.sh > '$W'/demo0-$id.log 2>&1) && r="demo-clean-ok" || r="DEMO-FAILS-CLEAN($?)"
    echo "$r" > '$W'/clean-$id
  done
fi
for id in "$@"; do
  s=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open(\"$s/meta.json\"))[\"property\"])")
  r="$id $prop:"
  D='$W'/demo; rm -rf '$W'/demo; mkdir $D; cp $s/* $D/; rm -f $D/patch.diff $D/meta.json
  [ -z "$skip" ] && r="$r $(cat '$W'/clean-$id)"
  git apply $s/patch.diff || { echo "$r PATCH-FAILS"; continue; }
  if [ -z "$skip" ]; then
    bash /opt/vp/build.sh > '$W'/b1.log 2>&1 || r="$r BUILD-FAILS"
    bash /opt/vp/test.sh '$W'/t.json > '$W'/t.log 2>&1
    r="$r $(python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open("'$W'/t.json"))
m=sorted(set(b["stable"])-set(o["passed"])); print("tests-ok" if not m else "TESTS-FAIL(%d) %s" % (len(m), m[:3]))
P
)"
    (cd /repo; timeout 300 bash $D/demo.sh > '$W'/demo1.log 2>&1) && r="$r DEMO-PASSES-PATCHED" || r="$r demo-patched-fails($?)"
  fi
  VERIF_REPLAYS='$W'/replays timeout 900 python3 /verif/check.py $prop > '$W'/check-$id.log 2>&1; c=$?
  grep -q "^VIOLATION property=$prop " '$W'/check-$id.log && [ $c = 1 ] && r="$r CAUGHT" || r="$r missed(exit $c)"
  git checkout -q -- .
  echo "$r" | tee -a /tmp/seedwork/results.txt
done
' x "$@"
