#!/bin/bash
# usage: seedcheck.sh SEED_DIR [--notest] [CHECKS...]   validates a planted bug on a private copy of /repo
# (bind-mounted over /repo in a private mount namespace) and runs checks against it.
SD=$(realpath "$1"); shift
NOTEST=; [ "$1" = --notest ] && { NOTEST=1; shift; }
W=$(mktemp -d /tmp/seedw.XXXXXX)
cp -a /repo "$W/repo"
export SD W NOTEST CHECKS="$*"
unshare -m bash -c '
mount --bind "$W/repo" /repo; cd /repo; git checkout -q -- .
id=$(basename "$SD")
bash "$SD/demo.sh" >"$W/d0" 2>&1; a=$?
git apply "$SD/patch.diff" || { echo "$id APPLY-FAILED"; exit 1; }
bash /opt/vp/build.sh >"$W/b" 2>&1; b=$?
bash "$SD/demo.sh" >"$W/d1" 2>&1; c=$?
t=skipped
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh "$W/o.json" >"$W/t" 2>&1
t=$(python3 -c "
import json
o=json.load(open(\"$W/o.json\")); b=set(json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"])
p=o[\"passed\"]; p=set(p) if isinstance(p,list) else p
print(\"fail:\"+str(sorted(b-p)[:6]) if isinstance(p,set) else o)
")
[ "$t" = "fail:[]" ] && t=pass
fi
echo "$id demo-clean=$a build=$b demo-patched=$c tests=$t"
[ $a != 0 ] && tail -5 "$W/d0"; [ $c = 0 ] && tail -5 "$W/d1"
for k in $CHECKS; do
  /verif/run.sh $k quick >"$W/c" 2>&1; r=$?
  echo "  $id check $k rc=$r $(grep -m1 "^VIOLATION" "$W/c" | cut -c1-150)"
done
'
rm -rf "$W"
