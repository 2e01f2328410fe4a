#!/bin/bash
# trybug.sh ID [check...]: in a private mount namespace with a scratch copy laid over /repo, confirm that the
# planted change builds, passes the stable tests, is shown by its demo, and see whether its check catches it.
id=$1; shift
V=$(dirname "$(dirname "$(readlink -f "$0")")"); S=$V/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=$(mktemp -d /tmp/trybug-XXXXXX)
cp -a /repo "$W/r"
cat > "$W/run.sh" <<EOF
mount --bind $W/r /repo && cd /repo || exit 9
bash /opt/vp/build.sh > $W/b0.log 2>&1 || { echo base-build-failed; exit 9; }
timeout 300 bash $S/demo.sh > $W/d0.log 2>&1; echo "demo clean: \$?"
git apply $S/patch.diff || exit 9
bash /opt/vp/build.sh > $W/b1.log 2>&1 || { echo BUILD-FAILED; tail -5 $W/b1.log; exit 9; }
timeout 300 bash $S/demo.sh > $W/d1.log 2>&1; echo "demo patched: \$?"; tail -2 $W/d1.log
bash /opt/vp/test.sh $W/t.json > $W/t.log 2>&1
python3 - <<'P'
import json
t=json.load(open('$W/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
names=b if isinstance(b,list) else b.get('stable') or b.get('passed') or b.get('tests')
print('stable failing:', [n for n in names if n not in t['passed']])
P
EOF
unshare -Urm bash "$W/run.sh"
git -C "$W/r" apply "$S/patch.diff" 2>/dev/null   # copy was patched through the bind mount already
for p in ${@:-$prop}; do
  (cd $V && VF_REPO=$W/r ./check $p > $W/c.log 2>&1; echo "check $p exit $?: $(grep -v '^VIOL' $W/c.log | tail -1 | cut -c1-300)")
done
rm -rf "$W"
