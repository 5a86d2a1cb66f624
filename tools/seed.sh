#!/bin/bash
# seed.sh ID [PNN ...]: judge the planted bug /verif/seeded/ID in a private
# mount and process namespace, where copies stand in for /repo and /verif:
# it applies, builds, passes the stable tests, its demonstration passes without
# and fails with it; then run the given checks (default: its property's) on it.
# NOTEST=1 skips the tests.
ID=$1; shift
S=/verif/seeded/$ID
[ -f "$S/patch.diff" ] || { echo "no $S/patch.diff"; exit 2; }
W=$(mktemp -d /tmp/seed.XXXXXX); chmod 755 "$W"
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cp -a /verif "$W/verif"; cp -a "$S" "$W/demo"
rm -rf "$W/demo/patch.diff" "$W/demo/meta.json"
PROPS=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
[ -n "$NOCHECK" ] && PROPS=
cat > "$W/run.sh" <<R
mount --make-rprivate / ; mount --bind "$W/repo" /repo; mount --bind "$W/verif" /verif
cd /repo
git checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $W/demo/demo.sh >$W/clean.log 2>&1; echo "$ID demo on clean: \$?"
git apply $S/patch.diff || { echo "$ID: DOES NOT APPLY"; exit 2; }
bash /opt/vp/build.sh > $W/build.log 2>&1 || { echo "$ID: BUILD FAILS"; tail -5 $W/build.log; exit 2; }
timeout 300 bash $W/demo/demo.sh >$W/patched.log 2>&1; echo "$ID demo on patched: \$?"
tail -2 $W/patched.log
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh $W/out.json >/dev/null 2>&1
python3 /verif/tools/stable.py $W/out.json; fi
cd /verif
for p in $PROPS; do VERIF_SEED=1 timeout 900 bin/check \$p --tier quick > $W/check.log 2>&1; echo "$ID \$p exit \$?"; grep VIOLATION $W/check.log | grep "^VIOL" | wc -l; grep "^\[.*VIOLATION" $W/check.log | head -2 | cut -c1-160; done
R
unshare -m -p -f --mount-proc bash "$W/run.sh"
