#!/bin/bash
# tools/plant.sh ID [--fast]: confirms the planted change seeded/ID in a scratch copy and runs its property's check on it
set -u
ID=$1; S=/verif/seeded/$ID; C=$(mktemp -d /tmp/plant.XXXXXX)
trap 'rm -rf "$C"' EXIT
cp -a /repo "$C/repo"
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd "$C/repo" || exit 1
bash "$S/demo.sh" > "$C/d0" 2>&1 || { echo "$ID: demo fails on the clean tree"; tail -5 "$C/d0"; exit 1; }
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
for b in build test; do sed "s#/opt/vp/reports#$C/out#g; s#/repo#$C/repo#g" /opt/vp/$b.sh > "$C/$b.sh"; done
bash "$C/build.sh" > "$C/b" 2>&1 || { echo "$ID: does not build"; tail -3 "$C/b"; exit 1; }
if bash "$S/demo.sh" > "$C/d1" 2>&1; then echo "$ID: demo passes with the patch"; exit 1; fi
tail -1 "$C/d1"
cd /verif
SIM_REPO="$C/repo" python3 -m sim.check "$P" --tier quick > "$C/c" 2>&1; rc=$?
grep -E "^(VIOLATION|run seed)" "$C/c" | cut -c1-300
echo "$ID: check $P exit $rc ($(tail -1 "$C/c" | grep -oE '[0-9.]+ s ->'))"
if [ "${2:-}" != --fast ]; then
  bash "$C/test.sh" "$C/t.json" > "$C/t" 2>&1
  python3 - "$C/t.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open(sys.argv[1]))
p=t.get('passed',t.get('pass',[]))
print("stable tests failing:",[x for x in b if x not in set(p)][:5])
P
fi
