#!/bin/bash
# tools/plant.sh ID [check...]: confirms a planted bug of seeded/ID in a scratch
# copy of /repo and runs the check of its property (or those named) against it.
ID=$1; shift
S=/verif/seeded/$ID
W=$(mktemp -d /tmp/plantXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
. /opt/vp/env.sh
cd "$W/repo" || exit 2
git checkout -q -- . 
bash "$S/demo.sh" > "$W/d0" 2>&1 || { echo "$ID: demo fails on the unchanged tree"; tail -20 "$W/d0"; exit 2; }
git apply "$S/patch.diff" || { echo "$ID: does not apply"; exit 2; }
go build ./... || { echo "$ID: does not build"; exit 2; }
go test -vet=off ./... > "$W/t" 2>&1; T=$?
if [ $T != 0 ]; then
  F=$(grep -o -- '--- FAIL: [^ ]*' "$W/t" | head -5 | tr '\n' ' '); echo "$ID: TESTS FAIL: $F $(grep '^FAIL\|panic:' "$W/t" | head -3)"; exit 3
fi
bash "$S/demo.sh" > "$W/d1" 2>&1 && { echo "$ID: demo passes with the change"; exit 4; }
echo "$ID: confirmed"
P=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
cd /verif
for p in $P; do
  VERIF_REPO="$W/repo" VERIF_SEED=${SEED:-1} timeout 900 python3 check.py $p > "$W/c" 2>&1; R=$?
  echo "$ID: check $p exit $R: $(grep -m1 VIOLATION "$W/c") $(grep -v '^KNOWN\|^OK\|VIOLATION' "$W/c" | head -2 | cut -c1-300)"
done
