#!/bin/bash
# tools/tryseed.sh ID [notest]: applies seeded/ID/patch.diff to a scratch copy
# of /repo, runs the tests, the demonstration and the property's quick check.
S=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=$(mktemp -d /tmp/tryseed.XXXXXX)
trap 'rm -rf "$W"' EXIT
git clone -q /repo "$W/repo" || exit 1
cd "$W/repo" || exit 1
bash "$S/demo.sh" >"$W/demo0.log" 2>&1; echo "demo unchanged: $?"
git apply "$S/patch.diff" || { echo "does not apply"; exit 1; }
if [ "$2" != notest ]; then
  env PYTHONPATH="$W/repo" NUMBA_CACHE_DIR="$W/numba" MPLBACKEND=Agg CI=1 \
    PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest \
    tests -q -p no:cacheprovider --timeout=300 -n 4 2>&1 | tail -3
fi
bash "$S/demo.sh" >"$W/demo1.log" 2>&1; echo "demo patched: $?"
tail -1 "$W/demo1.log"
cd /verif; VERIF_REPO="$W/repo" /opt/venv/bin/python check.py $P quick | grep -v '^  ' | cut -c1-300; echo "check exit: ${PIPESTATUS[0]}"
