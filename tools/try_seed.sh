#!/bin/bash
# try_seed.sh ID [demo] [tests] [check]   tries /verif/seeded/ID in a scratch copy of /repo (default: demo check)
ID=$1; shift
STEPS=${*:-demo check}
SEED=/verif/seeded/$ID
COPY=$(mktemp -d /tmp/seed-XXXXXX)
trap 'rm -rf "$COPY"' EXIT
cp -a "${SRC:-/repo}" "$COPY/repo"
git -C "$COPY/repo" checkout -q -- .
git -C "$COPY/repo" apply "$SEED/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
P=$(python3 -c "import json;print(json.load(open('$SEED/meta.json'))['property'])")
for step in $STEPS; do
  case $step in
    demo)
      mkdir "$COPY/demo"; cp -r "$SEED/." "$COPY/demo/"; rm -f "$COPY/demo/patch.diff" "$COPY/demo/meta.json"
      (cd "${SRC:-/repo}" && timeout 300 bash "$COPY/demo/demo.sh" >"$COPY/out0" 2>&1); A=$?
      (cd "$COPY/repo" && timeout 300 bash "$COPY/demo/demo.sh" >"$COPY/out1" 2>&1); B=$?
      if [ $A = 0 ] && [ $B != 0 ]; then echo "$ID: demo ok ($(tail -n 1 "$COPY/out1"))"; else echo "$ID: demo BAD clean=$A patched=$B"; tail -n 5 "$COPY/out0" "$COPY/out1"; fi;;
    tests)
      sed "s#/repo#$COPY/repo#g" /opt/vp/test.sh >"$COPY/test.sh"
      PYTHONPATH="$COPY/repo/core:$COPY/repo" bash "$COPY/test.sh" "$COPY/out.json" >/dev/null 2>&1
      python3 - "$COPY/out.json" "$ID" <<'PY'
import json, sys
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
result = json.load(open(sys.argv[1]))
passed = set(result.get('passed', []))
missing = sorted(stable - passed)
print(f'{sys.argv[2]}: tests', 'ok' if not missing else f'BAD {missing[:8]}')
PY
      ;;
    check)
      for p in ${CHECKS:-$P}; do
        (cd /verif && MC_REPO="$COPY/repo" MC_EVIDENCE="$COPY/evidence" VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check "$p" --tier quick >"$COPY/check" 2>"$COPY/err"); R=$?
        echo "$ID: check $p rc=$R $(grep -c VIOLATION "$COPY/check") violations: $(grep -m1 -A1 VIOLATION "$COPY/check" | tail -n 1) | $(tail -n 1 "$COPY/check")"
      done;;
  esac
done
