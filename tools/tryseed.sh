#!/bin/bash
# tryseed.sh ID [CHECK...]: in a scratch copy of /repo, confirm a planted bug (tests pass, demo passes before and
# fails after) and run checks against it. Without CHECK, the check of its own property.
set -u
ID=$1; shift
S=/verif/seeded/$ID
W=$(mktemp -d /tmp/seed.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cp -a "$S" "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
CH=${*:-$P}
export PYTHONDONTWRITEBYTECODE=1
(cd "$W/repo" && bash "$W/demo/demo.sh" >"$W/d0.log" 2>&1); D0=$?
git -C "$W/repo" apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
(cd "$W/repo" && bash "$W/demo/demo.sh" >"$W/d1.log" 2>&1); D1=$?
T=skip
if [ "${NOTEST:-0}" != 1 ]; then
  sed "s#/repo#$W/repo#g" /opt/vp/test.sh > "$W/test.sh"
  PYTHONPATH="$W/repo" bash "$W/test.sh" "$W/t.json" >/dev/null 2>&1
  T=$(python3 - "$W/t.json" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
st=set(b.get('stable') or b.get('passed') or b.get('tests')); ok=set(t.get('passed') or [])
print(sorted(st-ok))
PY
)
fi
echo "$ID ($P): demo clean=$D0 patched=$D1 ; broken tests: $T"
[ $D0 != 0 ] && tail -5 "$W/d0.log"; [ $D1 = 0 ] && tail -5 "$W/d1.log"
[ "${SHOW:-0}" = 1 ] && tail -4 "$W/d1.log"
for c in $CH; do
  VERIF_REPO="$W/repo" VERIF_EVIDENCE="$W/ev" python3 /verif/check.py $c --tier quick --seed ${SEED:-1} >"$W/c.log" 2>&1; R=$?
  echo "   $c exit=$R $(grep -m1 -A1 'event\|viol' "$W/c.log" | head -3 | cut -c1-200)"
done
