#!/bin/bash
# seed.sh ID...: confirm planted bugs in a scratch copy and run their property's check on it
cd "$(dirname "$0")/.." || exit 2
for id in "$@"; do
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
s=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo "$s/repo"; cp -a "$d" "$s/demo"; rm -f "$s"/demo/*.diff "$s"/demo/meta.json
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
(cd "$s/repo"; bash "$s/demo/demo.sh" >"$s/clean.log" 2>&1); clean=$?
(cd "$s/repo"; git apply "$d/patch.diff") || echo "$id: patch does not apply"
(cd "$s/repo"; bash "$s/demo/demo.sh" >"$s/bug.log" 2>&1); bug=$?
(cd "$s/repo"; /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml="$s/j.xml" tests >/dev/null 2>&1)
/usr/bin/python3 /opt/vp/results.py "$s/o.json" "junit:$s/j.xml" >/dev/null
miss=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('$s/o.json'))['passed']); print(len(b-o), sorted(b-o)[:3])")
(cd "$s/repo"; git status --short | head -5 >"$s/st")
t=$SECONDS; VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO="$s/repo" timeout 900 bin/check "$prop" >"$s/check.log" 2>&1; rc=$?
echo "$id $prop demo clean=$clean bug=$bug; stable missing $miss; check rc=$rc $(grep -c '^VIOLATION' "$s/check.log") violations, $((SECONDS-t)) s"
[ $clean = 0 ] || tail -5 "$s/clean.log"
[ $bug = 0 ] && tail -3 "$s/bug.log"
rm -rf "$s"
done
