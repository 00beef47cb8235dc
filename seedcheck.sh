#!/bin/bash
# seedcheck.sh ID [CHECK...]: confirms one planted bug in a scratch copy of /repo
# (applies, builds, stable tests pass, demo 0/nonzero) and runs the named checks
# (default: the property of meta.json) against the copy. /repo is not touched.
id=$1; shift
V=$(cd "$(dirname "$0")" && pwd)
D=$V/seeded/$id
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
C=$(mktemp -d /tmp/seed_XXXXXX)
cp -a /repo "$C/repo"
trap 'rm -rf "$C"' EXIT
(cd /repo && bash "$D/demo.sh" >"$C/d0" 2>&1); d0=$?
cd "$C/repo" && git apply "$D/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
(PYTHONPATH=$C/repo/src bash "$D/demo.sh" >"$C/d1" 2>&1); d1=$?
echo "$id: demo unchanged=$d0 changed=$d1"; [ $d0 != 0 ] && tail -5 "$C/d0"; tail -2 "$C/d1"
if [ -z "$NOTEST" ]; then
 export CI=true PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
 mkdir "$C/reports"
 O=(-q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 -o "doctest_optionflags=ELLIPSIS IGNORE_EXCEPTION_DETAIL DONT_ACCEPT_TRUE_FOR_1")
 PYTHONPATH=$C/repo/src /opt/venv/bin/python -m pytest "${O[@]}" -n 4 --doctest-modules --junitxml="$C/reports/unit.xml" src/wulfric >"$C/t" 2>&1
 PYTHONPATH=$C/repo/src /opt/venv/bin/python -m pytest "${O[@]}" --doctest-glob='*.rst' --ignore-glob='*.py' --junitxml="$C/reports/docs.xml" docs/source >>"$C/t" 2>&1
 /opt/venv/bin/python /opt/vp/results.py "$C/o.json" "junit:$C/reports/*.xml" >/dev/null
 python3 - "$C/o.json" <<'P'
import json,sys
o=json.load(open(sys.argv[1]));b=json.load(open('/opt/vp/BASELINE.json'))['stable']
f=[x for x in b if x not in set(o['passed'])]
print("stable tests failing:",len(f),f[:4])
P
 unset CI
fi
cd "$V"
for c in ${@:-$P}; do
 t=$(date +%s)
 WULFRIC_REPO=$C/repo VERIF_SEED=${SEED:-1} /opt/venv/bin/python run.py $c >"$C/c" 2>&1; rc=$?
 echo "$id: $c rc=$rc ($(( $(date +%s)-t )) s) $(grep -m1 VIOLATION "$C/c")"
 [ $rc = 2 ] && tail -5 "$C/c"
done
exit 0
