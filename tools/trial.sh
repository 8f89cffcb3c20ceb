#!/bin/bash
# tools/trial.sh SEED... : try planted bugs in a private mount namespace (overlays on /repo, /opt, /verif), so that the
# real trees stay untouched.  Per bug: demo on the clean tree, patch, build, stable tests, demo, the property's quick check.
# NOTEST=1 skips the tests.  CHECKS="C01 C02" runs these checks instead of the property's own.
set -u
V=/verif
for id in "$@"; do
  W=$(mktemp -d /tmp/trial.XXXXXX)
  mkdir -p $W/repo/u $W/repo/w $W/opt/u $W/opt/w $W/verif/u $W/verif/w
  cp -a $V/seeded/$id $W/bug; rm -f $W/bug/patch.diff $W/bug/meta.json
  unshare -m bash -s $W $id <<'IN'
W=$1; id=$2; P=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$P/meta.json'))['property'])")
for m in repo opt verif; do mount -t overlay overlay -o lowerdir=/$m,upperdir=$W/$m/u,workdir=$W/$m/w /$m || exit 9; done
cd /repo; git checkout -q -- . 
export PATH=/opt/venv/bin:$PATH
timeout 300 bash $W/bug/demo.sh >$W/demo0.log 2>&1; d0=$?
git apply $P/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
cpp=$(git diff --name-only | grep -c -E '\.(cpp|hpp)$')
t=skipped
if [ -z "${NOTEST:-}" ]; then
  bash /opt/vp/build.sh >$W/build.log 2>&1 || echo "$id: BUILD FAILED"
  bash /opt/vp/test.sh $W/out.json >$W/test.log 2>&1
  t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$W/out.json'))
st=b.get('stable_passing') or b.get('stable') or b.get('passed') or b.get('tests'); ps=o.get('passed') or o.get('pass')
m=[x for x in st if x not in ps]; print('ok' if not m else 'FAIL '+' '.join(map(str,m[:3])))")
elif [ $cpp != 0 ]; then bash /opt/vp/build.sh >$W/build.log 2>&1 || echo "$id: BUILD FAILED"; fi
timeout 300 bash $W/bug/demo.sh >$W/demo1.log 2>&1; d1=$?
res=""
cd /verif
for c in ${CHECKS:-$prop}; do
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 bin/check $c --tier quick >$W/check.log 2>&1; r=$?
  if grep -q "VIOLATION property=$c" $W/check.log; then v=CAUGHT; else v=missed; fi
  res="$res $c:$v(rc=$r,$(( $(date +%s)-s ))s)"
  [ -n "${SHOW:-}" ] && head -${SHOW} $W/check.log | cut -c1-300
done
echo "$id prop=$prop demo_clean=$d0 demo_bug=$d1 tests=$t checks:$res"
[ $d0 != 0 ] && tail -5 $W/demo0.log
[ $d1 == 0 ] && tail -5 $W/demo1.log
exit 0
IN
  rm -rf "$W"
done
