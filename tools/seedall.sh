#!/bin/bash
# usage: seedall.sh ID... : demo with and without the change, quick check on the changed scratch copy, tests (scratch /tmp/sc, seeds in $SEEDS)
set -u
SEEDS=${SEEDS:-/verif/seeded}; SC=/tmp/sc; V=${V:-/verif}
[ -d $SC ] || git clone -q /repo $SC
git -C $SC fetch -q origin; git -C $SC reset -q --hard "$(git -C ${BASE:-/repo} rev-parse HEAD)"
export CC=/usr/bin/gcc CXX=/usr/bin/g++ FC=/usr/bin/gfortran
bld() { (cd $SC && cmake -S . -B _build -G Ninja -DMACHINE_SPECIFIC_OPTIMIZATION=OFF -DWITH_MATLAB=OFF -DENABLE_FFTW=OFF -DBUILD_TESTS=ON -DADDRESS_SANITIZER=OFF -DDEBUG=OFF >/dev/null && ninja -C _build -j8) >/tmp/sc_build.log 2>&1; }
for id in "$@"; do
  d=$SEEDS/$id; git -C $SC checkout -q -- .
  bld || { echo "$id: base build failed"; continue; }
  rm -rf /tmp/sc_demo; cp -r $d /tmp/sc_demo; rm -f /tmp/sc_demo/patch.diff /tmp/sc_demo/meta.json
  (cd $SC && timeout 300 bash /tmp/sc_demo/demo.sh >/tmp/sc_demo0.log 2>&1); r0=$?
  git -C $SC apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bld || { echo "$id: patched build failed"; tail -5 /tmp/sc_build.log; continue; }
  (cd $SC && timeout 300 bash /tmp/sc_demo/demo.sh >/tmp/sc_demo1.log 2>&1); r1=$?
  echo "$id: demo base=$r0 ($(tail -1 /tmp/sc_demo0.log | cut -c1-80)) patched=$r1 ($(tail -1 /tmp/sc_demo1.log | cut -c1-120))"
  [ $r0 = 0 ] && [ $r1 != 0 ] || continue
  if [ ! "${NOTESTS:-}" ]; then ctest --test-dir $SC/_build -j8 --timeout 300 >/tmp/sc_test.log 2>&1; echo "   tests: $(grep -E "tests passed|tests failed" /tmp/sc_test.log) $(grep -m3 'Failed' /tmp/sc_test.log | tr '\n' ' ')"; fi
  [ "${NOCHECK:-}" ] || for x in ${PROPS:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}; do FNFT_REPO=$SC FNFT_VBUILD=/tmp/b/vb timeout 900 python3 $V/bin/check.py --property $x --no-evidence >/tmp/seedrun.log 2>&1; echo "   check $x exit=$? $(grep -m1 VIOLATION /tmp/seedrun.log | cut -c1-160)"; done
  git -C $SC checkout -q -- .
done
