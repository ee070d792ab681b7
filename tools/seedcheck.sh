#!/bin/bash
# usage: seedcheck.sh ID... : confirms planted bugs in a scratch copy of /repo (build, tests, demo with and without the change)
set -u
SC=/tmp/sc
if [ ! -d $SC ]; then git clone -q /repo $SC; fi
git -C $SC fetch -q origin && git -C $SC checkout -q --detach FETCH_HEAD 2>/dev/null || git -C $SC checkout -q --detach "$(git -C /repo rev-parse HEAD)"
export CC=/usr/bin/gcc CXX=/usr/bin/g++ FC=/usr/bin/gfortran
bld() { (cd $SC && cmake -S . -B _build -G Ninja -DMACHINE_SPECIFIC_OPTIMIZATION=OFF -DWITH_MATLAB=OFF -DENABLE_FFTW=OFF -DBUILD_TESTS=ON -DADDRESS_SANITIZER=OFF -DDEBUG=OFF >/dev/null && ninja -C _build -j8) >/tmp/sc_build.log 2>&1; }
for id in "$@"; do
  d=/verif/seeded/$id; git -C $SC checkout -q -- .; git -C $SC reset -q --hard "$(git -C /repo rev-parse HEAD)"
  bld || { echo "$id: base build failed"; continue; }
  rm -rf /tmp/sc_demo; cp -r $d /tmp/sc_demo; rm -f /tmp/sc_demo/patch.diff /tmp/sc_demo/meta.json
  (cd $SC && timeout 300 bash /tmp/sc_demo/demo.sh >/tmp/sc_demo0.log 2>&1); r0=$?
  git -C $SC apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bld || { echo "$id: patched build failed"; tail -5 /tmp/sc_build.log; continue; }
  (cd $SC && timeout 300 bash /tmp/sc_demo/demo.sh >/tmp/sc_demo1.log 2>&1); r1=$?
  if [ "${NOTESTS:-}" ]; then nf=skipped; else ctest --test-dir $SC/_build -j8 --timeout 300 >/tmp/sc_test.log 2>&1; nf=$(grep -E "tests passed|tests failed" /tmp/sc_test.log); fi
  echo "$id: demo base=$r0 patched=$r1 ($(tail -1 /tmp/sc_demo1.log | cut -c1-120)) tests: $nf"
  git -C $SC checkout -q -- .
done
