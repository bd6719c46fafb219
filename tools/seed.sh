#!/bin/bash
# seed.sh ID: confirm a planted change in a scratch copy (development tool)
# needs /verif/seeded/ID/{patch.diff,demo.sh,meta.json}
set -u
id=$1; S=/verif/seeded/$id; W=/tmp/sd_$id
rm -rf "/tmp/sd_$id"; mkdir -p "$W"; git -C /repo archive HEAD | tar x -C "$W"
bld() { (cd $W && cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_PROJECT_sedaman_INCLUDE=/opt/vp/no-pybind.cmake >/dev/null 2>&1 && ninja -C _build >$W/b.log 2>&1) || { tail -20 $W/b.log; return 1; }; }
bld || { echo "$id: base build failed"; exit 1; }
(cd $W && bash $S/demo.sh >$W/d0.log 2>&1); r0=$?
(cd $W && git apply $S/patch.diff) || { echo "$id: patch does not apply"; exit 1; }
bld || { echo "$id: build failed"; exit 1; }
rm -f $W/_build/tests/segy/test_*.sgy
ctest --test-dir $W/_build/tests -j8 --timeout 100 >$W/t.log 2>&1; t=$?
(cd $W && bash $S/demo.sh >$W/d1.log 2>&1); r1=$?
echo "$id: demo clean=$r0 patched=$r1 tests=$t"
[ $r0 -ne 0 ] && tail -5 $W/d0.log
[ $t -ne 0 ] && tail -15 $W/t.log
rm -rf "/tmp/sd_$id"
[ $r0 = 0 ] && [ $r1 != 0 ] && [ $t = 0 ]
