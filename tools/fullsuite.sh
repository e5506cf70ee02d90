#!/bin/bash
# Builds and runs the whole existing gtest suite (not only the 10 official cases) with the gpkg stub, in a scratch
# directory. Development aid for fix: commits; no registered command uses it.   fullsuite.sh [repo]
R=${1:-/repo}; W=$(mktemp -d /tmp/fullsuite.XXXX); cd $W
touch $W/geodiff_config.hpp
SRC="$R/geodiff/src/*.cpp $R/geodiff/src/drivers/*.cpp"
F="-g -O1 -DSQLITE_ENABLE_SESSION -DSQLITE_ENABLE_PREUPDATE_HOOK -I$W -I$R/geodiff/src -I$R/geodiff/src/drivers -I/verif/sim -I/usr/include/postgresql -I$R/geodiff/src/3rdparty"
ls $SRC | grep -v -e geodiffinfo -e postgres | xargs -P8 -I{} sh -c "g++ -std=c++11 $F -w -c {} -o $W/\$(basename {}).o" || exit 1
for b in $(find $R/geodiff/src -name 'base64*.cpp' -not -path '*/drivers/*' | grep 3rdparty); do g++ $F -w -c $b -o $(basename $b).o; done
g++ -g -O1 -I/verif/sim -c /verif/sim/gpkgstub.cpp -o gpkgstub.o; printf '#include "core.h"\nnamespace sim{HarnessLevel g_harness; void *HarnessLevel::hostLocale=nullptr; void HarnessLevel::setLocale(int){}}' > gh.cpp; g++ -I/verif/sim -c gh.cpp -o gh.o
printf '#pragma once\n#define TEST_DATA_DIR' > /dev/null
for t in changeset_reader changeset_utils concurrent_commits modified_scheme single_commit driver_sqlite; do
 ( g++ -std=c++14 -include algorithm $F -DTEST_DATA_DIR=\"$R/geodiff/tests/testdata\" -w -I$R/geodiff/tests $R/geodiff/tests/test_$t.cpp $R/geodiff/tests/geodiff_testutils.cpp *.o -o t_$t -lgtest -lpq -lsqlite3 -lpthread 2>$t.err || { echo "BUILD $t"; head -5 $t.err; } ) &
done; wait
true; export TMPDIR=$W/tmp/
export TEST_DATA_DIR=$R/geodiff/tests/testdata
mkdir tmp; for t in t_*; do ./$t 2>&1 | grep -E "^\[  (FAILED|PASSED)" | sed "s/^/$t /"; done
cd /; find $W -delete
