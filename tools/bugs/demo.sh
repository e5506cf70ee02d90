#!/bin/bash
# Run in /repo: builds the library from its sources in a scratch directory and runs demo.cpp against it.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d /tmp/geodiffdemo.XXXXXX) || exit 9
trap 'rm -rf "$T"' EXIT
mkdir "$T/o" "$T/w"; touch "$T/geodiff_config.hpp"; [ -f "$D/pg" ] && echo '#define HAVE_POSTGRES' > "$T/geodiff_config.hpp"
S=$R/geodiff/src
F="-g -O0 -w $(cat "$D/flags" 2>/dev/null) -DSQLITE_CORE -DSQLITE_ENABLE_SESSION -DSQLITE_ENABLE_PREUPDATE_HOOK -DGEODIFF_STATIC -I$T -I$D -I$S -I$S/3rdparty -I$S/drivers -I/usr/include/postgresql"
N=$([ -f "$D/pg" ] && echo nothing || echo postgres)
ls $S/*.cpp $S/3rdparty/*.cpp $S/drivers/*.cpp $S/*.c $S/3rdparty/*.c $D/*.cpp 2>/dev/null | grep -v -e geodiffinfo -e $N |
  xargs -P8 -I{} sh -c "case {} in *.c) gcc $F -c {} -o $T/o/\$(basename {}).o;; *) g++ -std=gnu++11 $F -c {} -o $T/o/\$(basename {}).o;; esac" || exit 8
[ ! -f "$D/tool" ] || g++ -std=gnu++11 $F -Dmain=geodiffinfo_main -c $S/geodiffinfo.cpp -o "$T/o/geodiffinfo.cpp.o" || exit 8
g++ $F -o "$T/demo" "$T"/o/*.o -lsqlite3 -ldl -lpthread || exit 7
export TMPDIR="$T/w/tmp"; mkdir "$TMPDIR"
mkdir "$T/w/d"
cd "$T/w/d" && timeout 60 "$T/demo" "$T/w/d"
