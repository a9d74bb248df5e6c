#!/bin/bash
# usage: build.sh OUTDIR [plain|asan|cli|py|r]   builds the conformance driver (or the Python / R binding) from /repo's current working tree
set -e
OUT=$1; MODE=${2:-plain}; REPO=${REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT/obj-$MODE" "$OUT/gen/cppsas7bdat"
python3 - "$REPO" "$OUT/gen/cppsas7bdat/version.hpp" <<'P'
import re, sys
t = open(sys.argv[1] + '/include/cppsas7bdat/version.hpp.in').read()
t = re.sub(r'@[A-Za-z_]*(MAJOR|MINOR|PATCH|TWEAK)[A-Za-z_]*@', '0', t)
t = re.sub(r'@[A-Za-z_]+@', '0', t)
open(sys.argv[2], 'w').write(t)
P
DEF="-DNDEBUG -DBOOST_DATE_TIME_NO_LIB -DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB -DFMT_DEPRECATED_OSTREAM -DFMT_CONSTEVAL="
FLAGS="-std=c++20 -fPIC -w $DEF -I$REPO/include -I$OUT/gen -I$REPO/src"
case $MODE in
  plain|cli|py|r) FLAGS="-O1 $FLAGS";;
  asan) FLAGS="-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS $FLAGS";;
esac
O=$OUT/obj-$MODE
pids=()
MAIN="$HERE/driver.cpp"; LIBS="-lfmt -lspdlog"
if [ $MODE = cli ]; then MAIN=$(ls "$REPO"/apps/*.cpp); LIBS="$LIBS -ldocopt"; fi
if [ $MODE = py ]; then
  MAIN=$(ls "$REPO"/python/pycppsas7bdat/cpp/*.cpp); LIBS="$LIBS -lboost_python312 -lboost_numpy312"
  FLAGS="$FLAGS -DBOOST_PYTHON_DYN_LINK -DBOOST_PYTHON_NO_LIB -isystem /usr/include/python3.12 -isystem /usr/lib/python3/dist-packages/numpy/core/include"
elif [ $MODE = r ]; then
  MAIN=$(ls "$REPO"/R/CPPSAS7BDAT/src/*.cpp); LIBS="$LIBS -L/usr/lib/R/lib -lR"
  FLAGS="$FLAGS -isystem /usr/share/R/include -isystem /usr/lib/R/site-library/Rcpp/include"
fi
for f in "$REPO"/src/*.cpp $MAIN; do
  case $f in "$REPO"/src/*) n=;; *) n=main_;; esac
  g++ $FLAGS -c "$f" -o "$O/$n$(basename "$f" .cpp).o" & pids+=($!)
done
for p in "${pids[@]}"; do wait $p; done
case $MODE in
  py)
    D=$OUT/driver-py.d/pycppsas7bdat
    rm -rf "$OUT/driver-py.d"; mkdir -p "$D"
    g++ $FLAGS -shared "$O"/*.o -o "$D/cpp.so" $LIBS
    cp "$REPO"/python/pycppsas7bdat/*.py "$D/"
    mv "$OUT/driver-py.d" "$OUT/driver-py";;
  r)
    rm -rf "$OUT/driver-r.d"; mkdir -p "$OUT/driver-r.d/R"
    g++ $FLAGS -shared "$O"/*.o -o "$OUT/driver-r.d/Rcppsas7bdat.so" $LIBS
    cp "$REPO"/R/CPPSAS7BDAT/R/*.R "$OUT/driver-r.d/R/"
    mv "$OUT/driver-r.d" "$OUT/driver-r";;
  *) g++ $FLAGS "$O"/*.o -o "$OUT/driver-$MODE" $LIBS;;
esac
