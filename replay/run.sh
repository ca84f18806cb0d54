#!/bin/bash
# run.sh CASE.cpp...: compiles the cases with the real sources and the stand-ins, then runs each.
# TSAN=1 uses ThreadSanitizer; REPO=... selects another tree.
HERE=$(cd "$(dirname "$0")" && pwd); REPO=${REPO:-/repo}
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
python3 $HERE/../lib/gen_msgs.py $REPO $T/gen || exit 2
SAN=address,undefined,float-cast-overflow; [ -n "$TSAN" ] && SAN=thread
CXX="g++ -std=c++17 -O1 -g -fsanitize=$SAN -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -I$HERE/../stubs -I$T/gen -I$REPO/include -isystem /usr/include/eigen3 -I$HERE"
for f in $REPO/src/*.cpp; do $CXX -c $f -o $T/$(basename $f .cpp).o & done
for c in "$@"; do $CXX -c $HERE/$c -o $T/case_$(basename $c .cpp).obj & done; wait
for c in "$@"; do
  n=$(basename $c .cpp)
  $CXX $T/*.o $T/case_$n.obj -o $T/$n -lceres -lglog -lpthread && timeout 120 $T/$n > $T/out 2>&1; rc=$?
  if [ $rc -eq 0 ]; then echo "ok      $n"; else echo "FAILS   $n (exit $rc)"; [ -n "$V" ] && tail -${V} $T/out || grep -m3 "ERROR\|runtime error\|WARNING: Thread\|^BAD\|what()\|Check failed\|terminate\|#[0-3] .*repo/src" $T/out | sed 's/^/        /'; fi
done
