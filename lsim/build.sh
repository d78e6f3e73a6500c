#!/bin/bash
# build.sh cov|prod : builds libsim (cov: libraries with switch points, prod: the project's own flags) into $BUILD
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
BUILD=${BUILD:-$(dirname "$HERE")/build}
KIND=$1
W="$BUILD/lib-$KIND"
mkdir -p "$W"
/bin/rm -rf "$W/src" "$W/HealpixC"
cp -r "$REPO/src" "$REPO/HealpixC" "$W/"
cd "$W/src"
find . ../HealpixC -name '*.o' -delete; find . ../HealpixC -name '*.a' -delete
F=(); CC=gcc
if [ "$KIND" = cov ]; then CC=clang; F=("CFLAGS=-g -O1 -fPIC -I../HealpixC -fsanitize-coverage=edge,trace-pc,trace-loads,trace-stores"); fi
make -s CC=$CC "${F[@]}" lib >"$W/make.log" 2>&1 || { tail -30 "$W/make.log" >&2; exit 1; }
(cd ../HealpixC && make -s WITHOUT_CFITSIO=1 CC=$CC ${F:+"OPT=${F[0]#CFLAGS=}"}) >>"$W/make.log" 2>&1 || { tail -30 "$W/make.log" >&2; exit 1; }
if [ "$KIND" = cov ]; then
  for l in libsatskymap.a ../HealpixC/libchealpix.a; do
    objcopy --redefine-sym pthread_mutex_lock=sim_mutex_lock --redefine-sym pthread_spin_lock=sim_spin_lock --redefine-sym pthread_rwlock_rdlock=sim_rdlock --redefine-sym pthread_rwlock_wrlock=sim_wrlock \
      --redefine-sym mtx_lock=sim_mtx_lock --redefine-sym pthread_once=sim_once --redefine-sym call_once=sim_call_once --redefine-sym sched_yield=sim_yield --redefine-sym thrd_yield=sim_thrd_yield "$l"
  done
fi
g++ -std=c++20 -O2 -g1 -Wall -Wno-misleading-indentation -I. -I../HealpixC "$HERE/libsim.cpp" libsatskymap.a ../HealpixC/libchealpix.a -lm -lpthread -o "$BUILD/libsim_$KIND.tmp$$"
mv "$BUILD/libsim_$KIND.tmp$$" "$BUILD/libsim_$KIND"
