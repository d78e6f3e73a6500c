#!/bin/bash
# build.sh plain|asan : builds fitssim: HealpixC/chealpix.c through the project's Makefile, and cfitsio, above the simulated disk, heap and clock
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
BUILD=${BUILD:-$(dirname "$HERE")/build}
KIND=$1
W="$BUILD/fits-$KIND"
/bin/rm -rf "$W"; mkdir -p "$W"
cp -r "$REPO/HealpixC" "$W/"
cd "$W/HealpixC"
find . -name '*.o' -delete; find . -name '*.a' -delete
S=; L=-static; [ "$KIND" = asan ] && S="-g1 -fsanitize=address,integer-divide-by-zero,bounds,null -fno-sanitize-recover=all" && L=-fsanitize=address,undefined
# the object only: the Makefile's rule decides how the FITS functions are switched on
make -s chealpix.s.o CC=gcc OPT="-O2 $S" >"$W/make.log" 2>&1 || { tail -30 "$W/make.log" >&2; exit 1; }
R=(); for f in fopen fclose fileno ftruncate remove rename access time; do R+=(--redefine-sym $f=sim_$f); done
R+=(--redefine-sym fopen64=sim_fopen64 --redefine-sym ftruncate64=sim_ftruncate64 --redefine-sym unlink=sim_unlink)
cp chealpix.s.o own.o
objcopy "${R[@]}" --redefine-sym malloc=simo_malloc --redefine-sym calloc=simo_calloc --redefine-sym realloc=simo_realloc own.o
A=$(gcc -print-file-name=libcfitsio.a); [ -f "$A" ] || A=/usr/lib/x86_64-linux-gnu/libcfitsio.a
objcopy "${R[@]}" --redefine-sym malloc=sim_malloc --redefine-sym calloc=sim_calloc --redefine-sym realloc=sim_realloc "$A" libcfitsio_sim.a
g++ -std=c++20 -O2 -Wall -Wno-misleading-indentation $S -I. -c "$HERE/fitssim.cpp" -o sim.o
g++ $L sim.o own.o libcfitsio_sim.a -lbz2 -lz -lm -lpthread -o "$BUILD/fitssim_$KIND.tmp$$" 2>"$W/link.log" || { tail -20 "$W/link.log" >&2; exit 1; }
mv "$BUILD/fitssim_$KIND.tmp$$" "$BUILD/fitssim_$KIND"
