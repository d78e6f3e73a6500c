#!/bin/bash
# build.sh [asan] : builds the simulated programs from /repo's working tree into $BUILD (default /verif/build)
# Product flags come from the project's own Makefile.  Exits non-zero if the project does not build.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
BUILD=${BUILD:-$(dirname "$HERE")/build}
. "$HERE/seams.map.sh"
KIND=${1:-plain}
# a locale with a decimal comma for the environments of the runs; without localedef the runs have the C locales only
if [ ! -d "$BUILD/locale/de_DE.UTF-8" ]; then
  L="$BUILD/locale.tmp$$"; mkdir -p "$L"
  if localedef -i de_DE -f UTF-8 --no-archive "$L/de_DE.UTF-8" >/dev/null 2>&1; then mkdir -p "$BUILD/locale"; mv "$L/de_DE.UTF-8" "$BUILD/locale/" 2>/dev/null || true; fi
  /bin/rm -rf "$L"
fi
W="$BUILD/$KIND"
mkdir -p "$W"
/bin/rm -rf "$W/src" "$W/HealpixC" "$W/obj"
mkdir -p "$W/obj"
cp -r "$REPO/src" "$REPO/HealpixC" "$W/"
cd "$W/src"
find . ../HealpixC -name '*.o' -delete; find . ../HealpixC -name '*.a' -delete
F=()
CC=gcc
if [ "$KIND" = asan ]; then F=("CFLAGS=-g -O1 -fPIC -I../HealpixC -fsanitize=address -fno-omit-frame-pointer -U_FORTIFY_SOURCE"); fi
make -s CC=$CC "${F[@]}" lib libhpx >"$W/make.log" 2>&1 || { tail -30 "$W/make.log" >&2; exit 1; }
make -s CC=$CC "${F[@]}" sat_skymap.o sat_visibility.o mjdnow.o >>"$W/make.log" 2>&1 || { tail -30 "$W/make.log" >&2; exit 1; }
for s in $SEAMS; do echo "$s sim_$s"; done >"$W/obj/seams"
for p in sat_skymap:skymap sat_visibility:visibility mjdnow:mjdnow; do
  o=${p%%:*}; n=${p##*:}
  ld -r -o "$W/obj/$n.tmp.o" "$o.o" ../HealpixC/libchealpix.a libsatskymap.a
  { cat "$W/obj/seams"; echo "main ${n}_main"; } >"$W/obj/$n.map"
  objcopy --redefine-syms="$W/obj/$n.map" "$W/obj/$n.tmp.o" "$W/obj/$n.2.o"
  objcopy --keep-global-symbol="${n}_main" "$W/obj/$n.2.o" "$W/obj/$n.o"
done
