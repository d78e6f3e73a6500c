#!/bin/bash
# determinism.sh [SEEDS] : every simulated run twice, in fresh processes, under different loads; the event-log digests must agree
cd "$(dirname "$0")/.." || exit 1
N=${1:-5}; bad=0
mkdir -p build/det
for exe in satsim satsim_asan; do
  for p in S01 S02 S03 S04 S05 S06 S07 S08 S09 S10 S11; do
    [ $exe = satsim_asan ] && [ $p != S09 ] && continue
    for s in $(seq 1 "$N"); do
      ( A=$(build/$exe batch $p "$s" 0 60 900 quick build/det | grep -o '"digest": "[0-9a-f]*"')
        B=$(FOO=bar build/$exe batch $p "$s" 0 60 900 quick build/det | grep -o '"digest": "[0-9a-f]*"')
        [ "$A" = "$B" ] && [ -n "$A" ] && echo "same $exe $p $s" || echo "DIFFERENT $exe $p $s $A $B" ) &
      while [ "$(jobs -r | wc -l)" -ge 12 ]; do sleep 0.05; done
    done
  done
done > build/det/log
wait
sort build/det/log | cut -d' ' -f1-3 | uniq -c; ! grep DIFFERENT build/det/log
