#!/bin/bash
# sweep.sh "C01 C02" "1 2 3" [scale]: runs checks over seeds, prints a line each
for s in $2; do for c in $1; do
  VERIF_VERBOSE=1 VERIF_SEED=$s VERIF_SCALE=${3:-1} python3 checks/$c.py > /tmp/sweep-$c-$s.log 2>&1; rc=$?
  echo "$c seed $s rc $rc $(grep -a '^V ' /tmp/sweep-$c-$s.log | cut -d' ' -f2-4 | cut -c1-60 | sort | head -5 | tr '\n' ';') $(grep -a '^C[0-9].*held' /tmp/sweep-$c-$s.log | cut -c1-120)"
done; done
