#!/bin/bash
# Runs the tool on the inputs beside this script and compares what it prints with what is right.
. "$(dirname "$0")/build.sh"
build
cd "$W"
fail=0
while IFS='|' read -r args want; do
  [ -z "$args" ] && continue
  got="$(timeout 60 ./verifypn $(echo "$args" | sed "s#@#$H/#g") 2>&1)"
  if ! grep -qE -- "$want" <<< "$got"; then
    echo "FAIL: verifypn $args"; echo "expected /$want/"; echo "$got" | tail -15; fail=1
  fi
done < "$H/expect.txt"
exit $fail
