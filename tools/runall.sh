#!/bin/bash
# run the given (default: all) checks one after another, one line each
cd "$(dirname "$0")/.."
for p in ${@:-$(ls props | grep -oE '^[A-Z][0-9]+')}; do
  s=$SECONDS; ./check $p > /tmp/run.$p.log 2>&1; rc=$?
  echo "$p rc=$rc $((SECONDS-s))s $(grep -c '  incomplete' /tmp/run.$p.log) incomplete $(grep -E 'VIOLATION|unreached|KNOWN' /tmp/run.$p.log | head -2 | tr '\n' ' ')"
done
