#!/bin/bash
# Run all quick checks, one after the other.
cd "$(dirname "$0")/.."
for p in ${@:-S01 S02 S03 S04 S05 S06 S07 S08 S09 A01 A02 A03 A04 A05 A06 A07 A08 A09 C01}; do
  s=$(date +%s); python3 check.py $p --tier quick > /tmp/all.$p.log 2>&1; rc=$?
  echo "$p rc=$rc $(( $(date +%s) - s ))s $(tail -1 /tmp/all.$p.log)"
done
