#!/bin/bash
# on_copy.sh COPY [PROPS]: quick checks against a copy of /repo.
export OUPS_SIM_REPO="$1"; shift
cd "$(dirname "$0")/.."
n=$(basename "$OUPS_SIM_REPO")
for p in ${@:-S01 S02 S03 S04 S05 S06 S07 S08 A01 A02 A03 A04 A05 A06 A07 A08 C01}; do
  s=$(date +%s); nice python3 check.py $p --tier quick --no-evidence ${SIMARGS:-} > /tmp/copy.$n.$p.log 2>&1; rc=$?
  echo "$n $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/copy.$n.$p.log || tail -1 /tmp/copy.$n.$p.log)" | cut -c1-250
done
