#!/bin/bash
# all.sh: run every registered quick check, print the ones that are not quiet
cd "$(dirname "$0")/.."
for c in checks/c*.py; do
  id=$(basename $c .py)
  s=$(date +%s)
  out=$(bash run.sh $id 2>&1); rc=$?
  echo "$id rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -c KNOWN-FINDING) known"
  [ $rc -eq 0 ] || echo "$out" | head -5 | cut -c1-300
done
