#!/bin/sh
# all_quick.sh [P..]: every quick check in turn, one line each
cd "$(dirname "$0")/.."
for p in ${*:-$(python3 -c "import sys; sys.path.insert(0,'harness'); from props import PROPS; print(*sorted(PROPS))")}; do
  python3 harness/check.py $p > /tmp/all_quick.out 2>&1; rc=$?
  echo "rc=$rc $(grep -E 'VIOLATION|KNOWN' /tmp/all_quick.out | head -2 | tr '\n' ' ') $(tail -1 /tmp/all_quick.out)"
done
