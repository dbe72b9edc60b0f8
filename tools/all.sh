#!/bin/bash
# all checks, one after another: tools/all.sh [SEED] [check.py options...]
cd "$(dirname "$0")/.." || exit 1
seed=${1:-1}; shift
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19; do
    s=$(date +%s)
    VERIF_SEED=$seed python3 check.py $p "$@" > /tmp/all.$p.$seed.log 2>&1
    echo "$p $? $(($(date +%s)-s))s $(grep -E '^(OK|VIOLATION|ERROR)' -A1 /tmp/all.$p.$seed.log | head -2 | cut -c1-300 | tr '\n' ' ')"
done
