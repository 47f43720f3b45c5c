#!/bin/bash
# Shows the loops unwound most by the symbolic execution of a harness:
# tools/profile.sh C12 c12q_many_247 252 [seconds]
cd "$(dirname "$0")/.." || exit 1
timeout 90 ./check.py "$1" --only "^$2\$" --keep > /tmp/profile.txt 2>&1
pkill cbmc
D=$(ls -dt /tmp/il2check-$1* | head -1)
G=$(find "$D" -name "*$2.out" | grep -v symtab | head -1)
timeout "${4:-60}" cbmc --no-standard-checks --object-bits 16 --unwind "$3" --max-field-sensitivity-array-size 2000 --slice-formula --program-only --verbosity 8 "$G" 2>&1 | grep -E "nwinding" | sed 's/iteration.*//' | sort | uniq -c | sort -rn | head -25
rm -rf "$D"
