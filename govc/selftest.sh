#!/bin/bash
# Soundness regression of govc: true contracts must be proved, false ones must not.
cd "$(dirname "$0")/testdata/sound" || exit 2
G=${1:-/verif/.build/govc}
a=$($G run -repo . -specs specs GOOD 2>&1 | grep obligations | grep -v " 0 open" | grep -v ^GOOD)
b=$($G run -repo . -specs specs BAD 2>&1 | grep " 0 open" | sed 's/^BAD:.*map\[[^]]*\]//' | awk '{print $1}' | sort | tr '\n' ' ')
[ -z "$a" ] || { echo "true contracts not proved: $a"; exit 1; }
[ "$b" = "col.Need col.Touch col.UseHalf " ] || { echo "false contracts proved: $b"; exit 1; }
echo selftest ok
