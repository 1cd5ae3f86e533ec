#!/bin/bash
# runs the given checks (default: all registered) in the quick tier and prints one line each
cd /verif
ids="$*"; [ -z "$ids" ] && ids=$(python3 -c "import registry;print(*sorted(registry.CHECKS))")
for i in $ids; do out=$(python3 check.py $i 2>&1); rc=$?; echo "$i rc=$rc $(echo "$out" | tail -1)"; [ $rc != 0 ] && echo "$out" | head -12; done
