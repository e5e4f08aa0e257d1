#!/bin/bash
# Runs every registered check on $UP4_REPO (default /repo) in parallel, one line each.
cd "$(dirname "$0")/.."
python3 -c "
import sys; sys.path[:0]=['rules','lib']
import registry; print(' '.join(registry.RULES))" | tr ' ' '\n' |
xargs -P 6 -I{} bash -c 'r=$(python3 check.py {} 2>&1); c=$?; echo "{} $c $(echo "$r" | tail -1 | cut -c1-100)"; [ $c = 0 ] || echo "$r" | grep "^  \[" | cut -c1-${W:-160}'
