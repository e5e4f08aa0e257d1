#!/bin/bash
# rk.sh <edit id> <check>: the full report of one check on one behaviour-preserving edit.
rm -rf /tmp/rk_$1; KEEP=/tmp/rk_$1 python3 "$(dirname "$0")/refactor.py" "$1" >/dev/null
UP4_REPO=/tmp/rk_$1 python3 "$(dirname "$0")/../check.py" $2 | cut -c1-${W:-900}; rm -rf /tmp/rk_$1
