#!/bin/bash
# revert_check.sh <commit> <check...>: undo one fix in the working tree and see which checks notice (development aid)
c=$1; shift
git -C /repo diff $c $c~1 | git -C /repo apply || exit 2
for k in "$@"; do ./run.sh check $k 2>&1 | grep -a "minimised\|exit" | cut -c1-330; done
git -C /repo checkout -q -- .
git -C /repo status --short
