#!/bin/bash
# try.sh PATCH CHECK... : runs checks against /repo with a patch applied.
p=$(realpath "$1"); shift
git -C /repo apply "$p" || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
cd /verif
for c in "$@"; do
  timeout 900 python3 check.py $c > /tmp/try.$c.log 2>&1; r=$?
  echo "$c exit $r: $(grep -m1 -A1 quick: /tmp/try.$c.log | tail -1 | cut -c1-300) $(grep -m1 VIOLATION /tmp/try.$c.log)"
done
