#!/bin/bash
# usage: try_patch.sh PATCH(-R for reverse of a commit: -c SHA) PID...   runs checks against a scratch copy of /repo
set -e
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/include /repo/.git /repo/test /repo/CMakeLists.txt "$d"/ 2>/dev/null
if [ "$1" = -c ]; then git -C /repo show $2 -- include | git -C $d apply -R; shift 2
else git -C $d apply "$(readlink -f $1)"; shift; fi
for p in "$@"; do
  VERIF_REPO=$d python3 /verif/check.py $p 2>&1 | tail -3 | cut -c1-600
done
rm -rf "$d"
