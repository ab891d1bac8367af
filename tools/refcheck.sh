#!/bin/bash
# Development: run all quick checks on a refactored scratch copy of /repo.
# usage: refcheck.sh NAME MODE...
here="$(cd "$(dirname "$0")/.." && pwd)"; name=$1; shift
. /opt/vp/env.sh
d=/tmp/ref_$name; rm -rf "/tmp/ref_$name"; git clone -q /repo $d
"$PY" $here/tools/refactor.py $d "$@" || exit 2
for c in ${CHECKS:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22}; do
  MC_WORKERS=${MC_WORKERS:-3} bash $here/tools/against.sh $d $c quick > /tmp/ref_$name.$c.log 2>&1
  echo "$name $c rc=$?" ; grep -m2 "^  - " /tmp/ref_$name.$c.log
done
