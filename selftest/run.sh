#!/bin/bash
# run.sh LIST [NAME...]: builds and tests every edit, and compares it.
. /opt/vp/env.sh
H=$(cd "$(dirname "$0")"; pwd)
L=$1; shift
names="$*"; [ -z "$names" ] && names=$(python3 $H/apply.py $L)
for n in $names; do
  d=$(mktemp -d /tmp/st.XXXX)
  git -C /repo archive HEAD | tar x -C $d
  if ! python3 $H/apply.py $L $n $d; then echo "== $n APPLY FAILED"; rm -rf $d; continue; fi
  (cd $d && go vet ./... >/tmp/st.out 2>&1) || { (cd $d && go build ./... ) || { echo "== $n BUILD FAILED"; rm -rf $d; continue; }; }
  if [ -n "$TESTS" ]; then (cd $d && go test ./... >/tmp/st.test 2>&1) && echo "== $n tests pass" || echo "== $n tests FAIL"; fi
  echo "== $n"; ROOT=$d ${BIN:-/tmp/t} ${CMD:-gg} 2>&1 | grep -v "pairs$\|matched$\|^bad 0" | cut -c1-${W:-400}
  rm -rf $d
done
