#!/bin/bash
# seeds.sh [ID...]: runs the check of each planted bug's property on a copy of the tree with the bug.
. /opt/vp/env.sh
V=$(cd "$(dirname "$0")/.."; pwd)
(cd $V/tool && GOFLAGS=-mod=vendor go build -o /tmp/vp ./cmd/vp) || exit 1
ids="$*"; [ -z "$ids" ] && ids=$(ls $V/seeded)
ulimit -v 14000000
for i in $ids; do
  d=$(mktemp -d /tmp/st.XXXX); o=$(mktemp -d /tmp/st.XXXX)
  git -C /repo archive HEAD | tar x -C $d
  (cd $d && git apply $V/seeded/$i/patch.diff) || { echo "$i: DOES NOT APPLY"; continue; }
  p=$(python3 -c "import json,sys;print(json.load(open('$V/seeded/$i/meta.json'))['property'])")
  cp -r $V/known-findings.txt $o/; ln -s $V/ref $o/ref
  mkdir -p $o/evidence
  r=$(cd $V; /tmp/vp -root $d -verif $o $p 2>&1); rc=$?
  echo "$i $p rc=$rc $(echo "$r" | grep -v VIOLATION | head -${L:-1} | cut -c1-200)"
  rm -rf $d $o
done
