#!/bin/bash
# mech.sh [SEED [KIND...]]: rewrites the whole tree mechanically, one kind at a time; prints the pairs that are not equal.
# A kind can be several, joined by +, one after the other. SEED 0: everywhere; else at about a third of the places.
. /opt/vp/env.sh
V=$(cd "$(dirname "$0")/.."; pwd)
(cd $V/tool && GOFLAGS=-mod=vendor go build -o /tmp/t ./cmd/t && GOFLAGS=-mod=vendor go build -o /tmp/mech ./cmd/mech && GOFLAGS=-mod=vendor go build -o /tmp/vp ./cmd/vp) || exit 1
s=${1:-0}; shift
ks="$*"; [ -z "$ks" ] && ks=$(/tmp/mech kinds)
one() {
  d=$(mktemp -d /tmp/st.XXXX)
  git -C /repo archive HEAD | tar x -C $d
  r=$(for k in ${1//+/ }; do /tmp/mech $d $k $2 2>&1 | tail -1; done | tr '\n' ' ')
  if ! b=$(cd $d && go build ./... 2>&1); then echo "$r NOBUILD $(echo "$b" | head -${L:-3})"; [ -z "$KEEP" ] && rm -rf $d; exit; fi
  t=$(cd $d && go test ./... 2>&1 | grep -v "^ok\|no test files" | head -3)
  ulimit -v 14000000
  o=$(ROOT=$d DEC=1 timeout 600 /tmp/t gg 2>&1 | cut -c1-220)
  echo "== $r ${t:+TESTS FAIL} $(echo "$o" | grep "^time\|^fatal")"
  echo "$o" | grep -v "^time\|pairs$\|^goroutine\|^	" | grep "^==" -A${L:-2} | head -${N:-40}
  if [ -n "$FULL" ]; then # all rules of all properties
    e=$(mktemp -d /tmp/st.XXXX); mkdir $e/evidence; ln -s $V/ref $e/ref; cp $V/known-findings.txt $e
    timeout 900 /tmp/vp -root $d -verif $e $(seq -f C%02g 1 26) 2>&1 | grep -v "held on\|^KNOWN" | cut -c1-200 | head -${N:-10}
    rm -rf $e
  fi
  [ -n "$KEEP" ] && echo $d || rm -rf $d
}
export -f one
export L N KEEP FULL V
echo $ks | tr ' ' '\n' | xargs -P ${P:-4} -I{} bash -c "one {} $s"
