#!/bin/bash
# lint.sh LIST [NAME...]: the lint rules on every edit. An edit RULE/NAME has to be found by RULE, others must be quiet.
. /opt/vp/env.sh
H=$(cd "$(dirname "$0")"; pwd)
L=$1; shift
names="$*"; [ -z "$names" ] && names=$(python3 $H/apply.py $L)
one() {
  n=$1
  d=$(mktemp -d /tmp/st.XXXX)
  git -C /repo archive HEAD | tar x -C $d
  if ! python3 $H/apply.py $L $n $d; then echo "== $n APPLY FAILED"; rm -rf $d; return; fi
  if ! (cd $d && go build ./... 2>&1 | head -5; exit ${PIPESTATUS[0]}); then echo "== $n BUILD FAILED"; rm -rf $d; return; fi
  o=$(ROOT=$d ${LINT:-/tmp/l} 2>&1)
  f=$(echo "$o" | awk '/^==/{r=$2} /^  /{print r": "$0}')
  case $n in
  */*) if echo "$f" | grep -q "^${n%%/*}: "; then [ -n "$V" ] && echo "== $n found: $(echo "$f" | head -2)"; else echo "== $n MISSED"; fi
     echo "$f" | grep -v "^${n%%/*}: " | grep . | sed "s|^|== $n OTHER |" ;;
  *) [ -n "$f" ] && echo "== $n ALARM" && echo "$f" ;;
  esac
  rm -rf $d
}
export -f one; export L H V
echo $names | tr ' ' '\n' | xargs -P 7 -I{} bash -c 'one {}'
