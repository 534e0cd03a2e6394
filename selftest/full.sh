#!/bin/bash
# full.sh LIST [NAME...]: every check on every edit; prints the alarms.
H=$(cd "$(dirname "$0")"; pwd)
. /opt/vp/env.sh
L=$1; shift
names="$*"; [ -z "$names" ] && names=$(python3 $H/apply.py $L)
one() {
  d=$(mktemp -d /tmp/st.XXXX); git -C /repo archive HEAD | tar x -C $d
  python3 $H/apply.py $1 $2 $d || exit
  e=$(mktemp -d /tmp/st.XXXX); mkdir $e/evidence; ln -s /verif/ref $e/ref; : > $e/known-findings.txt
  timeout 800 /tmp/vp -root $d -verif $e C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 > $e/out 2>&1
  rc=$?
  if [ $rc != 0 ]; then echo "$1 $2 rc=$rc $(grep -o 'VIOLATION property=C..' $e/out | cut -c20- | tr '\n' ' ')"; [ -n "$V" ] && grep -v VIOLATION $e/out | cut -c1-200; fi
  rm -rf $d $e
}
export -f one; export H V
echo $names | tr ' ' '\n' | xargs -P ${P:-7} -I{} bash -c "one $L {}"
