#!/bin/bash
# par.sh LIST [NAME...]: run.sh for many edits in parallel; prints only what is not quiet.
H=$(cd "$(dirname "$0")"; pwd)
L=$1; shift
names="$*"; [ -z "$names" ] && names=$(python3 $H/apply.py $L)
o=$(mktemp -d /tmp/par.XXXX)
export DEC=1 W=${W:-300}
echo $names | tr ' ' '\n' | xargs -P ${P:-7} -I{} bash -c "bash $H/run.sh $L {} >$o/{} 2>&1"
al=0
for n in $names; do
  if grep -q "bad 0$" $o/$n; then
    [ -n "$V" ] && grep -v "bad 0$" $o/$n
  else al=$((al+1)); cat $o/$n; fi
done
echo "alarms: $al of $(echo $names | wc -w)"
rm -rf $o
