#!/bin/bash
# run.sh FILE N: makes mutant N of /repo/FILE; prints whether it builds, passes the tests, and is found.
. /opt/vp/env.sh
f=$1; n=$2
d=$(mktemp -d /tmp/st.XXXX)
if [ -n "$BASE" ]; then cp -r $BASE/. $d; else git -C /repo archive HEAD | tar x -C $d; fi # BASE: a tree to start from
desc=$(/tmp/mutate $d/$f $n 2>&1 >$d/$f.new); mv $d/$f.new $d/$f
desc=${desc#$d/}
if ! (cd $d && go build ./... >/dev/null 2>&1); then echo "$f $n nobuild $desc"; rm -rf $d; exit; fi
o=$(ROOT=$d DEC=1 timeout 300 /tmp/t gg 2>&1)
if echo "$o" | grep -q "bad 0$"; then
  e=$(mktemp -d /tmp/st.XXXX); mkdir $e/evidence; ln -s /verif/ref $e/ref; : > $e/known-findings.txt
  if timeout 300 /tmp/vp -root $d -verif $e C11 C12 C13 C14 C15 C16 C17 C18 C19 C21 C22 2>&1 | grep -q VIOLATION; then echo "$f $n data $desc"
  elif (cd $d && timeout 120 go test ./... >/dev/null 2>&1); then echo "$f $n MISSED-PASS $desc"; else echo "$f $n MISSED-FAIL $desc"; fi
  rm -rf $e
else echo "$f $n found $desc $(echo "$o" | grep -o 'time.*' )"; fi
rm -rf $d
