#!/bin/bash
# all.sh COUNT SEED FILE...: COUNT random mutants of the files.
. /opt/vp/env.sh
H=$(cd "$(dirname "$0")"; pwd)
c=$1; s=$2; shift 2
for f in "$@"; do
  n=$(/tmp/mutate ${BASE:-/repo}/$f)
  for i in $(seq 0 $((n-1))); do echo "$f $i"; done
done | shuf -n $c --random-source=<(yes $s) | xargs -P ${P:-6} -L1 bash $H/run.sh
