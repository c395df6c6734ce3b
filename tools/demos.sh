#!/bin/bash
# demos.sh DIR [ID...]: confirms in DIR (a scratch clone of /repo at HEAD) that every planted bug's demo passes without and fails with its patch.
wt=$1; shift; cd "$wt" || exit 9
. /opt/vp/env.sh
[ $# = 0 ] && set -- $(ls /verif/seeded)
for id in "$@"; do
  git checkout -q -- .
  a=0; bash /verif/seeded/$id/demo.sh >/tmp/demo.log 2>&1 || a=$?
  git apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; continue; }
  b=0; bash /verif/seeded/$id/demo.sh >/tmp/demo2.log 2>&1 || b=$?
  git checkout -q -- .
  [ $a = 0 ] && [ $b != 0 ] && [ $b != 3 ] && echo "$id ok" || echo "$id BAD clean=$a patched=$b $(tail -1 /tmp/demo.log)"
done
