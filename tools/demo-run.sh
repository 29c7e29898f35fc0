#!/bin/bash
# demo-run.sh ID: runs a demonstration in a scratch copy of the sources with and without the patch
d=$(mktemp -d); cp -r /verif/seeded/$1 $d/s; mkdir $d/repo; cp -r /repo/packages $d/repo/ 2>/dev/null; ln -s /repo/node_modules $d/repo/node_modules; cd $d/repo
timeout 200 bash $d/s/demo.sh > $d/o 2>&1; echo "$1 unchanged: $? $(tail -1 $d/o | cut -c1-200)"
patch -s -p1 < $d/s/patch.diff
timeout 200 bash $d/s/demo.sh > $d/o 2>&1; echo "$1 changed: $? $(grep -m1 FAIL $d/o | cut -c1-200)"
cd /; rm -r "$d"
