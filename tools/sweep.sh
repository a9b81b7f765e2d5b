#!/bin/bash
# sweep.sh ID SEED... : runs the quick tier with several seeds, reports only trouble
id=$1; shift
for s in "$@"; do VERIF_SEED=$s python3 run.py $id > /tmp/sweep.$id.$s 2>&1; rc=$?; [ $rc -ne 0 ] && { echo "== $id seed $s rc $rc"; grep -v "^  in " /tmp/sweep.$id.$s | cut -c1-1500 | head -40; }; rm -f /tmp/sweep.$id.$s; done; echo "swept $id"
