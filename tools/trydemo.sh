#!/bin/bash
# trydemo.sh id...: runs each demo on a copy of /repo without and with its patch, and the stable tests with it
for id in "$@"; do
  t=$(mktemp -d); git clone -q --no-hardlinks /repo $t/r; d=$(mktemp -d); cp -r /verif/seeded/$id/. $d; rm -f $d/patch.diff $d/meta.json
  (cd $t/r; bash $d/demo.sh >$t/o1 2>&1; a=$?; git apply /verif/seeded/$id/patch.diff || echo NOAPPLY; bash $d/demo.sh >$t/o2 2>&1; b=$?; echo "$id clean=$a patched=$b"; [ $a = 0 ] || tail -5 $t/o1; [ $b = 3 ] && tail -5 $t/o2)
  rm -rf "$t" "$d"
done
