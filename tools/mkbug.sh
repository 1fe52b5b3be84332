#!/bin/bash
# mkbug.sh ID: takes the diff of the scratch tree /tmp/wt as seeded/ID/patch.diff,
# runs the demo in both trees and resets the scratch tree
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/wt diff > $d/patch.diff
(cd /repo && bash $d/demo.sh >/tmp/demo0.log 2>&1) && echo "clean: 0" || { echo "clean: FAIL"; tail -3 /tmp/demo0.log; }
mkdir -p /tmp/demo_repo
sed 's#/repo#/tmp/wt#g' $d/demo.sh > /tmp/demo_wt.sh; cp -r $d/. /tmp/demo_wt_dir/ 2>/dev/null || { mkdir -p /tmp/demo_wt_dir; cp -r $d/. /tmp/demo_wt_dir/; }
cp /tmp/demo_wt.sh /tmp/demo_wt_dir/demo.sh
(cd /tmp/wt && bash /tmp/demo_wt_dir/demo.sh >/tmp/demo1.log 2>&1) && echo "patched: 0 (NOT DETECTED)" || { echo "patched: nonzero"; tail -2 /tmp/demo1.log; }
rm -rf /tmp/demo_wt_dir
git -C /tmp/wt checkout -q -- .
