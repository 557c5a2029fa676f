#!/bin/bash
# mkseed.sh ID : with the bug applied in /repo's working tree and seeded/ID/{demo.cc,sources,meta.json} written: records the patch, validates demo on both trees and the check
V=${V:-/verif}; R=${R:-/repo}; export VERIF_REPO=$R; D=$V/seeded/$1; [ -f $D/demo.sh ] || cp $V/tools/seedtmpl/demo.sh $D/demo.sh
cd $R; [ -n "$(git status --porcelain --untracked-files=no)" ] && git diff > $D/patch.diff
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
git diff --quiet && git apply $D/patch.diff
bash $D/demo.sh >/tmp/seed_p.log 2>&1; a=$?
[ -z "$NOCHECK" ] && (cd $V; bin/check $P > /tmp/seed_c.log 2>&1; echo "check $P rc $?"; grep -a "^VIOLATION" /tmp/seed_c.log)
git checkout -- .; bash $D/demo.sh >/tmp/seed_u.log 2>&1; b=$?
echo "$1: demo patched=$a clean=$b"; [ $a = 0 ] && tail -3 /tmp/seed_p.log; [ $b != 0 ] && tail -3 /tmp/seed_u.log; true
