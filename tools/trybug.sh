#!/bin/bash
# trybug.sh ID: applies seeded/ID in a scratch copy, builds, runs the demo on both trees and this property's quick check
set -u
V=$(cd "$(dirname "$0")/.." && pwd); ID=$1; D=$(mktemp -d /tmp/bug.XXXXXX)
cp -a /repo "$D/repo"; cd "$D/repo" || exit 3
git apply "$V/seeded/$ID/patch.diff" || exit 3
mkdir "$D/demo"; cp "$V/seeded/$ID/"* "$D/demo/"; rm -f "$D/demo/patch.diff" "$D/demo/meta.json"
(cd /repo; bash "$D/demo/demo.sh" >$D/o 2>&1; echo "demo, unchanged: $?"; tail -2 $D/o)
sed "s#/repo#$D/repo#g" /opt/vp/make.sh > $D/make.sh; bash $D/make.sh >$D/mo 2>&1 || { tail -5 $D/mo; }
(cd $D/repo; bash "$D/demo/demo.sh" >$D/o 2>&1; echo "demo, patched: $?"; tail -2 $D/o)
P=$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
cd $V; VF_REPO=$D/repo python3 checks/$P.py 2>&1 | tail -3 | cut -c1-250
rm -rf "$D"
