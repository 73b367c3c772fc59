#!/bin/bash
# verify_bug.sh ID [check args]: applies a planted bug to a scratch copy, runs tests, demo and the property's check.
ID=$1; shift
HERE=$(cd "$(dirname "$0")/.." && pwd)
B=$HERE/seeded/$ID
WT=/tmp/pl-$ID
rm -rf "$WT"; cp -a /repo "$WT"
. /opt/vp/env.sh
PROP=$(/opt/venv/bin/python -c "import json,sys;print(json.load(open('$B/meta.json'))['property'])")
(cd "$WT" && bash $B/demo.sh > /tmp/pl-$ID.demo0 2>&1); D0=$?
git -C "$WT" apply $B/patch.diff || { echo "$ID: patch does not apply"; rm -rf "$WT"; exit 1; }
(cd "$WT" && bash $B/demo.sh > /tmp/pl-$ID.demo1 2>&1); D1=$?
run() { (cd "$1" && PYTHONPATH=$WT/src:$WT/connectrpc-otel:$WT/protoc-gen-connectrpc timeout 300 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=60 2>&1 | tail -4); }
if [ -z "$NOTEST" ]; then T1=$(run $WT | tail -1); T2=$(run $WT/connectrpc-otel | tail -1); fi
C=$(VERIF_REPO=$WT $HERE/check $PROP --no-evidence --out /tmp/pl-out-$ID "$@" 2>&1); RC=$?
echo "== $ID ($PROP): demo clean=$D0 patched=$D1 | tests: $T1 / $T2 | check rc=$RC"
echo "$C" | tail -6 | cut -c1-400
rm -rf "$WT"
