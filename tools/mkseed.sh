#!/bin/bash
# usage: mkseed.sh <id> : edits already made in /tmp/wt (a cp -a of /repo); main.rs (and meta.json) in /verif/seeded/<id>/
# writes patch.diff, demo.sh; confirms build, tests, demo; leaves /tmp/wt clean
set -u
I=$1; S=/verif/seeded/$I
cd /tmp/wt || exit 1
git diff > $S/patch.diff
[ -s $S/patch.diff ] || { echo "empty patch"; exit 1; }
[ -f $S/demo.sh ] || cp /verif/tools/demo.tmpl.sh $S/demo.sh
export CARGO_NET_OFFLINE=true
cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seedwork/$I.log 2>&1
python3 /opt/vp/results.py /tmp/seedwork/$I.json cargo:/tmp/seedwork/$I.log
python3 - <<X
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=json.load(open('/tmp/seedwork/$I.json'))
print("tests broken:",sorted(b-set(o['passed']))[:5])
X
bash $S/demo.sh > /tmp/seedwork/$I.demo 2>&1; echo "demo with bug: rc=$?"; tail -2 /tmp/seedwork/$I.demo
git checkout -q -- .
bash $S/demo.sh > /tmp/seedwork/$I.demo0 2>&1; echo "demo clean: rc=$?"; tail -2 /tmp/seedwork/$I.demo0
