#!/bin/bash
# tools/seedtest.sh ID [check ids...]: does a planted bug compile, pass the tests, fail its demo, and get caught?
# leaves /repo as it was
id=$1; shift
d=${SEEDS:-/verif/seeded}/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
REPO=${REPO:-/repo}; V=${V:-/verif}
[ -z "$(git -C $REPO status --porcelain)" ] || { echo "repo not clean"; exit 3; }
cd $REPO
if [ -z "$NODEMO" ]; then bash $d/demo.sh >/tmp/seed_demo0.log 2>&1 && echo "demo clean: ok" || { echo "demo clean: FAILS"; tail -5 /tmp/seed_demo0.log; }; fi
git apply $d/patch.diff || exit 3
trap 'git -C $REPO checkout -q -- .' EXIT
if [ -z "$NOTEST" ]; then
if [ $REPO = /repo ]; then bash /opt/vp/build.sh; else cargo test --offline --workspace --no-run; fi >/tmp/seed_build.log 2>&1 || { echo "BUILD FAILS"; tail -20 /tmp/seed_build.log; exit 1; }
if [ $REPO = /repo ]; then
bash /opt/vp/test.sh /tmp/seed_t.json 2>&1 | tail -1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/seed_t.json'))
miss=b-set(t['passed']); print('stable tests broken:',sorted(miss) if miss else 'none')
P

else
cargo test --offline --workspace 2>&1 | grep -E "^test .*FAILED|panicked" | head -5
fi
fi
if [ -z "$NODEMO" ]; then bash $d/demo.sh >/tmp/seed_demo1.log 2>&1 && echo "demo patched: PASSES (bad)" || { echo "demo patched: fails (good)"; tail -2 /tmp/seed_demo1.log; }; fi
cd $V
for c in ${@:-$prop}; do python3 check.py $c 2>&1 | tail -4; done
