#!/bin/bash
# seedtest.sh ID [PROP...]: applies a planted change to /repo, runs build, tests, its demo and the
# checks of its property (or of the ones given), and undoes it.
ID=$1; shift
S=/verif/seeded/$ID
P=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
cd /repo || exit 1
git diff --quiet || { echo "repo dirty"; exit 1; }
git apply --check "$S/patch.diff" || exit 1
git apply "$S/patch.diff"
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || { tail -20 /tmp/seed.log; echo "BUILD FAILED"; exit 1; }
bash /opt/vp/test.sh /tmp/seed.json 2>&1 | tail -1
timeout 300 bash "$S/demo.sh" >/tmp/seed-demo.log 2>&1; echo "demo with patch: $? ($(tail -1 /tmp/seed-demo.log | cut -c1-150))"
fi
for p in $P; do
  VERIF_SEED=${VERIF_SEED:-1} bash /verif/run.sh check $p quick >/tmp/seed-check.log 2>&1; echo "check $p: $? ($(grep -a -m1 VIOLATION /tmp/seed-check.log))"
done
git checkout -q -- .
trap - EXIT
if [ -z "$NOTEST" ]; then
timeout 300 bash "$S/demo.sh" >/tmp/seed-demo.log 2>&1; echo "demo without patch: $?"
fi
