#!/bin/bash
# try_seed.sh ID [checks...]: tries seeded/ID in a scratch copy of /repo: applies, demo, tests, the given checks
ID=$1; shift
S=/tmp/seedtry/$ID; mkdir -p /tmp/seedtry; rm -rf "/tmp/seedtry/$ID"; cp -a /repo $S
cd $S && git checkout -q -- . && git apply /verif/seeded/$ID/patch.diff || { echo "$ID: does not apply"; exit 1; }
export TF_USE_LEGACY_KERAS=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES="" PYTHONDONTWRITEBYTECODE=1
(cd /repo; bash /verif/seeded/$ID/demo.sh >/tmp/seedtry/$ID.clean.log 2>&1); A=$?
(cd $S; PYTHONPATH=$S bash /verif/seeded/$ID/demo.sh >/tmp/seedtry/$ID.demo.log 2>&1); B=$?
echo "$ID demo: unchanged tree $A (want 0), with the change $B (want not 0)"
if [ -z "$NOTEST" ]; then
  sed -e "s#cd /repo#cd $S#" -e "s#PYTHONPATH=/opt/vp/pytest_support#PYTHONPATH=/opt/vp/pytest_support:$S#" /opt/vp/test.sh > /tmp/seedtry/$ID.test.sh
  bash /tmp/seedtry/$ID.test.sh /tmp/seedtry/$ID.json > /tmp/seedtry/$ID.test.log 2>&1
  python3 - /tmp/seedtry/$ID.json <<'P'
import json,sys
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); p=set(json.load(open(sys.argv[1])).get("passed",[]))
print("   tests broken:", len(b-p), sorted(b-p)[:4])
P
fi
for c in "$@"; do
  (cd /verif; VERIF_REPO=$S python3 lib/check.py $c --seed ${SEED:-1} > /tmp/seedtry/$ID.$c.log 2>&1; echo "   check $c: rc $?"; grep -m1 -A1 "^  [a-z]" /tmp/seedtry/$ID.$c.log | cut -c1-250)
done
rm -rf "/tmp/seedtry/$ID"
