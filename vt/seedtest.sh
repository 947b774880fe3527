#!/bin/bash
# seedtest.sh ID CHECK... : try a planted bug in a scratch copy: applies, builds, passes the stable tests, demo fails with it
# and passes without it; then run the given checks on the patched copy
export GIT_CONFIG_COUNT=3 GIT_CONFIG_KEY_0=filter.lfs.process GIT_CONFIG_VALUE_0= GIT_CONFIG_KEY_1=filter.lfs.smudge GIT_CONFIG_VALUE_1= GIT_CONFIG_KEY_2=filter.lfs.required GIT_CONFIG_VALUE_2=false
S=/tmp/sd; ID=$1; shift; D=/verif/seeded/$ID
if [ ! -d $S ]; then cp -a /repo $S; rm -rf $S/_build; cmake -S /opt/vp/cmake -B $S/_build -G Ninja -DR=$S -DCMAKE_BUILD_TYPE=RelWithDebInfo >/dev/null; fi
git -C $S checkout -q -- . ; git -C $S fetch -q /repo HEAD && git -C $S reset -q --hard FETCH_HEAD
git -C $S apply --check $D/patch.diff || { echo "SEED $ID: does not apply"; exit 1; }
T=$(mktemp -d); cp -r $D/. $T/; rm -f $T/patch.diff $T/meta.json
if [ -z "$SKIP_CLEAN" ]; then ninja -C $S/_build -j8 >/tmp/sd.log 2>&1 || { echo "SEED $ID: clean build fails"; exit 1; }
( cd $S && timeout 300 bash $T/demo.sh >/tmp/sd.demo 2>&1 ); echo "SEED $ID: demo clean rc=$?"; fi
git -C $S apply $D/patch.diff
ninja -C $S/_build -j8 >/tmp/sd.log 2>&1 || { echo "SEED $ID: build fails"; tail -5 /tmp/sd.log; git -C $S checkout -q -- .; exit 1; }
if [ -z "$SKIP_TESTS" ]; then python3 /opt/vp/run_tests.py $S $S/_build /tmp/sd.res >/dev/null 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); st=b.get('passed') or b.get('stable') or list(b.values())[0]
ok=set(l.split(' ',1)[1].strip() for l in open('/tmp/sd.res') if l.startswith('PASS'))
print('SEED $ID: tests missing', [t for t in st if t not in ok])
P
fi
( cd $S && timeout 300 bash $T/demo.sh >/tmp/sd.demo 2>&1 ); echo "SEED $ID: demo patched rc=$?"; tail -2 /tmp/sd.demo
for c in "$@"; do if [ -f /verif/harness/$c.py ]; then VERIF_REPO=$S timeout 900 python3 /verif/harness/$c.py > /tmp/sd.chk 2>&1; else VERIF_REPO=$S timeout 900 python3 /verif/vt/check.py $c > /tmp/sd.chk 2>&1; fi; echo "SEED $ID: check $c rc=$?"; grep VIOLATION /tmp/sd.chk | head -1; done
git -C $S checkout -q -- .; rm -rf "$T"
