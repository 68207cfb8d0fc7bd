#!/bin/bash
# seedtest.sh ID [--no-tests] [check ids...]: demo on the clean tree, then build, stable tests, demo and checks with the change
id=$1; shift; tests=1; [ "${1:-}" = --no-tests ] && { tests=0; shift; }
S=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])"); [ $# = 0 ] && set -- $prop
L=/tmp/w/seed-$id; mkdir -p /tmp/w; cd /repo
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 9; }
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
bash /opt/vp/build.sh > $L.build0 2>&1
bash $S/demo.sh > $L.demo0 2>&1; echo "$id demo clean rc=$?"
git apply $S/patch.diff || exit 9
if [ $tests = 1 ]; then bash /opt/vp/build.sh > $L.build 2>&1 || echo "BUILD FAILED"
  bash /opt/vp/test.sh $L.json > $L.test 2>&1
  python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$L.json'))
def passed(x):
    if isinstance(x.get('passed'),list): return set(x['passed'])
    return {k for k,v in x.get('tests',x).items() if v in ('PASS','passed','pass',True)}
want=set(b.get('passed') or b.get('stable') or b.get('tests')); got=passed(o)
print('$id tests missing:', sorted(want-got)[:10] or 'none', len(want))
P
else (cd /repo/cli && . /opt/vp/env.sh && cargo build --release --offline) > $L.build 2>&1 || echo "BUILD FAILED"; fi
timeout 300 bash $S/demo.sh > $L.demo1 2>&1; echo "$id demo changed rc=$?"
for c in "$@"; do (cd /verif; python3 check.py $c quick > $L.check-$c 2>&1; echo "$id check $c rc=$? $(grep -m1 VIOLATION $L.check-$c)"; grep -m2 -v '^  [a-z_]*: [0-9]' $L.check-$c | cut -c1-300); done
undo
(cd /repo/cli && . /opt/vp/env.sh && cargo build --release --offline) > /dev/null 2>&1
