#!/bin/bash
# plant.sh <seeded-dir> [full]: apply the change to /repo, (full: build, tests, demo both ways), run its check, undo
d=$(realpath "$1"); id=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
if [ "$2" = full ]; then
cd /repo || exit 2
git diff --quiet || { echo "repo dirty"; exit 2; }
  bash /opt/vp/build.sh >/tmp/plant.b 2>&1 || { echo BASE-BUILD-FAIL; exit 2; }
  timeout 300 bash $d/demo.sh >/tmp/plant.d0 2>&1; echo "demo clean rc=$?"
git apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
  bash /opt/vp/build.sh >/tmp/plant.b 2>&1 || { echo BUILD-FAIL; tail -30 /tmp/plant.b; exit 2; }
  timeout 300 bash $d/demo.sh >/tmp/plant.d1 2>&1; echo "demo patched rc=$?"; tail -3 /tmp/plant.d1
  bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1; python3 -c "
import json;d=json.load(open('/tmp/plant.json'));b=json.load(open('/opt/vp/BASELINE.json'))
ok=set(d['passed']);base=b['stable']; print('tests passed',len(ok),'missing',[x for x in base if x not in ok][:5])"
else
  # on a copy of the sources
  c=$(mktemp -d /tmp/plantrepo.XXXX); trap 'rm -rf $c' EXIT
  git -C /repo archive HEAD | tar x -C $c; (cd $c && git init -q . && git apply $d/patch.diff) || exit 2
  export RXV_REPO=$c
fi
cd /verif; RXV_EVIDENCE=${RXV_EVIDENCE:-/tmp/plant.ev} python3 run.py ${3:-$id} | tail -12 | cut -c1-300
