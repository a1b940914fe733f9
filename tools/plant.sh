#!/bin/bash
# plant.sh ID...: validates planted bugs in seeded/ID (the tree is put back afterwards) and says whether the check of the property catches them
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh > /dev/null 2>&1' EXIT
bash /opt/vp/build.sh > /tmp/plant_build.log 2>&1 || { echo "build failed"; exit 2; }
for id in "$@"; do
  D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  if [ -z "$NODEMO" ]; then bash $D/demo.sh > /tmp/plant_$id.clean 2>&1; c=$?; fi
  git apply $D/patch.diff || { echo "$id: does not apply"; continue; }
  if [ -z "$NODEMO" ]; then
  bash /opt/vp/test.sh /tmp/plant_out.json > /tmp/plant_build.log 2>&1; r=$?
  n=$(python3 -c "import json;print(len(json.load(open('/tmp/plant_out.json'))['passed']))")
  bash $D/demo.sh > /tmp/plant_$id.bug 2>&1; b=$?
  fi
  (cd /verif; bash check.sh $P quick > /tmp/plant_$id.check 2>&1); k=$?
  git checkout -q -- .
  [ -z "$NODEMO" ] && bash /opt/vp/build.sh > /tmp/plant_build.log 2>&1
  echo "$id $P: demo clean $c bugged $b, build/tests rc $r passed $n, check exit $k $(grep -c ^VIOLATION /tmp/plant_$id.check) violations"
done
