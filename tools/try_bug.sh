#!/bin/bash
# try_bug.sh ID...: demo on the clean tree, then with the patch: build, stable tests, demo, the property's quick check.
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' $d/meta.json)
  cd /repo
  bash /opt/vp/build.sh >/tmp/tb.log 2>&1 || echo "$id: clean build fails"
  bash $d/demo.sh >/tmp/tb.demo0 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/tb.log 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/tb.json >/dev/null 2>&1; n=$(python3 -c 'import json; print(len(json.load(open("/tmp/tb.json"))["passed"]))')
  bash $d/demo.sh >/tmp/tb.demo1 2>&1; c=$?
  bash /verif/check.sh $p quick >/tmp/tb.check 2>&1; e=$?
  git checkout -q -- .
  echo "$id $p: demo clean=$a build=$b tests=$n demo patched=$c check=$e $(grep -c '^VIOLATION' /tmp/tb.check)"
done
