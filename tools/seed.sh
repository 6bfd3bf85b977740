#!/bin/bash
# seed.sh ID... : in a scratch copy of /repo, confirm each planted bug: applies, builds, stable tests pass, demo 0 without / nonzero with it. Prints one line per bug.
S=/tmp/sr
mkdir -p $S; rsync -a --delete --exclude=_build /repo/ $S/ 2>/dev/null || { find $S -mindepth 1 -maxdepth 1 ! -name _build -exec rm -rf {} +; tar -C /repo --exclude=./_build -cf - . | tar -C $S -xf -; }
sed "s#/repo#$S#g" /opt/vp/common.sh > /tmp/sr.common; . /tmp/sr.common
build() { do_build > /tmp/sr.build.log 2>&1; }
[ -d $S/_build ] || build || { echo "base build failed"; exit 1; }
for id in "$@"; do
  D=/verif/seeded/$id
  git -C $S checkout -q -- . 
  (cd $S && timeout 300 bash $D/demo.sh > /tmp/sr.demo0.log 2>&1); d0=$?
  git -C $S apply $D/patch.diff || { echo "$id: does not apply"; continue; }
  (cd $S && timeout 300 bash $D/demo.sh > /tmp/sr.demo1.log 2>&1); d1=$?
  if build; then
    mkdir -p $BUILD/vp-reports; python3 /opt/vp/run_tests.py "$BUILD" "$BUILD/vp-results.txt" >/dev/null 2>&1
    python3 /opt/vp/results.py /tmp/sr.out.json "lines:$BUILD/vp-results.txt" >/dev/null
    t=$(python3 -c "
import json; b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=set(json.load(open('/tmp/sr.out.json'))['passed']); m=sorted(b-r); print('stable-ok' if not m else 'LOST %d %s'%(len(m),m[:3]))")
  else t="BUILD FAILED"; fi
  git -C $S checkout -q -- .
  echo "$id: demo $d0/$d1 $t"
done
