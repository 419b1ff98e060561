#!/bin/bash
# seedtest.sh ID [notest]: confirm a planted bug in a scratch copy: applies, builds, stable tests pass, demo 0 -> nonzero
id=$1; sd=/verif/seeded/$id; w=/tmp/seed-$id
rm -rf "/tmp/seed-$id"; mkdir -p $w; cp -a /repo $w/repo; cp -a $sd $w/demo; rm -f $w/demo/patch.diff $w/demo/meta.json
git -C $w/repo checkout -q -- . 
run() { unshare -Urm bash -c "mount --bind $w/repo /repo && cd /repo && $1"; }
run "bash /opt/vp/build.sh >/dev/null 2>&1; bash $w/demo/demo.sh" >$w/clean.out 2>&1; a=$?
git -C $w/repo apply $sd/patch.diff || { echo "$id: patch does not apply"; exit 1; }
run "bash /opt/vp/build.sh >$w/build.out 2>&1" || { echo "$id: build failed"; tail -5 $w/build.out; exit 1; }
run "bash $w/demo/demo.sh" >$w/bug.out 2>&1; b=$?
t=skipped
if [ "$2" != notest ]; then
  run "bash /opt/vp/test.sh $w/out.json >$w/test.out 2>&1"
  t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('$w/out.json'))
print('all stable pass' if set(b)<=set(o['passed']) else 'FAILED '+str(sorted(set(b)-set(o['passed']))))
P
)
fi
echo "$id: demo clean=$a bug=$b tests: $t"; tail -n 2 $w/bug.out
rm -rf "/tmp/seed-$id"
