#!/bin/bash
# plant.sh ID: confirm the planted change seeded/ID in a scratch copy: builds, passes the stable tests, demo fails with it and passes without
id=$1; d=$(realpath $(dirname $0)/../seeded/$id); w=$(mktemp -d /tmp/plant.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo $w/repo
cd $w/repo && git checkout -q -- . && bash /opt/vp/build.sh $w/repo >/dev/null 2>&1
mkdir $w/demo; cp $d/* $w/demo/; rm -f $w/demo/patch.diff $w/demo/meta.json
timeout 300 bash $w/demo/demo.sh >$w/d0 2>&1; r0=$?
git apply $d/patch.diff || { echo "$id: does not apply"; exit 1; }
bash /opt/vp/build.sh $w/repo >$w/b 2>&1 || { tail $w/b; echo "$id: does not build"; exit 1; }
timeout 300 bash $w/demo/demo.sh >$w/d1 2>&1; r1=$?
sed "s#/repo#$w/repo#g" /opt/vp/test.sh >$w/test.sh; sed -i 's#^here=.*#here=/opt/vp#' $w/test.sh
[ -n "$2" ] || flock /tmp/plant.lock timeout 900 bash $w/test.sh $w/out.json >$w/t.log 2>&1
[ -n "$2" ] || python3 - $w/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open(sys.argv[1]))['passed']
m=sorted(set(b)-set(o)); print('tests ok' if not m else 'TESTS FAIL %s'%m)
P
echo "$id: demo clean=$r0 patched=$r1"; tail -3 $w/d1 | cut -c1-200; [ $r0 = 0 ] || tail -5 $w/d0
