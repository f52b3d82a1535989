#!/bin/bash
# dev/seed.sh ID...: confirm planted bugs in scratch copies (mounted over /repo in a private mount namespace)
# per bug: demo passes on the clean tree, patch applies, builds, stable tests pass, demo fails
for id in "$@"; do
  d=$(mktemp -d /tmp/seed.XXXXXX)
  cp -a /repo "$d/repo"; mkdir "$d/reports" "$d/demo" "$d/stamps"
  cp -a /verif/seeded/$id/. "$d/demo/"; rm -f "$d/demo/patch.diff" "$d/demo/meta.json"
  unshare -m bash -c '
    d=$1; id=$2
    mount --bind $d/repo /repo; mount --bind $d/reports /opt/vp/reports
    cd /repo
    timeout 300 bash $d/demo/demo.sh >$d/clean.log 2>&1; c=$?
    git apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; exit; }
    bash /opt/vp/build.sh >$d/build.log 2>&1 || { echo "$id: build fails"; tail -5 $d/build.log; exit; }
    timeout 300 bash $d/demo/demo.sh >$d/patched.log 2>&1; p=$?
    [ $c = 0 ] || { echo "$id: demo fails on clean"; tail -15 $d/clean.log; }
    [ $p != 0 ] || { echo "$id: demo passes with patch"; tail -5 $d/patched.log; }
    [ -n "$NOTEST" ] && { echo "$id: demo clean=$c patched=$p"; tail -8 $d/patched.log | cut -c1-200; exit; }
    bash /opt/vp/test.sh $d/out.json >$d/test.log 2>&1
    python3 - $d/out.json $id $c $p <<PY
import json,sys
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); o=json.load(open(sys.argv[1]))
miss=sorted(b-set(o["passed"]))
print(sys.argv[2], "demo", sys.argv[3], sys.argv[4], "tests missing", len(miss), miss[:6])
if not miss and sys.argv[3]=="0" and sys.argv[4]!="0": print(sys.argv[2], "CONFIRMED")
PY
  ' _ "$d" "$id"
  rm -rf "$d"
done
