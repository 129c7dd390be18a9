#!/bin/bash
# seedtest.sh [-c] [-t] ID...   run a planted bug in a private mount namespace (scratch copies of /repo and /verif):
#   demo on the clean tree (0), demo with the patch (!=0), stable tests (-t), the property's quick check (-c).
BASE=${BASE:-/repo}
dotests=0; docheck=0; tier=quick
while getopts "tcT" o; do case $o in t) dotests=1;; c) docheck=1;; T) tier=thorough;; esac; done
shift $((OPTIND-1))
one() {
  id=$1; d=/verif/seeded/$id; w=$(mktemp -d /tmp/seed.XXXXXX)
  cp -a $BASE $w/repo; mkdir $w/verif; (cd /verif && cp -a check.py dst tools known_findings.txt properties.jsonl MANIFEST.json $w/verif/)
  mkdir $w/demo; cp $d/* $w/demo/; rm -f $w/demo/patch.diff $w/demo/meta.json
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  # clean demo
  unshare -Urm bash -c "mount --bind $BASE /repo; cd /repo; timeout 300 bash $w/demo/demo.sh" >$w/clean.log 2>&1; rc0=$?
  git -C $w/repo apply $d/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; rm -rf "$w"; return; }
  unshare -Urm bash -c "mount --bind $w/repo /repo; cd /repo; timeout 300 bash $w/demo/demo.sh" >$w/demo.log 2>&1; rc1=$?
  tests=-
  if [ $dotests = 1 ]; then
    unshare -Urm bash -c "mount --bind $w/repo /repo; bash /opt/vp/test.sh $w/out.json" >$w/test.log 2>&1
    tests=$(python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('$w/out.json'))
m=sorted(b-set(o['passed'])); print('ok' if not m else 'BROKEN:%d:%s'%(len(m),m[:3]))
P
)
  fi
  chk=-
  if [ $docheck = 1 ]; then
    s=$(date +%s)
    unshare -Urm bash -c "mount --bind $w/repo /repo; mount --bind $w/verif /verif; cd /verif; VERIF_SEED=1 timeout 900 ./check.py $prop --tier $tier" >$w/check.log 2>&1; r=$?
    chk="rc=$r $(( $(date +%s)-s ))s $(grep -m1 -A1 '^  scenario=' $w/check.log | tr '\n' ' ' | cut -c1-160)"
    grep -q "VIOLATION property=$prop " $w/check.log || { [ $r = 1 ] && chk="$chk (no violation line!)"; }
    [ $r = 0 ] && chk="MISSED $chk"
  fi
  ok=OK; { [ $rc0 = 0 ] && [ $rc1 != 0 ]; } || ok="BAD-DEMO"
  echo "$id [$prop] $ok clean=$rc0 patched=$rc1 tests=$tests check=$chk"
  [ "$ok" = OK ] || { tail -5 $w/clean.log; echo ---; tail -5 $w/demo.log; }
  rm -rf "$w"
}
for id in "$@"; do one $id; done
