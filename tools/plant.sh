#!/bin/bash
# usage: tools/plant.sh ID [ID...]: try planted bugs in a private copy of /repo (mounted over it in a mount namespace)
# prints for each: demo clean / build / stable tests / demo patched / check result.  NOTEST=1 skips the test suite.  SEEDS="1 2"
cd /verif
one() {
  id=$1; d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/plant.XXXXXX); cp -a /repo $w/repo; mkdir $w/verif; cp -a /verif/{check,checks,harness,known_findings.json,properties.jsonl,MANIFEST.json} $w/verif/; mkdir -p $w/verif/evidence $w/verif/replays
  cp -a $d $w/demo; rm -f $w/demo/patch.diff $w/demo/meta.json
  export d w id prop NOTEST SEEDS
  unshare -m bash -c '
    mount --bind $w/repo /repo; 
    cd /repo; bash $w/demo/demo.sh >$w/d0 2>&1; r0=$?
    git apply '"$d"'/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit; }
    bash /opt/vp/build.sh >$w/b 2>&1; rb=$?
    t=skipped; [ -z "$NOTEST" ] && t=$(bash /verif/tools/stable.sh 2>&1 | tail -1)
    bash $w/demo/demo.sh >$w/d1 2>&1; r1=$?
    mount --bind $w/verif /verif; cd /verif
    c=""; for s in ${SEEDS:-1}; do VERIF_SEED=$s timeout 900 ./check $prop >$w/c.$s 2>&1; c="$c $?:$(grep -c "^VIOLATION property=$prop" $w/c.$s)"; done
    echo "$id [$prop]: demo clean=$r0 build=$rb tests={$t} demo patched=$r1 check=$c"
    [ $r0 = 0 ] || tail -5 $w/d0; [ $r1 = 0 ] && tail -5 $w/d1
    for s in ${SEEDS:-1}; do grep -v "^VIOLATION" $w/c.$s | head -${LINES_OUT:-2} | cut -c1-300; done
  '
  rm -rf "$w"
}
for i in "$@"; do one $i; done
