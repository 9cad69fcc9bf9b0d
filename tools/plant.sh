#!/bin/bash
# tools/plant.sh ID... : builds, tests, demonstrates and checks planted bugs, each in a scratch copy of /repo
# bound over /repo in a private mount namespace.  NOTEST=1 skips the stable tests, CHECKS="a b" names the checks.
one() {
  id=$1; d=/verif/seeded/$id; s=/tmp/sb/$id
  rm -rf "$s" "$s.build"; cp -a /repo "$s"; cp -al /verif/build "$s.build"; rm -rf "$s.build"/bin-*
  base=$(cd /repo && timeout 300 bash $d/demo.sh >$s.demo0 2>&1; echo $?)
  checks=${CHECKS:-$(python3 - $d <<'P'
import json,sys
m=json.load(open(sys.argv[1]+"/meta.json"))["property"]
print([c["quick_cmd"] for c in json.load(open("/verif/MANIFEST.json"))["checks"] if c["property"]==m][0].split("/")[-1][:-3])
P
)}
  unshare -Urm bash -c '
    id=$1; d=$2; s=$3; checks=$4
    mount --bind $s /repo; cd /repo
    git apply $d/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit; }
    bash /opt/vp/build.sh >$s.log 2>&1 || { echo "$id: BUILD FAILS"; exit; }
    t=skipped; [ -n "$NOTEST" ] || t=$(bash /opt/vp/test.sh $s.json 2>&1 | tail -1)
    timeout 300 bash $d/demo.sh >$s.demo1 2>&1; rc=$?
    out=""
    for c in $checks; do
      (cd /verif; VERIF_SEED=${VERIF_SEED:-1} VERIF_BUILD=$s.build timeout 900 python3 checks/$c.py >$s.check-$c 2>&1; echo rc=$? >>$s.check-$c)
      out="$out $c:$(tail -1 $s.check-$c),$(grep -c ^VIOLATION $s.check-$c)v"
    done
    echo "$id: tests [$t] demo unpatched '$base' patched $rc checks$out"
  ' _ $id $d $s "$checks"
  rm -rf "$s" "$s.build"
}
mkdir -p /tmp/sb
export VERIF_EVIDENCE=${VERIF_EVIDENCE:-/tmp/sb/evidence}
for i in "$@"; do one $i; done
