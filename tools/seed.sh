#!/bin/bash
# seed.sh start            fresh scratch copy of /repo in /tmp/seedrepo (edit it, write /tmp/seeddemo/demo_test.go)
# seed.sh keep ID PROP "needs" "breaks" [PKG]   verify the edit with its demo and keep it as /verif/seeded/ID
# seed.sh check ID [PROP]  run the quick check against a patched scratch copy
set -e
S=/tmp/seedrepo
V=/verif
fresh() { rm -rf /tmp/seedrepo; cp -a /repo /tmp/seedrepo; git -C $S checkout -q -- .; git -C $S clean -fdq; }
buildtest() {
  . /opt/vp/env.sh
  cd $S
  go build ./... 
  go test -json -vet=off -count=1 -timeout 10m -run 'TestValidateDeviceSIMs|TestCBOR_CUSTOM_TAGS_Unmarshal|TestEncryptEMB|TestGenerateCoseSignature|TestGenerateCoseSignature_ECDSACoefficients' ./core/shared ./core/do/to2 >/tmp/seedtest.json || { echo "STABLE TESTS FAIL"; exit 1; }
}
case $1 in
start) fresh; mkdir -p /tmp/seeddemo; rm -f /tmp/seeddemo/*;;
keep)
  id=$2; d=$V/seeded/$id; pkg=${6:-core/do}
  cd $S; git diff > /tmp/seed.diff; [ -s /tmp/seed.diff ] || { echo "no change"; exit 1; }
  buildtest
  mkdir -p $d; rm -f $d/*
  cp /tmp/seed.diff $d/patch.diff
  cp /tmp/seeddemo/*_test.go $d/
  [ "$pkg" = core/do ] && cp $V/tools/seedkit/kit_test.go $d/
  sed "s#@PKG@#$pkg#g" $V/tools/seedkit/demo.sh > $d/demo.sh; chmod +x $d/demo.sh
  python3 - "$d" "$3" "$4" "$5" <<'PY'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
PY
  cd $S; if bash $d/demo.sh >/tmp/demo.bad 2>&1; then echo "DEMO PASSES WITH THE PATCH"; tail -5 /tmp/demo.bad; exit 1; fi
  grep -q "build failed" /tmp/demo.bad && { cat /tmp/demo.bad; exit 1; }
  grep -m3 -- "_test.go:" /tmp/demo.bad || tail -5 /tmp/demo.bad
  cd /repo; if bash $d/demo.sh >/tmp/demo.good 2>&1; then echo "demo ok"; else echo "DEMO FAILS ON THE UNCHANGED TREE"; tail -20 /tmp/demo.good; exit 1; fi
  ;;
check)
  id=$2; p=${3:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
  rm -rf /tmp/seedchk; cp -a /repo /tmp/seedchk; git -C /tmp/seedchk checkout -q -- .; git -C /tmp/seedchk apply $V/seeded/$id/patch.diff
  cd $V; set +e
  cp -r evidence /tmp/evidence.keep 2>/dev/null
  FDOSIM_REPO=/tmp/seedchk FDOSIM_BUILD=/tmp/seedchk.build timeout 900 python3 check.py $p ${TIER:-quick} > /tmp/seedchk.out 2>&1; rc=$?
  grep VIOLATION /tmp/seedchk.out | head -3; tail -2 /tmp/seedchk.out | cut -c1-300; echo "$id $p rc=$rc"
  rm -rf /tmp/seedchk /tmp/seedchk.build
  ;;
esac
