#!/bin/bash
# mkseed.sh NAME PROP PKG TEST.go "edit cmd" "needs" "breaks" : makes seeded/NAME from an edit and an in-package test, and confirms it.
set -u
name=$1 prop=$2 pkg=$3 test=$4 edit=$5 needs=$6 breaks=$7
lib=/verif/demolib; out=/verif/seeded/$name
d=$(mktemp -d /tmp/seed.XXXX); cp -a /repo/. $d; trap 'rm -rf "$d"' EXIT
cd $d && git checkout -q -- . && eval "$edit"
[ -n "$(git status --porcelain --untracked-files=no)" ] || { echo "NO CHANGE"; exit 1; }
mkdir -p $out; git diff > $out/patch.diff
helper=""
[ "$pkg" = axolotl ] && helper=axoworld_test.go
[ "$pkg" = . ] && helper=rootworld_test.go
cp $lib/run.sh $out/; [ -n "$helper" ] && cp $lib/$helper $out/
cp $test $out/
printf '#!/bin/bash\nexec bash "$(dirname "$0")/run.sh" %s %s %s\n' "$pkg" "$helper" "$(basename $test)" > $out/demo.sh
python3 - "$out/meta.json" "$prop" "$needs" "$breaks" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
( . /opt/vp/env.sh; cd $d; go build ./... ) || { echo BUILD-FAIL; exit 1; }
cd /repo && bash $out/demo.sh > $d.clean 2>&1 && echo "demo clean: ok" || { echo "DEMO FAILS ON CLEAN"; tail -15 $d.clean; }
cd $d && bash $out/demo.sh > $d.bad 2>&1 && echo "DEMO PASSES ON MUTANT" || { echo "demo mutant: fails"; grep -m3 -- '--- FAIL\|_test.go:\|panic:' $d.bad; }
rm -f $d.clean $d.bad
( . /opt/vp/env.sh; cd $d; export LD_LIBRARY_PATH="$(go list -m -f '{{.Dir}}' github.com/nanu-c/zkgroup)/lib"
  go test -vet=off -count=1 ./contactDiscoveryCrypto ./curve25519sign ./fingerprint 2>&1 | grep -v '^ok\|no test files' | head -5
  go test -vet=off -count=1 -run 'TestMAC' . 2>&1 | grep -v '^ok' | head )
caught=""
for i in $(python3 -c "import json;print(*json.load(open('/verif/gen/claimed.json')))"); do VSA_REPO=$d VSA_EVID=/tmp/seedev /verif/bin/vsa check $i > $d.out 2>&1 || caught="$caught $i"; done
rm -f $d.out; echo "caught by:$caught (wanted $prop)"
