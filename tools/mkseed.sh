#!/bin/bash
# mkseed.sh ID PROPERTY PKG "needs" "what": makes seeded/ID from the uncommitted
# change in /repo and the test on stdin, then reverts the change.
set -e
d=/verif/seeded/$1
mkdir -p $d
cat > $d/demo_test.go.txt
git -C /repo diff > $d/patch.diff
git -C /repo checkout -- .
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[4],"what_it_breaks":sys.argv[5]},open("/verif/seeded/"+sys.argv[1]+"/meta.json","w"),indent=1)
P
cat > $d/demo.sh <<D
#!/bin/bash
# Runs the behavioural test next to this script inside package $3.
here="\$(cd "\$(dirname "\$0")" && pwd)"
tmp="\$(mktemp -d)"
trap 'rm -r "\$tmp"' EXIT
cp "\$here/demo_test.go.txt" "\$tmp/zz_demo_test.go"
printf '{"Replace":{"%s/$3/zz_demo_test.go":"%s/zz_demo_test.go"}}' "\$PWD" "\$tmp" > "\$tmp/overlay.json"
export HOME=\${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
go test -overlay "\$tmp/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestZZDemo\$' "./$3"
D
chmod +x $d/demo.sh
cd /repo
bash $d/demo.sh >/dev/null 2>&1 && echo "demo ok on clean tree" || echo "DEMO FAILS ON CLEAN TREE"
git apply $d/patch.diff
bash $d/demo.sh >/dev/null 2>&1 && echo "DEMO PASSES WITH BUG" || echo "demo detects"
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD FAILS"
bash /opt/vp/test.sh /tmp/seedtest.json | tail -1
git checkout -- .
