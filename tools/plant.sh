#!/bin/bash
# plant.sh NAME: after editing /tmp/wt (a copy of /repo) and writing seeded/NAME/{demo_test.go,meta.json}, confirm the planted bug:
# it builds, passes the stable tests, and its demo passes without and fails with it.   plant.sh new: make a fresh copy.
set -u
R=/verif/seeded
if [ "$1" = new ]; then find /tmp/wt -delete 2>/dev/null; cp -a /repo /tmp/wt; git -C /tmp/wt checkout -q -- .; exit; fi
N=$1; D=$R/$N; mkdir -p $D
git -C /tmp/wt diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no change"; exit 1; }
P=${2:-.}
cat > $D/demo.sh <<X
#!/bin/bash
# run in the repository: passes on the original, fails with the change
here="\$(cd "\$(dirname "\$0")" && pwd)"
o="\$(mktemp)"
trap 'rm -f "\$o"' EXIT
echo "{\"Replace\":{\"\$PWD/$P/zz_demo_test.go\":\"\$here/demo_test.go\"}}" > "\$o"
GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go test -vet=off -count=1 -overlay "\$o" -run 'TestDemo' ./$P
X
chmod +x $D/demo.sh
(cd /tmp/wt && go build ./... && go vet . >/dev/null 2>&1; git -C /tmp/wt checkout -q -- . && bash $D/demo.sh > /tmp/demo0.txt 2>&1; echo "demo without: $?"; git apply $D/patch.diff; bash $D/demo.sh > /tmp/demo1.txt 2>&1; echo "demo with: $?"
 go test -vet=off ./... 2>&1 | grep "^--- FAIL\|^FAIL\|build failed" | head -8; echo "tests ran")
