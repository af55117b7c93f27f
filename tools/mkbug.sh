#!/bin/bash
# mkbug.sh ID PROPERTY PKGDIR "needs" "breaks" < demo test on stdin; edits already made in /tmp/p (a copy of /repo)
set -e
id=$1; d=/verif/seeded/$id; rm -rf "$d"; mkdir -p "$d"
git -C /tmp/p diff > $d/patch.diff
cat > $d/demo_test.go.txt
cat > $d/demo.sh <<X
#!/bin/bash
# run in the repository: a test laid over package directory $3
D=\$(cd "\$(dirname "\$0")" && pwd); T=\$(mktemp -d); trap 'rm -rf "\$T"' EXIT
printf '{"Replace":{"%s/$3/zz_demo_test.go":"%s/demo_test.go.txt"}}' "\$PWD" "\$D" > "\$T/ov.json"
GOFLAGS=-mod=mod GOPROXY=off go test -overlay "\$T/ov.json" -vet=off -count=1 -run '^TestDemo\$' -timeout 60s ./$3
X
python3 - "$d/meta.json" "$2" "$4" "$5" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'),indent=1)
P
# confirm
cd /tmp/p
GOFLAGS=-mod=mod GOPROXY=off go build ./... && GOFLAGS=-mod=mod GOPROXY=off go test -vet=off -count=1 ./... >/tmp/p.log 2>&1 || { echo "$id: TESTS FAIL"; tail -5 /tmp/p.log; }
if bash $d/demo.sh >/tmp/p.log 2>&1; then echo "$id: demo passes with the bug"; fi
git checkout -q -- .
if ! bash $d/demo.sh >/tmp/p.log 2>&1; then echo "$id: demo fails without the bug"; tail -5 /tmp/p.log; fi
echo "$id made"
