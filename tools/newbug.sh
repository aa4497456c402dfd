#!/bin/bash
# newbug.sh ID PROPERTY: makes /verif/seeded/ID from the changes of the
# scratch copy /tmp/bug/repo; demo_test.go is read from stdin
id=$1; prop=$2; d=/verif/seeded/$id
mkdir -p "$d"
git -C /tmp/bug/repo diff > "$d/patch.diff"
git -C /tmp/bug/repo checkout -q -- .
cat > "$d/demo_test.go.txt"
cat > "$d/demo.sh" <<'D'
#!/bin/bash
# Runs the test beside this file in the package of the current directory
dir="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
export HOME="${HOME:-/root}"; export PATH=/usr/local/go/bin:$PATH
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp "$dir/demo_test.go.txt" "$t/zz_demo_test.go"
echo "{\"Replace\":{\"$PWD/zz_demo_test.go\":\"$t/zz_demo_test.go\"}}" > "$t/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestZZDemo$' . 
D
echo "{\"property\":\"$prop\",\"needs\":$(python3 -c 'import json,sys;print(json.dumps(sys.argv[1]))' "$3"),\"what_it_breaks\":$(python3 -c 'import json,sys;print(json.dumps(sys.argv[1]))' "$4")}" > "$d/meta.json"
