#!/bin/bash
# Builds the harness against /repo's current working tree.
# The harness lives in /verif/harness and is compiled as a package of the
# repository's module through -overlay; nothing is written into /repo.
# VERIF_INSTR="DIR ...": these packages of the repository are instrumented (a
# scheduling point before every statement, sync replaced by vsync), race
# detector on.
set -u
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export HOME=/root
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOROOT=/opt/veriftools/go1.23.12 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off GOENV=off CGO_ENABLED=1
export GOFLAGS=
mkdir -p "$V/build"
OUT=$(realpath -m "${1:-$V/build/vh}")
FLAGS=${VERIF_BUILDFLAGS:-}
echo '{}' >"$OUT.instr.json"
if [ -n "${VERIF_INSTR:-}" ]; then
	FLAGS="$FLAGS -race"
	(cd "$V/tools/instr" && go build -o "$OUT.instr" main.go) || exit 2
	DIRS=()
	for d in $VERIF_INSTR; do DIRS+=("$REPO/$d" "$OUT.src/$d"); done
	"$OUT.instr" github.com/je4/gocfl/v2/zz_verif/vsync "${DIRS[@]}" >"$OUT.instr.json" || exit 2
	rm -f "$OUT.instr"
fi
python3 - "$V" "$REPO" "$OUT.overlay.json" "$OUT.instr.json" <<'P'
import sys,os,json
v,repo,out,instr=sys.argv[1:]
r=json.load(open(instr))
for d in ("","vsync/"):
    for f in sorted(os.listdir(v+"/harness/"+d)):
        if f.endswith(".go"): r[f"{repo}/zz_verif/{d or 'vh/'}{f}"]=f"{v}/harness/{d}{f}"
json.dump({"Replace":r},open(out,"w"))
P
cd "$REPO" || exit 2
go build $FLAGS -overlay "$OUT.overlay.json" -mod=readonly -modfile="$V/mod/gocfl.mod" -o "$OUT" ./zz_verif/vh
RC=$?
rm -rf "$OUT.instr.json" "$OUT.overlay.json" "$OUT.src"
exit $RC
