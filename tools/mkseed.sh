#!/bin/bash
# mkseed.sh ID PROP: takes /tmp/seed/repo's diff and /tmp/seed/main.go, verifies
# them and writes /verif/seeded/ID (needs/breaks from /tmp/seed/needs, breaks).
set -u
ID=$1; PROP=$2
S=/verif/seeded/$ID
mkdir -p "$S"
cp /verif/tools/demokit/demo.sh /verif/tools/demokit/kit.go "$S/"
cp /tmp/seed/main.go "$S/main.go"
cp /tmp/seed/patch.diff "$S/patch.diff"
chmod +x "$S/demo.sh"
python3 - "$S" "$PROP" <<'P'
import sys,json
s,p=sys.argv[1:]
json.dump({"property":p,"needs":open("/tmp/seed/needs").read().strip(),"what_it_breaks":open("/tmp/seed/breaks").read().strip()},open(s+"/meta.json","w"),indent=1)
P
