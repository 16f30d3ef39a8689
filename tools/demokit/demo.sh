#!/bin/bash
# Runs the demonstration beside this file against the module in the current
# directory (the repository). Everything happens in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
. /opt/vp/env.sh
cd "$R" || exit 2
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
{
  echo '{"Replace":{'
  sep=
  for f in "$D"/*.go; do
    printf '%s"%s/zz_demo/%s":"%s"' "$sep" "$R" "$(basename "$f")" "$f"
    sep=,
  done
  echo '}}'
} > "$T/overlay.json"
go build -overlay "$T/overlay.json" -o "$T/demo" ./zz_demo || exit 2
mkdir "$T/scratch"
cd "$T/scratch" && timeout 120 "$T/demo" "$T/scratch"
