#!/bin/bash
# run.sh PROP quick|thorough [--replay FILE | --task ID]
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$V
OUT=$V/build/vh-$1-$$
trap 'rm -f "$OUT" "$OUT-w"' EXIT
case $1 in
C23) export VERIF_INSTR="pkg/ocfl pkg/extension" ;;
C30) BOTH="gocfl/cmd/display" ;;
esac
export GORACE="suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0"
if [ -n "${BOTH:-}" ]; then # the schedules run in instrumented processes
	VERIF_INSTR=$BOTH "$V/build.sh" "$OUT-w" || { echo "check error: harness does not build"; exit 2; }
	export VH_WORKERBIN=$OUT-w
fi
"$V/build.sh" "$OUT" || { echo "check error: harness does not build"; exit 2; }
"$OUT" "$@"
