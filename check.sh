#!/bin/bash
# check.sh ID [quick|thorough]       run one check against /repo's working tree
# check.sh ID replay FILE            re-run one recorded case
set -u
dir=$(cd "$(dirname "$0")" && pwd)
id=${1:?usage: check.sh ID [quick|thorough|replay FILE]}
mode=${2:-${VERIF_TIER:-quick}}
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off VERIF_DIR="$dir"
out=$(mktemp -d "${TMPDIR:-/tmp}/mc-XXXXXX") || exit 2
trap 'rm -rf "$out"' EXIT
export TMPDIR="$out"
cd "$dir/mc" || exit 2
if ! go build -o "$out/mc" . 2> "$out/build.log"; then
	cat "$out/build.log" >&2
	echo "build failed" >&2
	exit 2
fi
if [ "$mode" = replay ]; then
	"$out/mc" replay "$id" "$3"
else
	"$out/mc" check "$id" "$mode"
fi
code=$?
exit $code
