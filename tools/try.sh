#!/bin/bash
# try.sh ID [quick|thorough]: run a check against the scratch copy in /tmp/wt
# instead of /repo (development aid; registered checks always use /repo).
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
mkdir -p /tmp/try/evidence
sed 's#=> /repo#=> /tmp/wt#' /verif/mc/go.mod > /tmp/try/alt.mod
cp /verif/mc/go.sum /tmp/try/alt.sum
cp /verif/known-findings.txt /tmp/try/
cd /verif/mc && go build -modfile=/tmp/try/alt.mod -o /tmp/try/mc . || exit 2
VERIF_DIR=/tmp/try /tmp/try/mc check "$1" "${2:-quick}"
