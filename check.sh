#!/bin/bash
# usage: check.sh <property> [quick|thorough]
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
ID=${1:?property}; TIER=${2:-${VERIF_TIER:-quick}}
HERE=$PWD
export VERIF_REPO=${VERIF_REPO:-/repo} VERIF_BUILD=${VERIF_BUILD:-$HERE/.build}
export VERIF_EVIDENCE=${VERIF_EVIDENCE:-$HERE/evidence}
case $ID in C09) DEV=--dev;; *) DEV=;; esac
bash ./build.sh $DEV || exit 2
BASE=/dev/shm; [ -d $BASE ] && [ -w $BASE ] || BASE=/tmp
SCRATCH=$(mktemp -d "$BASE/c8s-mc.XXXXXXXX") || exit 2
chmod 755 "$SCRATCH"
trap 'rm -rf "$SCRATCH"' EXIT
trap 'exit 2' INT TERM
export VERIF_SCRATCH=$SCRATCH
"$VERIF_BUILD/mc/release/mc" "$ID" "$TIER" &
PID=$!; wait $PID; RC=$?
exit $RC
