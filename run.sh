#!/bin/bash
# run.sh <property> : builds the simulator from /repo's working tree and runs a check.
# The tier and the seed come from VERIF_TIER and VERIF_SEED.
# exit 0: the property held; 1: VIOLATION line printed; 2: the check itself failed.
here=$(cd "$(dirname "$0")" && pwd)
repo=${LHA_REPO:-/repo}
tier=${VERIF_TIER:-quick}
[ -n "$2" ] && tier=$2
seed=${VERIF_SEED:-1}
case $seed in *[!0-9]*|'') seed=1;; esac
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
export PATH=$PATH:/usr/local/go/bin
ulimit -c 0
work=$(mktemp -d "${TMPDIR:-/tmp}/lhasim.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
(cd "$here/sim" && tar cf - --exclude=./gen .) | tar xf - -C "$work" || exit 2
cd "$work" || exit 2
go run ./cmd/rewrite "$repo" "$work/gen" >"$work/log" 2>&1 &&
go build -trimpath -o "$work/lhasim.bin" ./cmd/lhasim >>"$work/log" 2>&1 || {
	echo "the simulator could not be built from $repo:"; head -40 "$work/log"; exit 2; }
if [ "$1" = build ]; then cp "$work/lhasim.bin" "$2"; exit; fi
if [ "$1" = replay ]; then "$work/lhasim.bin" replay "$2"; exit; fi
"$work/lhasim.bin" check "$1" -tier "$tier" -seed "$seed" -evidence "$here/evidence/$1.json" \
	-replays "$here/replays" -known "$here/known-findings.txt" $LHASIM_ARGS
exit
