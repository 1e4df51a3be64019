#!/bin/bash
# run.sh PROPERTY quick|thorough   decides one property on /repo's working tree
# run.sh replay FILE               repeats the run of a replay file (exit 1: it violates the property again)
# run.sh build DIR                 only builds the simulator in DIR
# run.sh selftest                  builds the simulator and lists what it can decide
# Environment: VERIF_SEED (default 1); VERIF_REPO (default /repo).
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
repo=${VERIF_REPO:-/repo}
export VERIF_REPO=$repo
scratch=$(mktemp -d "${TMPDIR:-/tmp}/modelconv-sim.XXXXXX") || exit 3
trap 'rm -rf "$scratch"' EXIT
trap 'exit 3' INT TERM HUP

build() { # DIR
	python3 "$here/sim/mkoverlay.py" "$1" || return 1
	cp "$repo/go.mod" "$repo/go.sum" "$1/" || return 1
	(cd "$repo" && go build -overlay "$1/overlay.json" -modfile "$1/go.mod" -o "$1/sim" ./cmd/modelconv)
}

if [ "${1:-}" = build ]; then
	mkdir -p "$2" && build "$2"
	exit
fi
build "$scratch" || { echo "run.sh: the simulator does not build with this tree" >&2; exit 2; }

if [ "${1:-}" = selftest ]; then
	VERIF_SIM=list "$scratch/sim"
	exit
fi
export VERIF_KNOWN=$here/known-findings.txt VERIF_SCRATCH=$scratch
export VERIF_EVIDENCE=${VERIF_EVIDENCE:-$here/evidence}
mkdir -p "$VERIF_EVIDENCE"
if [ "${1:-}" = replay ]; then
	VERIF_SIM=confirm "$scratch/sim" "$2"
	exit
fi
export VERIF_PROP=$1 VERIF_TIER=${2:-quick} VERIF_SEED=${VERIF_SEED:-1}
# batches (worlds) and runs per batch: the number of runs is what bounds a
# quick check, the time limit is for slow machines only
case $1 in
C01) q="4400 20" ;;
C02) q="6200 60" ;;
C03) q="5000 40" ;;
C04) q="1700 60" ;;
C05) q="4500 40" ;;
C06) q="1200 30" ;;
C07) q="6500 30" ;;
C08) q="2900 30" ;;
C09) q="2300 30" ;;
C10) q="5900 30" ;;
C11) q="9700 15" ;;
C12) q="2500 16" ;;
C13) q="2600 20" ;;
C14) q="3400 25" ;;
C15) q="5500 20" ;;
C16) q="7000 20" ;;
C17) q="9000 4" ;;
C18) q="9000 4" ;;
C19) q="7000 4" ;;
C20) q="9000 4" ;;
*) q="3000 20" ;;
esac
set -- $q
case $VERIF_TIER in
thorough) : "${VERIF_BATCHES:=100000000}" "${VERIF_TRIALS:=$(($2 * 2))}" "${VERIF_SECONDS:=780}" ;;
*) : "${VERIF_BATCHES:=$1}" "${VERIF_TRIALS:=$2}" "${VERIF_SECONDS:=240}" ;;
esac
export VERIF_BATCHES VERIF_TRIALS VERIF_SECONDS
VERIF_SIM=drive "$scratch/sim"
