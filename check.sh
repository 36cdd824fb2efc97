#!/bin/bash
# check.sh ID                      explore property ID on the current /repo tree
# check.sh ID --thorough           the same, as deep as it goes
# check.sh ID --replay SUITE INDEX [STEP BACK] re-run one recorded execution, verbosely
# check.sh --build                 build everything (setup)
# Exit 0: held on everything explored; 1: VIOLATION; anything else: error of the check.
VDIR=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.25.14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=1
export VERIF_DIR=$VDIR LC_ALL=C
unset LANGUAGE LANG LC_MESSAGES
ID=$1
[ "$2" = --thorough ] && export VERIF_TIER=thorough
TMP=$(mktemp -d /tmp/mc.XXXXXX) || exit 2
# files of the explored executions: in memory if possible
SCRATCH=$(mktemp -d /dev/shm/mc.XXXXXX 2>/dev/null) && touch "$SCRATCH/x" 2>/dev/null || { SCRATCH=$TMP/scratch; mkdir -p "$SCRATCH"; }
trap 'rm -rf "$TMP" "$SCRATCH"' EXIT
trap 'exit 2' INT TERM
export MC_SCRATCH=$SCRATCH
cp "$VDIR/mc/go.mod" "$TMP/go.mod"; cp "$VDIR/mc/go.sum" "$TMP/go.sum"
cd "$VDIR/mc" || exit 2
build() { # build CMD [flags]: leaves $TMP/CMD
  local c=$1; shift
  go build -modfile="$TMP/go.mod" -o "$TMP/$c" "$@" ./cmd/$c >"$TMP/build.log" 2>&1 || { cat "$TMP/build.log"; echo "check.sh: building $c failed"; exit 2; }
}
instrument() { # instrument [flags]: leaves $TMP/ov/overlay.json
  build instr; mkdir -p "$TMP/ov"
  rm -f "$TMP"/ov/*; "$TMP/instr" -repo /repo -out "$TMP/ov" "$@" || { echo "check.sh: instrumentation failed"; exit 2; }
}
case $ID in
--build)
  build mc
  instrument
  build mcc -race -overlay "$TMP/ov/overlay.json"
  instrument -sync=false
  build mcm -overlay "$TMP/ov/overlay.json"
  echo built; exit 0;;
C19|C20|C21|C22)
  # every lock, atomic and once operation goes through the controlled scheduler; race detector on
  BIN=mcc
  instrument
  build $BIN -race -overlay "$TMP/ov/overlay.json"
  export GORACE="exitcode=0 atexit_sleep_ms=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path=$MC_SCRATCH/race";;
C11|C25|C26|C27)
  # every range over a map goes through the chosen order
  BIN=mcm
  instrument -sync=false
  build $BIN -overlay "$TMP/ov/overlay.json"
  if [ $ID = C25 ]; then
    # the command itself, as it is
    go build -modfile="$TMP/go.mod" -o "$TMP/xgotext" github.com/leonelquinteros/gotext/cli/xgotext >"$TMP/build.log" 2>&1 || { cat "$TMP/build.log"; echo "check.sh: building xgotext failed"; exit 2; }
    export XGOTEXT_BIN=$TMP/xgotext
  fi;;
*)
  BIN=mc
  build $BIN;;
esac
if [ "$2" = --replay ]; then
  # with STEP BACK: after the cases which came before it in its process
  if [ -n "$6" ]; then VERIF_VERBOSE=1 "$TMP/$BIN" history "$ID" "$3" "$4" "$5" "$6"; rc=$?
  else VERIF_VERBOSE=1 "$TMP/$BIN" one "$ID" "$3" "$4"; rc=$?; fi
  [ $rc = 3 ] && rc=1
  exit $rc
fi
"$TMP/$BIN" check "$ID"
exit $?
