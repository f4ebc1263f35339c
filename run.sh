#!/bin/bash
# usage: run.sh <property id>
# Builds the harness against the current /repo tree and runs the monitor of one property.
# exit 0: held, 1: violated (VIOLATION line), anything else: no answer.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly VERIF_DIR="$here"
id=$1
case "$id" in C[0-9][0-9]) ;; *) echo "usage: run.sh <property id>"; exit 3 ;; esac
race=
case "$id" in C15|C25) race=-race ;; esac
mkdir -p "$here/build" "$here/replays" "$here/evidence"
work=$(mktemp -d "$here/build/run.$id.XXXXXX") || exit 3
trap 'rm -rf "${work:?}"' EXIT
cd "$here/harness" || exit 3
go build $race -o "$work/harness" . || { echo "BUILD FAILED"; exit 3; }
case "$id" in C27|C32|C36) tool=yes ;; *) tool= ;; esac
if [ -n "$tool" ]; then
  # The tool talks to a public block explorer. Build it with a standard library that connects every
  # dialed address to the stand-in named by VERIF_EXPLORER; the tool's own source is used as it is.
  . "$here/tools/tool_overlay.sh"
  tool_overlay "$work" && (cd /repo && go build -overlay "$work/overlay.json" -o "$work/tool" ./cmd) ||
    { echo "BUILD FAILED"; exit 3; }
fi
# The library seeds the global random source from the clock; pin it so that runs can be repeated.
seednop=1
case "$id" in C20|C31) seednop=0 ;; esac # judges the randomness itself
export GODEBUG=randautoseed=0,randseednop=$seednop
export GORACE="halt_on_error=0 exitcode=0 log_path=$work/race" VERIF_RACE_LOG="$work/race" VERIF_WORK="$work"
"$work/harness" "$id" 2> >(tee "$work/stderr" >&2)
code=$?
if [ $code -ne 0 ] && [ $code -ne 1 ] && grep -qE '^(fatal error|runtime: goroutine stack exceeds|fatal: )' "$work/stderr" &&
    grep -q 'github.com/tokenized/txbuilder' "$work/stderr"; then
  # the Go runtime gave up inside the code under test (stack overflow, concurrent map writes, ...)
  replay="$here/replays/$id-crash-${VERIF_SEED:-1}.txt"
  head -c 200000 "$work/stderr" > "$replay"
  echo "VIOLATION property=$id replay=$replay"
  exit 1
fi
exit $code
