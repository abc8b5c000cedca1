#!/bin/sh
# run.sh ID...: run checks one after another, stopping when the harness does not build.
cd "$(dirname "$0")/.."
for p in "$@"; do ./check.sh "$p" > /tmp/run.out 2>&1; rc=$?; tail -${LINES_MAX:-6} /tmp/run.out | cut -c1-1500; [ $rc = 3 ] && { grep -E "^error" -A6 /tmp/run.out | head -60; break; }; done
