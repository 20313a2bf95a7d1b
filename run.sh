#!/bin/bash
# Usage: run.sh <property> <quick|thorough> [-only block:index]
# Builds the model checker against /repo's current working tree and runs one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; tier=${2:-quick}; shift; [ $# -gt 0 ] && shift
. /opt/vp/env.sh
cd "$here" || exit 3
work=$(mktemp -d "${TMPDIR:-/tmp}/verif-mc.XXXXXX") || exit 3
trap 'rm -rf -- "$work"' EXIT

export VERIF_SEED=${VERIF_SEED:-1}
sched() { # driver packages...
  bash "$here/tools/schedbuild.sh" "$work" "$@" || { echo "the schedule explorer does not build against /repo's working tree"; exit 3; }
  note=; [ "$(cat "$work/mode")" = plain ] && note='-plain -note=the_sources_could_not_be_instrumented:_calls_interleave_as_a_whole'
  "$work/drv" -prop "$prop" -tier "$tier" -verif "$here" -work "$work" $note "${args[@]}"
  exit $?
}
args=("$@")
case "$prop" in
C26|C28) sched drvnet ./sql/net/... ;;
C15) sched drvpar ./sql/... ;;
esac

bash "$here/tools/build.sh" "$work" "$prop" || {
  echo "the model checker does not build against /repo's working tree"; exit 3; }

run() {
  rm -f "$work/err"
  VERIF_WORK="$work" "$work/mc" -prop "$prop" -tier "$tier" -verif "$here" "$@" \
    2> >(awk '!/^line [0-9]+:/ { n += length($0); if (n < 400000) print }' > "$work/err")
}
run "$@"; rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  # The checker itself ended abnormally: a crash inside the library that cannot be recovered (stack overflow,
  # concurrent map access, out of memory) is a violation when it happens again at the library's code.
  sleep 0.3; cp -f "$work/err" "$work/err1" 2>/dev/null
  run "$@"; rc2=$?
  sleep 0.3
  if [ $rc2 -eq 0 ] || [ $rc2 -eq 1 ]; then exit $rc2; fi
  if grep -qE '^(fatal error|runtime: goroutine stack exceeds|panic:|SIGSEGV)' "$work/err" && grep -q 'go-sqlparser/sql' "$work/err"; then
    mkdir -p "$here/replays"
    { echo "bash $here/run.sh $prop $tier $*"; head -c 200000 "$work/err"; } > "$here/replays/$prop-crash.txt"
    grep -m3 -E '^(fatal error|runtime: goroutine stack exceeds|panic:)' "$work/err"
    echo "VIOLATION property=$prop replay=$here/replays/$prop-crash.txt"
    exit 1
  fi
  head -c 4000 "$work/err"
  exit 3
fi
exit $rc
