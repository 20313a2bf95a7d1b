#!/bin/bash
# Usage: build.sh <work directory> <property>: builds $work/mc from /verif/mc and /repo's working tree.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
work=$1; prop=$2
. /opt/vp/env.sh
mkdir -p "$work/src"
cp "$here"/mc/*.go "$here"/mc/*.txt "$work/src/"
# The dependencies are the ones of /repo.
sed -E 's#^module .*#module verif/mc#' /repo/go.mod > "$work/src/go.mod"
cp /repo/go.sum "$work/src/go.sum"
cat >> "$work/src/go.mod" <<'MOD'

require github.com/cybergarage/go-sqlparser v0.0.0
replace github.com/cybergarage/go-sqlparser => /repo
MOD
cd "$work/src"
case "$prop" in
C18|C19|C23|C30)
  # The order of map iterations is explored: an overlay puts them under the control of the checker.
  cp -r "$here/sched/vsched" "$work/src/"
  mkdir -p "$work/instr" "$work/ov"
  cp "$here"/sched/instr/main.go "$work/instr/"
  printf 'module instr\n\ngo 1.24\n' > "$work/instr/go.mod"
  if (cd "$work/instr" && go build -o "$work/instrument" . && cd /repo && "$work/instrument" -out "$work/ov" -maps ./sql/... && \
      cd "$work/src" && go build -tags maporder -overlay "$work/ov/overlay.json" -o "$work/mc" .) > "$work/maporder.log" 2>&1; then exit 0; fi
  ;;
esac
go build -o "$work/mc" .
