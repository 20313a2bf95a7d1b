#!/bin/bash
# Usage: schedbuild.sh <work directory> <driver> <packages...>: builds $work/drv, the schedule explorer over
# /repo's working tree, instrumented through go build -overlay and with the race detector. Falls back to the
# race detector alone, then to nothing, and says so in $work/mode.
here=$(cd "$(dirname "$0")/.." && pwd)
work=$1; drv=$2; shift 2
. /opt/vp/env.sh
src="$work/src"
mkdir -p "$src/$drv" "$work/instr" "$work/ov" || exit 3
sed -E 's#^module .*#module verif/mc#' /repo/go.mod > "$src/go.mod"
cp /repo/go.sum "$src/go.sum"
cat >> "$src/go.mod" <<'MOD'

require github.com/cybergarage/go-sqlparser v0.0.0
replace github.com/cybergarage/go-sqlparser => /repo
MOD
cp -r "$here"/sched/vsched "$here"/sched/vsync "$here"/sched/explore "$src/"
cp "$here"/sched/"$drv"/*.go "$src/$drv/"
[ "$drv" = drvnet ] && cp "$here/mc/net_model.go" "$src/$drv/"
[ "$drv" = drvpar ] && cp "$here/mc/observe.go" "$here/mc/tokens.go" "$here/mc/insist.go" "$src/$drv/"
cp "$here"/sched/instr/main.go "$work/instr/"
printf 'module instr\n\ngo 1.24\n' > "$work/instr/go.mod"
flags='-gcflags=verif/mc/...=-race=false -l -d=checkptr=0'
(cd "$work/instr" && go build -o "$work/instrument" . ) || exit 3
if (cd /repo && "$work/instrument" -out "$work/ov" -points -sync -maps "$@") 2>"$work/instr.log"; then
  if (cd "$src" && go build -race "$flags" -overlay "$work/ov/overlay.json" -o "$work/drv" "./$drv") 2>"$work/build.log"; then echo instrumented > "$work/mode"; exit 0; fi
fi
if (cd "$src" && go build -race "$flags" -o "$work/drv" "./$drv") 2>"$work/build2.log"; then echo plain > "$work/mode"; exit 0; fi
cat "$work/build2.log"
exit 3
