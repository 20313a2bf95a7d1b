#!/bin/bash
# Checks that the model checker builds offline (each check builds it again from /repo's working tree).
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
work=$(mktemp -d /tmp/verif-setup.XXXXXX)
trap 'rm -rf -- "$work"' EXIT
bash "$here/tools/build.sh" "$work" C01
echo ok
