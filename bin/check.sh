#!/bin/bash
# bin/check.sh ID [quick|thorough] [extra mc flags]
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
[ "$id" = C22 ] && export INSTR=1
bin=$(bash "$V/bin/build.sh" "$V/build/mc-$id") || { echo "build failed" >&2; exit 2; }
exec "$bin" check -property "$id" -tier "$tier" -verif "$V" "$@"
