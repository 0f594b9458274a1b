#!/bin/bash
# bin/replay.sh replays/ID.json : executes the recorded case again
V=$(cd "$(dirname "$0")/.." && pwd)
grep -q '"property": "C22"' "$1" && export INSTR=1
bin=$(bash "$V/bin/build.sh" "$V/build/mc-replay") || exit 2
exec "$bin" replay "$1"
