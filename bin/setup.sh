#!/bin/bash
# Warms the build cache and checks that the explorer builds.
V=$(cd "$(dirname "$0")/.." && pwd)
bash "$V/bin/build.sh" "$V/build/mc-setup" >/dev/null || exit 1
INSTR=1 bash "$V/bin/build.sh" "$V/build/mc-setup" >/dev/null || exit 1
rm -f "$V/build/mc-setup"
